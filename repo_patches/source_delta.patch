From a094abe9603d7d25fe5f0636debdecc1d009734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 001/216] fix: convertSODtoTime cast a negative day count to
 unsigned

---
 core/lib/TimeHandling/TimeConverters.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/lib/TimeHandling/TimeConverters.cpp b/core/lib/TimeHandling/TimeConverters.cpp
index 2d3f8c9..8f1ddb8 100644
--- a/core/lib/TimeHandling/TimeConverters.cpp
+++ b/core/lib/TimeHandling/TimeConverters.cpp
@@ -152,14 +152,12 @@ namespace gpstk
                           double& sec )
    {
          // Get us to within one day.
-      if (sod < 0)
+      if (sod < 0 || sod >= SEC_PER_DAY)
       {
-         sod += (1 +
-                 static_cast<unsigned long>(sod / SEC_PER_DAY)) * SEC_PER_DAY ;
-      }
-      else if (sod >= SEC_PER_DAY)
-      {
-         sod -= static_cast<unsigned long>(sod / SEC_PER_DAY) * SEC_PER_DAY ;
+         sod -= floor(sod / SEC_PER_DAY) * SEC_PER_DAY;
+            // rounding of a tiny negative value can give a whole day
+         if (sod < 0 || sod >= SEC_PER_DAY)
+            sod = 0;
       }
 
       double temp;               // variable to hold the integer part of sod
-- 
2.43.0


From 3db54dc4416e1b96850a0ed7b24a5bc211640785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 002/216] fix: CommonTime::set could leave a negative fraction
 of a millisecond

---
 core/lib/TimeHandling/CommonTime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/TimeHandling/CommonTime.cpp b/core/lib/TimeHandling/CommonTime.cpp
index 48de893..5e30b73 100644
--- a/core/lib/TimeHandling/CommonTime.cpp
+++ b/core/lib/TimeHandling/CommonTime.cpp
@@ -118,6 +118,8 @@ namespace gpstk
 
          // subtract whole milliseconds to obtain the "fractional milliseconds"
       fsod -= static_cast<double>( msec ) * SEC_PER_MS;
+      if( fsod < 0.0 )   // rounding of the product above
+         fsod = 0.0;
 
       m_day  = day;
       m_msod = sod * MS_PER_SEC + msec;
-- 
2.43.0


From 48cd110419a8bcadf6c60816ca5779352db0f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 003/216] fix: Epoch::dow returned the previous weekday before
 noon

---
 core/lib/TimeHandling/Epoch.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/Epoch.hpp b/core/lib/TimeHandling/Epoch.hpp
index 320f64d..68fa3b3 100644
--- a/core/lib/TimeHandling/Epoch.hpp
+++ b/core/lib/TimeHandling/Epoch.hpp
@@ -769,7 +769,10 @@ namespace gpstk
       /// Get day of week
    short Epoch::dow() const
    {
-      return (((static_cast<long>(JD()) % 7) + 1) % 7) ;
+      long jday, sod;
+      double fsod;
+      core.get(jday, sod, fsod);
+      return ((jday + 1) % 7);
    }
    
       /// Get hour of day.
-- 
2.43.0


From 4c289586caab3c0fd6f1ea2b35eee8f286c2cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 004/216] fix: formattedPrint overflowed its buffer for wide
 fields

---
 core/lib/Utilities/StringUtils.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 19266eb..092af62 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2056,8 +2056,25 @@ namespace gpstk
             size_t len = r.rm_eo - r.rm_so;
             std::string mac = rv.substr(r.rm_so, len);
             mac = replaceAll(mac, rep.substr(0,1), rep.substr(1));
-            sprintf(buffer, mac.c_str(), to);
-            rv.replace(r.rm_so, len, std::string(buffer));
+            int need = snprintf(buffer, bufferSize, mac.c_str(), to);
+            if (need < 0)
+            {
+               regfree(&re);
+               StringException se("Cannot format with: " + mac);
+               GPSTK_THROW(se);
+            }
+            if (static_cast<size_t>(need) < bufferSize)
+            {
+               rv.replace(r.rm_so, len, std::string(buffer));
+            }
+            else
+            {
+                  // wider than the buffer
+               std::string wide(need + 1, '\0');
+               snprintf(&wide[0], wide.size(), mac.c_str(), to);
+               wide.resize(need);
+               rv.replace(r.rm_so, len, wide);
+            }
          }
 
          regfree(&re);
-- 
2.43.0


From eb73c6bddade085df5e70d96507230e538da2b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 005/216] fix: mixedScanTime used uninitialized BDS, GAL, QZS
 and IRN week numbers

---
 core/lib/TimeHandling/TimeString.cpp | 48 +++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index aa52bdd..84ea514 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -672,14 +672,46 @@ namespace gpstk
                   iepoch = asInt(itr->second);
                   break;
 
-               case 'D': hfullweek = hbdsfw = true; break;
-               case 'e': hweek = hbdsw = true; break;
-               case 'L': hfullweek = hgalfw = true; break;
-               case 'l': hweek = hgalw = true; break;
-               case 'I': hfullweek = hqzsfw = true; break;
-               case 'i': hweek = hqzsw = true; break;
-               case 'O': hfullweek = hirnfw = true; break;
-               case 'o': hweek = hirnw = true; break;
+               case 'D':
+                  hfullweek = hbdsfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'e':
+                  hweek = hbdsw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'L':
+                  hfullweek = hgalfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'l':
+                  hweek = hgalw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'h':
+                  hfullweek = hqzsfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'i':
+                  hweek = hqzsw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'O':
+                  hfullweek = hirnfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'o':
+                  hweek = hirnw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
 
                default:
                      // do nothing
-- 
2.43.0


From 04a78cbe3a0c9263bf26f4150e89179013f31334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 006/216] fix: QZSWeekSecond scanned the time system name as an
 integer

---
 core/lib/TimeHandling/QZSWeekSecond.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index 4ced809..95677ff 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -189,7 +189,7 @@ namespace gpstk
                   sow = gpstk::StringUtils::asDouble( i->second );
                   break;
                case 'P':
-                  timeSystem = static_cast<TimeSystem>(gpstk::StringUtils::asInt( i->second ));
+                  timeSystem = gpstk::StringUtils::asTimeSystem(i->second);
                   break;
                default:
                      // do nothing
-- 
2.43.0


From 68ee69835c03b5587f069e1be9e919a80740df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 007/216] fix: out-of-range numbers were cast to integers
 before being range-checked in time conversions

---
 core/lib/TimeHandling/CivilTime.cpp      |  5 +++++
 core/lib/TimeHandling/CommonTime.cpp     | 14 ++++++++++++++
 core/lib/TimeHandling/GPSWeekZcount.cpp  |  2 +-
 core/lib/TimeHandling/GPSWeekZcount.hpp  |  2 +-
 core/lib/TimeHandling/JulianDate.cpp     |  7 +++++++
 core/lib/TimeHandling/MJD.cpp            |  7 +++++++
 core/lib/TimeHandling/TimeConverters.cpp | 11 +++++++++--
 core/lib/TimeHandling/WeekSecond.cpp     |  9 ++++++++-
 8 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/core/lib/TimeHandling/CivilTime.cpp b/core/lib/TimeHandling/CivilTime.cpp
index 1a251a8..94ef59c 100644
--- a/core/lib/TimeHandling/CivilTime.cpp
+++ b/core/lib/TimeHandling/CivilTime.cpp
@@ -82,6 +82,11 @@ namespace gpstk
          double sod = convertTimeToSOD( hour, minute, second );
             // make a CommonTime with jd, whole sod, and
             // fractional second of day
+         if( !( fabs(sod) < 1e15 ) )   // or not a number
+         {
+            InvalidParameter ip( "Invalid time of day" );
+            GPSTK_THROW( ip );
+         }
          CommonTime ct;
          return ct.set(  jday, static_cast<long>(sod) ,
                          (sod - static_cast<long>(sod)),
diff --git a/core/lib/TimeHandling/CommonTime.cpp b/core/lib/TimeHandling/CommonTime.cpp
index 5e30b73..0044ed7 100644
--- a/core/lib/TimeHandling/CommonTime.cpp
+++ b/core/lib/TimeHandling/CommonTime.cpp
@@ -135,6 +135,13 @@ namespace gpstk
                                 double sod,
                                 TimeSystem timeSystem )
    {
+      if( !( sod > -SEC_PER_DAY && sod < SEC_PER_DAY ) )
+      {
+         InvalidParameter ip( "Invalid seconds of day: "
+                                     + StringUtils::asString( sod ) );
+         GPSTK_THROW( ip );
+      }
+
          // separate whole and fractional seconds, then use set()
       long sec = static_cast<long>( sod );
       sod -= sec;
@@ -146,6 +153,13 @@ namespace gpstk
   CommonTime& CommonTime::set( double day,
                                TimeSystem timeSystem )
    {
+      if( !( day >= BEGIN_LIMIT_JDAY && day < END_LIMIT_JDAY + 1 ) )
+      {
+         InvalidParameter ip( "Invalid day: "
+                                     + StringUtils::asString( day ) );
+         GPSTK_THROW( ip );
+      }
+
          // separate whole and fractional days
       long lday = static_cast<long>( day );
       double sec = ( day - lday ) * SEC_PER_DAY;
diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index a3f6ad1..61d81b9 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -57,7 +57,7 @@ namespace gpstk
       try
       {
          int dow = zcount / ZCOUNT_PER_DAY;
-         int jday = MJD_JDAY + GPS_EPOCH_MJD + ( 7 * week ) + dow;
+         long jday = MJD_JDAY + GPS_EPOCH_MJD + ( 7L * week ) + dow;
          double sod = static_cast<double>( zcount % ZCOUNT_PER_DAY ) * 1.5;
          CommonTime ct;
          return ct.set( jday,
diff --git a/core/lib/TimeHandling/GPSWeekZcount.hpp b/core/lib/TimeHandling/GPSWeekZcount.hpp
index f6d1d1f..b98ca21 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.hpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.hpp
@@ -172,7 +172,7 @@ namespace gpstk
 
       inline unsigned int getZcount32() const
       {
-         return (week << 19) | zcount;
+         return (static_cast<unsigned int>(week) << 19) | zcount;
       }
 
       GPSWeekZcount& setZcount29(unsigned int z);
diff --git a/core/lib/TimeHandling/JulianDate.cpp b/core/lib/TimeHandling/JulianDate.cpp
index 16a7b59..b15f7ab 100644
--- a/core/lib/TimeHandling/JulianDate.cpp
+++ b/core/lib/TimeHandling/JulianDate.cpp
@@ -56,6 +56,13 @@ namespace gpstk
       try
       {
          long double temp_jd( jd + 0.5 );
+            // out of range (or not a number): not convertible to an integer
+         if( !( temp_jd >= CommonTime::BEGIN_LIMIT_JDAY &&
+                temp_jd < CommonTime::END_LIMIT_JDAY + 1 ) )
+         {
+            InvalidParameter ip( "Invalid Julian date" );
+            GPSTK_THROW( ip );
+         }
          long jday( static_cast<long>( temp_jd ) );
          long double sod =
             ( temp_jd - static_cast<long double>( jday ) ) * SEC_PER_DAY;
diff --git a/core/lib/TimeHandling/MJD.cpp b/core/lib/TimeHandling/MJD.cpp
index 232a90b..4865024 100644
--- a/core/lib/TimeHandling/MJD.cpp
+++ b/core/lib/TimeHandling/MJD.cpp
@@ -57,6 +57,13 @@ namespace gpstk
       {
             // convert to Julian Day
          long double tmp( mjd + MJD_JDAY );
+            // out of range (or not a number): not convertible to an integer
+         if( !( tmp >= CommonTime::BEGIN_LIMIT_JDAY &&
+                tmp < CommonTime::END_LIMIT_JDAY + 1 ) )
+         {
+            InvalidParameter ip( "Invalid MJD" );
+            GPSTK_THROW( ip );
+         }
             // get the whole number of days
          long jday( static_cast<long>( tmp ) );
             // tmp now holds the partial days
diff --git a/core/lib/TimeHandling/TimeConverters.cpp b/core/lib/TimeHandling/TimeConverters.cpp
index 8f1ddb8..e2e3b4a 100644
--- a/core/lib/TimeHandling/TimeConverters.cpp
+++ b/core/lib/TimeHandling/TimeConverters.cpp
@@ -38,6 +38,7 @@
 
 #include "TimeConverters.hpp"
 #include "TimeConstants.hpp"
+#include "Exception.hpp"
 #include <math.h>
 
 namespace gpstk
@@ -118,14 +119,14 @@ namespace gpstk
          // if the date is before October 15, 1582
       if(yy < 1582 || (yy == 1582 && (mm < 10 || (mm == 10 && dd < 15))))
       {
-         jd = 1729777 + dd + 367 * yy
+         jd = 1729777 + dd + 367L * yy
             - static_cast<long>(7 * ( y + 5001 +
                                       static_cast<long>((m - 9) / 7)) / 4)
             + static_cast<long>(275 * m / 9);
       }
       else   // after Oct 4, 1582
       {
-        jd = 1721029 + dd + 367 * yy
+        jd = 1721029 + dd + 367L * yy
            - static_cast<long>(7 * (y + static_cast<long>((m + 9) / 12)) / 4)
            - static_cast<long>(3 * (static_cast<long>((y + (m - 9) / 7) / 100)
                                     + 1) / 4)
@@ -151,6 +152,12 @@ namespace gpstk
                           int& mm,
                           double& sec )
    {
+      if (!(fabs(sod) < 1e15))    // or not a number
+      {
+         InvalidParameter ip("Invalid seconds of day");
+         GPSTK_THROW(ip);
+      }
+
          // Get us to within one day.
       if (sod < 0 || sod >= SEC_PER_DAY)
       {
diff --git a/core/lib/TimeHandling/WeekSecond.cpp b/core/lib/TimeHandling/WeekSecond.cpp
index 9132f36..f663fbc 100644
--- a/core/lib/TimeHandling/WeekSecond.cpp
+++ b/core/lib/TimeHandling/WeekSecond.cpp
@@ -39,6 +39,7 @@
 /// @file WeekSecond.cpp  Implement full week, mod week and seconds-of-week time
 /// representation.
 
+#include <cmath>
 #include "WeekSecond.hpp"
 #include "TimeConstants.hpp"
 #include "MJD.hpp"
@@ -59,9 +60,15 @@ namespace gpstk
 	      //int dow = static_cast<int>( sow * DAY_PER_SEC );
          // Appears to have rounding issues on 32-bit platforms
 
+         if( !( fabs( sow ) <= SEC_PER_DAY *
+                static_cast<double>( CommonTime::END_LIMIT_JDAY ) ) )
+         {
+            InvalidParameter ip( "Invalid seconds of week" );
+            GPSTK_THROW( ip );
+         }
          int dow = static_cast<int>( sow / SEC_PER_DAY );
          // NB this assumes MJDEpoch is an integer - what if epoch H:M:S != 0:0:0 ?
-         long jday = MJD_JDAY + MJDEpoch() + (7 * week) + dow;
+         long jday = MJD_JDAY + MJDEpoch() + (7L * week) + dow;
          double sod(sow - SEC_PER_DAY * dow);
          CommonTime ct;
          return ct.set( jday,
-- 
2.43.0


From cb3e64a9b1b96da07f82fdb76532064f4cf8fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 008/216] fix: integer overflow scanning an absurd day of week

---
 core/lib/TimeHandling/GPSWeekZcount.cpp | 2 +-
 core/lib/TimeHandling/TimeString.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index 61d81b9..cc3cd9b 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -169,7 +169,7 @@ namespace gpstk
                week = asInt( i->second );
                break;
             case 'w':
-               zcount = asInt( i->second) * ZCOUNT_PER_DAY;
+               zcount = static_cast<int>( asInt( i->second) ) * ZCOUNT_PER_DAY;
                break;
 
             case 'z':
diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index 84ea514..dfc9c89 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -362,7 +362,7 @@ namespace gpstk
             ptt->setFromInfo(info);
             if( hdow && !hsow )
             {
-               ptt->sow = asInt( info['w'] ) * SEC_PER_DAY;
+               ptt->sow = static_cast<double>( asInt( info['w'] ) ) * SEC_PER_DAY;
                if( hsod )
                {
                   ptt->sow += asDouble( info['s'] );
-- 
2.43.0


From 78be299af219cff7e0d5efc4678f90ea46e8b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 009/216] fix: getLeapSeconds ignored the fraction of the day
 before 1972

---
 core/lib/RefTime/TimeSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/RefTime/TimeSystem.cpp b/core/lib/RefTime/TimeSystem.cpp
index 78d8f44..8877e0d 100644
--- a/core/lib/RefTime/TimeSystem.cpp
+++ b/core/lib/RefTime/TimeSystem.cpp
@@ -150,7 +150,7 @@ namespace gpstk
                // rec.month >= month
                // watch out - cannot use CommonTime here
             int iday(static_cast<int>(day));
-            double dday(static_cast<double>(iday-int(day)));
+            double dday(day-iday);
             if (iday == 0)
             {
                iday = 1;
-- 
2.43.0


From a0ccb6a5981897752b28dfee49c36588a00dcfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 010/216] fix: EphTime from a GNSS time was not marked UTC;
 asGPSString seconds of week

---
 ext/lib/Geomatics/EphTime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/EphTime.hpp b/ext/lib/Geomatics/EphTime.hpp
index ffbce7d..f342f07 100644
--- a/ext/lib/Geomatics/EphTime.hpp
+++ b/ext/lib/Geomatics/EphTime.hpp
@@ -180,6 +180,7 @@ namespace gpstk
             double dt = gpstk::getTimeSystemCorrection(sys, TimeSystem::UTC,
                                     civt.year, civt.month, civt.day);
             ct += dt;
+            ct.setTimeSystem(TimeSystem::UTC);
          }
 
          MJD ctmjd;
@@ -218,7 +219,7 @@ namespace gpstk
       {
          std::ostringstream oss;
          int wk((iMJD-GPS_EPOCH_MJD)/7);
-         double sow((iMJD-wk*7)*SEC_PER_DAY + dSOD);
+         double sow((iMJD-GPS_EPOCH_MJD-wk*7)*SEC_PER_DAY + dSOD);
          if(sow >= FULLWEEK) { sow -= FULLWEEK; wk++; }
          oss << wk << " " << std::fixed << std::setprecision(prec) << sow;
          return oss.str();
-- 
2.43.0


From 792f39b1b73ea8cf7572010f222984573afdac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 011/216] fix: EpochDataStore::clear left stale time limits, so
 getData read an empty map

---
 core/lib/TimeHandling/EpochDataStore.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/EpochDataStore.hpp b/core/lib/TimeHandling/EpochDataStore.hpp
index 4faaea6..01bdfc3 100644
--- a/core/lib/TimeHandling/EpochDataStore.hpp
+++ b/core/lib/TimeHandling/EpochDataStore.hpp
@@ -94,7 +94,11 @@ namespace gpstk
       
          /// clear the all the data
       void clear()
-      { allData.clear(); }
+      {
+         allData.clear();
+         initialTime = CommonTime::END_OF_TIME;
+         finalTime = CommonTime::BEGINNING_OF_TIME;
+      }
 
          /** Edit the dataset, removing data outside the indicated time
           *  interval.
-- 
2.43.0


From c17a1379e2f104fde86f9eaf2280b595c6c2e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 012/216] fix: TimeRange::operator< ignored the start times
 when only the left start is exclusive

---
 core/lib/TimeHandling/TimeRange.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/TimeRange.cpp b/core/lib/TimeHandling/TimeRange.cpp
index 89f3e02..690fca3 100644
--- a/core/lib/TimeHandling/TimeRange.cpp
+++ b/core/lib/TimeHandling/TimeRange.cpp
@@ -194,8 +194,12 @@ namespace gpstk
         {
           return true; 
         }
+        return false;
      }
-     return false;
+
+        // Otherwise left is NOT inclusive while right is, so an
+        // equal start puts left after right.
+     return (start<right.start);
    }
 
       // True if start/end of this object are both prior
-- 
2.43.0


From 509373c79e68d08fdda5c0e108a9165b371d21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 013/216] fix: TimeSystemCorrection BDGP ignored A1

---
 core/lib/RefTime/TimeSystemCorr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/RefTime/TimeSystemCorr.cpp b/core/lib/RefTime/TimeSystemCorr.cpp
index 427d331..b5309ba 100644
--- a/core/lib/RefTime/TimeSystemCorr.cpp
+++ b/core/lib/RefTime/TimeSystemCorr.cpp
@@ -440,9 +440,9 @@ namespace gpstk
             dt = ct - refTime;
 
             if(fromTS == TimeSystem::BDT)             // BDT => GPS
-               corr = A0;
+               corr = A0+A1*dt;
             else                                      // GPS => BDT
-               corr = -A0;
+               corr = -A0-A1*dt;
 
             break;
 
-- 
2.43.0


From e0edb21e00145117313eaa02a3d3d5b6cff796df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 014/216] fix: a default-constructed Exception had an
 uninitialized severity and id

---
 core/lib/Utilities/Exception.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/Utilities/Exception.cpp b/core/lib/Utilities/Exception.cpp
index da4199d..add82e0 100644
--- a/core/lib/Utilities/Exception.cpp
+++ b/core/lib/Utilities/Exception.cpp
@@ -63,6 +63,8 @@ namespace gpstk
    }
 
    Exception::Exception()
+         : errorId(0),
+           severity(unrecoverable)
    {
    }
 
-- 
2.43.0


From 5a5228fb473bc62cb076d0f6905c7408c5f59c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 015/216] fix: EpochDataStore::edit decremented the end of an
 empty map

---
 core/lib/TimeHandling/EpochDataStore.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/core/lib/TimeHandling/EpochDataStore.cpp b/core/lib/TimeHandling/EpochDataStore.cpp
index d37f53f..5367d8c 100644
--- a/core/lib/TimeHandling/EpochDataStore.cpp
+++ b/core/lib/TimeHandling/EpochDataStore.cpp
@@ -92,24 +92,15 @@ namespace gpstk
          allData.erase(it, allData.end());
       }
 
-      it = allData.begin();
-      if(it == allData.end())
+      if(allData.empty())
       {
          initialTime = CommonTime::END_OF_TIME;
-      }
-      else
-      {
-         initialTime = it->first;
-      }
-
-      it = allData.end();
-      if(--it == allData.end())
-      {
          finalTime = CommonTime::BEGINNING_OF_TIME;
       }
-      else 
+      else
       {
-         finalTime = it->first;
+         initialTime = allData.begin()->first;
+         finalTime = allData.rbegin()->first;
       }
 
    } // End of method 'EpochDataStore::edit()'
-- 
2.43.0


From f5b87dbeceef2b9ff0a0a8315feb6c4c6074eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 016/216] fix: Position did not normalize longitudes below -360
 degrees (negative double cast to unsigned)

---
 core/lib/GNSSCore/Position.cpp | 53 +++++++++++-----------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 8f674db..d2bdfcb 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -57,6 +57,14 @@ namespace gpstk
    using namespace std;
    using namespace StringUtils;
 
+      // put an angle in degrees, e.g. an East longitude, in [0,360)
+   static double wrapLongitude(double deg)
+   {
+      deg = ::fmod(deg, 360.0);
+      if(deg < 0.0) deg += 360.0;
+      return (deg < 360.0 ? deg : 0.0);
+   }
+
    // ----------- Part  1: coordinate systems --------------------------------
       // Labels for coordinate systems supported by Position
    static const char *SystemNames[] = {
@@ -513,10 +521,7 @@ namespace gpstk
       theArray[0] = lat;
 
       theArray[1] = lon;
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = wrapLongitude(theArray[1]);
 
       theArray[2] = ht;
 
@@ -555,10 +560,7 @@ namespace gpstk
       theArray[1] = lon;
       theArray[2] = rad;
 
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = wrapLongitude(theArray[1]);
       system = Geocentric;
 
       return *this;
@@ -591,10 +593,7 @@ namespace gpstk
       theArray[1] = phi;
       theArray[2] = rad;
 
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = wrapLongitude(theArray[1]);
       system = Spherical;
 
       return *this;
@@ -809,19 +808,13 @@ namespace gpstk
                case 'L':
                case 'l':
                   lon = asDouble(toBeRemoved);
-                  if(lon < 0)
-                     lon += 360*(1+(unsigned long)(lon/360));
-                  else if(lon >= 360)
-                     lon -= 360*(unsigned long)(lon/360);
+                  lon = wrapLongitude(lon);
                   hlon = true;
                   break;
                case 'w':
                case 'W':
                   lon = 360.0 - asDouble(toBeRemoved);
-                  if(lon < 0)
-                     lon += 360*(1+(unsigned long)(lon/360));
-                  else if(lon >= 360)
-                     lon -= 360*(unsigned long)(lon/360);
+                  lon = wrapLongitude(lon);
                   hlon = true;
                   break;
           //%t   theta() (degrees)
@@ -848,18 +841,12 @@ namespace gpstk
           //%P   phi() (radians)
                case 'p':
                   phi = asDouble(toBeRemoved);
-                  if(phi < 0)
-                     phi += 360*(1+(unsigned long)(phi/360));
-                  else if(phi >= 360)
-                     phi -= 360*(unsigned long)(phi/360);
+                  phi = wrapLongitude(phi);
                   hphi = true;
                   break;
                case 'P':
                   phi = asDouble(toBeRemoved) * RAD_TO_DEG;
-                  if(phi < 0)
-                     phi += 360*(1+(unsigned long)(phi/360));
-                  else if(phi >= 360)
-                     phi -= 360*(unsigned long)(phi/360);
+                  phi = wrapLongitude(phi);
                   hphi = true;
                   break;
           //%r   radius() meters
@@ -1542,10 +1529,7 @@ namespace gpstk
                                     + StringUtils::asString(a));
             GPSTK_THROW(ge);
          }
-         if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
-         else if(bb >= 360)
-            bb -= 360*(unsigned long)(bb/360);
+         bb = wrapLongitude(bb);
       }
       if(s==Geocentric || s==Spherical)
       {
@@ -1564,10 +1548,7 @@ namespace gpstk
                                     + StringUtils::asString(a));
             GPSTK_THROW(ge);
          }
-         if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
-         else if(bb >= 360)
-            bb -= 360*(unsigned long)(bb/360);
+         bb = wrapLongitude(bb);
       }
 
       theArray[0] = a;
-- 
2.43.0


From 2665218beeb3bf0f0140a75e72eaf494d71b2f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 017/216] fix: Position::setToString %T refused polar angles
 above 90 degrees

---
 core/lib/GNSSCore/Position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index d2bdfcb..859fe5c 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -830,7 +830,7 @@ namespace gpstk
                   break;
                case 'T':
                   theta = asDouble(toBeRemoved) * RAD_TO_DEG;
-                  if(theta > 90. || theta < -90.) {
+                  if(theta > 180. || theta < 0.) {
                      InvalidRequest f("Invalid theta for setTostring: "
                                                 + toBeRemoved);
                      GPSTK_THROW(f);
-- 
2.43.0


From 1822d2ade8e75d07dab9d2d722f1fe10325b5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 018/216] fix: ionospheric pierce point longitude was wrong
 when the path passes beyond the pole

---
 core/lib/GNSSCore/Position.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 859fe5c..a8e838e 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1460,7 +1460,8 @@ namespace gpstk
       double az = azim * DEG_TO_RAD;
       IPP.theArray[0] = std::asin(std::sin(lat)*std::cos(p) + std::cos(lat)*std::sin(p)*std::cos(az));
       IPP.theArray[1] = Rx.theArray[1]*DEG_TO_RAD
-         + ::asin(::sin(p)*::sin(az)/::cos(IPP.theArray[0]));
+         + ::atan2(::sin(p)*::sin(az)*::cos(lat),
+                   ::cos(p)-::sin(lat)*::sin(IPP.theArray[0]));
 
       IPP.theArray[0] *= RAD_TO_DEG;
       IPP.theArray[1] *= RAD_TO_DEG;
-- 
2.43.0


From ced40b188f9e01e3f539ce4fddbe5b3da2fe3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 019/216] fix: Triple::toStdVector returned an empty vector

---
 core/lib/Math/Triple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Triple.cpp b/core/lib/Math/Triple.cpp
index a08109e..a805894 100644
--- a/core/lib/Math/Triple.cpp
+++ b/core/lib/Math/Triple.cpp
@@ -99,7 +99,7 @@ namespace gpstk
    std::vector<double> Triple::toStdVector()
    {
       std::vector<double> toReturn;
-      //for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
+      for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
       return toReturn;
    }
 
-- 
2.43.0


From 95cf805098b2ea9aedf645a7110ca33ae7f414a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 020/216] fix: setAllParameters of the MOPS and Neill trop
 models stored the height as latitude

---
 core/lib/GNSSCore/MOPSTropModel.cpp  | 2 +-
 core/lib/GNSSCore/NeillTropModel.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index 98564b1..e35d564 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -474,7 +474,7 @@ namespace gpstk
       validTime = true;
       MOPSLat = rxPos.getGeodeticLatitude();
       validHeight = true;
-      MOPSLat = rxPos.getHeight();
+      MOPSHeight = rxPos.getHeight();
       validLat = true;
 
          // Change the value of field "valid" if everything is already set
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index 5380016..fbd601c 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -562,7 +562,7 @@ namespace gpstk
       validDOY = true;
       NeillLat = rxPos.getGeodeticLatitude();
       validHeight = true;
-      NeillLat = rxPos.getHeight();
+      NeillHeight = rxPos.getHeight();
       validLat = true;
 
          // Change the value of field "valid" if everything is already set
-- 
2.43.0


From 5e678703d6a1d71f184fefb790d38a43644b3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 021/216] fix: tropospheric models read uninitialized validity
 flags and humidity

---
 core/lib/GNSSCore/GGHeightTropModel.cpp | 2 +-
 core/lib/GNSSCore/GlobalTropModel.hpp   | 6 ++++++
 core/lib/GNSSCore/MOPSTropModel.cpp     | 2 ++
 core/lib/GNSSCore/MOPSTropModel.hpp     | 1 +
 core/lib/GNSSCore/NeillTropModel.cpp    | 1 +
 core/lib/GNSSCore/NeillTropModel.hpp    | 2 ++
 core/lib/GNSSCore/SaasTropModel.cpp     | 2 ++
 core/lib/GNSSCore/TropModel.hpp         | 5 +++++
 8 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GGHeightTropModel.cpp b/core/lib/GNSSCore/GGHeightTropModel.cpp
index 5103908..5715068 100644
--- a/core/lib/GNSSCore/GGHeightTropModel.cpp
+++ b/core/lib/GNSSCore/GGHeightTropModel.cpp
@@ -99,7 +99,7 @@ namespace gpstk
                                         const double hP,
                                         const double hH)
    {
-      validRxHeight = false;
+      validRxHeight = validHeights = false;
       setWeather(T,P,H);
       setHeights(hT,hP,hH);
    }
diff --git a/core/lib/GNSSCore/GlobalTropModel.hpp b/core/lib/GNSSCore/GlobalTropModel.hpp
index 28b3e09..04200b9 100644
--- a/core/lib/GNSSCore/GlobalTropModel.hpp
+++ b/core/lib/GNSSCore/GlobalTropModel.hpp
@@ -110,7 +110,10 @@ namespace gpstk
       /// @param mjd  MJD (double)
       GlobalTropModel(const double& ht, const double& lat, const double& lon,
                       const double& mjd)
+            : height(0.0), latitude(0.0), longitude(0.0), dayfactor(0.0),
+              undul(0.0)
       {
+         TropModel::humid = 50.0;
          validCoeff = validHeight = validLat = validLon = validDay = valid =
             false;
          setReceiverHeight(ht);
@@ -124,7 +127,10 @@ namespace gpstk
       /// @param RX   Receiver position.
       /// @param time Time.
       GlobalTropModel(const Position& RX, const CommonTime& time)
+            : height(0.0), latitude(0.0), longitude(0.0), dayfactor(0.0),
+              undul(0.0)
       {
+         TropModel::humid = 50.0;
          validCoeff = validHeight = validLat = validLon = validDay = valid = false;
          setReceiverHeight(RX.getAltitude());
          setReceiverLatitude(RX.getGeodeticLatitude());
diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index e35d564..84ab60e 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -113,6 +113,7 @@ namespace gpstk
    MOPSTropModel::MOPSTropModel( const double& ht,
                                  const double& lat,
                                  const int& doy )
+         : validHeight(false), validLat(false), validTime(false)
    {
       setReceiverHeight(ht);
       setReceiverLatitude(lat);
@@ -127,6 +128,7 @@ namespace gpstk
        * @param time Time.
        */
    MOPSTropModel::MOPSTropModel(const Position& RX, const CommonTime& time)
+         : validHeight(false), validLat(false), validTime(false)
    {
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude());
diff --git a/core/lib/GNSSCore/MOPSTropModel.hpp b/core/lib/GNSSCore/MOPSTropModel.hpp
index 1590472..4e93df3 100644
--- a/core/lib/GNSSCore/MOPSTropModel.hpp
+++ b/core/lib/GNSSCore/MOPSTropModel.hpp
@@ -94,6 +94,7 @@ namespace gpstk
           * @param ht   Height of the receiver above mean sea level, in meters.
           */
       MOPSTropModel(const double& ht)
+            : validHeight(false), validLat(false), validTime(false)
       { setReceiverHeight(ht); };
 
 
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index fbd601c..f2dc458 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -95,6 +95,7 @@ namespace gpstk
       // @param time Time.
    NeillTropModel::NeillTropModel( const Position& RX,
                                    const CommonTime& time )
+         : validHeight(false), validLat(false), validDOY(false)
    {
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude( ));
diff --git a/core/lib/GNSSCore/NeillTropModel.hpp b/core/lib/GNSSCore/NeillTropModel.hpp
index 341a909..074b449 100644
--- a/core/lib/GNSSCore/NeillTropModel.hpp
+++ b/core/lib/GNSSCore/NeillTropModel.hpp
@@ -99,6 +99,7 @@ namespace gpstk
          /// @param ht   Height of the receiver above mean sea level, in
          ///             meters.
       NeillTropModel(const double& ht)
+            : validHeight(false), validLat(false), validDOY(false)
       { setReceiverHeight(ht); };
 
 
@@ -113,6 +114,7 @@ namespace gpstk
       NeillTropModel( const double& ht,
                       const double& lat,
                       const int& doy )
+            : validHeight(false), validLat(false), validDOY(false)
       { setReceiverHeight(ht); setReceiverLatitude(lat); setDayOfYear(doy); };
 
 
diff --git a/core/lib/GNSSCore/SaasTropModel.cpp b/core/lib/GNSSCore/SaasTropModel.cpp
index 39610ee..27f7f13 100644
--- a/core/lib/GNSSCore/SaasTropModel.cpp
+++ b/core/lib/GNSSCore/SaasTropModel.cpp
@@ -132,6 +132,7 @@ namespace gpstk
                                 const int& day,
                                 const WxObservation& wx)
    {
+      validWeather = false;
       validRxHeight = false;
       SaasTropModel::setReceiverLatitude(lat);
       SaasTropModel::setDayOfYear(day);
@@ -150,6 +151,7 @@ namespace gpstk
                                 const double& P,
                                 const double& H)
    {
+      validWeather = false;
       validRxHeight = false;
       SaasTropModel::setReceiverLatitude(lat);
       SaasTropModel::setDayOfYear(day);
diff --git a/core/lib/GNSSCore/TropModel.hpp b/core/lib/GNSSCore/TropModel.hpp
index b8086d9..fdc7d68 100644
--- a/core/lib/GNSSCore/TropModel.hpp
+++ b/core/lib/GNSSCore/TropModel.hpp
@@ -106,6 +106,11 @@ namespace gpstk
    public:
       static const double CELSIUS_TO_KELVIN;
 
+         /// Default constructor; the model is not valid until it is set
+      TropModel()
+            : valid(false), temp(0.0), press(0.0), humid(0.0)
+      {}
+
          /// Destructor
       virtual ~TropModel() {}
 
-- 
2.43.0


From 435df9e15e1a8f2ed82c4bbf1cc9a8403f176efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 022/216] fix: GlobalTropModel stayed invalid for a height,
 latitude or longitude of 0, or when set twice to the same values

---
 core/lib/GNSSCore/GlobalTropModel.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/GNSSCore/GlobalTropModel.cpp b/core/lib/GNSSCore/GlobalTropModel.cpp
index 58e94a4..6030185 100644
--- a/core/lib/GNSSCore/GlobalTropModel.cpp
+++ b/core/lib/GNSSCore/GlobalTropModel.cpp
@@ -338,9 +338,9 @@ namespace gpstk
    {
       try {
          double p;
-         p = RX.getAltitude();         if(p != height) setReceiverHeight(p);
-         p = RX.getGeodeticLatitude(); if(p != latitude) setReceiverLatitude(p);
-         p = RX.getLongitude();        if(p != longitude) setReceiverLongitude(p);
+         p = RX.getAltitude();         setReceiverHeight(p);
+         p = RX.getGeodeticLatitude(); setReceiverLatitude(p);
+         p = RX.getLongitude();        setReceiverLongitude(p);
       }
       catch(GeometryException& e) {
          validHeight = validLat = valid = false;
@@ -557,7 +557,7 @@ namespace gpstk
    // @param ht   Height of the receiver above mean sea level, in meters.
    void GlobalTropModel::setReceiverHeight(const double& ht)
    {
-      if(height != ht) {
+      if(!validHeight || height != ht) {
          height = ht; 
          validHeight = true;
          validCoeff = false;
@@ -570,7 +570,7 @@ namespace gpstk
    // @param lat  Latitude of receiver, in degrees.
    void GlobalTropModel::setReceiverLatitude(const double& lat)
    {
-      if(latitude != lat) {
+      if(!validLat || latitude != lat) {
          latitude = lat;
          validLat = true;
          validCoeff = false;
@@ -583,7 +583,7 @@ namespace gpstk
    // @param lat  Longitude of receiver, in degrees East.
    void GlobalTropModel::setReceiverLongitude(const double& lon)
    {
-      if(longitude != lon) {
+      if(!validLon || longitude != lon) {
          longitude = lon;
          validLon = true;
          validCoeff = false;
@@ -597,7 +597,7 @@ namespace gpstk
    void GlobalTropModel::setTime(const double& mjd)
    {
       double df(TWO_PI*(mjd - 44266.0)/365.25);       // -44239 + 1 - 28
-      if(df != dayfactor) {
+      if(!validDay || df != dayfactor) {
          dayfactor = df;
          validDay = true;
          validCoeff = false;
-- 
2.43.0


From 56b4d8bb2385c84425d997db1b6134610651c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 023/216] fix: NBTropModel::setWeather(WxObservation) converted
 the humidity to a partial pressure twice

---
 core/lib/GNSSCore/NBTropModel.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index d2ff523..9d1cc77 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -380,7 +380,7 @@ namespace gpstk
       TropModel::setWeather(T,P,H);
             // humid actually stores water vapor partial pressure
       double th=300./temp;
-      humid = 2.409e9*H*th*th*th*th*std::exp(-22.64*th);
+      humid = 2.409e9*humid*th*th*th*th*std::exp(-22.64*th);
       validWeather = true;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
 
@@ -394,10 +394,8 @@ namespace gpstk
       interpolateWeather = false;
       try
       {
+            // calls setWeather(T,P,H)
          TropModel::setWeather(wx);
-            // humid actually stores vapor partial pressure
-         double th=300./temp;
-         humid = 2.409e9*humid*th*th*th*th*std::exp(-22.64*th);
          validWeather = true;
          valid = validWeather && validRxHeight && validRxLatitude && validDOY;
       }
-- 
2.43.0


From bc2ac9f33b985e605e077f722994bfba1b0ca7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 024/216] fix: NBTropModel kept the weather of the previous
 latitude and day when it computes its own weather

---
 core/lib/GNSSCore/NBTropModel.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index 9d1cc77..7210756 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -158,6 +158,7 @@ namespace gpstk
 
       // Default constructor
    NBTropModel::NBTropModel(void):
+      interpolateWeather(false),
       validWeather(false), validRxLatitude(false), validDOY(false),validRxHeight(false)
    {}
 
@@ -167,8 +168,8 @@ namespace gpstk
       // @param day Day of year.
    NBTropModel::NBTropModel(const double& lat,
                             const int& day)
-         : validWeather(false), validRxLatitude(false), validDOY(false),
-           validRxHeight(false)
+         : interpolateWeather(false), validWeather(false),
+           validRxLatitude(false), validDOY(false), validRxHeight(false)
    {
       setReceiverLatitude(lat);
       setDayOfYear(day);
@@ -182,8 +183,8 @@ namespace gpstk
    NBTropModel::NBTropModel(const double& lat,
                             const int& day,
                             const WxObservation& wx)
-         : validWeather(false), validRxLatitude(false), validDOY(false),
-           validRxHeight(false)
+         : interpolateWeather(false), validWeather(false),
+           validRxLatitude(false), validDOY(false), validRxHeight(false)
    {
       setReceiverLatitude(lat);
       setDayOfYear(day);
@@ -201,8 +202,8 @@ namespace gpstk
                             const double& T,
                             const double& P,
                             const double& H)
-         : validWeather(false), validRxLatitude(false), validDOY(false),
-           validRxHeight(false)
+         : interpolateWeather(false), validWeather(false),
+           validRxLatitude(false), validDOY(false), validRxHeight(false)
    {
       setReceiverLatitude(lat);
       setDayOfYear(day);
@@ -217,8 +218,8 @@ namespace gpstk
    NBTropModel::NBTropModel(const double& ht,
                             const double& lat,
                             const int& day)
-         : validWeather(false), validRxLatitude(false), validDOY(false),
-           validRxHeight(false)
+         : interpolateWeather(false), validWeather(false),
+           validRxLatitude(false), validDOY(false), validRxHeight(false)
    {
       setReceiverHeight(ht);
       setReceiverLatitude(lat);
@@ -449,7 +450,7 @@ namespace gpstk
       latitude = lat;
       validRxLatitude = true;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
-      if(!validWeather && validRxLatitude && validDOY)
+      if((!validWeather || interpolateWeather) && validRxLatitude && validDOY)
          setWeather();
    }
 
@@ -460,7 +461,7 @@ namespace gpstk
       doy = d;
       if (doy > 0 && doy < 367) validDOY=true; else validDOY = false;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
-      if(!validWeather && validRxLatitude && validDOY)
+      if((!validWeather || interpolateWeather) && validRxLatitude && validDOY)
          setWeather();
    }
    
-- 
2.43.0


From 4f4f5c9d319dd7cca66982e694d5633d94772009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 025/216] fix: GGTropModel gave NaN for a relative humidity of
 0

---
 core/lib/GNSSCore/GGTropModel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GGTropModel.cpp b/core/lib/GNSSCore/GGTropModel.cpp
index 9333c49..f70212f 100644
--- a/core/lib/GNSSCore/GGTropModel.cpp
+++ b/core/lib/GNSSCore/GGTropModel.cpp
@@ -184,7 +184,9 @@ namespace gpstk
       Cdrydelay = 7.7624e-5*press/temp;
       Cwetdelay = 1.0e-6*(-12.92+3.719e+05/temp)*(wvpp/temp);
       Cdrymap = (5.0*0.002277*press)/Cdrydelay;
-      Cwetmap = (5.0*0.002277/Cwetdelay)*(1255.0/temp+0.5)*wvpp;
+         // = (5.0*0.002277/Cwetdelay)*(1255.0/temp+0.5)*wvpp, also when wvpp is 0
+      Cwetmap = 5.0*0.002277*(1255.0/temp+0.5)
+              * temp/(1.0e-6*(-12.92+3.719e+05/temp));
       valid = true;
    }  // end GGTropModel::setWeather(T,P,H)
 
-- 
2.43.0


From 5593ad8d1e28d93345652678e68b55237e244bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 026/216] fix: IonoModel left the local time above one day for
 longitudes just west of Greenwich

---
 core/lib/GNSSCore/IonoModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModel.cpp b/core/lib/GNSSCore/IonoModel.cpp
index 39ff98b..382da02 100644
--- a/core/lib/GNSSCore/IonoModel.cpp
+++ b/core/lib/GNSSCore/IonoModel.cpp
@@ -138,9 +138,9 @@ namespace gpstk
          iPER = 72000.0;
 
       double t = 43200.0 * lambda_i + YDSTime(time).sod;
-      if (t >= 86400.0)
+      while (t >= 86400.0)
          t -= 86400.0;
-      if (t < 0)
+      while (t < 0)
          t += 86400.0;
 
       double x = TWO_PI * (t - 50400.0) / iPER; // x is in radians
-- 
2.43.0


From 8870ce64e51ac82fc4a56c9c8cdcadf4791ab789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 027/216] fix: IonoModel used the almanac's inverse-radian
 terms as inverse semi-circles

---
 core/lib/GNSSCore/IonoModel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModel.cpp b/core/lib/GNSSCore/IonoModel.cpp
index 382da02..7f30152 100644
--- a/core/lib/GNSSCore/IonoModel.cpp
+++ b/core/lib/GNSSCore/IonoModel.cpp
@@ -60,8 +60,10 @@ namespace gpstk
    {
       try
       {
-         engalm.getIon(alpha, beta);
-         valid = true;
+         double a[4], b[4];
+         engalm.getIon(a, b);
+            // EngAlmanac scales the terms to inverse radians
+         setModel(a, b, false);
       }
       catch(InvalidRequest& e)
       {
-- 
2.43.0


From 1414035bc79cde68a4d0e29e95060d9b5e692694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 028/216] fix: PackedNavBits wrote past its buffer when adding
 to a copied, cleared or full object

---
 core/lib/GNSSEph/PackedNavBits.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 4881b75..c38257d 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -606,6 +606,9 @@ namespace gpstk
       uint64_t mask = 0x0000000000000001L;
       mask <<= (numBits-1);
 
+      if (bits.size() < ndx + numBits)
+         bits.resize(ndx + numBits);
+
       for (int i=0; i<numBits; ++i)
       {
          bits[ndx] = false;
-- 
2.43.0


From 54473a48ea57969fd3fd6cce8d578552ef89dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 029/216] fix: PackedNavBits shifted a 32 bit word by 32 when
 printing a whole number of words

---
 core/lib/GNSSEph/PackedNavBits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index c38257d..9780056 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -838,7 +838,7 @@ namespace gpstk
             if (word_count %5 == 0) s << endl;        
          }
       }
-      word <<= 32 - numBitInWord;
+      if (numBitInWord > 0 ) word <<= 32 - numBitInWord;
       if (numBitInWord > 0 ) s << "  0x" << setw(8) << setfill('0') << hex << word << dec << setfill(' ');
       s.setf(ios::fixed, ios::floatfield);
       s.precision(3);
@@ -883,9 +883,9 @@ namespace gpstk
          }
       }
          // Need to check if there is a partial word in the buffer
-      word <<= 32 - numBitInWord;
       if (numBitInWord>0)
       {
+         word <<= 32 - numBitInWord;
          s << delimiter << " 0x" << setw(8) << setfill('0') << hex << word << dec << setfill(' ');
       }
       s.flags(oldFlags);      // Reset whatever conditions pertained on entry
-- 
2.43.0


From a7b8431f5d5a1218a586cb1b824da78e356e1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 030/216] fix: PackedNavBits::rawBitInput accepted a negative
 number of bits

---
 core/lib/GNSSEph/PackedNavBits.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 9780056..b5d15c2 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -986,6 +986,11 @@ namespace gpstk
       }
       string textBitCount = inString.substr(begin,end);
       int bitsExpected = StringUtils::asInt(textBitCount); 
+      if (bitsExpected < 1)
+      {
+         InvalidParameter exc("Invalid #bits at beginning of input string.");
+         GPSTK_THROW(exc);
+      }
 
          //  Find successive 32 bits quantities stored as hex strings.  
          //  That is to say, each should be of the format 0xAAAAAAAA
-- 
2.43.0


From a050299d8a5cc9ffe4c8ba3d18485f119aeee36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 031/216] fix: a copy of a PackedNavBits compared unequal to
 its original unless the original was trimmed

---
 core/lib/GNSSEph/PackedNavBits.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index b5d15c2..386f690 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -640,13 +640,13 @@ namespace gpstk
          // happen.  In the context of NavFilter, data SHOULD be
          // from the same system, therefore, the same length should 
          // always be true.
-      if (bits.size()!=right.bits.size())
+      if (bits_used!=right.bits_used)
       {
-         if (bits.size()<right.bits.size()) return true;
+         if (bits_used<right.bits_used) return true;
          return false;
       }
 
-      for (int i=0;i<bits.size();i++)
+      for (int i=0;i<bits_used;i++)
       {
          if (bits[i]==false && right.bits[i]==true)
          //if (bits[i]<right.bits[i])
@@ -942,15 +942,15 @@ namespace gpstk
    {
          // If the two objects don't have the same number of bits,
          // don't even try to compare them. 
-      if (bits.size()!=right.bits.size()) return false; 
+      if (bits_used!=right.bits_used) return false; 
 
       short startBit = startBitA;
       short endBit = endBitA; 
          // Check for nonsense arguments
       if (endBit==-1 ||
-          endBit>=int(bits.size())) endBit = bits.size()-1;
+          endBit>=bits_used) endBit = bits_used-1;
+      if (startBit>=bits_used) startBit = bits_used-1;
       if (startBit<0) startBit=0;
-      if (startBit>=int(bits.size())) startBit = bits.size()-1;
 
       for (int i=startBit;i<=endBit;i++)
       {
-- 
2.43.0


From 1038ac595ccaea9d698d0443108a6a0ce0eb6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 032/216] fix: satellite numbers too large for an int
 overflowed when reading RINEX and SP3 satellite IDs

---
 core/lib/GNSSCore/RinexSatID.cpp | 2 +-
 core/lib/GNSSEph/SP3SatID.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/RinexSatID.cpp b/core/lib/GNSSCore/RinexSatID.cpp
index e6009c8..9fe4080 100644
--- a/core/lib/GNSSCore/RinexSatID.cpp
+++ b/core/lib/GNSSCore/RinexSatID.cpp
@@ -167,7 +167,7 @@ namespace gpstk
             GPSTK_THROW(e);
       }
       iss >> id;
-      if(id <= 0)
+      if(iss.fail() || id <= 0)
       {
          id = -1;
       }
diff --git a/core/lib/GNSSEph/SP3SatID.cpp b/core/lib/GNSSEph/SP3SatID.cpp
index 49b76d4..13726c7 100644
--- a/core/lib/GNSSEph/SP3SatID.cpp
+++ b/core/lib/GNSSEph/SP3SatID.cpp
@@ -138,7 +138,7 @@ namespace gpstk
             GPSTK_THROW(e);
       }
       iss >> id;
-      if(id <= 0)
+      if(iss.fail() || id <= 0)
       {
          id = -1;
       }
-- 
2.43.0


From 38e72eb3bd54cfd7b0bd3d65481ff0b3749e9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 033/216] fix: isValidRinexObsID added empty entries to the
 table of valid tracking codes

---
 core/lib/GNSSCore/RinexObsID.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/RinexObsID.cpp b/core/lib/GNSSCore/RinexObsID.cpp
index 5e22a09..f7a3b5c 100644
--- a/core/lib/GNSSCore/RinexObsID.cpp
+++ b/core/lib/GNSSCore/RinexObsID.cpp
@@ -261,7 +261,18 @@ namespace gpstk
       char ot(strID[0]);
       char cb(strID[1]);
       char tc(strID[2]);
-      const std::string &codes(RinexObsID::validRinexTrackingCodes[sys][cb]);
+         // look up without adding entries to the tables
+      const auto& sysCodes = RinexObsID::validRinexTrackingCodes.find(sys);
+      if (sysCodes == RinexObsID::validRinexTrackingCodes.end())
+      {
+         return false;
+      }
+      const auto& bandCodes = sysCodes->second.find(cb);
+      if (bandCodes == sysCodes->second.end())
+      {
+         return false;
+      }
+      const std::string &codes(bandCodes->second);
       if(ot == ' ' || ot == '-')
       {
          return false;
-- 
2.43.0


From d97923fda72e226ff190fd5ab42fc8896d757bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 034/216] fix: EngEphemeris::loadData and setSF2 moved a fit
 interval ending in the next week two weeks ahead

---
 core/lib/GNSSEph/EngEphemeris.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 0522e5b..4e57a16 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1080,7 +1080,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
@@ -1221,7 +1221,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
-- 
2.43.0


From b7a0fad37efa7f5f19844be2dc1603a8345132ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 035/216] fix: EngEphemeris::setSF2 placed the fit interval in
 the transmit week instead of the week of Toe

---
 core/lib/GNSSEph/EngEphemeris.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 4e57a16..5076a95 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1210,8 +1210,8 @@ namespace gpstk
          short fitHours = getLegacyFitInterval(IODC, fitint);
          long beginFitSOW = toe - (fitHours/2)*3600.0;
          long endFitSOW = toe + (fitHours/2)*3600.0;
-         short beginFitWk = weeknum;
-         short endFitWk = weeknum;
+         short beginFitWk = toeWeek;
+         short endFitWk = toeWeek;
          if (beginFitSOW < 0)
          {
             beginFitSOW += FULLWEEK;
-- 
2.43.0


From 315bddded9088009ca5aa978fe6355d0857b9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 036/216] fix: EngEphemeris::isValid refused an ephemeris whose
 HOW is in the last 15 seconds of the week

---
 core/lib/GNSSEph/EngEphemeris.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 5076a95..23a349b 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -380,9 +380,9 @@ namespace gpstk
       try
       {
          return ((PRNID >= 1) && (PRNID <= 37) &&
-                 (HOWtime[0] >= 0) && (HOWtime[0] <= 604784) &&
-                 (HOWtime[1] >= 0) && (HOWtime[1] <= 604784) &&
-                 (HOWtime[2] >= 0) && (HOWtime[2] <= 604784) &&
+                 (HOWtime[0] >= 0) && (HOWtime[0] < FULLWEEK) &&
+                 (HOWtime[1] >= 0) && (HOWtime[1] < FULLWEEK) &&
+                 (HOWtime[2] >= 0) && (HOWtime[2] < FULLWEEK) &&
                  (getToc() >= 0) && (getToc() <= 604784) &&
                  (getToe() >= 0) && (getToe() <= 604784) &&
                  (getEcc() >= 0) && (getEcc() <= 0.03));
-- 
2.43.0


From 9471820264c2b279ae3aa86fc8ad941c3ea73603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 037/216] fix: EngNav::getSubframePattern read outside its
 table for SV IDs 33 to 50

---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cabdac8..96bdff1 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -507,6 +507,8 @@ namespace gpstk
       svid  = static_cast<short>( itemp );
       if ( svid <= 32 )
          iret = 4;            /* PRN orbit data */
+      else if ( svid < 51 )
+         iret = 0;            /* reserved, not assigned to any page */
       else
          iret = patId[svid-51];  /* look up pat id for almanac overhead
                                     information */
-- 
2.43.0


From 6c43adc1dce09f73bc7c678786f9f5e2837dad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 038/216] fix: EngNav::fixParity kept stale parity bits and
 chose wrong non-information bits for inverted words

---
 core/lib/GNSSEph/EngNav.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 96bdff1..de85172 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -692,13 +692,23 @@ namespace gpstk
 
       if (nib)
       {
+            // The non-information bits are chosen for the source data
+            // bits, which are inverted in sfword if D30 of the
+            // previous word is set.
+         bool inverted = D30 && !knownUpright;
+         if (inverted)
+            d = ~d;
             // make sure the non-information bits are zero to start with.
          d &= 0xffffff00;
          if ((D30 + BinUtils::countBits(bmask[4] & d)) % 2)
             d |= 0x00000040;
          if ((D29 + BinUtils::countBits(bmask[5] & d)) % 2)
             d |= 0x00000080;
+         if (inverted)
+            d = ~d;
       }
+         // drop any parity already in the word
+      d &= 0xffffffc0;
 
       D = computeParity(d, psfword, knownUpright);
 
-- 
2.43.0


From 2c5f605851872b5fe4fbe3f21d951079c7500fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 039/216] fix: EngAlmanac::dump threw out_of_range when the
 configuration page arrived before the health page

---
 core/lib/GNSSEph/EngAlmanac.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/GNSSEph/EngAlmanac.cpp b/core/lib/GNSSEph/EngAlmanac.cpp
index 86c58f3..034bc03 100644
--- a/core/lib/GNSSEph/EngAlmanac.cpp
+++ b/core/lib/GNSSEph/EngAlmanac.cpp
@@ -526,6 +526,9 @@ namespace gpstk
          int prn = i->first;
          if (prn >= 1 && prn <= 32)
          {
+               // the health page may not have been received yet
+            if (bits[prn].empty())
+               bits[prn] = string(6, ' ');
             bits[prn] += "  " + int2bin(i->second, 4);
             bits[prn].insert(9, "   ");
          }
-- 
2.43.0


From 1c0c612daeccc7dce7cbb7e1b2eda35c39745aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 040/216] fix: BrcKeplerOrbit::loadData placed Toe in the
 transmit week when it is in the next or previous one

---
 core/lib/GNSSEph/BrcKeplerOrbit.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.cpp b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
index 86eee77..010c166 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.cpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
@@ -225,13 +225,13 @@ namespace gpstk
       Ahalf  = ficked[12];
       A      = Ahalf*Ahalf;
       double ToeSOW = ficked[13];
-/*
-  double diff = Txmit - ToeSOW;
-  if (diff > HALFWEEK)          // NOTE: This USED to be in DayTime, but DayTime is going away.  Where is it now?
-  weeknum++;                 // Convert week # of transmission to week # of epoch time when Toc is forward across a week boundary
-  else if (diff < -HALFWEEK)
-  weeknum--;                 // Convert week # of transmission to week # of epoch time when Toc is back across a week boundary
-*/
+         // Convert week # of transmission to week # of epoch time when
+         // Toe is across a week boundary
+      double diff = ficked[2] - ToeSOW;
+      if (diff > HALFWEEK)
+         weeknum++;
+      else if (diff < -HALFWEEK)
+         weeknum--;
       Toe = GPSWeekSecond(weeknum, ToeSOW, TimeSystem::GPS);
       short fiti = static_cast<short>(ficked[14]);
       short fitHours = getLegacyFitInterval(iodc, fiti);
-- 
2.43.0


From 2019aa6adc45c2c7cbac972584d9aca26a963dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 041/216] fix: BrcClockCorrection::getURAoc did not throw
 without data

---
 core/lib/GNSSEph/BrcClockCorrection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSEph/BrcClockCorrection.cpp b/core/lib/GNSSEph/BrcClockCorrection.cpp
index 2e88b50..1f3e344 100644
--- a/core/lib/GNSSEph/BrcClockCorrection.cpp
+++ b/core/lib/GNSSEph/BrcClockCorrection.cpp
@@ -300,6 +300,7 @@ namespace gpstk
       if (!dataLoaded)
       {
          InvalidRequest exc("Required data not stored.");
+         GPSTK_THROW(exc);
       }
       if (ndx == 0) return URAoc;
       else if (ndx == 1) return URAoc1;
-- 
2.43.0


From 7c64649433d46967883a6dd1bdb6153c163df8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 042/216] fix: ura2CNAVNominalaccuracy read past its table for
 URA index 15

---
 core/lib/GNSSEph/GPS_URA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GPS_URA.hpp b/core/lib/GNSSEph/GPS_URA.hpp
index b234ac3..1e1de02 100644
--- a/core/lib/GNSSEph/GPS_URA.hpp
+++ b/core/lib/GNSSEph/GPS_URA.hpp
@@ -91,7 +91,7 @@ namespace gpstk
                                                     0.044194, 0.0625, 0.088388, 0.125, 0.176777,
                                                     0.25, 0.353553, 0.5, 0.707107, 1, 1.414214, 2, 
                                                     2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512,
-                                                    1024, 2048, 4096};
+                                                    1024, 2048, 4096, 9.999999999999e99};
       /// constant for max array index in gps nom index table
    const int SV_CNAV_NOMINAL_MAX_INDEX = 30;
  
-- 
2.43.0


From 8285ab4cb2292fcbcd0000006995890e2235047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 043/216] fix: EngAlmanac converted doubles above 127 straight
 to char

---
 core/lib/GNSSEph/EngAlmanac.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngAlmanac.cpp b/core/lib/GNSSEph/EngAlmanac.cpp
index 034bc03..1f05313 100644
--- a/core/lib/GNSSEph/EngAlmanac.cpp
+++ b/core/lib/GNSSEph/EngAlmanac.cpp
@@ -169,7 +169,7 @@ namespace gpstk
             t_ot = static_cast<long>( ficked[17] );
             wn_t = static_cast<int>( ficked[18] );
             wn_lsf = static_cast<int>( ficked[20] );
-            dn = static_cast<char>( ficked[21] );
+            dn = static_cast<char>( static_cast<int>( ficked[21] ) );
             dt_lsf = ficked[22];
             haveUTC = true;
             break;
@@ -185,7 +185,7 @@ namespace gpstk
          case 10:/* Page with Special Message */
             special_msg = "";
             for (int i=0; i<22; i++)
-               special_msg += static_cast<char>( ficked[7 + i] );
+               special_msg += static_cast<char>( static_cast<int>( ficked[7 + i] ) );
             break;
 
          default:
-- 
2.43.0


From 129f0309919d00a3b97c5cdeebe7dc5dc6774628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 044/216] fix: EngNav::zcount2page gave page 25 instead of 10
 for the last subframe of the week

---
 core/lib/GNSSEph/EngNav.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index de85172..e9eb48c 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -604,6 +604,10 @@ namespace gpstk
                               short& subframe, short& page)
       throw()
    {
+         // TOW count 0 is the end of the last subframe of the week, and
+         // the pages restart at the beginning of the week.
+      if (zcount == 0)
+         zcount = 403200;
       subframe = ((zcount % 20) / 4);
       if (subframe == 0)
          subframe = 5;
-- 
2.43.0


From a079f84e6a7f3fa8863aa98c15f155764f5146da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 045/216] fix: OrbitEph used GPS constants for BeiDou and
 Galileo orbits (tens of meters for BeiDou)

---
 core/lib/GNSSEph/OrbitEph.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 56d9c73..3d8500c 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -56,6 +56,7 @@
 #include "QZSWeekSecond.hpp"
 #include "GPSEllipsoid.hpp"
 #include "CGCS2000Ellipsoid.hpp"
+#include "GalileoEllipsoid.hpp"
 #include "TimeString.hpp"
 
 using namespace std;
@@ -133,7 +134,16 @@ namespace gpstk
       double xef,yef,zef,dek,dlk,div,domk,duv,drv;
       double dxp,dyp,vxef,vyef,vzef;
 
-      GPSEllipsoid ell;
+      // Several GNSSs use this algorithm, with physical constants of their own.
+      const GPSEllipsoid gell;
+      const CGCS2000Ellipsoid bell;
+      const GalileoEllipsoid eell;
+      const EllipsoidModel& ell(
+         satID.system == SatelliteSystem::BeiDou
+            ? static_cast<const EllipsoidModel&>(bell)
+            : satID.system == SatelliteSystem::Galileo
+               ? static_cast<const EllipsoidModel&>(eell)
+               : static_cast<const EllipsoidModel&>(gell));
       double sqrtgm = SQRT(ell.gm());
       double twoPI = 2.0e0 * PI;
       double lecc;            // eccentricity
@@ -264,9 +274,12 @@ namespace gpstk
 
       GPSEllipsoid gell;
       CGCS2000Ellipsoid bell;
+      GalileoEllipsoid eell;
       EllipsoidModel *ell;
       if (satID.system==SatelliteSystem::BeiDou)
          ell = &bell;
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = &eell;
       else
          ell = &gell;
       double twoPI  = 2.0 * PI;
-- 
2.43.0


From cc25368c64f2f08c87d67c08c994e639a9154621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 046/216] fix: GPSEllipsoid::gm_km disagreed with gm

---
 core/lib/GNSSCore/GPSEllipsoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GPSEllipsoid.hpp b/core/lib/GNSSCore/GPSEllipsoid.hpp
index 06c7a9e..937d107 100644
--- a/core/lib/GNSSCore/GPSEllipsoid.hpp
+++ b/core/lib/GNSSCore/GPSEllipsoid.hpp
@@ -80,7 +80,7 @@ namespace gpstk
          /// derived from ICD-GPS-200C, 20.3.3.4.3.3 and Table 20-IV
          /// @return geocentric gravitational constant in km**3 / s**2
       virtual double gm_km() const throw()
-      { return 3.9860034e5; }
+      { return 3.986005e5; }
 
          /// defined in ICD-GPS-200C, 20.3.4.3
          /// @return Speed of light in m/s.
-- 
2.43.0


From 5bf38f0c5ea07184defbee17b62fd045c35b60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 047/216] fix: svClockDrift was not the derivative of
 svClockBias

---
 core/lib/GNSSEph/BrcClockCorrection.cpp | 2 +-
 core/lib/GNSSEph/OrbElem.cpp            | 2 +-
 core/lib/GNSSEph/OrbitEph.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/BrcClockCorrection.cpp b/core/lib/GNSSEph/BrcClockCorrection.cpp
index 1f3e344..e5817f6 100644
--- a/core/lib/GNSSEph/BrcClockCorrection.cpp
+++ b/core/lib/GNSSEph/BrcClockCorrection.cpp
@@ -242,7 +242,7 @@ namespace gpstk
    {
       double drift,elaptc;
       elaptc = t - getEpochTime();
-      drift = af1 + elaptc * af2;
+      drift = af1 + elaptc * 2.0 * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index fea9ded..af39800 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -167,7 +167,7 @@ namespace gpstk
       }
       double drift,elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + elaptc * 2.0 * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 3d8500c..b1148ef 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -107,7 +107,7 @@ namespace gpstk
 
       double drift, elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + elaptc * 2.0 * af2;
       return drift;
    }
 
-- 
2.43.0


From 335d3e32dbc66a6b1f1c74f97972d8c9d72bb905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 048/216] fix: ephemeris stores: near search returned sets not
 valid yet; rationalize hung on emptied satellites and kept only the last
 satellite's time limits; refused set left its satellite present

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 21 ++++++++++++++++-----
 core/lib/GNSSEph/OrbElemStore.cpp      | 26 +++++++++++++++++++-------
 core/lib/GNSSEph/OrbitEphStore.cpp     |  2 +-
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index de44b09..ead7295 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -61,10 +61,21 @@ namespace gpstk
    // ordering has been determined.
    void GPSEphemerisStore::rationalize(void)
    {
+      // the time limits are found anew from the adjusted data
+      if (size() > 0)
+      {
+         initialTime = CommonTime::END_OF_TIME;
+         initialTime.setTimeSystem(timeSystem);
+         finalTime = CommonTime::BEGINNING_OF_TIME;
+         finalTime.setTimeSystem(timeSystem);
+      }
+
       // loop over satellites
       SatTableMap::iterator it;
       for (it = satTables.begin(); it != satTables.end(); it++) {
          TimeOrbitEphTable& table = it->second;
+         if (table.empty())      // e.g. after edit()
+            continue;
          TimeOrbitEphTable::iterator ei;
          TimeOrbitEphTable::iterator eiPrev;
          bool begin = true;
@@ -224,11 +235,11 @@ namespace gpstk
         }
 
            // Well, not quite done.  We need to update the initial/final
-           // times of the map.
-        const TimeOrbitEphTable::iterator Cei = table.begin( );
-        initialTime = Cei->second->beginValid;
-        const TimeOrbitEphTable::reverse_iterator rCei = table.rbegin();
-        finalTime   = rCei->second->endValid;
+           // times of the store, considering every satellite.
+        for (ei = table.begin(); ei != table.end(); ei++)
+        {
+           updateTimeLimits(ei->second);
+        }
 
       } // end outer for-loop
    }
diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 86bd7c6..878e9d2 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -237,8 +237,6 @@ namespace gpstk
         addSatSys(sid.system); 
      }
 
-        // Find reference to map for this SV 
-     OrbElemMap& oem = ube[sid];
      string ts = "%02m/%02d/%02y %02H:%02M:%02S";
 
      if (dbg)
@@ -258,6 +256,9 @@ namespace gpstk
         GPSTK_THROW(ip);
      }
 
+        // Find reference to map for this SV 
+     OrbElemMap& oem = ube[sid];
+
        // if map is empty, load object and return
      if (dbg) cout << "oes::addOE.  Checking oem.size()" << endl;
      if (oem.size()==0)
@@ -806,10 +807,21 @@ namespace gpstk
           GPSTK_THROW(e);
       }
 
+         // the time limits are found anew from the adjusted data
+      if (size() > 0)
+      {
+         initialTime = CommonTime::END_OF_TIME;
+         initialTime.setTimeSystem(timeSysForStore);
+         finalTime = CommonTime::BEGINNING_OF_TIME;
+         finalTime.setTimeSystem(timeSysForStore);
+      }
+
       UBEMap::iterator it;
       for (it = ube.begin(); it != ube.end(); it++)
       {
          OrbElemMap& em = it->second;
+         if (em.empty())      // e.g. after edit()
+            continue;
          OrbElemMap::iterator ei;
   	     OrbElemMap::iterator eiPrev;
          bool begin = true;
@@ -1021,11 +1033,11 @@ namespace gpstk
         }
 
            // Well, not quite done.  We need to update the initial/final 
-           // times of the map.
-        const OrbElemMap::iterator Cei = em.begin( );
-        initialTime = Cei->second->beginValid;
-        const OrbElemMap::reverse_iterator rCei = em.rbegin();
-        finalTime   = rCei->second->endValid;
+           // times of the store, considering every satellite.
+        for (ei = em.begin(); ei != em.end(); ei++)
+        {
+           updateInitialFinal(ei->second);
+        }
 
       } // end outer for-loop
       //cout << "Exiting OrbElem.rationalize()" << endl; 
diff --git a/core/lib/GNSSEph/OrbitEphStore.cpp b/core/lib/GNSSEph/OrbitEphStore.cpp
index 956e817..65fba6f 100644
--- a/core/lib/GNSSEph/OrbitEphStore.cpp
+++ b/core/lib/GNSSEph/OrbitEphStore.cpp
@@ -541,7 +541,7 @@ namespace gpstk
          return NULL;
 
       TimeOrbitEphTable::const_iterator itNext = table.find(t);
-      if(itNext != table.end())               // exact match
+      if(itNext != table.end() && itNext->second->isValid(t))  // exact match
          return itNext->second;
 
       // Three cases:
-- 
2.43.0


From 70d974ef8535ae2ddfa84a37901538f64369df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 049/216] fix: tabular stores: exact-epoch
 position/velocity/acceleration read Nhalf records late, clock drift taken
 from bias, linear clock at first epoch out of bounds, edit kept a record
 before tmin, gap check skipped, reject flags leaked to next record

---
 core/lib/GNSSEph/ClockSatStore.cpp     | 10 ++++++----
 core/lib/GNSSEph/PositionSatStore.cpp  |  3 ---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 19 ++++++++++---------
 core/lib/GNSSEph/TabularSatStore.hpp   | 17 ++++++-----------
 4 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index 0231f78..6cdd9b3 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -106,7 +106,9 @@ namespace gpstk
             ++n;
          };
 
-         if(isExact && Nmatch == (int)(Nhalf-1)) { Nlow++; Nhi++; }
+            // (at the beginning of a 2-point interval there is nothing above)
+         if(isExact && Nmatch == (int)(Nhalf-1) && Nhi+1 < times.size())
+         { Nlow++; Nhi++; }
 
          // interpolate
          rec.accel = rec.sig_accel = 0.0;              // defaults
@@ -161,8 +163,8 @@ namespace gpstk
             }
             else {
                // linear interpolation
-               slope = (drifts[Nhi]-drifts[Nlow]) /
-                                   (times[Nhi]-times[Nlow]);            // sec/sec^2
+               slope = (accels[Nhi]-accels[Nlow]) /
+                                   (times[Nhi]-times[Nlow]);            // sec/sec^3
                rec.accel = accels[Nlow] + slope*(dt-times[Nlow]);       // sec/sec^2
             }
 
@@ -274,7 +276,7 @@ namespace gpstk
             if(isExact && ABS(kt->first-ttag) < 1.e-8) Nhi=n;
             times.push_back(kt->first - ttag0);    // sec
             if(haveClockDrift)
-               drifts.push_back(kt->second.bias);  // sec/sec
+               drifts.push_back(kt->second.drift); // sec/sec
             else
                biases.push_back(kt->second.bias);  // sec
             if(kt == it2) break;
diff --git a/core/lib/GNSSEph/PositionSatStore.cpp b/core/lib/GNSSEph/PositionSatStore.cpp
index 484a4c1..778f7c6 100644
--- a/core/lib/GNSSEph/PositionSatStore.cpp
+++ b/core/lib/GNSSEph/PositionSatStore.cpp
@@ -204,7 +204,6 @@ namespace gpstk
 
          if(getTableInterval(sat, ttag, Nhalf, it1, it2, true)) {
             // exact match
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Pos;
          }
@@ -249,7 +248,6 @@ namespace gpstk
 
          bool isExact(getTableInterval(sat, ttag, Nhalf, it1, it2, haveVelocity));
          if(isExact && haveVelocity) {
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Vel;
          }
@@ -309,7 +307,6 @@ namespace gpstk
          bool isExact(getTableInterval(sat,ttag,Nhalf,it1,it2,haveAcceleration));
          if(isExact && haveAcceleration) {
             // exact match, and have acceleration data
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Acc;
          }
diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 129b662..7d60bf5 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -357,7 +357,8 @@ namespace gpstk
          SP3Files.addFile(filename, head);
 
             // read data
-         bool isC(head.version==SP3Header::SP3c);
+         bool isC(head.version==SP3Header::SP3c ||
+                  head.version==SP3Header::SP3d);
          bool goNext,haveP,haveV,haveEP,haveEV,predP,predC;
          int i;
          CommonTime ttag;
@@ -528,13 +529,13 @@ namespace gpstk
                       prec.Pos[2]==0.0))
                   {
                         //cout << "Bad position" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad position record
+                     ;
                   }
                   else if(fillClockStore && rejectBadClockFlag
                           && (fabs(crec.bias) >= 999999.))
                   {
                         //cout << "Bad clock" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad clock record
+                     ;
                   }
                   else
                   {
@@ -543,14 +544,14 @@ namespace gpstk
                         posStore.addPositionRecord(sat,ttag,prec);
                      if(fillClockStore && (!rejectPredClockFlag || !predC))
                         clkStore.addClockRecord(sat,ttag,crec);
-
-                        // prepare for next
-                     haveP = haveV = haveEP = haveEV = predP = predC = false;
-                     prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
-                     if(fillClockStore)
-                        crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
                   }
 
+                     // prepare for next
+                  haveP = haveV = haveEP = haveEV = predP = predC = false;
+                  prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
+                  if(fillClockStore)
+                     crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
+
                   goNext = true;
 
                }  // end while loop (loop twice)
diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index a5992b5..0dfa19f 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -287,14 +287,9 @@ namespace gpstk
             }
 
                // move it1 down by one
-            if(--it1 == dtable.begin())
+               // (this is enough for an interval of only 2)
+            if(--it1 == dtable.begin() && nhalf != 1)
             {
-                  // if an interval of only 2
-               if(nhalf==1)
-               {
-                  ++(it2 = it1);
-                  return exactMatch;
-               }
                InvalidRequest e("Inadequate data before(2) requested time for"
                                 " satellite " +
                                 gpstk::StringUtils::asString(sat) +
@@ -670,7 +665,7 @@ namespace gpstk
                // delete everything before tmin
                // jt points to the earliest time >= tmin
             jt = dtab.lower_bound(tmin);
-            if(jt != dtab.begin() && --jt != dtab.begin())
+            if(jt != dtab.begin())
                dtab.erase(dtab.begin(),jt);
          }
       }
@@ -770,7 +765,7 @@ namespace gpstk
             return initialTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return initialTime;
 
          return (it->second.begin())->first;
@@ -785,7 +780,7 @@ namespace gpstk
             return finalTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return finalTime;
 
          typename DataTable::const_iterator jt(it->second.end());
@@ -894,7 +889,7 @@ namespace gpstk
             // save the most frequent N step sizes
          static const int N=3;
          int i,ndt[N]={0,0,0};
-         double dt[N],del;
+         double dt[N]={0.0,0.0,0.0},del;
 
             // loop over the table
          typename DataTable::const_iterator jt(it->second.begin());
-- 
2.43.0


From c72644a5d21a549915776538cc3b5a540cba7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 050/216] fix: GLONASS store: edit lost the final time,
 constructor ignored the health flag; ephemeris answered with no data loaded

---
 core/lib/GNSSEph/GloEphemeris.cpp      | 7 +++++++
 core/lib/GNSSEph/GloEphemerisStore.cpp | 2 +-
 core/lib/GNSSEph/GloEphemerisStore.hpp | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/GloEphemeris.cpp b/core/lib/GNSSEph/GloEphemeris.cpp
index 3ce1885..660edd1 100644
--- a/core/lib/GNSSEph/GloEphemeris.cpp
+++ b/core/lib/GNSSEph/GloEphemeris.cpp
@@ -70,6 +70,13 @@ namespace gpstk
 
    Xvt GloEphemeris::svXvtOverrideFit(const CommonTime& epoch) const
    {
+         // First, let's check if there is valid data
+      if(!valid)
+      {
+         InvalidRequest exc("svXvt(): No valid data stored.");
+         GPSTK_THROW(exc);
+      }
+
          // Values to be returned will be stored here
       Xvt sv;
 
diff --git a/core/lib/GNSSEph/GloEphemerisStore.cpp b/core/lib/GNSSEph/GloEphemerisStore.cpp
index 691b5b0..f923cd0 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.cpp
@@ -451,7 +451,7 @@ namespace gpstk
                   // Update 'initialTime' and 'finalTime', if necessary
                if (t < initialTime)
                   initialTime = t;
-               else if (t > finalTime)
+               if (t > finalTime)
                   finalTime = t;
 
             }  // End of 'if ( ( (*tgmIter).first >= tmin ) && ...'
diff --git a/core/lib/GNSSEph/GloEphemerisStore.hpp b/core/lib/GNSSEph/GloEphemerisStore.hpp
index da79c09..9d04ddf 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.hpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.hpp
@@ -91,7 +91,7 @@ namespace gpstk
               finalTime(CommonTime::BEGINNING_OF_TIME),
               step(rkStep)
       {
-            setCheckHealthFlag(false);
+            setCheckHealthFlag(checkHealth);
       }
 
          /// Destructor
-- 
2.43.0


From faef31be015157a8b4be42d3d354b1f8e0202665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 051/216] fix: RINEX navigation: Toe and transmit time lost or
 a week off, fit interval and Cuc dropped, QZSS id doubled, version 2 GLONASS
 header and message time corrupted, Galileo-only ionosphere dropped

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp  |  6 +-
 .../lib/FileHandling/RINEX3/Rinex3NavData.cpp | 70 ++++++++++++-------
 .../FileHandling/RINEX3/Rinex3NavHeader.cpp   | 13 ++--
 3 files changed, 57 insertions(+), 32 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 40bc576..aa0e058 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -193,7 +193,7 @@ namespace gpstk
       {
             // Overhead
          gpse.satID = SatID(PRNID, SatelliteSystem::GPS);
-         gpse.ctToe = time;
+         gpse.ctToe = getToeTime();
 
             // clock model
          gpse.af0 = af0;
@@ -243,7 +243,9 @@ namespace gpstk
 
             /// @note IODC must be set first...
          gpse.fitint = fitint;
-         gpse.setFitIntervalFlag(int(fitint)); 
+            // RINEX gives the interval in hours
+         gpse.fitDuration = GPSEphemeris::getFitInterval(
+            gpse.IODC, (gpse.fitint > 4) ? 1 : 0);
          gpse.adjustValidity();
       }
       catch(Exception& e)
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 72cfb7f..02fd93a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -55,6 +55,17 @@ namespace gpstk
    using namespace StringUtils;
    using namespace std;
 
+      /// Transmit time from seconds of week: the time within half a week of Toe.
+   static CommonTime nearestToToe(const CommonTime& ctToe, double xmitSOW)
+   {
+      double dt = xmitSOW - static_cast<GPSWeekSecond>(ctToe).sow;
+      if (dt < -HALFWEEK)
+         dt += FULLWEEK;
+      else if (dt > HALFWEEK)
+         dt -= FULLWEEK;
+      return ctToe + dt;
+   }
+
    // Create from a RINEX version 2 RinexNavData (for backward compatibility)
    Rinex3NavData::Rinex3NavData(const RinexNavData& rnd)
    {
@@ -83,6 +94,7 @@ namespace gpstk
       Tgd2 = 0.0;
 
       // perturbations
+      Cuc = rnd.Cuc;
       Cus = rnd.Cus;
       Crc = rnd.Crc;
       Crs = rnd.Crs;
@@ -207,7 +219,6 @@ namespace gpstk
       weeknum = static_cast<QZSWeekSecond>(qzseph.transmitTime).getWeek();
 
       PRNID -= 192;                    // RINEX stores PRN minus 192
-      sat = RinexSatID(PRNID,SatelliteSystem::QZSS);
       IODC = qzseph.IODC;
       IODE = qzseph.IODE;
       health = qzseph.health;
@@ -600,8 +611,13 @@ namespace gpstk
       short fitHours = getLegacyFitInterval(ee.IODC, ee.fitint);
       long beginFitSOW = Toe - (fitHours/2)*3600.0;
       long endFitSOW = Toe + (fitHours/2)*3600.0;
-      short beginFitWk = ee.weeknum;
-      short endFitWk = ee.weeknum;
+
+         // week of Toe, which need not be the week of Toc
+      short toeWeek = ee.weeknum;
+      if (Toe - ee.HOWtime[0] < -HALFWEEK) toeWeek++;
+      else if (Toe - ee.HOWtime[0] > HALFWEEK) toeWeek--;
+      short beginFitWk = toeWeek;
+      short endFitWk = toeWeek;
 
       if (beginFitSOW < 0)
       {
@@ -612,12 +628,12 @@ namespace gpstk
                                           TimeSystem::GPS);
       if (endFitSOW >= FULLWEEK)
       {
-         endFitSOW += FULLWEEK;
+         endFitSOW -= FULLWEEK;
          endFitWk++;
       }
 
       CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW, TimeSystem::GPS);
-      CommonTime toeCT = GPSWeekSecond(epochWeek, Toe, TimeSystem::GPS);
+      CommonTime toeCT = GPSWeekSecond(toeWeek, Toe, TimeSystem::GPS);
 
       ee.orbit.loadData( satSys, obsID, PRNID, beginFit, endFit, toeCT,
                       accFlag, healthy, Cuc, Cus, Crc, Crs, Cic, Cis, 
@@ -651,7 +667,15 @@ namespace gpstk
          sat.fromString(satSys + StringUtils::asString(PRNID));
          oeptr->satID = SatID(sat);
          //obsID = ?? ObsID obsID; // Defines carrier and tracking code
-         oeptr->ctToe = time;
+
+            // Toe is given as seconds of week; it is in the week that
+            // puts it closest to Toc
+         double dToe = Toe - static_cast<GPSWeekSecond>(time).sow;
+         if (dToe < -HALFWEEK)
+            dToe += FULLWEEK;
+         else if (dToe > HALFWEEK)
+            dToe -= FULLWEEK;
+         oeptr->ctToe = time + dToe;
 
          // clock model
          oeptr->af0 = af0;
@@ -717,7 +741,9 @@ namespace gpstk
       gpse.fitint = fitint;
       if (fitint==0) gpse.fitint = 4;
       if (fitint==1) gpse.fitint = 6; 
-      gpse.setFitIntervalFlag(int(fitint)); 
+         // RINEX gives the interval in hours
+      gpse.fitDuration = GPSEphemeris::getFitInterval(
+         gpse.IODC, (gpse.fitint > 4) ? 1 : 0);
 
          // Rinex transmit times are frequently flawed.  For GPS, except for 
          // the first data set in an upload the beginning of transmission is
@@ -738,12 +764,9 @@ namespace gpstk
       long sowToc = static_cast<GPSWeekSecond>(time).sow;
       if (sowToc%3600==0)
       {
-         adjXmitTime = sowToc - (gpse.fitint/2 * 3600);
-         if (adjXmitTime<0)
-         {
-            adjXmitTime += FULLWEEK;
-            adjWeeknum--; 
-         } 
+         GPSWeekSecond adjXmit(time - (gpse.fitint/2 * 3600));
+         adjXmitTime = adjXmit.sow;
+         adjWeeknum = adjXmit.week;
       }    
 
       // Get week for clock, to build Toc
@@ -860,9 +883,7 @@ namespace gpstk
 
       gale.health = GalEphemeris::deriveHealth(HS,DVS,SISA);
 
-      week = static_cast<GALWeekSecond>(gale.ctToe).getWeek();
-      gale.transmitTime = GALWeekSecond(week, static_cast<double>(xmitTime),
-                                       TimeSystem::GAL);
+      gale.transmitTime = nearestToToe(gale.ctToe, xmitTime);
       gale.adjustValidity();
 
       return gale;
@@ -906,9 +927,7 @@ namespace gpstk
       bdse.Tgd23 = Tgd2;
 
 //      bdse.HOWtime = xmitTime;
-      week = static_cast<BDSWeekSecond>(bdse.ctToe).getWeek();
-      bdse.transmitTime = BDSWeekSecond(week, static_cast<double>(xmitTime),
-                                       TimeSystem::BDT);
+      bdse.transmitTime = nearestToToe(bdse.ctToe, xmitTime);
       bdse.adjustValidity();
 
       return bdse;
@@ -949,7 +968,6 @@ namespace gpstk
       qzse.ctToc.setTimeSystem(TimeSystem::QZS);
 
       // now load the QZSS-specific parts
-      qzse.satID = SatID(qzse.satID.id + 192, SatelliteSystem::QZSS);
       qzse.IODC = IODC;
       qzse.IODE = IODE;
       qzse.health = health;
@@ -957,9 +975,7 @@ namespace gpstk
       qzse.Tgd = Tgd;
 
 //      qzse.HOWtime = xmitTime;
-      week = static_cast<QZSWeekSecond>(qzse.ctToe).getWeek();
-      qzse.transmitTime = QZSWeekSecond(week, static_cast<double>(xmitTime),
-                                          TimeSystem::QZS);
+      qzse.transmitTime = nearestToToe(qzse.ctToe, xmitTime);
       qzse.beginValid = qzse.transmitTime;
 
       qzse.codeflags = codeflgs;
@@ -1034,13 +1050,17 @@ namespace gpstk
       else
       {
             // version 2
-         strm << setw(2) << PRNID << ' '
+         strm << right << setw(2) << PRNID << ' '
               << printTime(civtime, "%02y %2m %2d %2H %2M %4.1f");
       }
 
       if (satSys == "R" || satSys == "S")
       {
-         strm << TauN << GammaN << RNDouble(MFtime);
+            // RINEX 2 GLONASS has seconds of day
+         if (strm.header.version < 3 && satSys == "R")
+            strm << TauN << GammaN << RNDouble(MFtime % 86400);
+         else
+            strm << TauN << GammaN << RNDouble(MFtime);
       }
       else if (satSys == "G" || satSys == "E" || satSys == "J" || satSys == "C")
       {
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 708f7d5..e2d79d0 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -242,7 +242,6 @@ namespace gpstk
                                   fileType);
                   GPSTK_THROW(e);
                }
-               fileType = "N: GPS NAV DATA";
             }
             valid |= validVersion;
          }
@@ -536,7 +535,7 @@ namespace gpstk
          }
       }
 
-      if(valid & validIonoCorrGPS)
+      if(valid & (validIonoCorrGPS | validIonoCorrGal))
       {
             // "IONOSPHERIC CORR"
          map<string,IonoCorr>::const_iterator it;
@@ -640,13 +639,13 @@ namespace gpstk
                        << right << setw(9) << tc.refWeek << " "
                        << stringDeltaUTC;
                }
-               else if(tc.asString4() == "GLGP")
+               else if(tc.asString4() == "GLUT")
                {
                      // "CORR TO SYSTEM TIME" R2.10 GLO
                   strm << right << setw(6) << tc.refYr
                        << right << setw(6) << tc.refMon
                        << right << setw(6) << tc.refDay
-                       << RNDouble(tc.A0) << setw(23) << ' '
+                       << "   " << RNDouble(-tc.A0) << setw(20) << ' '
                        << stringCorrSysTime;
                }
                else if(tc.asString4() == "SBUT")
@@ -659,6 +658,10 @@ namespace gpstk
                        << right << setw(2) << tc.geoUTCid << " "
                        << stringDUTC;
                }
+               else
+               {
+                  continue;    // not in RINEX 2
+               }
             }
 
             strm << endlpp;
@@ -815,7 +818,7 @@ namespace gpstk
                if(sat.system == SatelliteSystem::GPS)
                   fileType = "N: GPS NAV DATA";
                else if(sat.system == SatelliteSystem::Glonass)
-                  fileType = "G: GLO NAV DATA)";
+                  fileType = "G: GLO NAV DATA";
                else if(sat.system == SatelliteSystem::Geosync)
                   fileType = "H: GEO NAV DATA";
                else 
-- 
2.43.0


From 70c1c08c1cea394c029509652612277036038d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 052/216] fix: Rinex3EphemerisStore time span, size and list
 per satellite; QZSS time in getTimeSystemCorrection

getInitialTime/getFinalTime(sat) fell through to the GLONASS store for every
system, size(sat) counted GLONASS satellites instead of records, addToList
ignored the satellite id, and requests for QZSS satellites in any other time
system (or for others in QZSS time) failed with an unrelated exception.
---
 core/lib/GNSSEph/GloEphemerisStore.hpp    | 15 +++++++++++++++
 core/lib/GNSSEph/Rinex3EphemerisStore.cpp | 18 ++++++++++++++----
 core/lib/GNSSEph/Rinex3EphemerisStore.hpp |  2 +-
 core/lib/RefTime/TimeSystem.cpp           |  2 ++
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.hpp b/core/lib/GNSSEph/GloEphemerisStore.hpp
index 9d04ddf..54ad932 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.hpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.hpp
@@ -234,6 +234,21 @@ namespace gpstk
       int size(void) const
       { return pe.size(); }
 
+         /** Get the number of ephemerides (records) for the given satellite.
+          *
+          * @param sat     SatID of the satellite of interest; if sat.id is -1
+          *                count the records of all satellites.
+          * @return the number of ephemerides
+          */
+      int size(const SatID& sat) const
+      {
+         int n(0);
+         for(GloEphMap::const_iterator it = pe.begin(); it != pe.end(); ++it)
+            if(sat.id == -1 || it->first == sat)
+               n += it->second.size();
+         return n;
+      }
+
          /** Find the corresponding GLONASS ephemeris for the given epoch.
           *
           * @param sat     SatID of satellite of interest.
diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
index 5d3c3e6..fa52ff4 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
@@ -518,8 +518,10 @@ namespace gpstk
             case SatelliteSystem::BeiDou:
             case SatelliteSystem::QZSS:
                retTime = ORBstore.getInitialTime(sat);
+               break;
             case SatelliteSystem::Glonass:
                retTime = GLOstore.getInitialTime(sat);
+               break;
             //case SatelliteSystem::Geosync:
                //retTime = GEOstore.getInitialTime(sat);
             default:
@@ -551,8 +553,10 @@ namespace gpstk
             case SatelliteSystem::BeiDou:
             case SatelliteSystem::QZSS:
                retTime = ORBstore.getFinalTime(sat);
+               break;
             case SatelliteSystem::Glonass:
                retTime = GLOstore.getFinalTime(sat);
+               break;
             //case SatelliteSystem::Geosync:
                //retTime = GEOstore.getFinalTime(sat);
             default:
@@ -583,7 +587,8 @@ namespace gpstk
 
       if(keepOrb) {
          list<OrbitEph*> OElist;
-         ORBstore.addToList(OElist);
+         ORBstore.addToList(OElist, keepAll ? SatID(-1,SatelliteSystem::Unknown)
+                                            : sysSat);
 
          list<OrbitEph*>::const_iterator it;
          for(it=OElist.begin(); it != OElist.end(); ++it) {
@@ -613,11 +618,16 @@ namespace gpstk
       }
       if(keepGLO) {
          list<GloEphemeris> GLOlist;
-         n += GLOstore.addToList(GLOlist);
+         GLOstore.addToList(GLOlist);
 
          list<GloEphemeris>::const_iterator it;
-         for(it=GLOlist.begin(); it != GLOlist.end(); ++it)
-            theList.push_back(Rinex3NavData(*it));
+         for(it=GLOlist.begin(); it != GLOlist.end(); ++it) {
+            Rinex3NavData data(*it);
+            if(!keepAll && sysSat.id != -1 && data.sat.id != sysSat.id)
+               continue;
+            theList.push_back(data);
+            n++;
+         }
       }
       /*
       if(keepGEO) {
diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.hpp b/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
index 60481e8..a550e02 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
@@ -294,7 +294,7 @@ namespace gpstk
             n += ORBstore.size(sat);
 
          if(sys == SatelliteSystem::Mixed || sys == SatelliteSystem::Glonass)
-            n += GLOstore.size();
+            n += GLOstore.size(sat);
 
             //if(sys == SatelliteSystem::Mixed || sys == SatelliteSystem::Geosync)
             //   n += GEOstore.size();
diff --git a/core/lib/RefTime/TimeSystem.cpp b/core/lib/RefTime/TimeSystem.cpp
index 8877e0d..6048c79 100644
--- a/core/lib/RefTime/TimeSystem.cpp
+++ b/core/lib/RefTime/TimeSystem.cpp
@@ -225,6 +225,7 @@ namespace gpstk
          // TAI = TT - 32.184s
       if (inTS == TimeSystem::GPS ||       // GPS -> TAI
           inTS == TimeSystem::GAL ||       // GAL -> TAI
+          inTS == TimeSystem::QZS ||       // QZS -> TAI
           inTS == TimeSystem::IRN )        // IRN -> TAI
       {
          dt = TAI_minus_GPSGAL_EPOCH;
@@ -262,6 +263,7 @@ namespace gpstk
          // TT = TAI + 32.184s
       if (outTS == TimeSystem::GPS ||      // TAI -> GPS
           outTS == TimeSystem::GAL ||      // TAI -> GAL
+          outTS == TimeSystem::QZS ||      // TAI -> QZS
           outTS == TimeSystem::IRN )       // TAI -> IRN
       {
          dt -= TAI_minus_GPSGAL_EPOCH;
-- 
2.43.0


From a39a74508bf6a47a6336b854abb6c7e683ff78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 053/216] fix: RINEX observation header and data: scale
 factors, phase shifts, zero direction fields, record count, event epochs,
 version 2 time system and century

---
 .../lib/FileHandling/RINEX3/Rinex3ObsData.cpp |  16 +-
 .../FileHandling/RINEX3/Rinex3ObsHeader.cpp   | 221 ++++++++++++------
 .../FileHandling/RINEX3/Rinex3ObsHeader.hpp   |   4 +
 3 files changed, 160 insertions(+), 81 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 78836cb..b733e8f 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -83,10 +83,10 @@ namespace gpstk
          line += string(1, ' ');
          line += rightJustify(asString<short>(civTime.minute),2);
          line += rightJustify(asString(civTime.second, 7),11);
-         line += string(2, ' ');
-         line += rightJustify(asString<short>(rod.epochFlag), 1);
-         line += rightJustify(asString<short>(rod.numSVs), 3);
       }
+      line += string(2, ' ');
+      line += rightJustify(asString<short>(rod.epochFlag), 1);
+      line += rightJustify(asString<short>(rod.numSVs), 3);
 
          // write satellite ids to 'line'
       const size_t maxPrnsPerLine = 12;
@@ -456,11 +456,15 @@ namespace gpstk
                   ds=sec;
                   sec=0.0;
                }
+                  // the file may run over the end of the century that
+                  // the first observation is in
+               if(yy+year+50 < static_cast<CivilTime>(strm.header.firstObs).year)
+                  yy += 100;
                CivilTime rv(yy+year, month, day, hour, min, sec,
-                            TimeSystem::GPS);
-               if(ds != 0) rv.second += ds;
+                            strm.timesystem);
 
                rod.time = rv.convertToCommonTime();
+               if(ds != 0) rod.time += ds;
             }
          }
             // string exceptions for substr are caught here
@@ -788,7 +792,7 @@ namespace gpstk
    string Rinex3ObsData::writeTime(const CommonTime& ct) const
    {
       if(ct == CommonTime::BEGINNING_OF_TIME)
-         return string(26, ' ');
+         return string(28, ' ');
 
       CivilTime civtime(ct);
       string line;
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index ed8030d..35bdaa8 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -177,6 +177,7 @@ namespace gpstk
    {
       R2ObsTypes.clear();
       mapSysR2toR3ObsID.clear();
+      R2DisambiguityMap.clear();
       version = currentVersion;
       fileType = "O";          // observation data
       fileSys = "G";           // GPS only by default
@@ -231,6 +232,7 @@ namespace gpstk
          // "P" code in RINEX 2 stays the same.
          //PisY = false;
       sysPhaseShiftObsID = RinexObsID();
+      sysPhaseShiftCorr = 0.;
       satSysTemp.clear();
       satSysPrev.clear();
       numObs = 0;
@@ -238,6 +240,7 @@ namespace gpstk
       lastPRN = RinexSatID();
       factor = 0;
       factorPrev = 0;
+      factorObsRead = 0;
    }
 
 
@@ -282,6 +285,39 @@ namespace gpstk
    }  // end reallyPutRecord
 
 
+   /// How many lines hold num items, perLine to a line; never less than one.
+   static int numberLines(size_t num, size_t perLine)
+   {
+      return (num == 0) ? 1 : 1 + (num-1)/perLine;
+   }
+
+
+   /** Sort the satellites with a phase shift for one observable by
+    * the correction that is written for them: each correction has
+    * header records of its own.  A correction that applies to the
+    * whole system is held for the satellite with id -1, and comes
+    * first. */
+   static vector<pair<string, vector<RinexSatID> > >
+   groupPhaseShift(const map<RinexSatID,double>& satCorr)
+   {
+      vector<pair<string, vector<RinexSatID> > > groups;
+      for(const auto& sc : satCorr)
+      {
+         string corr(gpstk::StringUtils::asString(sc.second, 5));
+         size_t i(0);
+         while(i < groups.size() && (groups[i].first != corr ||
+                                     groups[i].second[0].id == -1))
+         {
+            i++;
+         }
+         if(i == groups.size())
+            groups.push_back(make_pair(corr, vector<RinexSatID>()));
+         groups[i].second.push_back(sc.first);
+      }
+      return groups;
+   }
+
+
       // This function computes the number of valid header records
       // which writeHeaderRecords will write.
       // NB not used in Rinex3Obs....
@@ -292,6 +328,7 @@ namespace gpstk
       if(valid & validVersion          ) n++;
       if(valid & validRunBy            ) n++;
       if(valid & validComment          ) n += commentList.size();
+      n += R2DisambiguityMap.size();
       if(valid & validMarkerName       ) n++;
       if(valid & validMarkerNumber     ) n++;
       if(version >= 3 && (valid & validMarkerType)) n++;
@@ -308,28 +345,73 @@ namespace gpstk
       if(version >= 3 && (valid & validCenterOfMass)) n++;
       if(version < 3 && (valid & validNumObs) && R2ObsTypes.size() != 0)
          n += 1 + (R2ObsTypes.size()-1)/9;
-      if(version >= 3 && (valid & validSystemNumObs) && numObs != 0)
-         n += 1 + (numObs-1)/9;
+      if(version >= 3 && (valid & validSystemNumObs))
+      {
+         map<string,unsigned> obsCount;
+         RinexObsMap dummy;
+         remapObsTypes(dummy, obsCount);
+         for(const auto& sysObs : mapObsTypes)
+            n += numberLines(obsCount[sysObs.first], 13);
+      }
       if(version < 3 && (valid & validWaveFact))
       {
          n++;
-         if(extraWaveFactList.size() != 0) n += extraWaveFactList.size();
+         for(const auto& ewf : extraWaveFactList)
+            n += (ewf.satList.size() + 6) / 7;
       }
       if(version >= 3 && (valid & validSigStrengthUnit)) n++;
       if(valid & validInterval         ) n++;
       if(valid & validFirstTime        ) n++;
       if(valid & validLastTime         ) n++;
       if(valid & validReceiverOffset   ) n++;
-      if(version >= 3 && (valid & validSystemDCBSapplied)) n++;
-      if(version >= 3 && (valid & validSystemPCVSapplied)) n++;
-      if(version >= 3 && (valid & validSystemScaleFac)) n++;
-      if(version >= 3.01 && (valid & validSystemPhaseShift)) n++;        // one per system at least
-      if(version >= 3.01 && (valid & validGlonassSlotFreqNo)) n++;  // TODO: continuation lines...
+      if(version >= 3 && (valid & validSystemDCBSapplied))
+         n += infoDCBS.size();
+      if(version >= 3 && (valid & validSystemPCVSapplied))
+         n += infoPCVS.size();
+      if(version >= 3 && (valid & validSystemScaleFac))
+      {
+         for(const auto& sysFac : sysSfacMap)
+         {
+            map<int,size_t> perFactor;
+            for(const auto& obsFac : sysFac.second)
+            {
+               if(obsFac.second == 1 || obsFac.second == 10 ||
+                  obsFac.second == 100 || obsFac.second == 1000)
+               {
+                  perFactor[obsFac.second]++;
+               }
+            }
+            for(const auto& fac : perFactor)
+               n += numberLines(fac.second, 12);
+         }
+      }
+      if(version >= 3.01 && (valid & validSystemPhaseShift))
+      {
+         for(const auto& sysShift : sysPhaseShift)
+         {
+            if(sysShift.second.empty()) n++;
+            for(const auto& obsShift : sysShift.second)
+            {
+               if(obsShift.first.type != ObservationType::Phase)
+                  continue;
+               for(const auto& group : groupPhaseShift(obsShift.second))
+                  n += numberLines(group.second.size(), 10);
+            }
+         }
+      }
+      if(version >= 3.01 && (valid & validGlonassSlotFreqNo))
+         n += (glonassFreqNo.size() + 7) / 8;
       if(version >= 3.02 && (valid & validGlonassCodPhsBias)) n++;
       if(valid & validLeapSeconds      ) n++;
       if(valid & validNumSats          ) n++;
       if(valid & validPrnObs           )
-         n += numObsForSat.size() * (1+numObsForSat.begin()->second.size()/9);
+      {
+         for(const auto& satObs : numObsForSat)
+         {
+            n += numberLines(version >= 3 ? satObs.second.size()
+                                          : R2ObsTypes.size(), 9);
+         }
+      }
       if(validEoH                      ) n++;
 
       return n;
@@ -831,8 +913,7 @@ namespace gpstk
                   line += string(1, ' ');
                   line += rightJustify(obsTypes[j], 3);
                }
-               int space = 60 - 10 - 4*(count % maxObsPerLine);
-               line += string(space, ' ');
+               line += string(60 - line.size(), ' ');
                line += hsSystemScaleFac;
                strm << line << endl;
                strm.lineNumber++;
@@ -859,49 +940,41 @@ namespace gpstk
             {
                for( ; jt!=it->second.end(); ++jt)
                {
-                  RinexSatID sat(jt->second.begin()->first);
-                  double corr(jt->second.begin()->second);
                   if (jt->first.type != ObservationType::Phase)
                   {
                         // Phase shift only makes sense for phase measurements.
                      continue;
                   }
-                  line = sys + " ";
-                  line += leftJustify(jt->first.asString(version),3) + " ";
-                  line += rightJustify(asString(corr,5),8);
-                  if(sat.id == -1)
+                  for(const auto& group : groupPhaseShift(jt->second))
                   {
+                     const vector<RinexSatID>& sats(group.second);
+                     line = sys + " ";
+                     line += leftJustify(jt->first.asString(version),3) + " ";
+                     line += rightJustify(group.first,8);
+                     if(sats[0].id != -1)
+                     {
+                           // list of sats
+                        line += string("  ") +
+                           rightJustify(asString(sats.size()),2);
+                        for(size_t n=0; n<sats.size(); n++)
+                        {
+                           if(n != 0 && (n % 10) == 0)
+                           {
+                                 // end this line and start a continuation line
+                              line += string(60-line.length(), ' ');
+                              line += hsSystemPhaseShift;
+                              strm << line << endl;
+                              strm.lineNumber++;
+                              line = string(18,' ');
+                           }
+                           line += string(" ") + sats[n].toString();
+                        }
+                     }
                      line += string(60-line.length(), ' ');
                      line += hsSystemPhaseShift;
                      strm << line << endl;
                      strm.lineNumber++;
-                  }
-                  else
-                  {
-                        // list of sats
-                     setfill('0');
-                     line += string("  ") + rightJustify(asString(jt->second.size()),2);
-                     setfill(' ');
-
-                     int n(0);
-                     map<RinexSatID,double>::const_iterator kt,lt;
-                     for(kt=jt->second.begin(); kt!=jt->second.end(); ++kt)
-                     {
-                        line += string(" ") + kt->first.toString();
-                        if(++n == 10 || ++(lt=kt) == jt->second.end())
-                        {
-                              // end this line
-                           line += string(60-line.length(), ' ');
-                           line += hsSystemPhaseShift;
-                           strm << line << endl;
-                           strm.lineNumber++;
-                           n = 0;
-                              // are there more for a continuation line?
-                           if(lt != jt->second.end())
-                              line = string(18,' ');
-                        } // if(++n == 10 || ++(lt=kt) == jt->second.end())
-                     } // for(kt=jt->second.begin(); kt!=jt->second.end(); ++kt)
-                  } // else
+                  } // for(const auto& group : groupPhaseShift(jt->second))
                } // for( ; jt!=it->second.end(); ++jt)
             } // else
          } // for(it=sysPhaseShift.begin(); it!=sysPhaseShift.end(); ++it)
@@ -1172,14 +1245,14 @@ namespace gpstk
       else if(label == hsAntennaZeroDirAzi)
       {
          antennaZeroDirAzi = asDouble(line.substr(0,14));
-         valid |= validAntennaBsightXYZ;
+         valid |= validAntennaZeroDirAzi;
       }
       else if(label == hsAntennaZeroDirXYZ)
       {
          antennaZeroDirXYZ[0] = asDouble(line.substr( 0,14));
          antennaZeroDirXYZ[1] = asDouble(line.substr(14,14));
          antennaZeroDirXYZ[2] = asDouble(line.substr(28,14));
-         valid |= validAntennaBsightXYZ;
+         valid |= validAntennaZeroDirXYZ;
       }
       else if(label == hsCenterOfMass)
       {
@@ -1336,37 +1409,34 @@ namespace gpstk
          factor     = asInt(line.substr(2,4));
          numObs     = asInt(line.substr(8,2));
 
-         int startPosition = 0;
-
          if(satSysTemp == "" )
          {
                // it's a continuation line; use prev. info., end pt. to start
             satSysTemp = satSysPrev;
             factor     = factorPrev;
             numObs     = numObsPrev;
-
-            startPosition = sysSfacMap[satSysTemp].size();
+         }
+         else
+         {
+            factorObsRead = 0;
          }
 
-            // 0/blank numObs means factor applies to all obs types
-            // in appropriate obsTypeList
+         ScaleFacMap& sfacMap(sysSfacMap[satSysTemp]);
          if(numObs == 0)
-            numObs = mapObsTypes[satSysTemp].size();
+         {
+               // 0/blank numObs means factor applies to all obs types
+               // in appropriate obsTypeList
+            for(const auto& obsID : mapObsTypes[satSysTemp])
+               sfacMap.insert(make_pair(obsID,factor));
+         }
 
-         ScaleFacMap tempSfacMap = sysSfacMap[satSysTemp];
-         for(i = startPosition;
-             (i < numObs) && ((i % maxObsPerLine) < maxObsPerLine); i++)
+         for(i = 0; (i < maxObsPerLine) && (factorObsRead < numObs);
+             i++, factorObsRead++)
          {
-            int position = 4*(i % maxObsPerLine) + 10 + 1;
-            RinexObsID tempType(satSysTemp+strip(line.substr(position,3)),
+            RinexObsID tempType(satSysTemp+strip(line.substr(4*i+11,3)),
                                 version);
-            tempSfacMap.insert(make_pair(tempType,factor));
+            sfacMap.insert(make_pair(tempType,factor));
          }
-         sysSfacMap[satSysTemp] = tempSfacMap;
-
-         ScaleFacMap::const_iterator iter;
-         ScaleFacMap tempmap;
-         tempmap = sysSfacMap[satSysTemp];
 
             // save values in case next line is a continuation line
          satSysPrev = satSysTemp;
@@ -1397,13 +1467,12 @@ namespace gpstk
             }
 
             map<RinexSatID,double>& satcorrmap(sysPhaseShift[satSysTemp][sysPhaseShiftObsID]);
-            double cor(sysPhaseShift[satSysTemp][sysPhaseShiftObsID].begin()->second);
             for(i=0; i<10; i++)
             {
                string str = strip(line.substr(19+4*i,3));
                if(str.empty()) break;
                sat = RinexSatID(str);
-               satcorrmap.insert(make_pair(sat,cor));
+               satcorrmap.insert(make_pair(sat,sysPhaseShiftCorr));
             }
          }
          else
@@ -1425,26 +1494,26 @@ namespace gpstk
                RinexObsID obsid(satSysTemp+str, version);
                double cor(asDouble(strip(line.substr(6,8))));
                int nsat(asInt(strip(line.substr(16,2))));
+                  // there may be more than one correction for this obsid
+               map<RinexSatID,double>& satcorrmap(
+                  sysPhaseShift[satSysTemp][obsid]);
                if(nsat > 0)
                {
                      // list of sats
-                  map<RinexSatID,double> satcorrmap;
                   for(i=0; i<(nsat < 10 ? nsat : 10); i++)
                   {
                      sat = RinexSatID(strip(line.substr(19+4*i,3)));
                      satcorrmap.insert(make_pair(sat,cor));
                   }
-                  sysPhaseShift[satSysTemp].insert(make_pair(obsid,satcorrmap));
-                  if(nsat > 10)        // expect continuation
-                     sysPhaseShiftObsID = obsid;
                }
                else
                {
                      // no sat, just system
-                  map<RinexSatID,double> satcorrmap;
                   satcorrmap.insert(make_pair(sat,cor));
-                  sysPhaseShift[satSysTemp].insert(make_pair(obsid,satcorrmap));
                }
+                  // in case there is a continuation line
+               sysPhaseShiftObsID = obsid;
+               sysPhaseShiftCorr = cor;
             }
 
                // save for continuation lines
@@ -2126,7 +2195,7 @@ namespace gpstk
       // and data, call before writing
    void Rinex3ObsHeader::prepareVer2Write(void)
    {
-      if(version > 3)
+      if(version >= 3)
       {
          version = 2.11;
       }
@@ -2142,6 +2211,7 @@ namespace gpstk
          // make a list of R2 obstype strings, and a map R3ObsIDs <=
          // R2 obstypes for each system
       R2ObsTypes.clear();
+      R2DisambiguityMap.clear();
       map<string,vector<RinexObsID> >::const_iterator mit;
       for (mit = mapObsTypes.begin(); mit != mapObsTypes.end(); mit++)
       {
@@ -2226,7 +2296,8 @@ namespace gpstk
                   }
                   else
                   {
-                     R2DisambiguityMap[sysString + R2ot] = lab;
+                     R2DisambiguityMap[sysString + R2ot] =
+                        mapR2toR3ObsID[R2ot].asString(version);
                   }
                }
             }
@@ -2344,7 +2415,7 @@ namespace gpstk
            << setprecision(4) << antennaZeroDirXYZ << endl;
       if(valid & validCenterOfMass     )
          s << "Center of Mass   (XYZ,m) : "
-           << setprecision(4) << antennaPhaseCtr   << endl;
+           << setprecision(4) << centerOfMass   << endl;
       if(valid & validSigStrengthUnit  )
          s << "Signal Strength Unit = " << sigStrengthUnit << endl;
       if(valid & validInterval         )
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.hpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.hpp
index 9e30bc4..48a6b4d 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.hpp
@@ -661,6 +661,8 @@ namespace gpstk
 
          /// save ObsID for cont. "PHASE SHIFT" R3.01
       RinexObsID sysPhaseShiftObsID;
+         /// save correction for cont. "PHASE SHIFT" R3.01
+      double sysPhaseShiftCorr;
          /// save the syschar while reading ScaleFactor
       std::string satSysTemp;
          /// recall the prev sat. sys for continuation lines.
@@ -673,6 +675,8 @@ namespace gpstk
       RinexSatID lastPRN;
          /// Scale factor holding data for continuation lines.
       int factor, factorPrev;
+         /// Number of obs types already read for the current scale factor.
+      int factorObsRead;
 
    }; // end class Rinex3ObsHeader
 
-- 
2.43.0


From 7092c95e6f940e0efc4a23d2a1ce62a1c6065c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 054/216] fix: reading damaged files: bounds, failed-read
 state, uninitialised members

Short or overlong lines made several readers index past the end of a line,
a vector or the IONEX grid, numbers out of range were converted to integers,
ANTEX parsing state and RINEX 3 navigation members depended on earlier reads
or on memory, and some errors escaped the FFStream contract (exceptions when
disabled, position/line number not restored, reads ending without failbit).
---
 core/lib/FileHandling/Binex/BinexData.cpp     | 15 +++--
 core/lib/FileHandling/FFBinaryStream.cpp      | 12 ++++
 core/lib/FileHandling/FFStream.cpp            | 36 +++++++++++
 core/lib/FileHandling/FFTextStream.cpp        |  7 +++
 .../lib/FileHandling/RINEX/RinexClockData.cpp |  4 +-
 core/lib/FileHandling/RINEX/RinexNavData.cpp  | 33 +++++++---
 core/lib/FileHandling/RINEX/RinexObsData.cpp  | 12 ++--
 .../lib/FileHandling/RINEX3/Rinex3NavData.cpp | 63 ++++++++++++-------
 .../lib/FileHandling/RINEX3/Rinex3NavData.hpp | 20 +++---
 .../lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 14 ++---
 .../FileHandling/RINEX3/Rinex3ObsHeader.cpp   |  2 +-
 core/lib/Utilities/StringUtils.cpp            | 54 +++++++++++-----
 ext/lib/FileHandling/Ionex/IonexData.cpp      | 21 ++++---
 ext/lib/FileHandling/Ionex/IonexData.hpp      | 10 ++-
 ext/lib/FileHandling/Ionex/IonexHeader.cpp    | 35 ++++++++---
 ext/lib/FileHandling/Ionex/IonexHeader.hpp    |  6 ++
 ext/lib/FileHandling/Yuma/YumaData.cpp        |  9 ++-
 ext/lib/Geomatics/AntexData.cpp               | 19 ++++--
 ext/lib/Geomatics/AntexData.hpp               | 18 +++++-
 19 files changed, 294 insertions(+), 96 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index a211aa1..824c1e7 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1296,6 +1296,13 @@ namespace gpstk
          }
       }
 
+         // without stream exceptions, EOF is only visible in the state
+      if ( (strm.gcount() == 0) && strm.eof() )
+      {
+         EndOfFile err("EOF encountered");
+         GPSTK_THROW(err);
+      }
+
       try
       {
          if (isHeadSyncByteValid(syncBuf, expectedSyncByte) )
@@ -1319,13 +1326,13 @@ namespace gpstk
                // The vector's memory will be reclaimed in all exit conditions
                // since the vector is allocated on the stack.
             std::vector<char>  msgBuf(msgLen);
-            strm.read((char*)&msgBuf[0], msgLen);
+            strm.read(msgBuf.data(), msgLen);
             if (!strm.good() || ((unsigned long)strm.gcount() != msgLen) )
             {
                FFStreamError err("Incomplete BINEX record message");
                GPSTK_THROW(err);
             }
-            msg.assign((char*)&msgBuf[0], msgLen);
+            msg.assign(msgBuf.data(), msgLen);
 
                // Check CRC - first calculate expected, then read actual,
                // then compare.
@@ -1355,13 +1362,13 @@ namespace gpstk
 
                // Read the entire remainder of the record into memory
             std::vector<char>  revRecVec(revRecSize);
-            strm.read( (char*)&revRecVec[0], revRecSize);
+            strm.read( revRecVec.data(), revRecSize);
             if (!strm.good() || ((unsigned long)strm.gcount() != revRecSize) )
             {
                FFStreamError err("Incomplete BINEX record message");
                GPSTK_THROW(err);
             }
-            std::string revRecBuf( (char*)&revRecVec[0], revRecSize);
+            std::string revRecBuf( revRecVec.data(), revRecSize);
             reverseBuffer(revRecBuf, revRecSize);
 
             if (revRecBuf[0] != expectedSyncByte)
diff --git a/core/lib/FileHandling/FFBinaryStream.cpp b/core/lib/FileHandling/FFBinaryStream.cpp
index b23d99f..fe4c90c 100644
--- a/core/lib/FileHandling/FFBinaryStream.cpp
+++ b/core/lib/FileHandling/FFBinaryStream.cpp
@@ -100,6 +100,18 @@ namespace gpstk
          FFStreamError err("Unknown exception");
          GPSTK_THROW(err);
       }
+
+         // without stream exceptions, a short read is only visible here
+      if (gcount() != (std::streamsize)length)
+      {
+         if (eof())
+         {
+            EndOfFile err("EOF encountered");
+            GPSTK_THROW(err);
+         }
+         FFStreamError err("Error reading data");
+         GPSTK_THROW(err);
+      }
    } // end of getData(char*, size_t))
 
 
diff --git a/core/lib/FileHandling/FFStream.cpp b/core/lib/FileHandling/FFStream.cpp
index d553fc4..5e84591 100644
--- a/core/lib/FileHandling/FFStream.cpp
+++ b/core/lib/FileHandling/FFStream.cpp
@@ -189,6 +189,15 @@ namespace gpstk
             e.addText("In file " + filename);
             e.addLocation(FILE_LOCATION);
             mostRecentException = e;
+               // ... unless the last line is a lone CR without LF
+            try
+            {
+               if (!fail())
+                  setstate(std::ios::failbit);
+            }
+            catch (std::ios_base::failure&)
+            {
+            }
          }
          catch (std::exception &e)
          {
@@ -231,6 +240,20 @@ namespace gpstk
             setstate(std::ios::failbit);
             conditionalThrow();
           
+         }
+            // any other library exception is a failed read like those above
+         catch (gpstk::Exception& e)
+         {
+            mostRecentException = FFStreamError(e);
+            mostRecentException.addText("In record " +
+                                        gpstk::StringUtils::asString(recordNumber));
+            mostRecentException.addText("In file " + filename);
+            mostRecentException.addLocation(FILE_LOCATION);
+            clear();
+            seekg(initialPosition);
+            recordNumber = initialRecordNumber;
+            setstate(std::ios::failbit);
+            conditionalThrow();
          }
       }
          // this is if you throw an FFStream error in the above catch
@@ -335,6 +358,19 @@ namespace gpstk
             setstate(std::ios::failbit);
             conditionalThrow();
          }
+            // any other library exception is a failed write like those above
+         catch (gpstk::Exception& e)
+         {
+            mostRecentException = FFStreamError(e);
+            mostRecentException.addText("In record " +
+                                        gpstk::StringUtils::asString(recordNumber));
+            mostRecentException.addText("In file " + filename);
+            mostRecentException.addLocation(FILE_LOCATION);
+            seekg(initialPosition);
+            recordNumber = initialRecordNumber;
+            setstate(std::ios::failbit);
+            conditionalThrow();
+         }
       }
          // this is if you throw an FFStream error in the above catch
          // block because the catch(...) below will mask it otherwise.
diff --git a/core/lib/FileHandling/FFTextStream.cpp b/core/lib/FileHandling/FFTextStream.cpp
index 494a67b..bbf9393 100644
--- a/core/lib/FileHandling/FFTextStream.cpp
+++ b/core/lib/FileHandling/FFTextStream.cpp
@@ -108,6 +108,11 @@ namespace gpstk
       try
       {
          FFStream::tryFFStreamGet(rec);
+            // a failed read restores the position; EOF does not
+         if (fail() && !eof())
+         {
+            lineNumber = initialLineNumber;
+         }
       }
       catch(gpstk::Exception& e)
       {
@@ -151,6 +156,8 @@ namespace gpstk
    {
       try
       {
+            // getline leaves the string as it was if the stream is at EOF
+         line.clear();
          std::getline(*this, line);
             // Remove CR characters left over in the buffer from windows files
          size_t crpos = line.find_last_not_of('\r');
diff --git a/core/lib/FileHandling/RINEX/RinexClockData.cpp b/core/lib/FileHandling/RINEX/RinexClockData.cpp
index 46686d4..cda5333 100644
--- a/core/lib/FileHandling/RINEX/RinexClockData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexClockData.cpp
@@ -158,8 +158,8 @@ namespace gpstk
          GPSTK_THROW(e);
       }
 
-      if ( line[2]  != ' ' || line[7]  != ' ' ||
-           line[37] != ' ' || line[38] != ' ' )
+      if ( line.at(2)  != ' ' || line.at(7)  != ' ' ||
+           line.at(37) != ' ' || line.at(38) != ' ' )
       {
             // invalid record - throw
          FFStreamError e("Invalid clock record.");
diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index aa0e058..32d3961 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -41,6 +41,8 @@
  * Encapsulates RINEX Navigation data
  */
 
+#include <cmath>
+
 #include "StringUtils.hpp"
 
 #include "CommonTime.hpp"
@@ -54,6 +56,18 @@
 
 namespace gpstk
 {
+      // Convert a number read from a record to short, refusing those
+      // which have no such value
+   static short toShort(double value)
+   {
+      if (!(value > -32769.0 && value < 32768.0))
+      {
+         FFStreamError err("Value out of range");
+         GPSTK_THROW(err);
+      }
+      return (short) value;
+   }
+
    using namespace gpstk::StringUtils;
    using namespace std;
 
@@ -145,7 +159,7 @@ namespace gpstk
       s << "PRN: " << setw(2) << PRNID
         << " TOE: " << printTime(getToeTime(), "%02m/%02d/%04Y %02H:%02M:%02S")
         << " TOC: " << printTime(time, "%4F %10.3g")
-        << " IODE: " << setw(4) << int(IODE)            // IODE should be int
+        << " IODE: " << setw(4) << asString(std::trunc(double(IODE)),0)            // IODE should be int
         << " HOWtime: " << setw(6) << getHOWWS().sow;   // HOW should be double
       return s.str();
    }
@@ -155,7 +169,7 @@ namespace gpstk
       s << "PRN: " << setw(2) << PRNID
         << " TOE: " << printTime(getToeTime(), "%02m/%02d/%04Y %02H:%02M:%02S")
         << " TOC: " << printTime(time, "%02m/%02d/%04Y %02H:%02M:%02S")
-        << " IODE: " << setw(4) << int(IODE)            // IODE should be int
+        << " IODE: " << setw(4) << asString(std::trunc(double(IODE)),0)            // IODE should be int
         << " HOWtime: " << setw(6) << getHOWWS().sow    // HOW should be double
         << endl;
    }
@@ -301,7 +315,7 @@ namespace gpstk
       {
             // check for spaces in the right spots...
          for (int i = 2; i <= 17; i += 3)
-            if (currentLine[i] != ' ')
+            if (currentLine.at(i) != ' ')
                throw(FFStreamError("Badly formatted line"));
 
          PRNID = asInt(currentLine.substr(0,2));
@@ -421,9 +435,9 @@ namespace gpstk
          toe_wn = currentLine.substr(41,19);
          L2P = currentLine.substr(60,19);
 
-         codeflgs = (short) codeL2;
-         L2Pdata = (short) L2P;
-         toeWeek = (short) toe_wn;
+         codeflgs = toShort(codeL2);
+         L2Pdata = toShort(L2P);
+         toeWeek = toShort(toe_wn);
       }
       catch (std::exception &e)
       {
@@ -445,7 +459,7 @@ namespace gpstk
          IODC = currentLine.substr(60,19);
 
 
-         health = (short) SV_health;
+         health = toShort(SV_health);
       }
       catch (std::exception &e)
       {
@@ -467,6 +481,11 @@ namespace gpstk
             //could lead to failures in round-trip testing, though if
             //that happens your transmit time is messed).
             //setXmitTime(HOW_sec);
+         if (!(std::fabs(double(HOW_sec)) < 9.0e18))
+         {
+            FFStreamError err("Value out of range");
+            GPSTK_THROW(err);
+         }
          sf1XmitTime = HOW_sec;
          fitint = currentLine.substr(22,19);
       }
diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index 864a082..66f0ab7 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -362,12 +362,12 @@ namespace gpstk
       {
             // check if the spaces are in the right place - an easy
             // way to check if there's corruption in the file
-         if ( (line[0] != ' ') ||
-              (line[3] != ' ') ||
-              (line[6] != ' ') ||
-              (line[9] != ' ') ||
-              (line[12] != ' ') ||
-              (line[15] != ' '))
+         if ( (line.at(0) != ' ') ||
+              (line.at(3) != ' ') ||
+              (line.at(6) != ' ') ||
+              (line.at(9) != ' ') ||
+              (line.at(12) != ' ') ||
+              (line.at(15) != ' '))
          {
             FFStreamError e("Invalid time format");
             GPSTK_THROW(e);
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 02fd93a..4cf1064 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -39,6 +39,8 @@
 /// @file Rinex3NavData.cpp
 /// Encapsulates RINEX 3 Navigation data.
 
+#include <cmath>
+#include <limits>
 #include "Rinex3NavData.hpp"
 
 #include "CivilTime.hpp"
@@ -52,6 +54,21 @@
 
 namespace gpstk
 {
+      // Read a floating point field which is stored as an integer, refusing
+      // the values which have no such representation.
+   template <class T>
+   static T intField(const std::string& field)
+   {
+      const double value(std::trunc(RNDouble(field)));
+      const double lowest(std::numeric_limits<T>::min());
+      if (!(value >= lowest && value < -lowest))
+      {
+         FFStreamError err("Value out of range: " + field);
+         GPSTK_THROW(err);
+      }
+      return static_cast<T>(value);
+   }
+
    using namespace StringUtils;
    using namespace std;
 
@@ -492,7 +509,7 @@ namespace gpstk
            << " " << fixed << setw(10) << setprecision(3) << Toe.val
            << " TOC: " << printTime(time,"%4Y %02m %02d %02H %02M %06.3f %P")
            << " xmitTime: " << setw(6) << xmitTime
-           << " IODE/C: " << int(IODE) << "/" << int(IODC)
+           << " IODE/C: " << asString(std::trunc(double(IODE)),0) << "/" << asString(std::trunc(double(IODC)),0)
            << " hlth: " << health
            << " cflgs: " << codeflgs << " L2P: " << L2Pdata
            << " fit: " << fitint.val;
@@ -528,7 +545,7 @@ namespace gpstk
            << " " << fixed << setw(10) << setprecision(3) << Toe.val
            << " TOC: " << printTime(time,"%4Y %02m %02d %02H %02M %06.3f %P")
            << " xmitTime: " << setw(6) << xmitTime
-           << " IODnav: " << int(IODnav) << " hlth: " << health
+           << " IODnav: " << asString(std::trunc(double(IODnav)),0) << " hlth: " << health
            << " datasources " << datasources;
       }
       else if (satSys == "C")
@@ -538,7 +555,7 @@ namespace gpstk
            << " " << fixed << setw(10) << setprecision(3) << Toe.val
            << " TOC: " << printTime(time,"%4Y %02m %02d %02H %02M %06.3f %P")
            << " xmitTime: " << setw(6) << xmitTime
-           << " IODE/C: " << int(IODE) << "/" << int(IODC);
+           << " IODE/C: " << asString(std::trunc(double(IODE)),0) << "/" << asString(std::trunc(double(IODC)),0);
       }
       else
       {
@@ -1252,11 +1269,11 @@ namespace gpstk
          if (strm.header.version >= 3)
          {
             // check for spaces in the right spots...
-            if (line[3] != ' ')
+            if (line.at(3) != ' ')
                GPSTK_THROW(FFStreamError("Badly formatted epoch line"));
             for(i = 8; i <= 20; i += 3)
             {
-               if (line[i] != ' ')
+               if (line.at(i) != ' ')
                {
                   GPSTK_THROW(FFStreamError("Badly formatted epoch line"));
                }
@@ -1278,7 +1295,7 @@ namespace gpstk
                // RINEX 2
             for(i=2; i <= 17; i+=3)
             {
-               if (line[i] != ' ')
+               if (line.at(i) != ' ')
                {
                   GPSTK_THROW(FFStreamError("Badly formatted epoch line"));
                }
@@ -1336,11 +1353,11 @@ namespace gpstk
             {
                TauN   =      line.substr(22,19);
                GammaN =      line.substr(41,19);
-               MFtime =      RNDouble(line.substr(60,19));
+               MFtime =      intField<long>(line.substr(60,19));
                if (satSys == "R")
                {
                      // make MFtime consistent with R3.02
-                  MFtime += int(Toc/86400) * 86400;
+                  MFtime += std::trunc(Toc/86400) * 86400;
                }
             }
          }
@@ -1355,7 +1372,7 @@ namespace gpstk
          {
             TauN   =      line.substr(23,19);
             GammaN =      line.substr(42,19);
-            MFtime =      RNDouble(line.substr(61,19));
+            MFtime =      intField<long>(line.substr(61,19));
          }
       }
       catch (std::exception &e)
@@ -1401,7 +1418,7 @@ namespace gpstk
                px     =        line.substr(n,19); n+=19;
                vx     =        line.substr(n,19); n+=19;
                ax     =        line.substr(n,19); n+=19;
-               health =        RNDouble(line.substr(n,19));
+               health =        intField<short>(line.substr(n,19));
             }
          }
 
@@ -1422,7 +1439,7 @@ namespace gpstk
                ay      =        line.substr(n,19); n+=19;
                if (satSys == "R")
                {
-                  freqNum = RNDouble(line.substr(n,19));
+                  freqNum = intField<short>(line.substr(n,19));
                }
                else                       // GEO
                {
@@ -1470,15 +1487,15 @@ namespace gpstk
             if (satSys == "G" || satSys == "J" || satSys == "C")
             {
                idot     =        line.substr(n,19); n+=19;
-               codeflgs = RNDouble(line.substr(n,19)); n+=19;
-               weeknum  = RNDouble(line.substr(n,19)); n+=19;
-               L2Pdata  = RNDouble(line.substr(n,19));
+               codeflgs = intField<short>(line.substr(n,19)); n+=19;
+               weeknum  = intField<short>(line.substr(n,19)); n+=19;
+               L2Pdata  = intField<short>(line.substr(n,19));
             }
             else if (satSys == "E")
             {
                idot        =       line.substr(n,19); n+=19;
-               datasources =RNDouble(line.substr(n,19)); n+=19;
-               weeknum     =RNDouble(line.substr(n,19)); n+=19;
+               datasources =intField<short>(line.substr(n,19)); n+=19;
+               weeknum     =intField<short>(line.substr(n,19)); n+=19;
             }
          }
 
@@ -1488,21 +1505,21 @@ namespace gpstk
             if (satSys == "G" || satSys == "J")
             {
                accuracy =       line.substr(n,19); n+=19;
-               health   = RNDouble(line.substr(n,19)); n+=19;
+               health   = intField<short>(line.substr(n,19)); n+=19;
                Tgd      =       line.substr(n,19); n+=19;
                IODC     =       line.substr(n,19);
             }
             else if (satSys == "E")
             {
                accuracy =       line.substr(n,19); n+=19;
-               health   = RNDouble(line.substr(n,19)); n+=19;
+               health   = intField<short>(line.substr(n,19)); n+=19;
                Tgd      =       line.substr(n,19); n+=19;
                Tgd2     =       line.substr(n,19);
             }
             else if (satSys == "C")
             {
                accuracy =       line.substr(n,19); n+=19;
-               health   = RNDouble(line.substr(n,19)); n+=19;
+               health   = intField<short>(line.substr(n,19)); n+=19;
                Tgd      =       line.substr(n,19); n+=19;
                Tgd2     =       line.substr(n,19);
             }
@@ -1510,7 +1527,7 @@ namespace gpstk
 
          else if (nline == 7)
          {
-            xmitTime = RNDouble(line.substr(n,19)); n+=19;
+            xmitTime = intField<long>(line.substr(n,19)); n+=19;
             if (satSys == "C")
             {
                IODC    =        line.substr(n,19); n+=19;
@@ -1521,9 +1538,11 @@ namespace gpstk
             }
    
             // Some RINEX files have xmitTime < 0.
-            while(xmitTime < 0)
+            if(xmitTime < 0)
             {
-               xmitTime += (long)FULLWEEK;
+               xmitTime %= (long)FULLWEEK;
+               if(xmitTime < 0)
+                  xmitTime += (long)FULLWEEK;
             }
    
             // In RINEX *files*, weeknum is the week of TOE.
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
index 0ed0440..4a67aef 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
@@ -158,20 +158,20 @@ namespace gpstk
          //@{
       CommonTime time;     ///< Time according to the sat/epoch record (TOC)
       std::string satSys;  ///< Satellite system of Epoch: G,R,E,S,C
-      short PRNID;         ///< SV PRN ID
+      short PRNID = 0;         ///< SV PRN ID
       RinexSatID sat;      ///< RinexSatID (from PRNID & satSys)
-      long xmitTime;       ///< Time of subframe 1-3 (sec of week)
-      short weeknum;       ///< GPS full week corresponding to HOWtime of SF1
+      long xmitTime = 0;       ///< Time of subframe 1-3 (sec of week)
+      short weeknum = 0;       ///< GPS full week corresponding to HOWtime of SF1
                            ///< (N.B.:in RINEX files, week number corresponds
                            /// >to ToE, not GLO)
       RNDouble accuracy;   ///< SV accuracy (m)
-      short health;        ///< SV health
+      short health = 0;        ///< SV health
          //@}
 
          /** @name GPS Data */
          //@{
-      short   codeflgs;    ///< L2 codes
-      short   L2Pdata;     ///< L2 P data flag 
+      short   codeflgs = 0;    ///< L2 codes
+      short   L2Pdata = 0;     ///< L2 P data flag 
       RNDouble  IODC;      ///< Index of data-clock
       RNDouble  IODE;      ///< Index of data-eph
          //@}
@@ -180,15 +180,15 @@ namespace gpstk
          //@{
       RNDouble  TauN;      ///< SV clock bias (sec)
       RNDouble  GammaN;    ///< SV relative frequency bias
-      double  MFTraw;      ///< Message frame time (sec of UTC week) <double>
-      long    MFtime;      ///< Message frame time (sec of UTC week) <long>
-      short   freqNum;     ///< Frequency number (-7..+12)
+      double  MFTraw = 0;      ///< Message frame time (sec of UTC week) <double>
+      long    MFtime = 0;      ///< Message frame time (sec of UTC week) <long>
+      short   freqNum = 0;     ///< Frequency number (-7..+12)
       RNDouble  ageOfInfo; ///< Age of oper. information (days)
          //@}
 
          /** @name GAL Data */
          //@{
-      short   datasources; ///< Data sources
+      short   datasources = 0; ///< Data sources
       RNDouble  IODnav;    ///< Index of data-eph
          //@}
 
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index b733e8f..2b977e9 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -387,7 +387,7 @@ namespace gpstk
          strm.formattedGetLine(line, true);
       StringUtils::stripTrailing(line);
 
-      if(line.size()>80 || line[0] != ' ' || line[3] != ' ' || line[6] != ' ')
+      if(line.size()>80 || line.at(0) != ' ' || line.at(3) != ' ' || line.at(6) != ' ')
       {
          FFStreamError e("Bad epoch line: >" + line + "<");
          GPSTK_THROW(e);
@@ -423,8 +423,8 @@ namespace gpstk
          {
                // check if the spaces are in the right place - an easy
                // way to check if there's corruption in the file
-            if((line[0] != ' ') || (line[3] != ' ') || (line[6] != ' ') ||
-               (line[9] != ' ') || (line[12] != ' ') || (line[15] != ' '))
+            if((line.at(0) != ' ') || (line.at(3) != ' ') || (line.at(6) != ' ') ||
+               (line.at(9) != ' ') || (line.at(12) != ' ') || (line.at(15) != ' '))
             {
                FFStreamError e("Invalid time format");
                GPSTK_THROW(e);
@@ -628,7 +628,7 @@ namespace gpstk
 
          // Check and parse the epoch line -----------------------------------
          // Check for epoch marker ('>') and following space.
-      if(line[0] != '>' || line[1] != ' ')
+      if(line.at(0) != '>' || line.at(1) != ' ')
       {
          FFStreamError e("Bad epoch line: >" + line + "<");
          GPSTK_THROW(e);
@@ -739,9 +739,9 @@ namespace gpstk
       {
             // check if the spaces are in the right place - an easy
             // way to check if there's corruption in the file
-         if( (line[ 1] != ' ') || (line[ 6] != ' ') || (line[ 9] != ' ') ||
-             (line[12] != ' ') || (line[15] != ' ') || (line[18] != ' ') ||
-             (line[29] != ' ') || (line[30] != ' '))
+         if( (line.at(1) != ' ') || (line.at(6) != ' ') || (line.at(9) != ' ') ||
+             (line.at(12) != ' ') || (line.at(15) != ' ') || (line.at(18) != ' ') ||
+             (line.at(29) != ' ') || (line.at(30) != ' '))
          {
             FFStreamError e("Invalid time format");
             GPSTK_THROW(e);
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 35bdaa8..83f4c3c 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -1772,7 +1772,7 @@ namespace gpstk
             {
                if(mapSysR2toR3ObsID[sys][R2ObsTypes[i]].asString(version) == string("   "))
                   ;
-               else
+               else if(i < it->second.size())
                   vec.push_back(it->second[i]);
             }
             numObsForSat[sat] = vec;
diff --git a/core/lib/Utilities/StringUtils.cpp b/core/lib/Utilities/StringUtils.cpp
index d95505f..79c7a2a 100644
--- a/core/lib/Utilities/StringUtils.cpp
+++ b/core/lib/Utilities/StringUtils.cpp
@@ -41,6 +41,8 @@
  * Implementation of GPSTK string utility functions.
  */
 
+#include <cmath>
+#include <cstdlib>
 #include "StringUtils.hpp"
 
 /* The DEBUG_COL macro is used to help debug issues with column
@@ -207,6 +209,21 @@ namespace gpstk
       }
 
 
+         // Add 1 to the exponent of the scientific notation s of d, that
+         // is multiply the number by 10 (which may be no double).
+      static std::string exponentPlusOne(const std::string& s, double d)
+      {
+         std::string::size_type pos = s.find('e');
+         if ((d == 0) || (pos == std::string::npos))
+            return s;
+         int exp = std::atoi(s.c_str() + pos + 1) + 1;
+         std::ostringstream oss;
+         oss << s.substr(0, pos+1) << (exp < 0 ? '-' : '+') << std::setw(2)
+             << std::setfill('0') << std::abs(exp);
+         return oss.str();
+      }
+
+
       std::string floatFormat(double d, FFLead lead, unsigned mantissa,
                               unsigned exponent, unsigned width, char expChar,
                               FFSign sign, FFAlign align)
@@ -227,15 +244,20 @@ namespace gpstk
                oss << std::showpos;
                break;
          }
-         switch (lead)
+         if (!std::isfinite(d))
+         {
+               // there are no digits to arrange
+            oss << d;
+            rv = oss.str();
+         }
+         else switch (lead)
          {
             case FFLead::Zero:
-                  // because we're shifting the decimal point, we multiply by 10
                   // mantissa-2 because we're adding a digit that
                   // isn't present in std c++ iostream.
-               oss << std::scientific << std::setprecision(mantissa-2)
-                   << (d*10);
-               rv = oss.str();
+               oss << std::scientific << std::showpoint << std::setprecision(mantissa-2) << d;
+                  // because we're shifting the decimal point, we multiply by 10
+               rv = exponentPlusOne(oss.str(), d);
                   // move the decimal
                pos = rv.find('.');
                rv[pos] = rv[pos-1];
@@ -243,10 +265,9 @@ namespace gpstk
                rv.insert(pos-1, 1, '0');
                break;
             case FFLead::Decimal:
+               oss << std::scientific << std::showpoint << std::setprecision(mantissa-1) << d;
                   // because we're shifting the decimal point, we multiply by 10
-               oss << std::scientific << std::setprecision(mantissa-1)
-                   << (d*10);
-               rv = oss.str();
+               rv = exponentPlusOne(oss.str(), d);
                   // move the decimal
                pos = rv.find('.');
                rv[pos] = rv[pos-1];
@@ -258,13 +279,16 @@ namespace gpstk
                rv = oss.str();
                break;
          }
-            // change the exponent size if needed
-         pos = rv.find('e');
-         unsigned currentExpSize = rv.length() - (pos+2);
-         if (currentExpSize < exponent)
-            rv.insert(pos+2, exponent - currentExpSize, '0');
-            // change exponent character
-         rv[pos] = expChar;
+         if (std::isfinite(d))
+         {
+               // change the exponent size if needed
+            pos = rv.find('e');
+            unsigned currentExpSize = rv.length() - (pos+2);
+            if (currentExpSize < exponent)
+               rv.insert(pos+2, exponent - currentExpSize, '0');
+               // change exponent character
+            rv[pos] = expChar;
+         }
             // fill according to alignment request
          if (rv.length() < width)
          {
diff --git a/ext/lib/FileHandling/Ionex/IonexData.cpp b/ext/lib/FileHandling/Ionex/IonexData.cpp
index 42c0072..46a078d 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.cpp
@@ -307,15 +307,12 @@ namespace gpstk
                // allocated for 'data' member of the object, and then
                // initialize all elements of the object member with dummy
                // values, i.e., 999.9
-            dim[0] = static_cast<int>( ( hdr.lat[1] - hdr.lat[0] )
-                            / hdr.lat[2] + 1 ); // consider Equator as well
+               // (the header reader made sure that the numbers are sensible)
+            dim[0] = IonexHeader::gridSize(hdr.lat); // consider Equator as well
 
-            dim[1] = static_cast<int>( ( hdr.lon[1] - hdr.lon[0] )
-                            / hdr.lon[2] + 1 ); // consider Greenwich meridian
+            dim[1] = IonexHeader::gridSize(hdr.lon); // consider Greenwich meridian
 
-            dim[2] = (hdr.hgt[2] == 0) ?
-                     1 : static_cast<int>( (hdr.hgt[1]-hdr.hgt[0]) 
-                                           / hdr.hgt[2]+1 );
+            dim[2] = (hdr.hgt[2] == 0) ? 1 : IonexHeader::gridSize(hdr.hgt);
 
             data.resize( dim[0]*dim[1]*dim[2], 999.9 );
 
@@ -323,12 +320,20 @@ namespace gpstk
          else if (label == dataBlockString)
          {
 
-            if (ityp == 0)
+            if (ityp <= 0)
             {
                FFStreamError e(string("Map type undefined: " + line) );
                GPSTK_THROW(e);
             }
 
+               // there is no room for values before the epoch of the map
+               // or for more latitudes than the header defines
+            if (ilat >= dim[0]*dim[2])
+            {
+               FFStreamError e(string("Data block out of the grid: " + line) );
+               GPSTK_THROW(e);
+            }
+
 #ifdef GPSTK_IONEX_UNUSED
             const double lat0 = asDouble(line.substr( 2,6)),
                          lon1 = asDouble(line.substr( 8,6)),
diff --git a/ext/lib/FileHandling/Ionex/IonexData.hpp b/ext/lib/FileHandling/Ionex/IonexData.hpp
index 5bfd53e..d57b79b 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.hpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.hpp
@@ -142,7 +142,15 @@ namespace gpstk
 
          /// Default constructor.
       IonexData()
-         : time(CommonTime::BEGINNING_OF_TIME), valid(false) {};
+         : mapID(0), time(CommonTime::BEGINNING_OF_TIME), exponent(0),
+           valid(false)
+      {
+         for (int i = 0; i < 3; i++)
+         {
+            dim[i] = 0;
+            lat[i] = lon[i] = hgt[i] = 0.0;
+         }
+      };
 
 
          /// Destructor
diff --git a/ext/lib/FileHandling/Ionex/IonexHeader.cpp b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
index 2fab5a4..ed19a9f 100644
--- a/ext/lib/FileHandling/Ionex/IonexHeader.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
@@ -42,6 +42,7 @@
  */
 
 #include <cctype>
+#include <cmath>
 
 #include "StringUtils.hpp"
 #include "MathBase.hpp"
@@ -162,8 +163,8 @@ namespace gpstk
             // prepare the DCB structure
          char c = isspace(line[3]) ? 'G' : line[3];
          int prn     = asInt(line.substr(4,2));
-         double bias = asDouble(line.substr(6,16));// * 1e-9; // change to seconds
-         double rms  = asDouble(line.substr(16,26));
+         double bias = asDouble(line.substr(6,10));// * 1e-9; // change to seconds
+         double rms  = asDouble(line.substr(16,10));
 
             // prepare SatID object that is the key of the map
          SatelliteSystem system;
@@ -373,7 +374,8 @@ namespace gpstk
       else if (label == endOfHeader)
       {
 
-         auxDataFlag = true;
+            // there is auxiliary data to write if some was found
+         auxDataFlag = !auxData.empty() || !svsmap.empty();
          valid = true;
 
       }
@@ -392,6 +394,14 @@ namespace gpstk
 
 
 
+      // Number of points of a grid definition (0 if it makes no sense)
+   int IonexHeader::gridSize(const double grid[3])
+   {
+      const double n( (grid[1] - grid[0]) / grid[2] + 1.0 );
+      return ( (n >= 1.0) && (n <= 100000.0) ) ? static_cast<int>(n) : 0;
+   }
+
+
       // This function parses the entire header from the given stream
    void IonexHeader::reallyGetRecord(FFStream& ffs)
    {
@@ -478,8 +488,9 @@ namespace gpstk
       }
 
          // time arguments consistency
-      double interval0( (lastEpoch - firstEpoch) / (numMaps -1.0) );
-      if (interval != static_cast<int>(interval0))
+      double interval0( (numMaps > 1) ?
+                        (lastEpoch - firstEpoch) / (numMaps -1.0) : interval );
+      if (interval != std::floor(interval0))
       {
          FFStreamError e("Inconsistent time arguments.");
          GPSTK_THROW(e);
@@ -525,9 +536,10 @@ namespace gpstk
       for (int i = 0; i < 4; i++)
       {
          //const double xdif1( grdfac[i] - static_cast<int>(grdfac[i]) );
-         const double xdif( ABS(grdfac[i] - static_cast<int>(grdfac[i])) );
+         const double xdif( ABS(grdfac[i] - std::trunc(grdfac[i])) );
 
-         if (xdif > 1e-4)
+            // (not 'xdif > 1e-4', which is false for a grid of zero step)
+         if ( !(xdif <= 1e-4) )
          {
             FFStreamError e("Irregular Ionex data grid.");
             GPSTK_THROW(e);
@@ -535,6 +547,15 @@ namespace gpstk
 
       }  // End of 'for (int i = 0; i < 4; i++)...'
 
+         // the size of the grid must make sense
+      const double nvalues( double(gridSize(lat)) * gridSize(lon)
+                            * (hgt[2] == 0 ? 1 : gridSize(hgt)) );
+      if ( !(nvalues >= 1.0 && nvalues <= 1.0e7) )
+      {
+         FFStreamError e("Irregular Ionex data grid.");
+         GPSTK_THROW(e);
+      }
+
          // reach end of header line
       strm.header = *this;
       strm.headerRead = true;
diff --git a/ext/lib/FileHandling/Ionex/IonexHeader.hpp b/ext/lib/FileHandling/Ionex/IonexHeader.hpp
index 89994bf..3e088b1 100644
--- a/ext/lib/FileHandling/Ionex/IonexHeader.hpp
+++ b/ext/lib/FileHandling/Ionex/IonexHeader.hpp
@@ -318,6 +318,12 @@ namespace gpstk
       CommonTime parseTime(const std::string& line) const;
 
 
+         /** Number of points in a grid definition (start, end, step);
+          * 0 if the definition makes no sense.
+          */
+      static int gridSize(const double grid[3]);
+
+
 
    }; // End of class 'IonexHeader'
 
diff --git a/ext/lib/FileHandling/Yuma/YumaData.cpp b/ext/lib/FileHandling/Yuma/YumaData.cpp
index 5c53540..621c7a4 100644
--- a/ext/lib/FileHandling/Yuma/YumaData.cpp
+++ b/ext/lib/FileHandling/Yuma/YumaData.cpp
@@ -41,6 +41,7 @@
  * Encapsulate Yuma almanac file data, including I/O
  */
 
+#include <cmath>
 #include "StringUtils.hpp"
 #include "GNSSconstants.hpp"
 
@@ -207,7 +208,13 @@ namespace gpstk
 
       //Fifth Line - Time of Applicability
       strm.formattedGetLine(line, true);
-      Toa = (long) asDouble(lineParser(line, sTOA));
+      const double toaField = asDouble(lineParser(line, sTOA));
+      if (!(std::fabs(toaField) < 9.0e18))
+      {
+         FFStreamError exc("Time of applicability out of range.");
+         GPSTK_THROW(exc);
+      }
+      Toa = (long) toaField;
 
       //Sixth Line - Orbital Inclination
       strm.formattedGetLine(line, true);
diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index 441a3ee..f0200a6 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -42,6 +42,7 @@
 /// satellite antennas based on system, PRN and time, and computation of phase center
 /// offsets and variations.
 
+#include <cmath>
 #include "AntexData.hpp"
 #include "AntexStream.hpp"
 #include "StringUtils.hpp"
@@ -711,13 +712,20 @@ namespace gpstk
       }
    }
 
+   // helper routine for ParseDataRecord
+   // throw if valid does not contain test
+   void AntexData::throwRecordMissing(unsigned long test, const string& line)
+   {
+      if((test & valid) != test) {
+         FFStreamError fse(string("Records are missing before: ") + line);
+         GPSTK_THROW(fse);
+      }
+   }
+
    // for reallyGetRecord
    void AntexData::ParseDataRecord(string& line)
    {
    try {
-      static bool hasAzim, foundRMS(false);
-      //static int freq;
-      static string freq;
       string label(line, 60, 20);
 
       if(label == startAntennaString) {        // "START OF ANTENNA"
@@ -858,6 +866,7 @@ namespace gpstk
       else {
          //LOG(INFO) << "Found data record, valid is " << hex << valid;
          int i,n;
+         throwRecordMissing(zenithValid,line);
          string noazi = line.substr(3,5);
          double azim = asDouble(line.substr(0,8));
          if(!hasAzim && noazi != string("NOAZI")) {
@@ -869,7 +878,9 @@ namespace gpstk
          if(noazi == string("NOAZI")) azim = -1.0;
 
          n = StringUtils::numWords(line) - 1;
-         if(n != 1+int((zenRange[1]-zenRange[0])/zenRange[2])) {
+         // (not n != 1+int(..), there may be no such integer)
+         double ratio = (zenRange[1]-zenRange[0])/zenRange[2];
+         if(!(ratio > -1.0) || n != 1+std::trunc(ratio)) {
             FFStreamError fse("Invalid format; wrong number of zenith/offset values");
             GPSTK_THROW(fse);
          }
diff --git a/ext/lib/Geomatics/AntexData.hpp b/ext/lib/Geomatics/AntexData.hpp
index b9edc5d..a12e054 100644
--- a/ext/lib/Geomatics/AntexData.hpp
+++ b/ext/lib/Geomatics/AntexData.hpp
@@ -257,7 +257,10 @@ namespace gpstk
       /// Constructor.
       AntexData() : valid(0), absolute(true), PRN(0), SVN(0), nFreq(0),
                     validFrom(CommonTime::BEGINNING_OF_TIME),
-                    validUntil(CommonTime::END_OF_TIME) {}
+                    validUntil(CommonTime::END_OF_TIME),
+                    isRxAntenna(true), systemChar(' '), azimDelta(0.0),
+                    noAntCalibrated(0), hasAzim(false), foundRMS(false)
+         { zenRange[0] = zenRange[1] = zenRange[2] = 0.0; }
       /// Destructor
       virtual ~AntexData() {}
 
@@ -356,6 +359,19 @@ namespace gpstk
       /// throws if valid contains test (test & valid), otherwise does nothing
       void throwRecordOutOfOrder(unsigned long test, std::string& label);
 
+      /// helper routine to throw when records are missing
+      /// throws unless valid contains test, otherwise does nothing
+      void throwRecordMissing(unsigned long test, const std::string& line);
+
+      /// state of the parsing of one record: non-zero DAZI found
+      bool hasAzim;
+
+      /// state of the parsing of one record: within START/END OF FREQ RMS
+      bool foundRMS;
+
+      /// state of the parsing of one record: current frequency
+      std::string freq;
+
          /** parse a line from the Antex file, filling the data object
           * @throw FFStreamError
           */
-- 
2.43.0


From a053eed59d4134bf6c24035dd05099625e14fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 055/216] fix: BrcKeplerOrbit position and velocity ignored
 Adot and dndot

---
 core/lib/GNSSEph/BrcKeplerOrbit.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.cpp b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
index 010c166..4d1d330 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.cpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
@@ -338,8 +338,12 @@ namespace gpstk
          //CommonTime orbEp = getOrbitEpoch();
          //elapte = t - orbEp;
 
-         // Compute mean motion
-      amm  = (sqrtgm / (A*Ahalf)) + dn;
+         // Compute A at time of interest (LNAV: Adot==0)
+      double Ak = A + Adot * elapte;
+
+         // Compute mean motion (LNAV: dndot==0)
+      double dnA = dn + 0.5*dndot*elapte;
+      amm  = (sqrtgm / (A*Ahalf)) + dnA;     // Eqn specifies A0, not Ak
 
 
          // In-plane angles
@@ -391,7 +395,7 @@ namespace gpstk
 
          // U = updated argument of lat, R = radius, AINC = inclination
       U    = alat + du;
-      R    = A*G  + dr;
+      R    = Ak*G  + dr;
       AINC = i0 + tdrinc * elapte  +  di;
 
          //  Longitude of ascending node (ANLON)
@@ -427,7 +431,7 @@ namespace gpstk
          ( Cic  * s2al - Cis * c2al );
       domk = OMEGAdot - ell.angVelocity();
       duv = dlk*(1.e0+ 2.e0 * (Cus*c2al - Cuc*s2al) );
-      drv = A * lecc * dek * sinea - 2.e0 * dlk *
+      drv = Ak * lecc * dek * sinea - 2.e0 * dlk *
          ( Crc * s2al - Crs * c2al ) + Adot * G;
 
       dxp = drv*cosu - R*sinu*duv;
-- 
2.43.0


From 6484c8bf3e6a39905458085958e168eb30df5b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 056/216] fix: EngNav::subframeConvert used its tables before
 any EngNav object had set them up

---
 core/lib/GNSSEph/EngNav.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index e9eb48c..007ffe6 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -380,6 +380,10 @@ namespace gpstk
       short patId = -2, i = 2;
       struct DecodeQuant *p=NULL;
 
+         // the tables are set up by the first EngNav constructed
+      if (subframeList[1] == NULL)
+         EngNav();
+
       for (i=0; i< 20; i++)
          output[i] = 0.0L;
 
-- 
2.43.0


From a4c9e9ac6edb2c5f474011eaf8dfbe7865754875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 057/216] fix: rationalize left older sets valid past an upload
 when a later set had already ended

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 13 ++++++-------
 core/lib/GNSSEph/OrbElemStore.cpp      | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index ead7295..41868b6 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -167,13 +167,12 @@ namespace gpstk
                         //cout << " with endValid of " << printTime(oeRev->endValid,"%02H:%02M:%02S") << endl;
 
                            // If the current set of elements has an ending
-                           // validity prior to the upload, then do NOT
-                           // adjust the ending and set done to true.
-                        if (oeRev->endValid <= oe->beginValid) done = true;
-
-                           // Otherwise, adjust the ending validity to
-                           // match the begin of the upload.
-                         else oeRev->endValid = oe->beginValid;
+                           // validity after the upload, adjust the ending
+                           // to match the begin of the upload.  An older
+                           // set may have a longer fit interval, so keep
+                           // going in any case.
+                        if (oeRev->endValid > oe->beginValid)
+                           oeRev->endValid = oe->beginValid;
 
                            // If we've reached the beginning of the map, stop.
                            // Otherwise, decrement and test again.
diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 878e9d2..703d5fb 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -951,13 +951,12 @@ namespace gpstk
                         //cout << " with endValid of " << printTime(oeRev->endValid,"%02H:%02M:%02S") << endl;
 
                            // If the current set of elements has an ending
-                           // validity prior to the upload, then do NOT
-                           // adjust the ending and set done to true.
-                        if (oeRev->endValid <= oe->beginValid) done = true;
-
-                           // Otherwise, adjust the ending validity to 
-                           // match the begin of the upload. 
-                         else oeRev->endValid = oe->beginValid;
+                           // validity after the upload, adjust the ending
+                           // to match the begin of the upload.  An older
+                           // set may have a longer fit interval, so keep
+                           // going in any case.
+                        if (oeRev->endValid > oe->beginValid)
+                           oeRev->endValid = oe->beginValid;
 
                            // If we've reached the beginning of the map, stop. 
                            // Otherwise, decrement and test again.
-- 
2.43.0


From 0a51d1a8abdebbd4f9535b9e4141f03ee5577d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 058/216] fix: elevationGeodetic gave NaN for a target at the
 zenith

---
 core/lib/GNSSCore/Position.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index a8e838e..a962213 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1347,6 +1347,9 @@ namespace gpstk
       localUp = z.dot(kVector);
       // Let's get cos(z), being z the angle with respect to local vertical (Up);
       cosUp = localUp/z.mag();
+         // round off at the zenith or nadir
+      if (cosUp > 1.0) cosUp = 1.0;
+      else if (cosUp < -1.0) cosUp = -1.0;
 
       return 90.0 - ((::acos(cosUp))*RAD_TO_DEG);
    }
-- 
2.43.0


From a2f145facf89accc5fedf881c6ef4e00025213fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 059/216] fix: Yuma and SEM almanac weeks were moved by half
 the ten-bit rollover, and dump ignored its stream

---
 ext/lib/FileHandling/SEM/SEMHeader.cpp | 12 +++++-----
 ext/lib/FileHandling/Yuma/YumaData.cpp | 32 +++++++++++++-------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/ext/lib/FileHandling/SEM/SEMHeader.cpp b/ext/lib/FileHandling/SEM/SEMHeader.cpp
index bf5118b..d4f050f 100644
--- a/ext/lib/FileHandling/SEM/SEMHeader.cpp
+++ b/ext/lib/FileHandling/SEM/SEMHeader.cpp
@@ -118,9 +118,9 @@ namespace gpstk
          week += (nearFullWeek / 1024) * 1024;
          short diff = nearFullWeek - week;
          if (diff > 512)
-            week += 512;
+            week += 1024;
          else if(diff < -512)
-            week -= 512;
+            week -= 1024;
       }
 
       strm.header = *this;
@@ -130,10 +130,10 @@ namespace gpstk
 
    void SEMHeader::dump(ostream& s) const
    {
-      std::cout << "numRecords = " << numRecords << std::endl;
-      std::cout << "Title = " << Title << std::endl;
-      std::cout << "week = " << week << std::endl;
-      std::cout << "Toa = " << Toa << std::endl;
+      s << "numRecords = " << numRecords << std::endl;
+      s << "Title = " << Title << std::endl;
+      s << "week = " << week << std::endl;
+      s << "Toa = " << Toa << std::endl;
    }
 
 } // namespace
diff --git a/ext/lib/FileHandling/Yuma/YumaData.cpp b/ext/lib/FileHandling/Yuma/YumaData.cpp
index 621c7a4..5be1b1e 100644
--- a/ext/lib/FileHandling/Yuma/YumaData.cpp
+++ b/ext/lib/FileHandling/Yuma/YumaData.cpp
@@ -261,29 +261,29 @@ namespace gpstk
          week += (nearFullWeek / 1024) * 1024;
          short diff = nearFullWeek - week;
          if (diff > 512)
-            week += 512;
+            week += 1024;
          else if(diff < -512)
-            week -= 512;
+            week -= 1024;
       }
 
    } // end of reallyGetRecord()
 
    void YumaData::dump(ostream& s) const
    {
-      cout << "PRN = " << PRN << endl;
-      cout << "week = " << week << endl;
-      cout << "SV_health = " << SV_health << endl;
-      cout << "ecc = " << ecc << endl;
-      cout << "Toa = " << Toa << endl;
-      cout << "i_offset = " << i_offset << endl;
-      cout << "OMEGAdot = " << OMEGAdot << endl;
-      cout << "Ahalf = " << Ahalf << endl;
-      cout << "OMEGA0 = " << OMEGA0 << endl;
-      cout << "w = " << w << endl;
-      cout << "M0 = " << M0 << endl;
-      cout << "AF0 = " << AF0 << endl;
-      cout << "AF1 = " << AF1 << endl;
-      cout << "xmit_time = " << xmit_time << endl;
+      s << "PRN = " << PRN << endl;
+      s << "week = " << week << endl;
+      s << "SV_health = " << SV_health << endl;
+      s << "ecc = " << ecc << endl;
+      s << "Toa = " << Toa << endl;
+      s << "i_offset = " << i_offset << endl;
+      s << "OMEGAdot = " << OMEGAdot << endl;
+      s << "Ahalf = " << Ahalf << endl;
+      s << "OMEGA0 = " << OMEGA0 << endl;
+      s << "w = " << w << endl;
+      s << "M0 = " << M0 << endl;
+      s << "AF0 = " << AF0 << endl;
+      s << "AF1 = " << AF1 << endl;
+      s << "xmit_time = " << xmit_time << endl;
 
    } // end of dump()
 
-- 
2.43.0


From b62d4035bbf9d0c38d53b6d9507178b1c70dbf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 060/216] fix: SEM inclination total was formed from the offset
 before it was scaled to radians

---
 ext/lib/FileHandling/SEM/SEMData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/FileHandling/SEM/SEMData.cpp b/ext/lib/FileHandling/SEM/SEMData.cpp
index 980f119..9fb0295 100644
--- a/ext/lib/FileHandling/SEM/SEMData.cpp
+++ b/ext/lib/FileHandling/SEM/SEMData.cpp
@@ -146,12 +146,12 @@ namespace gpstk
       end = line.find_first_of(whitespace,front);
       length = end - front;
       i_offset = line.substr(front,length);
-      i_total = i_offset + 54.0 * (gpstk::PI / 180.0);
 
       front = line.find_first_not_of(whitespace,end);
       length = line.length() - front;
       OMEGAdot = line.substr(front,length);
       i_offset *= gpstk::PI;
+      i_total = i_offset + 54.0 * (gpstk::PI / 180.0);
       OMEGAdot *= gpstk::PI;
 
       // Sixth line - Sqrt of A, Omega0, and Arg of Perigee
-- 
2.43.0


From 0524b5500cd4816481384cc66c5d6fd25dbd45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 061/216] fix: CNAV almanac sqrt(A) read as signed, L5 health
 inverted, BDT time not loaded

---
 ext/lib/GNSSEph/CNavMidiAlm.cpp | 2 +-
 ext/lib/GNSSEph/OrbAlmGen.cpp   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ext/lib/GNSSEph/CNavMidiAlm.cpp b/ext/lib/GNSSEph/CNavMidiAlm.cpp
index b48f875..4b17b24 100755
--- a/ext/lib/GNSSEph/CNavMidiAlm.cpp
+++ b/ext/lib/GNSSEph/CNavMidiAlm.cpp
@@ -178,7 +178,7 @@ namespace gpstk
       e        = pnb.asUnsignedDouble(46+offsetBits,11,-16);
       di       = pnb.asDoubleSemiCircles(57+offsetBits,11,-14);
       OMEGAdot = pnb.asDoubleSemiCircles(68+offsetBits,11,-33);
-      sqrtA    = pnb.asSignedDouble(79+offsetBits,17,-4);
+      sqrtA    = pnb.asUnsignedDouble(79+offsetBits,17,-4);
       OMEGA0   = pnb.asDoubleSemiCircles(96+offsetBits,16,-15);
       w        = pnb.asDoubleSemiCircles(112+offsetBits,16,-15);
       M0       = pnb.asDoubleSemiCircles(128+offsetBits,16,-15);
diff --git a/ext/lib/GNSSEph/OrbAlmGen.cpp b/ext/lib/GNSSEph/OrbAlmGen.cpp
index 11fe45f..6f1caa4 100644
--- a/ext/lib/GNSSEph/OrbAlmGen.cpp
+++ b/ext/lib/GNSSEph/OrbAlmGen.cpp
@@ -163,8 +163,8 @@ namespace gpstk
       }
       else if (ct.getTimeSystem()==TimeSystem::BDT)
       {
-         unsigned int week = static_cast<BDSWeekSecond>(ct).week;
-         double sow = static_cast<BDSWeekSecond>(ct).sow;
+         week = static_cast<BDSWeekSecond>(ct).week;
+         sow = static_cast<BDSWeekSecond>(ct).sow;
          successfullySet = true;
       }
       if (successfullySet)
@@ -765,7 +765,7 @@ namespace gpstk
       ecc = msg.asUnsignedDouble(157, 11, -16);
       deltai = msg.asDoubleSemiCircles(168, 11, -14);
       OMEGAdot = msg.asDoubleSemiCircles(179, 11, -33);
-      AHalf = msg.asSignedDouble(190, 17, -4);
+      AHalf = msg.asUnsignedDouble(190, 17, -4);
       OMEGA0 = msg.asDoubleSemiCircles(207, 16, -15);
       w = msg.asDoubleSemiCircles(223, 16, -15);
       M0 = msg.asDoubleSemiCircles(239, 16, -15);
@@ -786,7 +786,7 @@ namespace gpstk
       if (oidr.band==CarrierBand::L5 &&
           !(health & 0x01))
       {
-         setHealthy(false); 
+         setHealthy(true); 
       }
       ctToe = GPSWeekSecond(wna,toa,TimeSystem::GPS); 
 
-- 
2.43.0


From f7040fd124a9da806ac3b83c112200082c91c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 062/216] fix: OrbAlmStore clear kept the old time span,
 sizeSubjAlm printed to stdout

---
 ext/lib/GNSSEph/OrbAlmStore.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbAlmStore.cpp b/ext/lib/GNSSEph/OrbAlmStore.cpp
index 6cb248c..11347f2 100644
--- a/ext/lib/GNSSEph/OrbAlmStore.cpp
+++ b/ext/lib/GNSSEph/OrbAlmStore.cpp
@@ -581,6 +581,11 @@ namespace gpstk
          uam.clear();
       }
       xmitAlmMap.clear();
+
+      initialTime = CommonTime::END_OF_TIME;
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      initialTime.setTimeSystem(TimeSystem::Any);
+      finalTime.setTimeSystem(TimeSystem::Any);
    }
 
 
@@ -620,10 +625,6 @@ namespace gpstk
       {
          const OrbAlmMap& oem = i->second;
          counter = oem.size();
-
-         const SatID& sidr = i->first;
-         cout << " sat: " << sidr << endl;
-         cout << " counter : " << counter << endl;
       }
       return counter;
    }
-- 
2.43.0


From dd46f02d30d195559902d48120fca93b0f162261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 063/216] fix: Vector front, toStdVector, cross size check,
 slices and element functions

---
 core/lib/Math/Vector/Vector.hpp          | 14 +++++++-------
 core/lib/Math/Vector/VectorOperators.hpp |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index 468366d..da51a5e 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -198,9 +198,9 @@ namespace gpstk
          /// STL const iterator end
       const_iterator end() const { return v + s; }
          /// STL front
-      value_type front() { return v[s-1]; }
+      value_type front() { return v[0]; }
          /// STL const front
-      const_reference front() const { return v[s-1];}
+      const_reference front() const { return v[0];}
          /// STL empty
       bool empty() const { return size() == 0; }
          /// STL size
@@ -287,10 +287,10 @@ namespace gpstk
          // convert the gpstk vector to std vector
       std::vector<T> toStdVector()
       {
-         std::vector<T> v;
+         std::vector<T> toReturn;
          for(size_t i = 0; i < s; i++)
-            v.push_back(v[i] );
-         return v;
+            toReturn.push_back(v[i]);
+         return toReturn;
       }
 
       inline Vector& operator<<(const Vector& b)
@@ -395,7 +395,7 @@ namespace gpstk
          /// Makes a slice of the vector with the given std::slice.
       VectorSlice(Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Assign the elements of this slice from another vector.
       template <class V>
@@ -461,7 +461,7 @@ namespace gpstk
          /// Uses the given slice and vector.
       ConstVectorSlice(const Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Returns a const version of the i'th slice element.
       T operator[] (size_t i) const
diff --git a/core/lib/Math/Vector/VectorOperators.hpp b/core/lib/Math/Vector/VectorOperators.hpp
index a3865d0..7bede53 100644
--- a/core/lib/Math/Vector/VectorOperators.hpp
+++ b/core/lib/Math/Vector/VectorOperators.hpp
@@ -56,7 +56,7 @@ namespace gpstk
    Vector<T> func(const ConstVectorBase<T, BaseClass>& x)               \
    {                                                                    \
       BaseClass toReturn(x.size());                                     \
-      size_t i; for (i=0; i < x.size(); i++) toReturn[i] = func(x[i]);  \
+      size_t i; for (i=0; i < x.size(); i++) toReturn[i] = std::func(x[i]);\
       return toReturn;                                                  \
    }
 
@@ -167,7 +167,7 @@ namespace gpstk
    Vector<T> cross(const ConstVectorBase<T, BaseClass>& l, 
                    const ConstVectorBase<T, BaseClass2>& r)
    { 
-      if ((l.size() != 3) && (r.size() != 3))
+      if ((l.size() != 3) || (r.size() != 3))
       {
          VectorException e("Cross product requires vectors of size 3");
          GPSTK_THROW(e);
-- 
2.43.0


From 401370a5097407a1263a2cb20d72f07be229f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 064/216] fix: const Matrix col slices were refused for every
 column but the first

---
 core/lib/Math/Matrix/MatrixImplementation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Matrix/MatrixImplementation.hpp b/core/lib/Math/Matrix/MatrixImplementation.hpp
index e52b097..13c359d 100644
--- a/core/lib/Math/Matrix/MatrixImplementation.hpp
+++ b/core/lib/Math/Matrix/MatrixImplementation.hpp
@@ -128,7 +128,7 @@ namespace gpstk
                                          size_t rowNum) const
    {
       return ConstMatrixColSlice<T>(*this, colNum,
-                                    std::slice(colNum * r + rowNum, r - rowNum, 1));
+                                    std::slice(rowNum, rows() - rowNum, 1));
    }
 
    template <class T>
-- 
2.43.0


From 5bbd90974627111d109769705cbf5e1d29906a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 065/216] fix: SVD determinant lost its sign

---
 core/lib/Math/Matrix/MatrixFunctors.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/lib/Math/Matrix/MatrixFunctors.hpp b/core/lib/Math/Matrix/MatrixFunctors.hpp
index 9ee0845..e6a6c9a 100644
--- a/core/lib/Math/Matrix/MatrixFunctors.hpp
+++ b/core/lib/Math/Matrix/MatrixFunctors.hpp
@@ -48,6 +48,7 @@
 
 namespace gpstk
 {
+   template <class T> class LUDecomp;
 
       /// @ingroup MathGroup
       //@{
@@ -403,6 +404,14 @@ namespace gpstk
       {
          T d(1);
          for(size_t i=0; i<S.size(); i++) d *= S(i);
+            // singular values are positive: the sign is that of det(U)*det(V)
+         if(d != T(0)) {
+            LUDecomp<T> LU;
+            LU(U);
+            if(LU.det() < T(0)) d = -d;
+            LU(V);
+            if(LU.det() < T(0)) d = -d;
+         }
          return d;
       }  // end SVD::det
 
-- 
2.43.0


From 33cee5ff2f74ad357a1a483406fc14d0444c119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 066/216] fix: vector-matrix concatenation read out of bounds,
 inverse did not pivot

---
 core/lib/Math/Matrix/MatrixOperators.hpp | 31 +++++++++++-------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixOperators.hpp b/core/lib/Math/Matrix/MatrixOperators.hpp
index 03644a1..634fbe5 100644
--- a/core/lib/Math/Matrix/MatrixOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixOperators.hpp
@@ -136,7 +136,7 @@ namespace gpstk
 
       for (rows = 1; rows < b.rows()+1; rows++)
          for (cols = 0; cols < b.cols(); cols++)
-            toReturn(rows, cols) = b(rows, cols);
+            toReturn(rows, cols) = b(rows-1, cols);
 
       return toReturn;
    }
@@ -224,7 +224,7 @@ namespace gpstk
 
       for (cols = 1; cols < r.cols()+1; cols++)
          for (rows = 0; rows < r.rows(); rows++)
-            toReturn(rows, cols) = r(rows, cols);
+            toReturn(rows, cols) = r(rows, cols-1);
 
       return toReturn;
    }
@@ -543,24 +543,21 @@ namespace gpstk
 
       for (r = 0; r < m.rows(); r++)
       {
-            // if m(r,r) is zero, find another row
-            // to add to it...
-         if (toReturn(r,r) == 0)
-         {
-            t = r+1;
-            while ( (t < m.rows()) && (toReturn(t,r) == 0) )
-               t++;
-
-            if (t == m.rows())
-            {
-               SingularMatrixException e("Singular matrix");
-               GPSTK_THROW(e);
-            }
+            // pivot on the largest element at or below (r,r)
+         size_t big = r;
+         for (t = r+1; t < m.rows(); t++)
+            if (ABS(toReturn(t,r)) > ABS(toReturn(big,r)))
+               big = t;
 
-            for (j = r; j < toReturn.cols(); j++)
-               toReturn(r,j) += (toReturn(t,j) / toReturn(t,r));
+         if (toReturn(big,r) == 0)
+         {
+            SingularMatrixException e("Singular matrix");
+            GPSTK_THROW(e);
          }
 
+         if (big != r)
+            toReturn.swapRows(big,r);
+
             // scale this row's (r,r)'th element to 1
          temp = toReturn(r,r);
          for (j = r; j < toReturn.cols(); j++)
-- 
2.43.0


From cac97385b17bba4dfca6fc8f546a27966f6f68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 067/216] fix: statistics gave negative variances and NaN
 deviations, kept stale sums when emptied or reloaded

---
 core/lib/Math/Stats.hpp | 51 +++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index a9e3f45..ff835a6 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -178,7 +178,7 @@ namespace gpstk
       void Subtract(const T& x)           // Stats
       {
          if(n < 1) return;       // TD throw
-         if(n == 1) { n = 0; return; }
+         if(n == 1) { Reset(); return; }
          T sx(x/scale);
          sum -= sx;
          sum2 -= sx*sx;
@@ -268,17 +268,18 @@ namespace gpstk
       /// NB zero-fill rather than throwing
       void Load(const std::vector<unsigned int>& vuint, const std::vector<T>& vT)
       {
-         if(vuint.size() < 2 || vT.size() < 4) {
+         if(vuint.size() < 2 || vT.size() < 5) {
             n = 0;
             setScale = false;
-            scale = T(0);
+            scale = T(1);
             min = T(0); max = T(0);
             sum = T(0); sum2 = T(0);
          }
          else {
             n = vuint[0];
             setScale = (vuint[1] != 0);
-            scale = vT[0];
+            // Dump() writes a scale of zero when it was never set
+            scale = (setScale ? vT[0] : T(1));
             min = vT[1]; max = vT[2];
             sum = vT[3]; sum2 = vT[4];
          }
@@ -337,8 +338,11 @@ namespace gpstk
       /// return computed variance
       inline T Variance(void) const          // Stats
       {
-         if(n>1)
-            return scale*scale*(sum2-sum*sum/T(n))/T(n-1);
+         if(n>1) {
+            T v(sum2-sum*sum/T(n));
+            if(v < T()) return T();       // roundoff only, it is a sum of squares
+            return scale*scale*v/T(n-1);
+         }
          else
             return T();
       }
@@ -389,7 +393,7 @@ namespace gpstk
    {
    public:
       /// constructor
-      SeqStats() : n(0) { }
+      SeqStats() : n(0), min(T()), max(T()), ave(T()), var(T()) { }
 
       /// reset, i.e. ignore earlier data and restart sampling
       inline void Reset(void) { n=0; }
@@ -429,7 +433,9 @@ namespace gpstk
             var = (var - (x-ave)*(x-ave)/T(n-1))*T(n)/(T(n)-T(1));
          else
             var = T();
-         ave = T(n)*(ave - x/T(n))/(T(n)-T(1));
+         if(var < T()) var = T();         // roundoff only
+         if(n > 1) ave = T(n)*(ave - x/T(n))/(T(n)-T(1));
+         else      ave = T();
          n--;
       }
 
@@ -476,6 +482,7 @@ namespace gpstk
          T newvar = T(n)*var + T(S.n)*S.var + T(n)*ave*ave + T(S.n)*S.ave*S.ave;
          ave = newave/T(n+S.n);
          var = newvar/T(n+S.n) - ave*ave;
+         if(var < T()) var = T();         // roundoff only
          n += S.n;
 
          return *this;
@@ -493,6 +500,7 @@ namespace gpstk
          T newvar = T(n)*var - T(S.n)*S.var + T(n)*ave*ave - T(S.n)*S.ave*S.ave;
          ave = newave/T(n-S.n);
          var = newvar/T(n-S.n) - ave*ave;
+         if(var < T()) var = T();         // roundoff only
          n -= S.n;
 
          return *this;
@@ -621,12 +629,15 @@ namespace gpstk
    {
    public:
       /// constructor
-      WtdStats() { }
+      WtdStats() : WtNorm(T()) { }
+
+      /// reset, i.e. ignore earlier data and restart sampling
+      inline void Reset(void) { SeqStats<T>::Reset(); WtNorm = T(); }
 
       /// constructor given a gpstk::Vector<T> of data, with weights
       WtdStats(Vector<T>& X, Vector<T>& W)
       {
-         SeqStats<T>::n = 0;
+         Reset();
          Add(X,W);
       }
 
@@ -669,6 +680,7 @@ namespace gpstk
          if(SeqStats<T>::n == 0) return;
          T wt(::fabs(wt_in));
          if(wt == T()) return;      // Don't add with zero weight
+         if(SeqStats<T>::n == 1) { Reset(); return; }
 
          T newave = WtNorm*SeqStats<T>::ave - wt*x;
          T newvar = WtNorm*SeqStats<T>::var
@@ -676,6 +688,7 @@ namespace gpstk
          WtNorm -= wt;
          SeqStats<T>::ave = newave/WtNorm;
          SeqStats<T>::var = newvar/WtNorm - SeqStats<T>::ave * SeqStats<T>::ave;
+         if(SeqStats<T>::var < T()) SeqStats<T>::var = T();    // roundoff only
          SeqStats<T>::n--;
       }
 
@@ -690,7 +703,7 @@ namespace gpstk
       inline void Add(std::vector<T>& X, std::vector<T>& W)    // WtdStats
       {
          for(size_t i=0; i<(X.size()>W.size() ? W.size():X.size()); i++)
-            Add(X(i),W(i));
+            Add(X[i],W[i]);
       }
 
       /// remove a gpstk::Vector<T> of samples, with weights
@@ -710,7 +723,7 @@ namespace gpstk
       inline void Subtract(std::vector<T>& X, std::vector<T>& W)     // WtdStats
       {
          size_t i, nn(X.size() > W.size() ? W.size() : X.size());
-         for(i=0; i<nn; i++) Subtract(X(i),W(i));
+         for(i=0; i<nn; i++) Subtract(X[i],W[i]);
       }
 
       // combine two objects -------------------------------------------
@@ -733,6 +746,7 @@ namespace gpstk
          WtNorm += S.WtNorm;
          SeqStats<T>::ave = newave/WtNorm;
          SeqStats<T>::var = newvar/WtNorm - SeqStats<T>::ave*SeqStats<T>::ave;
+         if(SeqStats<T>::var < T()) SeqStats<T>::var = T();    // roundoff only
          SeqStats<T>::n += S.n;
 
          return *this;
@@ -744,7 +758,7 @@ namespace gpstk
       /// NB. Minimum() and Maximum() may no longer be valid.
       WtdStats<T>& operator-=(const WtdStats<T>& S)
       {
-         if(SeqStats<T>::n <= S.n) { SeqStats<T>::n=0; return *this; }
+         if(SeqStats<T>::n <= S.n) { Reset(); return *this; }
 
          T newave = WtNorm*SeqStats<T>::ave - S.WtNorm*S.ave;
          T newvar = WtNorm*SeqStats<T>::var-S.WtNorm*S.var
@@ -752,6 +766,7 @@ namespace gpstk
          WtNorm -= S.WtNorm;
          SeqStats<T>::ave = newave/WtNorm;
          SeqStats<T>::var = newvar/WtNorm - SeqStats<T>::ave*SeqStats<T>::ave;
+         if(SeqStats<T>::var < T()) SeqStats<T>::var = T();    // roundoff only
          SeqStats<T>::n -= S.n;
 
          return *this;
@@ -978,10 +993,10 @@ namespace gpstk
       {
          size_t i;
          std::vector<unsigned int> vi2;
-         std::vector<double> vt2;
+         std::vector<T> vt2;
          if(vuint.size() < 5 || vT.size() < 11) {
             vuint.clear();
-            for(i=0; i<5; i++) vT.push_back(T(0));
+            for(i=0; i<5; i++) vuint.push_back(0);
             vT.clear();
             for(i=0; i<11; i++) vT.push_back(T(0));
          }
@@ -1111,8 +1126,10 @@ namespace gpstk
       inline T VarianceYX(void) const
       {
          if(n > 2) {
-            return (VarianceY() * (T(n-1)/T(n-2))
-                       * (T(1)-Correlation()*Correlation()));
+            T corr(Correlation());
+            T f(T(1)-corr*corr);
+            if(f < T()) return T();       // roundoff only, |corr| is at most 1
+            return (VarianceY() * (T(n-1)/T(n-2)) * f);
          }
          else return T();
       }
-- 
2.43.0


From e9c530ccfaf6e145580c502c62710af89c08df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 068/216] fix: bivariate statistics rescaled after data of
 magnitude one, read uninitialised ranges

---
 core/lib/Math/BivarStats.hpp | 57 ++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/core/lib/Math/BivarStats.hpp b/core/lib/Math/BivarStats.hpp
index 1641484..095e816 100644
--- a/core/lib/Math/BivarStats.hpp
+++ b/core/lib/Math/BivarStats.hpp
@@ -128,7 +128,7 @@ namespace gpstk
 
          /// Combine two BivarStats (assumed to be taken from the same or
          /// equivalent samples).
-      BivarStats<T>& operator+=(BivarStats<T>& S);
+      BivarStats<T>& operator+=(const BivarStats<T>& S);
 
       Stats<T> estimateDeviation(const std::vector< std::pair<T, T> >& d) const;
 
@@ -140,6 +140,7 @@ namespace gpstk
       T xMin, xMax, yMin, yMax;
       T scaleX, scaleY;
       bool scaled;
+      bool setScaleX, setScaleY; ///< scale has been taken from the data
       T sumX, sumY, sumX2, sumY2, sumXY;
    }; // end class BivarStats
 
@@ -168,12 +169,16 @@ namespace gpstk
 
    template<class T>
    BivarStats<T>::BivarStats(bool s)
-         :ns(0), scaled(s)
+         :ns(0), xMin(0), xMax(0), yMin(0), yMax(0), scaleX(1), scaleY(1),
+          scaled(s), setScaleX(false), setScaleY(false),
+          sumX(0), sumY(0), sumX2(0), sumY2(0), sumXY(0)
    {}
 
    template<class T>
    BivarStats<T>::BivarStats(const T& x, const T& y, bool s)
-         :ns(0), scaled(s)
+         :ns(0), xMin(0), xMax(0), yMin(0), yMax(0), scaleX(1), scaleY(1),
+          scaled(s), setScaleX(false), setScaleY(false),
+          sumX(0), sumY(0), sumX2(0), sumY2(0), sumXY(0)
    {
       add(x,y);
    }
@@ -181,21 +186,27 @@ namespace gpstk
    template<class T>
    BivarStats<T>::BivarStats(const std::vector<T>& x, const std::vector<T>& y, 
                              bool s )
-         :ns(0), scaled(s)
+         :ns(0), xMin(0), xMax(0), yMin(0), yMax(0), scaleX(1), scaleY(1),
+          scaled(s), setScaleX(false), setScaleY(false),
+          sumX(0), sumY(0), sumX2(0), sumY2(0), sumXY(0)
    {
       add(x,y);
    }
 
    template<class T>
    BivarStats<T>::BivarStats(const std::vector< std::pair<T, T> >& d, bool s)
-         :ns(0), scaled(s)
+         :ns(0), xMin(0), xMax(0), yMin(0), yMax(0), scaleX(1), scaleY(1),
+          scaled(s), setScaleX(false), setScaleY(false),
+          sumX(0), sumY(0), sumX2(0), sumY2(0), sumXY(0)
    {
       add(d);
    }
 
    template<class T>
    BivarStats<T>::BivarStats(const Vector<T>& x, const Vector<T>& y, bool s)
-         :ns(0), scaled(s)
+         :ns(0), xMin(0), xMax(0), yMin(0), yMax(0), scaleX(1), scaleY(1),
+          scaled(s), setScaleX(false), setScaleY(false),
+          sumX(0), sumY(0), sumX2(0), sumY2(0), sumXY(0)
    {
       add(x,y);
    }
@@ -209,12 +220,13 @@ namespace gpstk
          xMin = xMax = x;
          yMin = yMax = y;
          scaleX = scaleY = T(1);
+         setScaleX = setScaleY = false;
       }
 
       if (scaled)
       {
-         if (scaleX==T(1) && x!=T()) scaleX=ABS(x);
-         if (scaleY==T(1) && y!=T()) scaleY=ABS(y);
+         if (!setScaleX && x!=T()) { scaleX=ABS(x); setScaleX=true; }
+         if (!setScaleY && y!=T()) { scaleY=ABS(y); setScaleY=true; }
          T tx(x/scaleX);
          T ty(y/scaleY);
          sumX += tx;
@@ -312,7 +324,7 @@ namespace gpstk
    void BivarStats<T>::subtract(const std::vector< std::pair<T, T> >& d)
    {
       size_t max( d.size() );
-      for (size_t i=0; i<max; d++)
+      for (size_t i=0; i<max; i++)
          subtract(d[i].first, d[i].second);
    }
 
@@ -353,13 +365,19 @@ namespace gpstk
    template<class T>
    T BivarStats<T>::varianceX(void) const
    {  
-      return (ns>1) ? scaleX*scaleX * (sumX2 - sumX*sumX/T(ns)) / T(ns-1) : T(0); 
+      if (ns < 2) return T(0);
+      T v(sumX2 - sumX*sumX/T(ns));
+      if (v < T(0)) return T(0);    // roundoff only, it is a sum of squares
+      return scaleX*scaleX * v / T(ns-1);
    }
 
    template<class T>
    T BivarStats<T>::varianceY(void) const
    {
-      return (ns>1) ? scaleY*scaleY * (sumY2 - sumY*sumY/T(ns)) / T(ns-1) : T(0);
+      if (ns < 2) return T(0);
+      T v(sumY2 - sumY*sumY/T(ns));
+      if (v < T(0)) return T(0);    // roundoff only, it is a sum of squares
+      return scaleY*scaleY * v / T(ns-1);
    }
 
    template<class T>
@@ -409,17 +427,26 @@ namespace gpstk
    T BivarStats<T>::sigmaYX(void) const
    {
       if (ns>2)
-         return (stdDevY() * SQRT(T(ns-1) / T(ns-2))
-                 * SQRT(T(1) - correlation() * correlation()) );
+      {
+         T sy(stdDevY());
+         if (sy == T(0)) return T(0);
+         T corr(correlation());
+         T f(T(1) - corr * corr);
+         if (f < T(0)) return T(0); // roundoff only, |corr| is at most 1
+         return sy * SQRT(T(ns-1) / T(ns-2)) * SQRT(f);
+      }
       else return T();
    }
 
       /// combine two BivarStats (assumed to be taken from the same or
       /// equivalent samples)
    template<class T>
-   BivarStats<T>& BivarStats<T>::operator+=(BivarStats<T>& S)
+   BivarStats<T>& BivarStats<T>::operator+=(const BivarStats<T>& S)
    {
-      if(ns + S.ns == 0) return *this;
+      if(S.ns == 0) return *this;
+      if(ns == 0) { *this = S; return *this; }
+      if(scaled && !setScaleX) { scaleX = S.scaleX; setScaleX = true; }
+      if(scaled && !setScaleY) { scaleY = S.scaleY; setScaleY = true; }
       xMin = std::min(xMin, S.xMin);
       xMax = std::max(xMax, S.xMax);
       yMin = std::min(yMin, S.yMin);
-- 
2.43.0


From 447dfb0673209509d545c47cc49a9adbf54e1146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 069/216] fix: PowerSum moment of order n of n samples was zero

---
 core/lib/Math/PowerSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/PowerSum.cpp b/core/lib/Math/PowerSum.cpp
index 65ec95c..3d0516c 100644
--- a/core/lib/Math/PowerSum.cpp
+++ b/core/lib/Math/PowerSum.cpp
@@ -82,7 +82,7 @@ namespace gpstk
    /// computing the central moments from the power sums.
    double PowerSum::moment(int i) const throw()
    {
-      if ( i > order || i >= n)
+      if ( i > order || i > n)
          return 0;
 
       double m=0;
-- 
2.43.0


From 8594f820b62de20966e8fff7f4d3f4246dfd7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 070/216] fix: stem-and-leaf plot of a constant sample hung or
 was printed wrongly

---
 ext/lib/Geomatics/RobustStats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/RobustStats.cpp b/ext/lib/Geomatics/RobustStats.cpp
index 63b8eb2..a3cc582 100644
--- a/ext/lib/Geomatics/RobustStats.cpp
+++ b/ext/lib/Geomatics/RobustStats.cpp
@@ -83,7 +83,7 @@ void Robust::StemLeafPlot(ostream& os, double *xd, long nd, string msg)
    if(range < 0.0)
       GPSTK_THROW(Exception("Array is not sorted"));
    if(range == 0.0)
-      range = xd[0]; //GPSTK_THROW(Exception("Array has zero range"));
+      range = (xd[0] == 0.0 ? 1.0 : fabs(xd[0])); //GPSTK_THROW(Exception("Array has zero range"));
 
       // find scale
    scale = 0.0;
-- 
2.43.0


From 16f77753b4713945bd5a4e2094e99866bfa233b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 071/216] fix: string utilities on blank, empty and
 past-the-end arguments, truncated exponents, hex dump line size

---
 core/lib/Utilities/HexDumpDataConfig.cpp | 27 +++-----
 core/lib/Utilities/StringUtils.cpp       |  2 +-
 core/lib/Utilities/StringUtils.hpp       | 86 ++++++++++++++----------
 3 files changed, 61 insertions(+), 54 deletions(-)

diff --git a/core/lib/Utilities/HexDumpDataConfig.cpp b/core/lib/Utilities/HexDumpDataConfig.cpp
index f5a90a3..1731e7e 100644
--- a/core/lib/Utilities/HexDumpDataConfig.cpp
+++ b/core/lib/Utilities/HexDumpDataConfig.cpp
@@ -151,29 +151,24 @@ namespace gpstk
          }
             // 2 characters per byte for data
          linesize += bytesThisLine * 2;
+            // number of groups, the last of which may be incomplete
+         unsigned groups = 0;
+         if (this->groupBy)
+            groups = (bytesThisLine + this->groupBy - 1) / this->groupBy;
+            // 2 characters per group 1 for base/radix "0x"
          if (this->showBaseData)
+            linesize += groups * 2;
+         if (this->group2By && bytesThisLine)
          {
-               // 2 characters per group 1 for base/radix "0x"
-            linesize += (bytesThisLine / this->groupBy) * 2;
-               // extra radix and groupSep for incomplete group
-            if (bytesThisLine % this->groupBy)
-            {
-               linesize += 2;
-               w1++;
-            }
-         }
-         if (this->group2By)
-         {
-            w2 += ((bytesThisLine / this->group2By) -
-                      // no group 2 separator at the end of the line
-                   ((bytesThisLine % this->group2By) == 0 ? 1 : 0));
+               // no group 2 separator at the end of the line
+            w2 = (bytesThisLine - 1) / this->group2By;
          }
-         if (this->groupBy)
+         if (groups)
          {
                // number of group 1's minus the number of group 2
                // separators already computed and -1 for no separator
                // at the end of the line
-            w1 += (bytesThisLine / this->groupBy) - w2 - 1;
+            w1 = groups - w2 - 1;
          }
          if (this->groupBy > 0)
          {
diff --git a/core/lib/Utilities/StringUtils.cpp b/core/lib/Utilities/StringUtils.cpp
index 79c7a2a..a2b4922 100644
--- a/core/lib/Utilities/StringUtils.cpp
+++ b/core/lib/Utilities/StringUtils.cpp
@@ -237,7 +237,7 @@ namespace gpstk
                   // default behavior for iostream
                break;
             case FFSign::NegSpace:
-               if (d >= 0)
+               if (!std::signbit(d))
                   oss << " ";
                break;
             case FFSign::NegPos:
diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 092af62..9be4423 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1491,7 +1491,7 @@ namespace gpstk
          {
                // figure out which char we found;
             inpos = inputChars.find(rv[aspos]);
-            if (outputChars.length()-1 < inpos)
+            if (outputChars.length() <= inpos)
                toc = pad;
             else
                toc = outputChars[inpos];
@@ -1623,7 +1623,7 @@ namespace gpstk
          try
          {
             std::istringstream is(s);
-            float f;
+            float f = 0;
             is >> f;
             return f;
          }
@@ -1639,7 +1639,7 @@ namespace gpstk
          try
          {
             std::istringstream is(s);
-            long double x;
+            long double x = 0;
             is >> x;
             return x;
          }
@@ -1656,7 +1656,7 @@ namespace gpstk
          try
          {
             std::istringstream is(s);
-            X x;
+            X x = X();
             is >> x;
             return x;
          }
@@ -1696,10 +1696,10 @@ namespace gpstk
          {
                // remove the integer from s, including
                // leading spaces and 0's
-            long l = asInt(s);
             stripLeading(s);
-            stripLeading(s, "0");
-            stripLeading(s, asString<long>(l));
+            char *end = 0;
+            long l = strtol(s.c_str(), &end, 10);
+            s.erase(0, end - s.c_str());
 
                // put the int in a stringstream to convert it
             std::ostringstream st;
@@ -1762,7 +1762,7 @@ namespace gpstk
                // make the stringstream, get the integer, and
                // remove it from the string
             std::istringstream iss(s);
-            unsigned int ui;
+            unsigned int ui = 0;
             iss >> std::hex >> ui;
             return ui;
          }
@@ -1787,18 +1787,14 @@ namespace gpstk
                // string
                // ex. ' 0x003' -> '3'
             stripLeading(s);
-            stripLeading(s, "0x", 1);
-            stripLeading(s, "0");
 
-               // make the stringstream, get the integer, and
-               // remove it from the string
-            std::istringstream strstr(s);
-            int i = 0;
-            strstr >> std::hex >> i;
-            stripLeading(s, asString<int>(asInt(s)), 1);
+               // get the integer and remove it from the string
+            char *end = 0;
+            long i = strtol(s.c_str(), &end, 16);
+            s.erase(0, end - s.c_str());
 
                // append the decimal to the existing string
-            s.insert(0,asString<int>(i));
+            s.insert(0,asString<long>(i));
             return s;
          }
          catch(StringException &e)
@@ -1837,8 +1833,10 @@ namespace gpstk
       {
          try
          {
-            int spot = s.find(oldString, 0);
-            while (spot != (int)std::string::npos)
+            if (oldString.empty())
+               return s;
+            std::string::size_type spot = s.find(oldString, 0);
+            while (spot != std::string::npos)
             {
                s.replace(spot, oldString.length(), newString);
                spot += newString.length();
@@ -2089,6 +2087,12 @@ namespace gpstk
       {
          try
          {
+            if (length == std::string::npos)
+            {
+                  // there is no length to pad to
+               return (startPos >= s.length()) ? std::string()
+                  : s.substr(startPos);
+            }
             if(startPos >= s.length())
             {
                return std::string(length, pad);
@@ -2142,11 +2146,11 @@ namespace gpstk
       {
          try
          {
-               // return s if there are no delimiters
+               // there is no word if there are only delimiters
             std::string::size_type pos = s.find_first_not_of(delimiter);
             if (pos == std::string::npos)
             {
-               return s;
+               return std::string();
             }
                // find the end delimiter (if any) and return the string
             std::string::size_type endPos = s.find(delimiter, pos);
@@ -2213,20 +2217,21 @@ namespace gpstk
                
             std::string::size_type wordNum = 0;
             std::string::size_type pos = 0, startPos = 0;
-
-            std::string toReturn;
+            bool found = false;
 
                // get position of word wordNum
             pos = s.find_first_not_of(delimiter, pos);
             while ((pos != std::string::npos) && (pos <= s.length()))
             {
                if (wordNum == firstWord)
+               {
                   startPos = pos;
+                  found = true;
+               }
                   
                   // get first delimter after word wordNum
                pos = s.find(delimiter, pos);
-               if (((int)numWords != -1)
-                   && ((int)wordNum == (int)(firstWord + (numWords-1))))
+               if (found && ((wordNum - firstWord) == (numWords-1)))
                   break;
                   
                pos = s.find_first_not_of(delimiter, pos);
@@ -2234,7 +2239,7 @@ namespace gpstk
             }
 
             if (pos == std::string::npos)
-               return ((wordNum >= firstWord) ? s.substr(startPos) : "");
+               return found ? s.substr(startPos) : std::string();
                
             return s.substr(startPos, pos-startPos);
          }
@@ -2434,7 +2439,10 @@ namespace gpstk
          {
             std::string::size_type rmStart = std::string::npos;
             std::string::size_type rmCount = std::string::npos;
-            
+
+            if (wordsToReplace == 0)
+               return s;
+
                // Find start of word 0
             std::string::size_type sPos = s.find_first_not_of(delimiter);
 
@@ -2452,7 +2460,8 @@ namespace gpstk
                   }
                }
                else if (  (wordsToReplace != std::string::npos)
-                       && (thisWord >= first + wordsToReplace))
+                       && (thisWord > first)
+                       && (thisWord - first >= wordsToReplace))
                {
                   rmCount = sPos - rmStart;
                   break;
@@ -2532,11 +2541,6 @@ namespace gpstk
          std::string::size_type prec = (precision > 0 ? precision : 1);
          std::string::size_type leng = (length > 0 ? length : 1);
 
-            // i will be minimum length required with prec==1: force leng if necessary
-         size_t i = (int(leng) - int(elen) - 4);
-         if(showPlus) i--;
-         if(i > 0 && leng < i) leng = std::string::size_type(i);
-
             // set up the stream for writing
          std::stringstream ss;
          ss << std::scientific << std::setprecision(prec);
@@ -2553,8 +2557,10 @@ namespace gpstk
          str1 = str1.substr(pos+2);          // str1 = exponent only
 
             // make the exponent length elen
-         str2 += StringUtils::rightJustify(
-            StringUtils::asString(StringUtils::asInt(str1)),elen,'0');
+            // (or as long as it has to be)
+         str1 = StringUtils::asString(StringUtils::asInt(str1));
+         if(str1.length() < elen) str1 = StringUtils::rightJustify(str1,elen,'0');
+         str2 += str1;
 
             // pad if necessary
          if(str2.length() < leng) str2 = StringUtils::rightJustify(str2,leng);
@@ -2632,7 +2638,11 @@ namespace gpstk
                }
                else
                   aStr += "+";
-               aStr += rightJustify(asString(iexp),expLen,'0');
+               exp = asString(iexp);
+                  // never drop digits of the exponent
+               if (exp.length() < expLen)
+                  exp = rightJustify(exp,expLen,'0');
+               aStr += exp;
 
             }
 
@@ -2796,7 +2806,7 @@ namespace gpstk
                   // no longer processing a word delimiter
                wordDelimited = false;
                linePos = aStr.find(lineDelim, curPos);
-               if (linePos == curPos)
+               if ((linePos == curPos) && !lineDelim.empty())
                {
                   curPos += lineDelim.length();
                      // line delimiters are NOT compressed.
@@ -2805,6 +2815,8 @@ namespace gpstk
                   continue;
                }
                   // add a word
+               if (lineDelim.empty())
+                  linePos = std::string::npos;
                minPos = std::min(wordPos, linePos);
                if (minPos != std::string::npos)
                   wordLen = minPos - curPos;
-- 
2.43.0


From 950de94eeb0cb3359908cad0469d43b856756c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 072/216] fix: PRSolution slopes were misplaced after a
 satellite with its own clock

---
 core/lib/PosSol/PRSolution.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index d0931d2..0e2ec22 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -443,9 +443,8 @@ namespace gpstk
          // compute slopes and find max member
          MaxSlope = 0.0;
          Slopes = 0.0;
-         if(iret == 0) for(j=0,i=0; i<Sats.size(); i++) {
-            if(Sats[i].id <= 0) continue;
-
+         // NB Slopes and PG are indexed by good satellite
+         if(iret == 0) for(j=0; j<Nsvs; j++) {
             // NB when one (few) sats have their own clock, PG(j,j) = 1 (nearly 1)
             // and slope is inf (large)
             if(::fabs(1.0-PG(j,j)) < 1.e-8) continue;
@@ -453,7 +452,6 @@ namespace gpstk
             for(int k=0; k<dim; k++) Slopes(j) += G(k,j)*G(k,j); // TD dim=4 here?
             Slopes(j) = SQRT(Slopes(j)*double(n-dim)/(1.0-PG(j,j)));
             if(Slopes(j) > MaxSlope) MaxSlope = Slopes(j);
-            j++;
          }
          LOG(DEBUG) << "Computed slopes, found max member";
 
-- 
2.43.0


From fdfdfa6975f90bda1fb555eaed1d37d8eb6af323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 073/216] fix: PRSolution wrote out of bounds given unmarked
 satellites of systems not allowed

---
 core/lib/PosSol/PRSolution.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index 0e2ec22..3f7ed20 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -174,7 +174,7 @@ namespace gpstk
    // Compute a straightforward solution using all the unmarked data.
    // Call PreparePRSolution first.
    int PRSolution::SimplePRSolution(const CommonTime& T,
-                                    const vector<SatID>& Sats,
+                                    const vector<SatID>& inSats,
                                     const Matrix<double>& SVP,
                                     const Matrix<double>& invMC,
                                     TropModel *pTropModel,
@@ -187,6 +187,8 @@ namespace gpstk
          Exception e("Undefined tropospheric model");
          GPSTK_THROW(e);
       }
+      vector<SatID> Sats(inSats);         // disallowed systems will be marked here
+
       if(Sats.size() != SVP.rows() ||
          (invMC.rows() > 0 && invMC.rows() != Sats.size())) {
          LOG(ERROR) << "Sats has length " << Sats.size();
@@ -219,8 +221,10 @@ namespace gpstk
                   continue;
 
                SatelliteSystem sys(Sats[i].system);  // get this system
-               if(vectorindex(allowedGNSS, sys) == -1)      // reject disallowed sys
+               if(vectorindex(allowedGNSS, sys) == -1) {    // reject disallowed sys
+                  Sats[i].id = -Sats[i].id;
                   continue;
+               }
 
                Nsvs++;                                      // count it
                if(vectorindex(tempGNSS, sys) == -1)         // add unique system
-- 
2.43.0


From af77d1eada41654d8e5a9438194cd06d0f85596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 074/216] fix: PRSolution memory read past the a priori
 solution with several systems

---
 core/lib/PosSol/PRSolution.cpp | 4 +++-
 core/lib/PosSol/PRSolution.hpp | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index 3f7ed20..ad24bef 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -285,7 +285,9 @@ namespace gpstk
             for(i=0; i<3; i++) localAPSol[i] = APSolution[i];
             for(i=0; i<currGNSS.size(); i++) {
                k = vectorindex(allowedGNSS,currGNSS[i]);
-               localAPSol[3+i] = (k == -1 ? 0.0 : APSolution[3+k]);
+               // NB the a priori does not cover all of allowedGNSS until updated
+               if(k != -1 && size_t(3+k) < APSolution.size())
+                  localAPSol[3+i] = APSolution[3+k];
             }
             //LOG(INFO) << " apriori solution (" << APSolution.size() << ") is [ "
             //   << fixed << setprecision(3) << APSolution << " ]";
diff --git a/core/lib/PosSol/PRSolution.hpp b/core/lib/PosSol/PRSolution.hpp
index e9eca4d..eceadb5 100644
--- a/core/lib/PosSol/PRSolution.hpp
+++ b/core/lib/PosSol/PRSolution.hpp
@@ -583,7 +583,10 @@ namespace gpstk
             S(i) = (fixedAPriori ? fixedAPrioriPos[i] : Sol(i));
          for(i=0; i<allowedGNSS.size(); i++) {
             k = vectorindex(dataGNSS,allowedGNSS[i]);
-            S(3+i) = (k == -1 ? APSolution[3+i] : Sol[3+k]);
+            if(k != -1)
+               S(3+i) = Sol[3+k];
+            else if(3+i < APSolution.size())
+               S(3+i) = APSolution[3+i];
          }
 
          APSolution = S;
-- 
2.43.0


From 6c1ffbdce068959ffc2280a163bbe123abab42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 075/216] fix: PRSolution left its degrees of freedom and
 results uninitialised

---
 core/lib/PosSol/PRSolution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.hpp b/core/lib/PosSol/PRSolution.hpp
index eceadb5..37a5366 100644
--- a/core/lib/PosSol/PRSolution.hpp
+++ b/core/lib/PosSol/PRSolution.hpp
@@ -221,8 +221,12 @@ namespace gpstk
                       MaxNIterations(10),
                       ConvergenceLimit(3.e-7),
                       hasMemory(true),
+                      APV(0.0), ndata(0), nsol(0), ndof(0),
                       fixedAPriori(false),
-                      nsol(0), ndata(0), APV(0.0),
+                      RMSResidual(0.0), MaxSlope(0.0),
+                      TDOP(0.0), PDOP(0.0), GDOP(0.0),
+                      NIterations(0), Convergence(0.0), Nsvs(0),
+                      TropFlag(false), RMSFlag(false), SlopeFlag(false),
                       Valid(false)
          {
             was.reset();
-- 
2.43.0


From 6612438e7bef7932405fc225941951a9af93a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 076/216] fix: PRSolution was valid after not converging, and
 refused a solution with zero residual

---
 core/lib/PosSol/PRSolution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index ad24bef..4bcc717 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -478,7 +478,7 @@ namespace gpstk
          Partials = P;
          NIterations = n_iterate;
          Convergence = converge;
-         Valid = true;
+         Valid = (iret == 0);
 
          return iret;
       
@@ -687,7 +687,7 @@ namespace gpstk
             } while(Combo.Next() != -1);  // get the next combinations and repeat
 
             // end of the stage
-            if(BestRMS > 0.0 && BestRMS < RMSLimit) {          // success
+            if(BestRMS >= 0.0 && BestRMS < RMSLimit) {          // success
                LOG(DEBUG) << " RAIM: Success in the RAIM loop";
                iret = 0;
                break;
-- 
2.43.0


From d1351e3924c6dc340adf575be9e24550d938cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 077/216] fix: PRSolutionLegacy rejected the wrong satellites
 when some were marked, and lost its covariance

---
 ext/lib/PosSol/PRSolutionLegacy.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ext/lib/PosSol/PRSolutionLegacy.cpp b/ext/lib/PosSol/PRSolutionLegacy.cpp
index e13039f..b0de671 100644
--- a/ext/lib/PosSol/PRSolutionLegacy.cpp
+++ b/ext/lib/PosSol/PRSolutionLegacy.cpp
@@ -360,7 +360,7 @@ namespace gpstk
                for (i = 0; i < GoodIndexes.size(); i++)
                {
                   if (Combo.isSelected(i))
-                     UseSat[i]=false;
+                     UseSat[GoodIndexes[i]]=false;
                }
                // ----------------------------------------------------------------
                // Compute a solution given the data; ignore ranges for marked
@@ -444,6 +444,7 @@ namespace gpstk
                   {
                      BestRMS = RMSResidual;
                      BestSol = Solution;
+                     BestCovariance = Covariance;
                      BestUse = UseSat;
                      BestSL = MaxSlope;
                      BestConv = Convergence;
@@ -458,7 +459,7 @@ namespace gpstk
             } while(Combo.Next() != -1);
             
             // end of the stage
-            if (BestRMS > 0.0 && BestRMS < RMSLimit)
+            if (BestRMS >= 0.0 && BestRMS < RMSLimit)
             {     // success
                iret=0;
                break;
-- 
2.43.0


From 3b6599e4f8c6a7138584b163317fea71edd39994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 078/216] fix: PRSolutionLegacy algebraic solution wrote out of
 bounds

---
 ext/lib/PosSol/PRSolutionLegacy.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ext/lib/PosSol/PRSolutionLegacy.cpp b/ext/lib/PosSol/PRSolutionLegacy.cpp
index b0de671..29f3ffb 100644
--- a/ext/lib/PosSol/PRSolutionLegacy.cpp
+++ b/ext/lib/PosSol/PRSolutionLegacy.cpp
@@ -736,8 +736,8 @@ namespace gpstk
          Slope.resize(Use.size());
          
             // define for algebraic solution
-         Vector<double> U(size),Q(N);
-         Matrix<double> A(P);
+         Vector<double> U(4),Q(N);
+         Matrix<double> A(N,4);
             // and for linearized least squares
          int niter_limit = (n_iterate < 2 ? 2 : n_iterate);
          double conv_limit = converge;
@@ -830,7 +830,6 @@ namespace gpstk
                   U(1) = A(n,1) = svxyz[1];
                   U(2) = A(n,2) = svxyz[2];
                   U(3) = A(n,3) = CRange(n);
-                  U(4) = A(n,4) = P(n,4);
                   Q(n) = 0.5 * Minkowski(U,U);
                }
                
-- 
2.43.0


From 0e6ffa28e54734418cee0f527138dc54297a8bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 079/216] fix: PRSolutionLegacy lost the a priori position, and
 was singular when GLONASS was present but ignored

---
 ext/lib/PosSol/PRSolutionLegacy.cpp | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/ext/lib/PosSol/PRSolutionLegacy.cpp b/ext/lib/PosSol/PRSolutionLegacy.cpp
index 29f3ffb..f18c1f4 100644
--- a/ext/lib/PosSol/PRSolutionLegacy.cpp
+++ b/ext/lib/PosSol/PRSolutionLegacy.cpp
@@ -251,30 +251,10 @@ namespace gpstk
 
          Valid = false;
 
-         bool hasGlonass = false;
-         bool hasOther = false;
-         Vector<int> satSystems(Satellite.size());
-         //Check if we have a mixed system
-         for ( i = 0; i < Satellite.size(); ++i)
-         {
-            satSystems[i] = ((Satellite[i].system == SatelliteSystem::Glonass) ? (1) : (0) );
-
-            if (satSystems[i] == 1) hasGlonass = true;
-            else hasOther = true;
-         }
-
          // Save the input solution
          // (for use in rejection when ResidualCriterion is false).
-         if (!hasGlonass && Solution.size() != 4)
-         {
-            Solution.resize(4);
-         }
-         else if (hasGlonass && hasOther && Solution.size() != 5)
-         {
-            Solution.resize(5);
-         }
-         Solution = 0.0;
          APrioriSolution = Solution;
+         Solution = 0.0;
 
          // ----------------------------------------------------------------
          // fill the SVP matrix, and use it for every solution
@@ -294,6 +274,26 @@ namespace gpstk
             *pDebugStream << fixed << setw(16) << setprecision(3) << SVP << endl;
          }
          if (i) return i;  // return is 0 (ok) or -4 (no ephemeris)
+
+         bool hasGlonass = false;
+         bool hasOther = false;
+         Vector<int> satSystems(Satellite.size());
+         //Check if we have a mixed system (among the satellites not ignored)
+         for ( i = 0; i < Satellite.size(); ++i)
+         {
+            satSystems[i] = ((Satellite[i].system == SatelliteSystem::Glonass) ? (1) : (0) );
+            if (Satellite[i].id <= 0) continue;
+
+            if (satSystems[i] == 1) hasGlonass = true;
+            else hasOther = true;
+         }
+
+         const size_t nstate = (hasGlonass && hasOther) ? 5 : 4;
+         Solution = Vector<double>(nstate, 0.0);
+         for ( i = 0; i < nstate && i < APrioriSolution.size(); i++)
+            Solution(i) = APrioriSolution(i);
+         APrioriSolution = Solution;
+         Solution = 0.0;
          
          // count how many good satellites we have
          // Initialize UseSat based on Satellite, and build GoodIndexes.
-- 
2.43.0


From 68cf9fc6ad8a4aee3edbe7355dba38ba69e51e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 080/216] fix: Bancroft solved with fewer than four satellites
 when not testing its input

---
 ext/lib/PosSol/Bancroft.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ext/lib/PosSol/Bancroft.cpp b/ext/lib/PosSol/Bancroft.cpp
index e13260e..9ef1278 100644
--- a/ext/lib/PosSol/Bancroft.cpp
+++ b/ext/lib/PosSol/Bancroft.cpp
@@ -114,13 +114,6 @@ namespace gpstk
 
             }
 
-               // Let's redefine "N" and check if we have enough data rows
-               // left in a single step
-            if( (N = B.rows()) < 4 )
-            {
-               return -1;  // We need at least 4 data rows
-            }
-
          }  // End of 'if( testInput )...'
          else
          {
@@ -129,6 +122,12 @@ namespace gpstk
             B = Data;
          }
 
+            // Let's redefine "N" and check if we have enough data rows
+            // left in a single step
+         if( (N = B.rows()) < 4 )
+         {
+            return -1;  // We need at least 4 data rows
+         }
 
          Matrix<double> BT=transpose(B);
          Matrix<double> BTBI(4,4), M(4,4,0.0);
-- 
2.43.0


From af49adfbb35083815cdc4f04ea57df67c8982401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 081/216] fix: satellite-time ranges applied the satellite
 clock to the time of flight with the wrong sign

---
 core/lib/GNSSEph/EphemerisRange.cpp | 2 +-
 core/lib/ORD/ord.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EphemerisRange.cpp b/core/lib/GNSSEph/EphemerisRange.cpp
index a00ec39..d791a2d 100644
--- a/core/lib/GNSSEph/EphemerisRange.cpp
+++ b/core/lib/GNSSEph/EphemerisRange.cpp
@@ -194,7 +194,7 @@ namespace gpstk
          // very nearly the same, and multiplying by angVel/c should make the angle
          // of rotation very nearly identical.
          GPSEllipsoid ell;
-         double range(pr/ell.c() - svPosVel.clkbias - svPosVel.relcorr);
+         double range(pr/ell.c() + svPosVel.clkbias + svPosVel.relcorr);
          double rotation_angle = -ell.angVelocity() * range;
          svPosVel.x[0] = svPosVel.x[0] - svPosVel.x[1] * rotation_angle;
          svPosVel.x[1] = svPosVel.x[1] + svPosVel.x[0] * rotation_angle;
diff --git a/core/lib/ORD/ord.cpp b/core/lib/ORD/ord.cpp
index 9eb2aaa..34b5625 100644
--- a/core/lib/ORD/ord.cpp
+++ b/core/lib/ORD/ord.cpp
@@ -223,7 +223,7 @@ double RawRange3(double pseudorange, const gpstk::Position& rxLoc,
     // very nearly the same, and multiplying by angVel/c should make the angle
     // of rotation very nearly identical.
     GPSEllipsoid ell;
-    double range(pseudorange/ell.c() - svPosVel.clkbias - svPosVel.relcorr);
+    double range(pseudorange/ell.c() + svPosVel.clkbias + svPosVel.relcorr);
     double rotation_angle = -ell.angVelocity() * range;
     svPosVel.x[0] = svPosVel.x[0] - svPosVel.x[1] * rotation_angle;
     svPosVel.x[1] = svPosVel.x[1] + svPosVel.x[0] * rotation_angle;
-- 
2.43.0


From ba8f6a01f884ca57b9de37db6d8bab3b24453e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 082/216] fix: range without pseudorange took a geodetic
 receiver position for cartesian

---
 core/lib/GNSSEph/EphemerisRange.cpp | 4 +++-
 core/lib/ORD/ord.cpp                | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EphemerisRange.cpp b/core/lib/GNSSEph/EphemerisRange.cpp
index d791a2d..6c287bb 100644
--- a/core/lib/GNSSEph/EphemerisRange.cpp
+++ b/core/lib/GNSSEph/EphemerisRange.cpp
@@ -161,7 +161,9 @@ namespace gpstk
       try {
          gpstk::GPSEllipsoid gm;
          svPosVel = Eph.getXvt(sat, tr_nom);
-         double pr = svPosVel.preciseRho(Rx, gm);
+         Position trx(Rx);
+         trx.asECEF();
+         double pr = svPosVel.preciseRho(trx, gm);
          return ComputeAtTransmitTime(tr_nom, pr, Rx, sat, Eph);
       }
       catch(gpstk::Exception& e) {
diff --git a/core/lib/ORD/ord.cpp b/core/lib/ORD/ord.cpp
index 34b5625..5ee2b65 100644
--- a/core/lib/ORD/ord.cpp
+++ b/core/lib/ORD/ord.cpp
@@ -241,7 +241,9 @@ double RawRange4(const gpstk::Position& rxLoc, const gpstk::SatID& satId,
     try {
        gpstk::GPSEllipsoid gm;
        Xvt svPosVel = ephemeris.getXvt(satId, time);
-       double pr = svPosVel.preciseRho(rxLoc, gm);
+       Position trx(rxLoc);
+       trx.asECEF();
+       double pr = svPosVel.preciseRho(trx, gm);
        return RawRange2(pr, rxLoc, satId, time, ephemeris, svXvt);
     }
     catch(gpstk::Exception& e) {
-- 
2.43.0


From 7259f6b42f87a3cef390ca49beefd1e08f2e7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 083/216] fix: satellite-time range did not set the transmit
 time

---
 core/lib/GNSSEph/EphemerisRange.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/EphemerisRange.cpp b/core/lib/GNSSEph/EphemerisRange.cpp
index 6c287bb..19327d1 100644
--- a/core/lib/GNSSEph/EphemerisRange.cpp
+++ b/core/lib/GNSSEph/EphemerisRange.cpp
@@ -184,7 +184,8 @@ namespace gpstk
          Position trx(rx);
          trx.asECEF();
 
-         svPosVel = eph.getXvt(sat, tt_nom);
+         transmit = tt_nom;
+         svPosVel = eph.getXvt(sat, transmit);
 
          // compute rotation angle in the time of signal transit
 
-- 
2.43.0


From a26cd4974445e38d0ad712ae25d8ff986b7a0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 084/216] fix: applying a clock model of another time
 terminated the program

---
 core/lib/ClockModel/ORDEpoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/ClockModel/ORDEpoch.hpp b/core/lib/ClockModel/ORDEpoch.hpp
index ce50612..5f028a8 100644
--- a/core/lib/ClockModel/ORDEpoch.hpp
+++ b/core/lib/ClockModel/ORDEpoch.hpp
@@ -72,7 +72,7 @@ namespace gpstk
          return *this;
       }
    
-      ORDEpoch& applyClockModel(const ClockModel& cm) throw()
+      ORDEpoch& applyClockModel(const ClockModel& cm)
       {
          if (cm.isOffsetValid(time))
          {
-- 
2.43.0


From 5456828eca1bfc7f719e28c41398c2e1fd1a9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 085/216] fix: dumping an empty linear clock model dereferenced
 the end of a map

---
 core/lib/ClockModel/LinearClockModel.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/ClockModel/LinearClockModel.cpp b/core/lib/ClockModel/LinearClockModel.cpp
index 5b09d21..779d88f 100644
--- a/core/lib/ClockModel/LinearClockModel.cpp
+++ b/core/lib/ClockModel/LinearClockModel.cpp
@@ -162,10 +162,13 @@ namespace gpstk
            << endl;
 
          map<CommonTime,SvStatusMap>::const_iterator e = prnStatus.find(endTime);
-         const SvStatusMap& statusMap = e->second;
-         SvStatusMap::const_iterator i;
-         for ( i=statusMap.begin(); i!= statusMap.end(); i++)
-            s << i->first << "/" << i->second << " ";
+         if (e != prnStatus.end())
+         {
+            const SvStatusMap& statusMap = e->second;
+            SvStatusMap::const_iterator i;
+            for ( i=statusMap.begin(); i!= statusMap.end(); i++)
+               s << i->first << "/" << i->second << " ";
+         }
          s << endl;
       }
    }
-- 
2.43.0


From bd7cb3e0fd2a73dd83a876e2efe0c1c92fa07d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 086/216] fix: clock models looked up the status of an ORD by
 other than its key

---
 core/lib/ClockModel/LinearClockModel.cpp | 2 +-
 core/lib/ClockModel/ObsClockModel.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/ClockModel/LinearClockModel.cpp b/core/lib/ClockModel/LinearClockModel.cpp
index 779d88f..5cfa77c 100644
--- a/core/lib/ClockModel/LinearClockModel.cpp
+++ b/core/lib/ClockModel/LinearClockModel.cpp
@@ -114,7 +114,7 @@ namespace gpstk
       {
          tossCount=0;
          for (itr = oe.ords.begin(); itr != oe.ords.end(); itr++)
-            if (statusMap[itr->second.getSvID()] == USED)
+            if (statusMap[itr->first] == USED)
             {
                const double ord = itr->second.getORD();
                clockModel.Add(deltaT, ord);
diff --git a/core/lib/ClockModel/ObsClockModel.cpp b/core/lib/ClockModel/ObsClockModel.cpp
index 5b153cd..bed83d1 100644
--- a/core/lib/ClockModel/ObsClockModel.cpp
+++ b/core/lib/ClockModel/ObsClockModel.cpp
@@ -168,7 +168,7 @@ namespace gpstk
          // the clock bias value
          stat.Reset();
          for (itr = oe.ords.begin(); itr != oe.ords.end(); itr++)
-            if (status[itr->second.getSvID()] == USED)
+            if (status[itr->first] == USED)
                stat.Add(itr->second.getORD());
       }
          
-- 
2.43.0


From 3e80e663624b6f1f118adada0a0747da00f73398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 087/216] fix: SP3 epochs lost their fractional seconds on
 reading

---
 core/lib/FileHandling/SP3/SP3Data.cpp   | 2 +-
 core/lib/FileHandling/SP3/SP3Header.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index f8e5bd5..1444b08 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -163,7 +163,7 @@ namespace gpstk
             int dom = asInt(strm.lastLine.substr(11,2));
             int hour = asInt(strm.lastLine.substr(14,2));
             int minute = asInt(strm.lastLine.substr(17,2));
-            double second = asInt(strm.lastLine.substr(20,10));
+            double second = asDouble(strm.lastLine.substr(20,11));
             CivilTime t;
             try {
                t = CivilTime(year, month, dom, hour, minute, second, timeSystem);
diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index c8f868c..8ba2384 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -85,7 +85,7 @@ namespace gpstk
          int dom = asInt(line.substr(11,2));
          int hour = asInt(line.substr(14,2));
          int minute = asInt(line.substr(17,2));
-         double second = asInt(line.substr(20,10));
+         double second = asDouble(line.substr(20,11));
          try {
             time = CivilTime(year, month, dom, hour, minute, second);
          }
-- 
2.43.0


From 57d0132dcc89740d043fd92bd7bb17ba1f134367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 088/216] fix: SP3 records kept the flags of the record read
 before

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 1444b08..577d41a 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -72,6 +72,8 @@ namespace gpstk
       // default for the 'c' arrays is all zeros
       sdev[0] = sdev[1] = sdev[2] = sdev[3] = 0;
       sig[0] = sig[1] = sig[2] = sig[3] = 0;
+      clockEventFlag = clockPredFlag = orbitManeuverFlag = orbitPredFlag = false;
+      eventFlag = false;
       correlation[0] = correlation[1] = correlation[2]
          = correlation[3] = correlation[4] = correlation[5] = 0;
 
-- 
2.43.0


From 849294493f661dde71418876b8aca3fbc844975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 089/216] fix: blank (unknown) SP3 sigmas were taken for zero
 exponents

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 577d41a..6ea8697 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -221,10 +221,10 @@ namespace gpstk
 
             // the rest is version c only
             if(isVerC) {
-               sig[0] = asInt(strm.lastLine.substr(61,2));           // sigma XYZ
-               sig[1] = asInt(strm.lastLine.substr(64,2));
-               sig[2] = asInt(strm.lastLine.substr(67,2));
-               sig[3] = asInt(strm.lastLine.substr(70,3));           // sigma clock
+               for(int i=0; i<4; i++) {        // sigma XYZ and clock; blank is -1
+                  string field(strm.lastLine.substr(61+3*i,(i < 3 ? 2 : 3)));
+                  sig[i] = (strip(field).empty() ? -1 : asInt(field));
+               }
 
                if(RecType == 'P') {                                  // P flags
                   clockEventFlag = clockPredFlag
@@ -369,10 +369,9 @@ namespace gpstk
          }
 
          if(isVerC) {
-            line += rightJustify(asString(sig[0]),3);       // sigma XYZ
-            line += rightJustify(asString(sig[1]),3);
-            line += rightJustify(asString(sig[2]),3);
-            line += rightJustify(asString(sig[3]),4);       // sigma Clock
+            for(int i=0; i<4; i++)              // sigma XYZ and Clock; -1 is blank
+               line += rightJustify((sig[i] < 0 ? string() : asString(sig[i])),
+                                    (i < 3 ? 3 : 4));
 
             if(RecType == 'P') {                            // flags or blanks
                line += string(" ");
-- 
2.43.0


From aee50a2e0e301f592290494f73621043ce357408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 090/216] fix: the last record of an SP3 file without an EOF
 record was lost

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 41 ++++++++-------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 6ea8697..2242ec1 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -83,7 +83,6 @@ namespace gpstk
 
       // loop until an error occurs, or until the entire record (which may consist
       // of two lines) is read.
-      bool unexpectedEOF=false;
       while(1) {
 
          // set the time to be the last epoch read by the stream
@@ -279,39 +278,23 @@ namespace gpstk
             GPSTK_THROW(err);
          }
 
-         // be tolerant of files without EOF -- IGS!
-         // if previous iteration of the loop found unexpected EOF, then quit here.
-         if(unexpectedEOF) {
+         // read next line into the lastLine
+         try {
+            strm.formattedGetLine(strm.lastLine);
+         }
+         catch(FFStreamError& err) {
+            // be tolerant of files without EOF -- IGS!
+            string what = err.what().substr(0,21);
+            if(what != string("text 0:Unexpected EOF"))
+               GPSTK_RETHROW(err);
+
             // add a warning
             strm.warnings.push_back(string("Warning (SP3 std): Unexpected EOF"));
 
-            // clear the buffer so it won't be (re)processed next call
+            // proceed as if the EOF record had been read, clearing the fail bit
+            // so that the user will process this SP3Data
             strm.lastLine = string("EOF");
-
-            // clear the eof bit and return, so the user will process this SP3Data
             strm.clear(ios::eofbit);
-            status = 3;
-         }
-         else {            // normal flow
-            // read next line into the lastLine
-            try {
-               strm.formattedGetLine(strm.lastLine);
-            }
-            catch(FFStreamError& err) {
-               string what = err.what().substr(0,21);
-               //cout << "Found unexpected EOF" << endl;
-               //cout << "what is " << what << endl;
-               //cout << "Here is the buffer:\n" << strm.lastLine << endl;
-               if(what == string("text 0:Unexpected EOF")) {
-                  unexpectedEOF = true;
-
-                  // there could still be unprocessed data in the buffer:
-                  if(strm.lastLine.size() < 3) status = 3;  // nothing there, quit
-                  else                         status = 0;  // go back and process it
-               }
-               else
-                  GPSTK_RETHROW(err);
-            }
          }
 
          if(status == 3) break;  // quit if found EOF or EP|EV was processed, but
-- 
2.43.0


From e2306691751b51578413e2c8236f98b8b3a46eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 091/216] fix: a reused SP3 header kept satellites, time system
 and bases of the previous file

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 7 +++++++
 core/lib/FileHandling/SP3/SP3Header.hpp | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index 8ba2384..8cfc296 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -59,6 +59,13 @@ namespace gpstk
    {
       SP3Stream& strm = dynamic_cast<SP3Stream&>(ffs);
 
+      // remove what an earlier file may have left
+      allowSP3aEvents = false;
+      system = SP3SatID(1, SatelliteSystem::GPS);
+      timeSystem = TimeSystem::Any;
+      basePV = baseClk = 0.0;
+      satList.clear();
+
       string line;
       strm.formattedGetLine(line);
       if(debug) std::cout << "SP3 Header Line 1 " << line << std::endl;
diff --git a/core/lib/FileHandling/SP3/SP3Header.hpp b/core/lib/FileHandling/SP3/SP3Header.hpp
index bd3715f..ace2d7a 100644
--- a/core/lib/FileHandling/SP3/SP3Header.hpp
+++ b/core/lib/FileHandling/SP3/SP3Header.hpp
@@ -81,7 +81,8 @@ namespace gpstk
       };
 
          /// constructor
-      SP3Header() : version(undefined), numberOfEpochs(0),
+      SP3Header() : version(undefined), containsVelocity(false),
+                    epochInterval(0.0), numberOfEpochs(0),
                     system(1, SatelliteSystem::GPS), timeSystem(TimeSystem::Any),
                     basePV(0.0), baseClk(0.0), allowSP3aEvents(false)
       {}
-- 
2.43.0


From 00e5c4c67b331b075063ce331430c80fe8cb3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 092/216] fix: SP3 header gave the MJD of the next day for
 epochs after noon

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index 8cfc296..2cf23b9 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -338,7 +338,8 @@ namespace gpstk
       line += rightJustify(gpsWS.printf("%F"),5);
       line += rightJustify(gpsWS.printf("%15.8g"),16);
       line += " " + rightJustify(asString(epochInterval,8),14);
-      line += " " + (static_cast<MJD>(time)).printf("%5.0Q");
+      line += " " + rightJustify(
+         asString(static_cast<long>(static_cast<MJD>(time).mjd)),5);
       line += " " + rightJustify(asString(time.getSecondOfDay()/86400.,13),15);
       strm << line << endl;
       strm.lineNumber++;
-- 
2.43.0


From 293632c92f20762bdb6ec1746d7e5b6284923dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 093/216] fix: SP3 header line 14 was not counted

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index 2cf23b9..b5e52f0 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -480,6 +480,7 @@ namespace gpstk
 
       // line 14
       strm << "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc" << endl;
+      strm.lineNumber++;
 
       // line 15
       strm << "%f "
-- 
2.43.0


From b39c44d4ed120790562f800afd0183507b03f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 094/216] fix: more than 85 satellites were dropped silently
 from SP3 a, b and c headers

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index b5e52f0..b364595 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -317,6 +317,12 @@ namespace gpstk
       bool isVerC  = (version == SP3c);
       bool isVerD  = (version == SP3d);
 
+      if(!isVerD && satList.size() > 85) {
+         FFStreamError fse("Cannot output more than 85 satellites to "
+                           + versionString());
+         GPSTK_THROW(fse);
+      }
+
       // line 1
       CivilTime civTime(time);
       line = "#";
-- 
2.43.0


From 48e9fcd9b2fd668a9f7b59ffb380fea2e9c3cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 095/216] fix: last character of the station number was lost
 reading RINEX clock files

---
 core/lib/FileHandling/RINEX/RinexClockHeader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexClockHeader.cpp b/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
index 449277f..014afa9 100644
--- a/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
@@ -564,7 +564,7 @@ namespace gpstk
       else if (label == stationNameString)
       {
          stationName = line.substr(0,4);
-         stationNumber = strip(line.substr(4,20));
+         stationNumber = strip(line.substr(5,20));
 
          valid |= stationNameValid;
 
-- 
2.43.0


From d67fc16774f6b0cfd9baa24c11677f96a2ab7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 096/216] fix: RINEX clock reference records depended on the
 solution station record

---
 core/lib/FileHandling/RINEX/RinexClockHeader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexClockHeader.cpp b/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
index 014afa9..95344be 100644
--- a/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
@@ -352,7 +352,7 @@ namespace gpstk
          strm << setw(3) << ac << "  " << setw(55) << acName << acNameString
               << endlpp;
       }
-      if ( valid & numStationsValid )
+      if ( valid & numRefClkValid )
       {
          for (const auto& recItr : refClkList)
          {
-- 
2.43.0


From 1aa8b759be6df3b2f2b536483cfb60c31c987031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 097/216] fix: a reused RINEX 3 clock header kept observation
 types of the previous file

---
 core/lib/FileHandling/RINEX3/Rinex3ClockData.hpp   |  1 +
 core/lib/FileHandling/RINEX3/Rinex3ClockHeader.hpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockData.hpp b/core/lib/FileHandling/RINEX3/Rinex3ClockData.hpp
index fb29814..39d718a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockData.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockData.hpp
@@ -116,6 +116,7 @@ namespace gpstk
       {
          datatype = std::string();
          sat = RinexSatID(-1,SatelliteSystem::GPS);
+         site = std::string();
          time = CommonTime::BEGINNING_OF_TIME;
          bias = sig_bias = drift = sig_drift = accel = sig_accel = 0.0;
       }
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.hpp b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.hpp
index 2040ff0..e8d7e85 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.hpp
@@ -65,8 +65,9 @@ namespace gpstk
    public:
 
          /// constructor
-      Rinex3ClockHeader() : version(3.0), leapSeconds(0), timeSystem(TimeSystem::Any),
-                            numSolnStations(0), numSolnSatellites(0)
+      Rinex3ClockHeader() : version(3.0), numObs(0), leapSeconds(0),
+                            timeSystem(TimeSystem::Any), numSolnStations(0),
+                            numSolnSatellites(0), valid(0)
       {}
 
          /// @name RINEX Clock Header Formatting Strings
@@ -195,8 +196,13 @@ namespace gpstk
          version = 3.0;
          program = std::string();
          runby = std::string();
+         fileSys = std::string();
          dataTypes.clear();
+         satSysPrev = std::string();
+         numObs = 0;
+         sysObsTypes.clear();
          leapSeconds = 0;
+         analCenterDesignator = std::string();
          analysisCenter = std::string();
          terrRefFrame = std::string();
          timeSystem = TimeSystem::Any;
-- 
2.43.0


From 7a0047f0bff818e4c8c9721b88f49134711adfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 098/216] fix: program names of applied corrections lost a
 character reading RINEX 3 clock files

---
 core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
index 8ec4c5d..a69fd4a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
@@ -163,7 +163,7 @@ namespace gpstk
                {
                   RinexSatID sat(satstr);
                   dcbsMap[satstr] =
-                     stringPair(strip(line.substr(1,17)),
+                     stringPair(strip(line.substr(2,17)),
                                 strip(line.substr(20,40)));
                }
                catch (Exception& exc)
@@ -181,7 +181,7 @@ namespace gpstk
                {
                   RinexSatID sat(satstr);
                   pcvsMap[satstr] =
-                     stringPair(strip(line.substr(1,17)),
+                     stringPair(strip(line.substr(2,17)),
                                 strip(line.substr(20,40)));
                }
                catch (Exception& exc)
-- 
2.43.0


From adeb29a203b1cd2e6245e6098b6e9afec8d5084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 099/216] fix: RINEX 3 clock headers repeated the observation
 types once per system

---
 .../FileHandling/RINEX3/Rinex3ClockHeader.cpp | 66 +++++++++----------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
index a69fd4a..b10211a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
@@ -326,47 +326,43 @@ namespace gpstk
             strm.lineNumber++;
 
             if(valid & sysValid && version >= 3) {
-               RinexObsMap::const_iterator it = sysObsTypes.begin();
-               for (;it != sysObsTypes.end(); it++)
-               {
-                  static const int maxObsPerLine = 13;
+               static const int maxObsPerLine = 13;
 
-                  map<string,vector<RinexObsID> >::const_iterator mapIter;
-                  for(mapIter = sysObsTypes.begin(); mapIter != sysObsTypes.end();
-                      mapIter++)
-                  {
-                     int obsWritten = 0;
-                     line = ""; // make sure the line contents are reset
+               map<string,vector<RinexObsID> >::const_iterator mapIter;
+               for(mapIter = sysObsTypes.begin(); mapIter != sysObsTypes.end();
+                   mapIter++)
+               {
+                  int obsWritten = 0;
+                  line = ""; // make sure the line contents are reset
 
-                     vector<RinexObsID> ObsTypeList = mapIter->second;
+                  vector<RinexObsID> ObsTypeList = mapIter->second;
 
-                     for(size_t i = 0; i < ObsTypeList.size(); i++)
+                  for(size_t i = 0; i < ObsTypeList.size(); i++)
+                  {
+                     // the first line needs to have the GNSS type and # of obs
+                     if(obsWritten == 0)
                      {
-                        // the first line needs to have the GNSS type and # of obs
-                        if(obsWritten == 0)
-                        {
-                           line  =  leftJustify(mapIter->first, 1);
-                           line += string(2, ' ');
-                           line += rightJustify(asString(ObsTypeList.size()), 3);
-                        }
-                           // if you hit 13, write out the line and start a new one
-                        else if((obsWritten % maxObsPerLine) == 0)
-                        {
-                           line += string(2, ' ');
-                           line += sysString;
-                           strm << line << endl;
-                           strm.lineNumber++;
-                           line  = string(6, ' ');
-                        }
-                        line += string(1, ' ');
-                        line += rightJustify(ObsTypeList[i].asString(), 3);
-                        obsWritten++;
+                        line  =  leftJustify(mapIter->first, 1);
+                        line += string(2, ' ');
+                        line += rightJustify(asString(ObsTypeList.size()), 3);
                      }
-                     line += string(60 - line.size(), ' ');
-                     line += sysString;
-                     strm << line << endl;
-                     strm.lineNumber++;
+                        // if you hit 13, write out the line and start a new one
+                     else if((obsWritten % maxObsPerLine) == 0)
+                     {
+                        line += string(2, ' ');
+                        line += sysString;
+                        strm << line << endl;
+                        strm.lineNumber++;
+                        line  = string(6, ' ');
+                     }
+                     line += string(1, ' ');
+                     line += rightJustify(ObsTypeList[i].asString(), 3);
+                     obsWritten++;
                   }
+                  line += string(60 - line.size(), ' ');
+                  line += sysString;
+                  strm << line << endl;
+                  strm.lineNumber++;
                }
             }
 
-- 
2.43.0


From 91731c901b2a6d117995bcce6f656aff955984b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 100/216] fix: epochs within rounding of a full minute were
 written with 60 seconds

---
 core/lib/FileHandling/RINEX/RinexClockBase.cpp   |  7 +++++--
 core/lib/FileHandling/RINEX/RinexObsData.cpp     |  1 +
 core/lib/FileHandling/RINEX/RinexObsHeader.cpp   |  1 +
 core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp |  4 +++-
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp   |  2 ++
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp |  4 +++-
 core/lib/FileHandling/SP3/SP3Data.cpp            |  1 +
 core/lib/FileHandling/SP3/SP3Header.cpp          |  8 +++++---
 core/lib/TimeHandling/CivilTime.cpp              | 15 +++++++++++++++
 core/lib/TimeHandling/CivilTime.hpp              |  8 ++++++++
 10 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexClockBase.cpp b/core/lib/FileHandling/RINEX/RinexClockBase.cpp
index 961d59a..6081277 100644
--- a/core/lib/FileHandling/RINEX/RinexClockBase.cpp
+++ b/core/lib/FileHandling/RINEX/RinexClockBase.cpp
@@ -56,12 +56,15 @@ namespace gpstk
    RinexClockBase::MS("MS", "monitor data");
    
    
-   string RinexClockBase::writeTime(const CivilTime& dt) const
+   string RinexClockBase::writeTime(const CivilTime& t) const
    {
-      if (dt == CommonTime::BEGINNING_OF_TIME)
+      if (t == CommonTime::BEGINNING_OF_TIME)
       {
          return std::string(26, ' ');
       }
+
+      CivilTime dt(t);
+      dt.roundSecond(6);
       
       std::string line;
       line  = StringUtils::rightJustify(
diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index 66f0ab7..39565b3 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -424,6 +424,7 @@ namespace gpstk
 
       string line;
       CivilTime civTime(dt);
+      civTime.roundSecond(7);
       line  = string(1, ' ');
       line += rightJustify(asString<short>(civTime.year),2);
       line += string(1, ' ');
diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index 37a71f1..147eecb 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -865,6 +865,7 @@ namespace gpstk
    {
       string line;
       CivilTime civTime(dt);
+      civTime.roundSecond(7);
       line  = rightJustify(asString<short>(civTime.year), 6);
       line += rightJustify(asString<short>(civTime.month), 6);
       line += rightJustify(asString<short>(civTime.day), 6);
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
index f8acf6c..f1bb52d 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
@@ -80,7 +80,9 @@ namespace gpstk
          FFStreamError e("Unknown data type: " + datatype);
          GPSTK_THROW(e);
       }
-      strm << ' ' << printTime(time,"%4Y %02m %02d %02H %02M %9.6f");
+      CivilTime civTime(time);
+      civTime.roundSecond(6);
+      strm << ' ' << printTime(civTime,"%4Y %02m %02d %02H %02M %9.6f");
 
          // must count the data to output
       int n(2);
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 2b977e9..2b8e483 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -72,6 +72,7 @@ namespace gpstk
       else
       {
          CivilTime civTime(rod.time);
+         civTime.roundSecond(7);
          line  = string(1, ' ');
          line += rightJustify(asString<short>(civTime.year),2);
          line += string(1, ' ');
@@ -795,6 +796,7 @@ namespace gpstk
          return string(28, ' ');
 
       CivilTime civtime(ct);
+      civtime.roundSecond(7);
       string line;
 
       line  = string(1, ' ');
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 83f4c3c..c6facd3 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -2175,8 +2175,10 @@ namespace gpstk
    } // end parseTime
 
 
-   string Rinex3ObsHeader::writeTime(const CivilTime& civtime) const
+   string Rinex3ObsHeader::writeTime(const CivilTime& t) const
    {
+      CivilTime civtime(t);
+      civtime.roundSecond(7);
       using gpstk::StringUtils::asString;
       string line, tsStr(gpstk::StringUtils::asString(civtime.getTimeSystem()));
 
diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 2242ec1..855ef85 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -320,6 +320,7 @@ namespace gpstk
       // output Epoch Header Record
       if(RecType == '*') {
          CivilTime civTime(time);
+         civTime.roundSecond(8);
          line = "* ";
          line += civTime.printf(" %4Y %2m %2d %2H %2M");
          line += " " + rightJustify(civTime.printf("%.8f"),11);
diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index b364595..8d9a463 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -325,6 +325,7 @@ namespace gpstk
 
       // line 1
       CivilTime civTime(time);
+      civTime.roundSecond(8);
       line = "#";
       line += versionChar();
       line += (containsVelocity ? "V" : "P");
@@ -339,14 +340,15 @@ namespace gpstk
       strm.lineNumber++;
 
       // line 2
-      GPSWeekSecond gpsWS(time);
+      CommonTime rounded(civTime);
+      GPSWeekSecond gpsWS(rounded);
       line = "##";
       line += rightJustify(gpsWS.printf("%F"),5);
       line += rightJustify(gpsWS.printf("%15.8g"),16);
       line += " " + rightJustify(asString(epochInterval,8),14);
       line += " " + rightJustify(
-         asString(static_cast<long>(static_cast<MJD>(time).mjd)),5);
-      line += " " + rightJustify(asString(time.getSecondOfDay()/86400.,13),15);
+         asString(static_cast<long>(static_cast<MJD>(rounded).mjd)),5);
+      line += " " + rightJustify(asString(rounded.getSecondOfDay()/86400.,13),15);
       strm << line << endl;
       strm.lineNumber++;
 
diff --git a/core/lib/TimeHandling/CivilTime.cpp b/core/lib/TimeHandling/CivilTime.cpp
index 94ef59c..d6c0490 100644
--- a/core/lib/TimeHandling/CivilTime.cpp
+++ b/core/lib/TimeHandling/CivilTime.cpp
@@ -72,6 +72,21 @@ namespace gpstk
       return *this;
    }
 
+   CivilTime& CivilTime::roundSecond(int decimals)
+   {
+      double scale = std::pow(10.0, decimals);
+      double rounded = std::floor(second * scale + 0.5) / scale;
+      if( second < 60.0 && rounded >= 60.0 )
+      {
+         second = 0.0;
+         CommonTime ct( convertToCommonTime() );
+         convertFromCommonTime( ct.addSeconds( 60L ) );
+      }
+      else
+         second = rounded;
+      return *this;
+   }
+
    CommonTime CivilTime::convertToCommonTime() const
    {
       try
diff --git a/core/lib/TimeHandling/CivilTime.hpp b/core/lib/TimeHandling/CivilTime.hpp
index 448b1db..92bfd91 100644
--- a/core/lib/TimeHandling/CivilTime.hpp
+++ b/core/lib/TimeHandling/CivilTime.hpp
@@ -163,6 +163,14 @@ namespace gpstk
 
       virtual void reset();
 
+         /** Round the second to a number of decimals, as is done when
+          * it is written to a file, carrying to the minute, hour and
+          * day where this gives 60 seconds.
+          * @param[in] decimals the number of decimals to keep.
+          * @return a reference to this object.
+          * @throw InvalidRequest on overflow */
+      CivilTime& roundSecond(int decimals);
+
          /** Translate a month abbreviation to its integer equivalent.
           * Comparisons are case-insensitive.
           * @param amonStr the abbreviated month name. 
-- 
2.43.0


From 3e7b9fa25eba8721290123e2a34a62628497ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 101/216] fix: short station and centre names shifted the
 columns of RINEX 3 clock records

---
 core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp   | 2 +-
 core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
index f1bb52d..fedbfac 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp
@@ -68,7 +68,7 @@ namespace gpstk
 
       if (datatype == string("AR"))
       {
-         strm << setw(4) << right << site;
+         strm << leftJustify(site,4);
       }
       else if (datatype == string("AS"))
       {
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
index b10211a..abcb664 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
@@ -431,7 +431,7 @@ namespace gpstk
                //strm << line << endl;
                //strm.lineNumber++;
 
-            line = analCenterDesignator;
+            line = leftJustify(analCenterDesignator,3);
             line += string(2,' ');
             line += leftJustify(analysisCenter,55);
             line += analysisCenterString;  // "ANALYSIS CENTER"
@@ -456,7 +456,7 @@ namespace gpstk
             map<string,string>::const_iterator it, jt;
             for(it=stationID.begin(); it != stationID.end(); ++it) {
                string label(it->first),field;
-               line = label;
+               line = leftJustify(it->first,4);
                line += string(1,' ');
                line += leftJustify(it->second,20);
                jt = stationX.find(label);
-- 
2.43.0


From 7a4883da493f3784d864d4f4a74a915de647e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 102/216] fix: RINEX 3 clock headers with a station without
 coordinates dereferenced the end of a map

---
 core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
index abcb664..3c29469 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
@@ -460,15 +460,15 @@ namespace gpstk
                line += string(1,' ');
                line += leftJustify(it->second,20);
                jt = stationX.find(label);
-               field = jt->second;
+               field = (jt == stationX.end() ? string() : jt->second);
                line += rightJustify(field, 11);
                line += string(1,' ');
                jt = stationY.find(label);
-               field = jt->second;
+               field = (jt == stationY.end() ? string() : jt->second);
                line += rightJustify(field, 11);
                line += string(1,' ');
                jt = stationZ.find(label);
-               field = jt->second;
+               field = (jt == stationZ.end() ? string() : jt->second);
                line += rightJustify(field, 11);
                line += solnStateString;       // "SOLN STA NAME / NUM"
                strm << line << endl;
@@ -549,13 +549,13 @@ namespace gpstk
             string label(it->first),field;
             os << "     " << label << "   " << it->second;
             jt = stationX.find(label);
-            field = jt->second;
+            field = (jt == stationX.end() ? string() : jt->second);
             os << rightJustify(field,12);
             jt = stationY.find(label);
-            field = jt->second;
+            field = (jt == stationY.end() ? string() : jt->second);
             os << rightJustify(field,12);
             jt = stationZ.find(label);
-            field = jt->second;
+            field = (jt == stationZ.end() ? string() : jt->second);
             os << rightJustify(field,12) << endl;
          }
          os << " Sat list:\n";
-- 
2.43.0


From 16ecf4a50a3ec8525368ad853744046d31e8de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 103/216] fix: ANTEX 1.4 headers could be read but not written

---
 ext/lib/Geomatics/AntexHeader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/AntexHeader.cpp b/ext/lib/Geomatics/AntexHeader.cpp
index aff1d5a..d05bcc5 100644
--- a/ext/lib/Geomatics/AntexHeader.cpp
+++ b/ext/lib/Geomatics/AntexHeader.cpp
@@ -60,7 +60,8 @@ namespace gpstk
       strm.header = *this;
       
       unsigned long allValid;
-      if (version == 1.3)        allValid = allValid13;
+      if (version == 1.3 || version == 1.4)
+         allValid = allValid13;
       else {
          FFStreamError err("Unknown Antex version: " + asString(version,2));
          err.addText("Make sure to set the version correctly.");
-- 
2.43.0


From 581e3354c3d6cd7fe63811a7db2c24674e93b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 104/216] fix: ANTEX files of QZSS, SBAS and IRNSS antennas
 were refused

---
 ext/lib/Geomatics/AntexHeader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/AntexHeader.cpp b/ext/lib/Geomatics/AntexHeader.cpp
index d05bcc5..3652164 100644
--- a/ext/lib/Geomatics/AntexHeader.cpp
+++ b/ext/lib/Geomatics/AntexHeader.cpp
@@ -135,10 +135,11 @@ namespace gpstk
          system = line[20];
          if(system != ' ' && system != 'G' &&
             system != 'R' && system != 'E' && 
-            system != 'C' && system != 'M')
+            system != 'C' && system != 'M' &&
+            system != 'J' && system != 'S' && system != 'I')
          {
             stringstream os;
-			os >> system;
+			os << system;
 			FFStreamError e("Satellite system is invalid: " + os.str());
             GPSTK_THROW(e);
          }
@@ -149,7 +150,7 @@ namespace gpstk
          pcvType = line[0];
          if(pcvType != 'A' && pcvType != 'R') {
 		    stringstream os;
-			os >> pcvType;
+			os << pcvType;
             FFStreamError e("PCV type is invalid: " + os.str());
             GPSTK_THROW(e);
          }
-- 
2.43.0


From aa468344fae24b9b1d0d3adfc0b37ec0d5f99956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 105/216] fix: a new ANTEX header was uninitialised, and a
 cleared one kept the old one

---
 ext/lib/Geomatics/AntexHeader.cpp | 2 +-
 ext/lib/Geomatics/AntexHeader.hpp | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/AntexHeader.cpp b/ext/lib/Geomatics/AntexHeader.cpp
index 3652164..8bae80b 100644
--- a/ext/lib/Geomatics/AntexHeader.cpp
+++ b/ext/lib/Geomatics/AntexHeader.cpp
@@ -89,7 +89,7 @@ namespace gpstk
       AntexStream& strm = dynamic_cast<AntexStream&>(ffs);
       string line;
 
-      if((valid & versionValid)|systemValid) {
+      if(valid & (versionValid|systemValid)) {
          line  = rightJustify(asString(version,1), 8);
          line += string(12,' ');
          line += system;
diff --git a/ext/lib/Geomatics/AntexHeader.hpp b/ext/lib/Geomatics/AntexHeader.hpp
index 88d4c65..7c01f4e 100644
--- a/ext/lib/Geomatics/AntexHeader.hpp
+++ b/ext/lib/Geomatics/AntexHeader.hpp
@@ -62,12 +62,16 @@ namespace gpstk
    public:
 
          /// Default and only constructor.
-      AntexHeader() : valid(false), version(1.3) {}
+      AntexHeader() : valid(0), version(1.3), system(' '), pcvType(' ') {}
          /// Clear (empty out) header
       inline void clear()
       {
          version = 1.3;
-         valid = false;
+         valid = 0;
+         system = ' ';
+         pcvType = ' ';
+         refAntType.clear();
+         refAntSerNum.clear();
          commentList.clear();
       }
 
-- 
2.43.0


From 65f7bb081f2a0dace54ce6c0784d66a5ffaf5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 106/216] fix: phase center offsets of an antenna without RMS
 were uninitialised

---
 ext/lib/Geomatics/AntexData.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ext/lib/Geomatics/AntexData.hpp b/ext/lib/Geomatics/AntexData.hpp
index a12e054..0ecc581 100644
--- a/ext/lib/Geomatics/AntexData.hpp
+++ b/ext/lib/Geomatics/AntexData.hpp
@@ -190,6 +190,13 @@ namespace gpstk
          /// RMS values are OPTIONAL
          azimZenMap PCVvalue, PCVrms;
 
+         /// Constructor
+         antennaPCOandPCVData() : hasAzimuth(false)
+         {
+            for(int i=0; i<3; i++)
+               PCOvalue[i] = PCOrms[i] = 0.0;
+         }
+
       }; // end of class antennaPCOandPCVData
 
       // member data
-- 
2.43.0


From 720dc058de34830c32d638a366e7a48137b45be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 107/216] fix: phase center variation did not return for large
 azimuths

---
 ext/lib/Geomatics/AntexData.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index f0200a6..0130d2d 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -230,8 +230,9 @@ namespace gpstk
       // ensure azim is within range
       //LOG(INFO) << "PCV:0 " << fixed << setprecision(2) <<azimuth<< ","<<elev_nadir;
       azim = azimuth;
-      while(azim < 0.0) azim += 360.0;
-      while(azim >= 360.0) azim -= 360.0;
+      azim = ::fmod(azim, 360.0);
+      if(azim < 0.0) azim += 360.0;
+      if(azim >= 360.0) azim -= 360.0;
 
       // find four points bracketing the point (azim,zen)
       //       zen
-- 
2.43.0


From a5f0ef9c1e88f93ca834c0952fb30d4f574bca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 108/216] fix: azimuths beyond the grid were interpolated with
 the azimuth independent values

---
 ext/lib/Geomatics/AntexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index 0130d2d..a3bd962 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -287,11 +287,11 @@ namespace gpstk
          if(jt_lo == azzenmap.end()) {        // beyond the last value
             jt_lo--;                          // last value
             az_lo = jt_lo->first;
-            jt_hi = azzenmap.begin();         // wrap around to beginning
+            jt_hi = azzenmap.lower_bound(0.0);// wrap around to beginning (not NOAZI)
             az_hi = jt_hi->first + 360.;
             //LOG(INFO) << "Beyond high";
          }
-         else if(jt_hi == azzenmap.begin()) { // before the first value
+         else if(jt_hi == azzenmap.lower_bound(0.0)) { // before the first value
             az_hi = jt_hi->first;
             (jt_lo = azzenmap.end())--;       // wrap around to end
             az_lo = jt_lo->first - 360.;
-- 
2.43.0


From 1fe8b08826f122b60a5b0df49f817543e5bece48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 109/216] fix: ANTEX RMS blocks were written with azimuth -1,
 and for frequencies without any

---
 ext/lib/Geomatics/AntexData.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index a3bd962..8b79070 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -622,6 +622,8 @@ namespace gpstk
          // loop over frequency again
          for(it = freqPCVmap.begin(); it != freqPCVmap.end(); it++) {
             const antennaPCOandPCVData& antpco = it->second;
+            if(antpco.PCVrms.empty())           // RMS are optional
+               continue;
             ostringstream oss;
             freqStr = it->first;
             line  = string("   ");
@@ -643,7 +645,7 @@ namespace gpstk
             const azimZenMap& azel = antpco.PCVrms;
             for(jt = azel.begin(); jt != azel.end(); jt++) {
                const zenOffsetMap& zenoffmap = jt->second;
-               if(antpco.hasAzimuth)
+               if(antpco.hasAzimuth && jt->first > -1.0)
                   line = rightJustify(asString(jt->first,1),8);
                else
                   line = string("   NOAZI");
-- 
2.43.0


From 8f4d036285a3fd362f3afcade1c9d44e5b567a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 110/216] fix: ANTEX grids of less than seven zenith angles
 could not be read

---
 ext/lib/Geomatics/AntexData.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index 8b79070..b490e1e 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -729,7 +729,9 @@ namespace gpstk
    void AntexData::ParseDataRecord(string& line)
    {
    try {
-      string label(line, 60, 20);
+      string label;
+      if(line.length() > 60)
+         label = line.substr(60,20);
 
       if(label == startAntennaString) {        // "START OF ANTENNA"
          throwRecordOutOfOrder(typeSerNumValid,label);
-- 
2.43.0


From de70da29db9c28d49f98a2a41ad8bb1caf4c426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 111/216] fix: SINEX codes of ANTEX files were written right
 justified

---
 ext/lib/Geomatics/AntexData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index b490e1e..8ac615f 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -560,7 +560,7 @@ namespace gpstk
       }
 
       if(valid & sinexCodeValid) {
-         line  = leftJustify(rightJustify(sinexCode,10),60);
+         line  = leftJustify(sinexCode,60);
          line += sinexCodeString;      // "SINEX CODE";
          strm << leftJustify(line,80) << endl;
          strm.lineNumber++;
-- 
2.43.0


From f348877464f8d8c642665f424a3e4995f0fc8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 112/216] fix: validity of an antenna at a time with a time
 system terminated the program

---
 ext/lib/Geomatics/AntexData.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index 8ac615f..ad45703 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -125,14 +125,20 @@ namespace gpstk
    {
       if(!isValid())
          return false;
-      if(time == CommonTime::BEGINNING_OF_TIME ||
+      // limits are compared without regard to time system
+      CommonTime t(time), from(validFrom), until(validUntil);
+      t.setTimeSystem(TimeSystem::Any);
+      from.setTimeSystem(TimeSystem::Any);
+      until.setTimeSystem(TimeSystem::Any);
+
+      if(t == CommonTime::BEGINNING_OF_TIME || t == CommonTime::END_OF_TIME ||
             (!(valid & validFromValid) && !(valid & validUntilValid))) {
          return true;
       }
-      if((valid & validFromValid) && time < validFrom) {
+      if((valid & validFromValid) && t < from) {
          return false;
       }
-      if((valid & validUntilValid) && time > validUntil) {
+      if((valid & validUntilValid) && t > until) {
          return false;
       }
 
-- 
2.43.0


From 57df79295b9cfe9998ddf2ea96369943e84351ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 113/216] fix: relative antenna calibrations were taken for
 absolute

---
 ext/lib/Geomatics/AntexData.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index ad45703..fc7dd68 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -688,6 +688,8 @@ namespace gpstk
          // Clear out this object
       AntexData ad;
       *this = ad;
+
+      absolute = (strm.header.pcvType == 'A');
       
       string line;
       
-- 
2.43.0


From f1adf416dc925f2f109e0f95c4b41e0ba5a615bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 114/216] fix: a blank system of a satellite antenna was not
 taken for GPS

---
 ext/lib/Geomatics/AntennaStore.cpp | 7 +++++--
 ext/lib/Geomatics/AntexData.cpp    | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/AntennaStore.cpp b/ext/lib/Geomatics/AntennaStore.cpp
index 498394d..124a0de 100644
--- a/ext/lib/Geomatics/AntennaStore.cpp
+++ b/ext/lib/Geomatics/AntennaStore.cpp
@@ -108,7 +108,8 @@ namespace gpstk
       map<string, AntexData>::const_iterator it;
       for(it = antennaMap.begin(); it != antennaMap.end(); it++) {
          if(it->second.isRxAntenna) continue;
-         if(it->second.systemChar != sys) continue;
+         if((it->second.systemChar == ' ' ? 'G' : it->second.systemChar)
+                                        != (sys == ' ' ? 'G' : sys)) continue;
          if(inputPRN && it->second.PRN == n) {
             name = it->first;
             data = it->second;
@@ -247,7 +248,8 @@ namespace gpstk
             }
             // else include it
             else if(antdata.isRxAntenna || includeSats > 1
-                  || (includeSats == 1 && antdata.systemChar == 'G')) {
+                  || (includeSats == 1 &&
+                     (antdata.systemChar == 'G' || antdata.systemChar == ' '))) {
                if(antdata.isValid(time1) || antdata.isValid(time2)) {
                   addAntenna(name, antdata);
                   n++;
@@ -300,6 +302,7 @@ namespace gpstk
             string freq2("");
             switch (sys)
             {
+               case ' ':
                case 'G':
                {
                   fact1 = 2.5458;   // (alpha+1)/alpha
diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index fc7dd68..4f296ff 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -756,9 +756,9 @@ namespace gpstk
          satCode = stripTrailing(stripLeading(line.substr(40,10)));
          cospar = stripTrailing(stripLeading(line.substr(50,10)));
          if(!isRxAntenna) {         // get the PRN and SVN numbers
-            if(serialNo.length() > 1) PRN = asInt(serialNo.substr(1,2));
+            if(serialNo.length() > 1) PRN = asInt(line.substr(21,2));
             else PRN = -1;
-            if(satCode.length() > 1) SVN = asInt(satCode.substr(1,3));
+            if(satCode.length() > 1) SVN = asInt(line.substr(41,3));
             else SVN = -1;
             systemChar = line[20];
          }
-- 
2.43.0


From 1885a0d3908fadee87e8c350e411c2f40ea868df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 115/216] fix: offset of a satellite antenna selected by SVN
 was that of the PRN

---
 ext/lib/Geomatics/AntennaStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/AntennaStore.cpp b/ext/lib/Geomatics/AntennaStore.cpp
index 124a0de..7ab6082 100644
--- a/ext/lib/Geomatics/AntennaStore.cpp
+++ b/ext/lib/Geomatics/AntennaStore.cpp
@@ -292,7 +292,7 @@ namespace gpstk
       bool dualFrequency = true;
       try
       {
-         if (getSatelliteAntenna(sys, n, name, antenna))
+         if (getSatelliteAntenna(sys, n, name, antenna, inputPRN))
          {
 
             // tracking, and future expansion. 
-- 
2.43.0


From f06252826a6478148d7b376aaa7721181c52a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 116/216] fix: wrong ionosphere-free factors of GLONASS and
 Galileo antenna offsets

---
 ext/lib/Geomatics/AntennaStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/AntennaStore.cpp b/ext/lib/Geomatics/AntennaStore.cpp
index 7ab6082..6bfbdd2 100644
--- a/ext/lib/Geomatics/AntennaStore.cpp
+++ b/ext/lib/Geomatics/AntennaStore.cpp
@@ -314,7 +314,7 @@ namespace gpstk
                case 'R':
                {
                   fact1 = 2.53125;
-                  fact2 = -1.52125;
+                  fact2 = -1.53125;
                   freq1 = "R01";
                   freq2 = "R02";
                   break;
@@ -342,7 +342,7 @@ namespace gpstk
 
                case 'E':
                {
-                  double alpha = ((154*154) / (116.5*116.5)) -1.0;   // E1 and E5a
+                  double alpha = ((154*154) / (115.*115.)) -1.0;   // E1 and E5a
                   fact1 = (alpha+1.0) / alpha;   
                   fact2 = -1.0 / alpha; 
                   freq1 = "E01";
-- 
2.43.0


From 3b24f8cd39ca8017d8a60f650b622bcfca8033a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 117/216] fix: position of the Sun before 2000 was one degree
 off in longitude

---
 ext/lib/Geomatics/SolarPosition.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ext/lib/Geomatics/SolarPosition.cpp b/ext/lib/Geomatics/SolarPosition.cpp
index ff8f38f..b3b381e 100644
--- a/ext/lib/Geomatics/SolarPosition.cpp
+++ b/ext/lib/Geomatics/SolarPosition.cpp
@@ -61,7 +61,6 @@ static double GMST(gpstk::CommonTime t)
    static const long JulianEpoch=2451545;
    // days since epoch
    double days =( static_cast<JulianDate>(t).jd - JulianEpoch);                         // days
-   if(days <= 0.0) days -= 1.0;
    double Tp = days/36525.0;                                   // dim-less
 
       // Compute GMST in radians
-- 
2.43.0


From bec8813074793a9018c31f5ff318358d060a80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 118/216] fix: antennas valid for less than four days were not
 loaded

---
 ext/lib/Geomatics/AntennaStore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/AntennaStore.cpp b/ext/lib/Geomatics/AntennaStore.cpp
index 6bfbdd2..7fe8498 100644
--- a/ext/lib/Geomatics/AntennaStore.cpp
+++ b/ext/lib/Geomatics/AntennaStore.cpp
@@ -250,7 +250,11 @@ namespace gpstk
             else if(antdata.isRxAntenna || includeSats > 1
                   || (includeSats == 1 &&
                      (antdata.systemChar == 'G' || antdata.systemChar == ' '))) {
-               if(antdata.isValid(time1) || antdata.isValid(time2)) {
+               // valid at any time within the window [time2, time1]
+               CommonTime from(antdata.validFrom);
+               from.setTimeSystem(TimeSystem::Any);
+               if(antdata.isValid(time1) || antdata.isValid(time2)
+                     || (from > time2 && from < time1)) {
                   addAntenna(name, antdata);
                   n++;
                }
-- 
2.43.0


From 8b6faffd1ed79cc482a34de2e52e7f37fffff41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 119/216] fix: messages rejected in NavFilterMgr::finalize were
 lost or not reported

---
 core/lib/NavFilter/NavFilterMgr.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/NavFilterMgr.cpp b/core/lib/NavFilter/NavFilterMgr.cpp
index 200ddde..2dc1248 100644
--- a/core/lib/NavFilter/NavFilterMgr.cpp
+++ b/core/lib/NavFilter/NavFilterMgr.cpp
@@ -82,11 +82,15 @@ namespace gpstk
          // current and next filter
       FilterList::iterator fliCur, fliNxt;
       rejected.clear();
+         // Messages may be rejected both when a filter is flushed and
+         // when it is given the messages flushed from the preceding
+         // filters, so the lists are only cleared here.
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+         (*fliCur)->rejected.clear();
          // touch ALL filters
       for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
       {
             // finalize the data in the current filter
-         (*fliCur)->rejected.clear();
          rv2.clear();
          (*fliCur)->finalize(rv2);
          
@@ -100,7 +104,6 @@ namespace gpstk
             rv1 = rv2;
             while ((fliNxt != filters.end()) && !rv1.empty())
             {
-               (*fliNxt)->rejected.clear();
                rv2.clear();
                (*fliNxt)->validate(rv1, rv2);
                rv1 = rv2;
@@ -115,6 +118,11 @@ namespace gpstk
             }
          }
       }
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+      {
+         if (!(*fliCur)->rejected.empty())
+            rejected.insert(*fliCur);
+      }
       return rv;
    }
 
-- 
2.43.0


From 718d0949cc96892caaaa5a0a94382d368ca4e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 120/216] fix: order filters threw for time stamps before the
 GPS epoch

---
 core/lib/NavFilter/LNavOrderFilter.cpp | 12 ------------
 core/lib/NavFilter/NavOrderFilter.cpp  | 12 ------------
 2 files changed, 24 deletions(-)

diff --git a/core/lib/NavFilter/LNavOrderFilter.cpp b/core/lib/NavFilter/LNavOrderFilter.cpp
index 73914bd..cd7ce98 100644
--- a/core/lib/NavFilter/LNavOrderFilter.cpp
+++ b/core/lib/NavFilter/LNavOrderFilter.cpp
@@ -37,8 +37,6 @@
 //==============================================================================
 
 #include "LNavOrderFilter.hpp"
-#include "GPSWeekZcount.hpp"
-#include "TimeString.hpp"
 
 namespace gpstk
 {
@@ -94,7 +92,6 @@ namespace gpstk
    void LNavOrderFilter ::
    examineSubframes(NavMsgList& msgBitsOut)
    {
-      using gpstk::printTime;
       if (orderedNav.empty())
          return; // nothing to do
 
@@ -102,15 +99,6 @@ namespace gpstk
       SubframeSet::reverse_iterator rssi = orderedNav.rbegin();
       CommonTime newest = (*rssi)->timeStamp;
       CommonTime oldestAllowed = newest - (epochInSeconds * procDepth);
-      SubframeSet::iterator oldestIt = orderedNav.begin();
-      GPSWeekZcount oldestTime = (*oldestIt)->timeStamp;
-         /*
-           std::cerr << "LNavOrderFilter"
-           << "  n=" << printTime(newest,"%Fw%Zz")
-           << "  o=" << printTime(oldestTime,"%Fw%Zz")
-           << "  oa=" << printTime(oldestAllowed,"%Fw%Zz")
-           << std::endl;
-         */
 
       for (ssi = orderedNav.begin(); ssi != orderedNav.end(); ssi++)
       {
diff --git a/core/lib/NavFilter/NavOrderFilter.cpp b/core/lib/NavFilter/NavOrderFilter.cpp
index 0666789..55a27f9 100644
--- a/core/lib/NavFilter/NavOrderFilter.cpp
+++ b/core/lib/NavFilter/NavOrderFilter.cpp
@@ -37,8 +37,6 @@
 //==============================================================================
 
 #include "NavOrderFilter.hpp"
-#include "GPSWeekZcount.hpp"
-#include "TimeString.hpp"
 
 namespace gpstk
 {
@@ -92,7 +90,6 @@ namespace gpstk
    void NavOrderFilter ::
    examineSubframes(NavMsgList& msgBitsOut)
    {
-      using gpstk::printTime;
       if (orderedNav.empty())
          return; // nothing to do
 
@@ -100,15 +97,6 @@ namespace gpstk
       SubframeSet::reverse_iterator rssi = orderedNav.rbegin();
       CommonTime newest = (*rssi)->timeStamp;
       CommonTime oldestAllowed = newest - (epochInSeconds * procDepth);
-      SubframeSet::iterator oldestIt = orderedNav.begin();
-      GPSWeekZcount oldestTime = (*oldestIt)->timeStamp;
-         /*
-      std::cerr << "NavOrderFilter"
-                << "  n=" << printTime(newest,"%Fw%Zz")
-                << "  o=" << printTime(oldestTime,"%Fw%Zz")
-                << "  oa=" << printTime(oldestAllowed,"%Fw%Zz")
-                << std::endl;
-         */
 
       for (ssi = orderedNav.begin(); ssi != orderedNav.end(); ssi++)
       {
-- 
2.43.0


From f5725c77243e968ae9dd59d464f5168ada50ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 121/216] fix: CNAV-2 messages at the end of the week were
 rejected as insane

---
 core/lib/NavFilter/CNav2SanityFilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/CNav2SanityFilter.cpp b/core/lib/NavFilter/CNav2SanityFilter.cpp
index 8f1df37..5ae5efd 100755
--- a/core/lib/NavFilter/CNav2SanityFilter.cpp
+++ b/core/lib/NavFilter/CNav2SanityFilter.cpp
@@ -67,11 +67,11 @@ namespace gpstk
          bitOffset += 8; 
          uint32_t pageNum = (uint32_t) fd->pnb->asUnsignedLong(bitOffset,6,1);
 
-         unsigned msgSOW = 7200 * ITOW + TOI * 18; 
+         int msgSOW = 7200 * ITOW + TOI * 18; 
          msgSOW -= 18;
          if (msgSOW<0)
             msgSOW += 604800; 
-         unsigned xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
+         int xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
          unsigned xmitWeek = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).week;
  
          bool valid =
-- 
2.43.0


From 038eb7ba23abe71cd87b5fe73ec0fb67651f25c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 122/216] fix: NavMsgDataWords::getBits read the wrong word at
 the end of a word and could not cross words

---
 core/lib/NavFilter/NavMsgDataWords.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/lib/NavFilter/NavMsgDataWords.hpp b/core/lib/NavFilter/NavMsgDataWords.hpp
index 1ffe367..2783046 100644
--- a/core/lib/NavFilter/NavMsgDataWords.hpp
+++ b/core/lib/NavFilter/NavMsgDataWords.hpp
@@ -85,10 +85,22 @@ namespace gpstk
    {
       if (num == 0)
          return 0;
-         // mask and shift the desired bits
-      uint32_t fbmodN = (start % WordSize);
-      return ((sf[start/WordSize] & (((uint32_t)-1) >> (fbmodN+1))) >>
-              (31-fbmodN-num));
+      uint32_t rv = 0;
+      unsigned bit = start-1, left = num;
+      while (left > 0)
+      {
+            // take the desired bits from each word in turn
+         unsigned offset = bit % WordSize;
+         unsigned take = WordSize - offset;
+         if (take > left)
+            take = left;
+         uint64_t val = sf[bit/WordSize] >> (WordSize - offset - take);
+         val &= (((uint64_t)1) << take) - 1;
+         rv = (uint32_t)((((uint64_t)rv) << take) | val);
+         bit += take;
+         left -= take;
+      }
+      return rv;
    }
 
 
-- 
2.43.0


From a8bf19425b04c9d22820e7c6ae04e0f603d30821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 123/216] fix: getBitsSplit did not refuse more than 30 bits

---
 core/lib/NavFilter/GenericNavFilterData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/NavFilter/GenericNavFilterData.hpp b/core/lib/NavFilter/GenericNavFilterData.hpp
index a56b3fc..590cfc8 100644
--- a/core/lib/NavFilter/GenericNavFilterData.hpp
+++ b/core/lib/NavFilter/GenericNavFilterData.hpp
@@ -84,6 +84,7 @@ namespace gpstk
                             unsigned firstBit3 = 0, unsigned numBits3 = 0)
          const
       {
+         GPSTK_ASSERT((numBits1 <= 30) && (numBits2 <= 30));
          uint32_t rv = ((getBits(firstBit1,numBits1) << numBits2) +
                         (getBits(firstBit2,numBits2)));
          if ((numBits3 > 0) && (firstBit3 > 0))
-- 
2.43.0


From 8f340f716bfe23ce893c6093aa92209fb94dd64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 124/216] fix: prn and message pointer of navigation filter
 keys were not initialised

---
 core/lib/NavFilter/CNavFilterData.cpp | 3 ++-
 core/lib/NavFilter/NavFilterKey.cpp   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/lib/NavFilter/CNavFilterData.cpp b/core/lib/NavFilter/CNavFilterData.cpp
index 9c68fb5..8d7106d 100644
--- a/core/lib/NavFilter/CNavFilterData.cpp
+++ b/core/lib/NavFilter/CNavFilterData.cpp
@@ -44,7 +44,8 @@
 namespace gpstk
 {
    CNavFilterData::CNavFilterData():
-       NavFilterKey()
+       NavFilterKey(),
+       pnb(NULL)
        {}
 
    CNavFilterData::CNavFilterData(gpstk::PackedNavBits* pnbArg):
diff --git a/core/lib/NavFilter/NavFilterKey.cpp b/core/lib/NavFilter/NavFilterKey.cpp
index ea5e14a..a04413e 100644
--- a/core/lib/NavFilter/NavFilterKey.cpp
+++ b/core/lib/NavFilter/NavFilterKey.cpp
@@ -45,6 +45,7 @@ namespace gpstk
    NavFilterKey()
          : stationID(""),
            rxID(""),
+           prn(0),
            carrier(CarrierBand::Unknown),
            code(TrackingCode::Unknown)
    {
-- 
2.43.0


From eee8eee5710ec314eb18beb3fce0215ce2435f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 125/216] fix: almanac pages were taken as blank by only part
 of the blank pattern

---
 core/lib/NavFilter/LNavEmptyFilter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/NavFilter/LNavEmptyFilter.cpp b/core/lib/NavFilter/LNavEmptyFilter.cpp
index f68bf90..0bb5f72 100644
--- a/core/lib/NavFilter/LNavEmptyFilter.cpp
+++ b/core/lib/NavFilter/LNavEmptyFilter.cpp
@@ -62,14 +62,14 @@ namespace gpstk
                // or subframe 4 or 5 with alternating 1s and 0s
             ((((fd->sf[1] & 0x700) == 0x400) ||
               ((fd->sf[1] & 0x700) == 0x500)) &&
-             ((fd->sf[2] & 0x3ffc0) == 0x2aa80) &&
-             ((fd->sf[3] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[4] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[5] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[6] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[7] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[8] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[9] & 0x3ffffc0) == 0x2aaaa80));
+             ((fd->sf[2] & 0x3fffc0) == 0x2aaa80) &&
+             ((fd->sf[3] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[4] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[5] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[6] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[7] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[8] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[9] & 0x3fffffc0) == 0x2aaaaa80));
          if (blank)
             reject(fd);
          else
-- 
2.43.0


From d5dc7b01e0e303ae7fa9495e5cc3f30d82dec9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 126/216] fix: P-code generator did not round its start back to
 a 6 second boundary

---
 ext/lib/CodeGen/SVPCodeGen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/lib/CodeGen/SVPCodeGen.cpp b/ext/lib/CodeGen/SVPCodeGen.cpp
index bb9da3a..e2bf74b 100644
--- a/ext/lib/CodeGen/SVPCodeGen.cpp
+++ b/ext/lib/CodeGen/SVPCodeGen.cpp
@@ -53,7 +53,10 @@ namespace gpstk
          gpstk::Exception e("Must provide a prn between 0 and 210");
          GPSTK_THROW(e);
       }
-      currentZTime = dt;
+         // Round back to the beginning of the six seconds (4 Z-counts)
+      GPSWeekZcount zc(dt);
+      zc.zcount -= zc.zcount % 4;
+      currentZTime = zc.convertToCommonTime();
       PRNID = SVPRNID;
    }
 
-- 
2.43.0


From c699d8fe5200e18ba8ffaea323dcc2dc08ad6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 127/216] fix: CodeBuffer::getBit returned preceding bits where
 unsigned long has 64 bits

---
 ext/lib/CodeGen/CodeBuffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ext/lib/CodeGen/CodeBuffer.hpp b/ext/lib/CodeGen/CodeBuffer.hpp
index 571ceb8..2ae0bfb 100644
--- a/ext/lib/CodeGen/CodeBuffer.hpp
+++ b/ext/lib/CodeGen/CodeBuffer.hpp
@@ -41,6 +41,7 @@
 
    // Library headers
 #include "CommonTime.hpp"
+#include "gpstkplatform.h"
 
    // Project headers
 #include "PCodeConst.hpp"
@@ -150,10 +151,11 @@ namespace gpstk
 
    inline unsigned long CodeBuffer::getBit( const long i ) const
    {
-      unsigned long iret;
+         // The words hold MAX_BIT bits even when unsigned long is wider
+      uint32_t iret;
       long bNdx = i / MAX_BIT;
       long bitNum = i - (bNdx * MAX_BIT);
-      iret = buffer[bNdx];
+      iret = (uint32_t)buffer[bNdx];
    
       // Shift LEFT to clear off msbs
       iret <<= bitNum;
-- 
2.43.0


From ad0c3b0921f46e8334b820fd6a33195ea2caafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 128/216] fix: byte order conversions accessed integers at
 misaligned addresses

---
 core/lib/Utilities/BinUtils.hpp | 256 +++++++++++++++++---------------
 1 file changed, 140 insertions(+), 116 deletions(-)

diff --git a/core/lib/Utilities/BinUtils.hpp b/core/lib/Utilities/BinUtils.hpp
index 7515a80..fe3218f 100644
--- a/core/lib/Utilities/BinUtils.hpp
+++ b/core/lib/Utilities/BinUtils.hpp
@@ -571,12 +571,13 @@ namespace gpstk
       inline void buitohs(const void* p, uint16_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const uint16_t *tp = reinterpret_cast<const uint16_t*>(cp);
+         uint16_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == LITTLE_ENDIAN
-         v = *tp;
+         v = tv;
 #else
-         v = (((*tp & 0x00ff) << 8) |
-              ((*tp & 0xff00) >> 8));
+         v = (((tv & 0x00ff) << 8) |
+              ((tv & 0xff00) >> 8));
 #endif
       }
 
@@ -584,14 +585,15 @@ namespace gpstk
       inline void buitohl(const void* p, uint32_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const uint32_t *tp = reinterpret_cast<const uint32_t*>(cp);
+         uint32_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == LITTLE_ENDIAN
-         v = *tp;
+         v = tv;
 #else
-         v = (((*tp & 0x000000ff) << 24) |
-              ((*tp & 0x0000ff00) << 8) |
-              ((*tp & 0x00ff0000) >> 8) |
-              ((*tp & 0xff000000) >> 24));
+         v = (((tv & 0x000000ff) << 24) |
+              ((tv & 0x0000ff00) << 8) |
+              ((tv & 0x00ff0000) >> 8) |
+              ((tv & 0xff000000) >> 24));
 #endif
       }
 
@@ -599,18 +601,19 @@ namespace gpstk
       inline void buitohll(const void* p, uint64_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const uint64_t *tp = reinterpret_cast<const uint64_t*>(cp);
+         uint64_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == LITTLE_ENDIAN
-         v = *tp;
+         v = tv;
 #else
-         v = (((*tp & 0x00000000000000ffULL) << 56) |
-              ((*tp & 0x000000000000ff00ULL) << 40) |
-              ((*tp & 0x0000000000ff0000ULL) << 24) |
-              ((*tp & 0x00000000ff000000ULL) << 8) |
-              ((*tp & 0x000000ff00000000ULL) >> 8) |
-              ((*tp & 0x0000ff0000000000ULL) >> 24) |
-              ((*tp & 0x00ff000000000000ULL) >> 40) |
-              ((*tp & 0xff00000000000000ULL) >> 56));
+         v = (((tv & 0x00000000000000ffULL) << 56) |
+              ((tv & 0x000000000000ff00ULL) << 40) |
+              ((tv & 0x0000000000ff0000ULL) << 24) |
+              ((tv & 0x00000000ff000000ULL) << 8) |
+              ((tv & 0x000000ff00000000ULL) >> 8) |
+              ((tv & 0x0000ff0000000000ULL) >> 24) |
+              ((tv & 0x00ff000000000000ULL) >> 40) |
+              ((tv & 0xff00000000000000ULL) >> 56));
 #endif
       }
 
@@ -618,13 +621,14 @@ namespace gpstk
       inline void buitohss(const void* p, int16_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const int16_t *tp = reinterpret_cast<const int16_t*>(cp);
+         int16_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == LITTLE_ENDIAN
-         v = *tp;
+         v = tv;
 #else
             // mask after shift so sign extension doesn't break stuff
-         v = (((*tp & 0x00ff) << 8) |
-            ((*tp >> 8) & 0x00ff));
+         v = (((tv & 0x00ff) << 8) |
+            ((tv >> 8) & 0x00ff));
 #endif
       }
       
@@ -632,15 +636,16 @@ namespace gpstk
       inline void buitohsl(const void* p, int32_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const int32_t *tp = reinterpret_cast<const int32_t*>(cp);
+         int32_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == LITTLE_ENDIAN
-         v = *tp;
+         v = tv;
 #else
             // mask after shift so sign extension doesn't break stuff
-         v = (((*tp & 0x000000ff) << 24) |
-              ((*tp & 0x0000ff00) << 8) |
-              ((*tp & 0x00ff0000) >> 8) |
-              ((*tp >> 24) & 0x000000ff));
+         v = (((tv & 0x000000ff) << 24) |
+              ((tv & 0x0000ff00) << 8) |
+              ((tv & 0x00ff0000) >> 8) |
+              ((tv >> 24) & 0x000000ff));
 #endif
       }
 
@@ -648,19 +653,20 @@ namespace gpstk
       inline void buitohsll(const void* p, int64_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const int64_t *tp = reinterpret_cast<const int64_t*>(cp);
+         int64_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == LITTLE_ENDIAN
-         v = *tp;
+         v = tv;
 #else
             // mask after shift so sign extension doesn't break stuff
-         v = (((*tp & 0x00000000000000ffULL) << 56) |
-              ((*tp & 0x000000000000ff00ULL) << 40) |
-              ((*tp & 0x0000000000ff0000ULL) << 24) |
-              ((*tp & 0x00000000ff000000ULL) << 8) |
-              ((*tp & 0x000000ff00000000ULL) >> 8) |
-              ((*tp & 0x0000ff0000000000ULL) >> 24) |
-              ((*tp & 0x00ff000000000000ULL) >> 40) |
-              ((*tp >> 56) & 0x00000000000000ffULL));
+         v = (((tv & 0x00000000000000ffULL) << 56) |
+              ((tv & 0x000000000000ff00ULL) << 40) |
+              ((tv & 0x0000000000ff0000ULL) << 24) |
+              ((tv & 0x00000000ff000000ULL) << 8) |
+              ((tv & 0x000000ff00000000ULL) >> 8) |
+              ((tv & 0x0000ff0000000000ULL) >> 24) |
+              ((tv & 0x00ff000000000000ULL) >> 40) |
+              ((tv >> 56) & 0x00000000000000ffULL));
 #endif
       }
 
@@ -703,12 +709,13 @@ namespace gpstk
       inline void buntohs(const void* p, uint16_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const uint16_t *tp = reinterpret_cast<const uint16_t*>(cp);
+         uint16_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == BIG_ENDIAN
-         v = *tp;
+         v = tv;
 #else
-         v = (((*tp & 0x00ff) << 8) |
-            ((*tp & 0xff00) >> 8));
+         v = (((tv & 0x00ff) << 8) |
+            ((tv & 0xff00) >> 8));
 #endif
       }
 
@@ -716,14 +723,15 @@ namespace gpstk
       inline void buntohl(const void* p, uint32_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const uint32_t *tp = reinterpret_cast<const uint32_t*>(cp);
+         uint32_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == BIG_ENDIAN
-         v = *tp;
+         v = tv;
 #else
-         v = (((*tp & 0x000000ff) << 24) |
-            ((*tp & 0x0000ff00) << 8) |
-            ((*tp & 0x00ff0000) >> 8) |
-            ((*tp & 0xff000000) >> 24));
+         v = (((tv & 0x000000ff) << 24) |
+            ((tv & 0x0000ff00) << 8) |
+            ((tv & 0x00ff0000) >> 8) |
+            ((tv & 0xff000000) >> 24));
 #endif
       }
 
@@ -731,18 +739,19 @@ namespace gpstk
       inline void buntohll(const void* p, uint64_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const uint64_t *tp = reinterpret_cast<const uint64_t*>(cp);
+         uint64_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == BIG_ENDIAN
-         v = *tp;
+         v = tv;
 #else
-         v = (((*tp & 0x00000000000000ffULL) << 56) |
-            ((*tp & 0x000000000000ff00ULL) << 40) |
-            ((*tp & 0x0000000000ff0000ULL) << 24) |
-            ((*tp & 0x00000000ff000000ULL) << 8) |
-            ((*tp & 0x000000ff00000000ULL) >> 8) |
-            ((*tp & 0x0000ff0000000000ULL) >> 24) |
-            ((*tp & 0x00ff000000000000ULL) >> 40) |
-            ((*tp & 0xff00000000000000ULL) >> 56));
+         v = (((tv & 0x00000000000000ffULL) << 56) |
+            ((tv & 0x000000000000ff00ULL) << 40) |
+            ((tv & 0x0000000000ff0000ULL) << 24) |
+            ((tv & 0x00000000ff000000ULL) << 8) |
+            ((tv & 0x000000ff00000000ULL) >> 8) |
+            ((tv & 0x0000ff0000000000ULL) >> 24) |
+            ((tv & 0x00ff000000000000ULL) >> 40) |
+            ((tv & 0xff00000000000000ULL) >> 56));
 #endif
       }
 
@@ -750,13 +759,14 @@ namespace gpstk
       inline void buntohss(const void* p, int16_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const int16_t *tp = reinterpret_cast<const int16_t*>(cp);
+         int16_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == BIG_ENDIAN
-         v = *tp;
+         v = tv;
 #else
             // mask after shift so sign extension doesn't break stuff
-         v = (((*tp & 0x00ff) << 8) |
-            ((*tp >> 8) & 0x00ff));
+         v = (((tv & 0x00ff) << 8) |
+            ((tv >> 8) & 0x00ff));
 #endif
       }
       
@@ -764,15 +774,16 @@ namespace gpstk
       inline void buntohsl(const void* p, int32_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const int32_t *tp = reinterpret_cast<const int32_t*>(cp);
+         int32_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == BIG_ENDIAN
-         v = *tp;
+         v = tv;
 #else
             // mask after shift so sign extension doesn't break stuff
-         v = (((*tp & 0x000000ff) << 24) |
-            ((*tp & 0x0000ff00) << 8) |
-            ((*tp & 0x00ff0000) >> 8) |
-            ((*tp >> 24) & 0x000000ff));
+         v = (((tv & 0x000000ff) << 24) |
+            ((tv & 0x0000ff00) << 8) |
+            ((tv & 0x00ff0000) >> 8) |
+            ((tv >> 24) & 0x000000ff));
 #endif
       }
 
@@ -780,19 +791,20 @@ namespace gpstk
       inline void buntohsll(const void* p, int64_t& v, unsigned pos)
       {
          const uint8_t *cp = static_cast<const uint8_t*>(p) + pos;
-         const int64_t *tp = reinterpret_cast<const int64_t*>(cp);
+         int64_t tv;
+         std::memcpy(&tv, cp, sizeof(tv));
 #if BYTE_ORDER == BIG_ENDIAN
-         v = *tp;
+         v = tv;
 #else
             // mask after shift so sign extension doesn't break stuff
-         v = (((*tp & 0x00000000000000ffULL) << 56) |
-            ((*tp & 0x000000000000ff00ULL) << 40) |
-            ((*tp & 0x0000000000ff0000ULL) << 24) |
-            ((*tp & 0x00000000ff000000ULL) << 8) |
-            ((*tp & 0x000000ff00000000ULL) >> 8) |
-            ((*tp & 0x0000ff0000000000ULL) >> 24) |
-            ((*tp & 0x00ff000000000000ULL) >> 40) |
-            ((*tp >> 56) & 0x00000000000000ffULL));
+         v = (((tv & 0x00000000000000ffULL) << 56) |
+            ((tv & 0x000000000000ff00ULL) << 40) |
+            ((tv & 0x0000000000ff0000ULL) << 24) |
+            ((tv & 0x00000000ff000000ULL) << 8) |
+            ((tv & 0x000000ff00000000ULL) >> 8) |
+            ((tv & 0x0000ff0000000000ULL) >> 24) |
+            ((tv & 0x00ff000000000000ULL) >> 40) |
+            ((tv >> 56) & 0x00000000000000ffULL));
 #endif
       }
 
@@ -835,39 +847,41 @@ namespace gpstk
       inline void buhtois(void* p, uint16_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         uint16_t *tp = reinterpret_cast<uint16_t*>(cp);
+         uint16_t tv;
 #if BYTE_ORDER == LITTLE_ENDIAN
-         *tp = v;
+         tv = v;
 #else
-         *tp = (((v & 0x00ff) << 8) |
+         tv = (((v & 0x00ff) << 8) |
             ((v & 0xff00) >> 8));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
       inline void buhtoil(void* p, uint32_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         uint32_t *tp = reinterpret_cast<uint32_t*>(cp);
+         uint32_t tv;
 #if BYTE_ORDER == LITTLE_ENDIAN
-         *tp = v;
+         tv = v;
 #else
-         *tp = (((v & 0x000000ff) << 24) |
+         tv = (((v & 0x000000ff) << 24) |
             ((v & 0x0000ff00) << 8) |
             ((v & 0x00ff0000) >> 8) |
             ((v & 0xff000000) >> 24));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
       inline void buhtoill(void* p, uint64_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         uint64_t *tp = reinterpret_cast<uint64_t*>(cp);
+         uint64_t tv;
 #if BYTE_ORDER == LITTLE_ENDIAN
-         *tp = v;
+         tv = v;
 #else
-         *tp = (((v & 0x00000000000000ffULL) << 56) |
+         tv = (((v & 0x00000000000000ffULL) << 56) |
                 ((v & 0x000000000000ff00ULL) << 40) |
                 ((v & 0x0000000000ff0000ULL) << 24) |
                 ((v & 0x00000000ff000000ULL) << 8) |
@@ -876,48 +890,51 @@ namespace gpstk
                 ((v & 0x00ff000000000000ULL) >> 40) |
                 ((v & 0xff00000000000000ULL) >> 56));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
       inline void buhtoiss(void* p, int16_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         int16_t *tp = reinterpret_cast<int16_t*>(cp);
+         int16_t tv;
 #if BYTE_ORDER == LITTLE_ENDIAN
-         *tp = v;
+         tv = v;
 #else
             // mask after shift so sign extension doesn't break stuff
-         *tp = (((v & 0x00ff) << 8) |
+         tv = (((v & 0x00ff) << 8) |
                 ((v >> 8) & 0x00ff));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
       
       
       inline void buhtoisl(void* p, int32_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         int32_t *tp = reinterpret_cast<int32_t*>(cp);
+         int32_t tv;
 #if BYTE_ORDER == LITTLE_ENDIAN
-         *tp = v;
+         tv = v;
 #else
             // mask after shift so sign extension doesn't break stuff
-         *tp = (((v & 0x000000ff) << 24) |
+         tv = (((v & 0x000000ff) << 24) |
                 ((v & 0x0000ff00) << 8) |
                 ((v & 0x00ff0000) >> 8) |
                 ((v >> 24) & 0x000000ff));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
       inline void buhtoisll(void* p, int64_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         int64_t *tp = reinterpret_cast<int64_t*>(cp);
+         int64_t tv;
 #if BYTE_ORDER == LITTLE_ENDIAN
-         *tp = v;
+         tv = v;
 #else
             // mask after shift so sign extension doesn't break stuff
-         *tp = (((v & 0x00000000000000ffULL) << 56) |
+         tv = (((v & 0x00000000000000ffULL) << 56) |
                 ((v & 0x000000000000ff00ULL) << 40) |
                 ((v & 0x0000000000ff0000ULL) << 24) |
                 ((v & 0x00000000ff000000ULL) << 8) |
@@ -926,6 +943,7 @@ namespace gpstk
                 ((v & 0x00ff000000000000ULL) >> 40) |
                 ((v >> 56) & 0x00000000000000ffULL));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
@@ -967,39 +985,41 @@ namespace gpstk
       inline void buhtons(void* p, uint16_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         uint16_t *tp = reinterpret_cast<uint16_t*>(cp);
+         uint16_t tv;
 #if BYTE_ORDER == BIG_ENDIAN
-         *tp = v;
+         tv = v;
 #else
-         *tp = (((v & 0x00ff) << 8) |
+         tv = (((v & 0x00ff) << 8) |
             ((v & 0xff00) >> 8));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
       inline void buhtonl(void* p, uint32_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         uint32_t *tp = reinterpret_cast<uint32_t*>(cp);
+         uint32_t tv;
 #if BYTE_ORDER == BIG_ENDIAN
-         *tp = v;
+         tv = v;
 #else
-         *tp = (((v & 0x000000ff) << 24) |
+         tv = (((v & 0x000000ff) << 24) |
             ((v & 0x0000ff00) << 8) |
             ((v & 0x00ff0000) >> 8) |
             ((v & 0xff000000) >> 24));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
       inline void buhtonll(void* p, uint64_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         uint64_t *tp = reinterpret_cast<uint64_t*>(cp);
+         uint64_t tv;
 #if BYTE_ORDER == BIG_ENDIAN
-         *tp = v;
+         tv = v;
 #else
-         *tp = (((v & 0x00000000000000ffULL) << 56) |
+         tv = (((v & 0x00000000000000ffULL) << 56) |
                 ((v & 0x000000000000ff00ULL) << 40) |
                 ((v & 0x0000000000ff0000ULL) << 24) |
                 ((v & 0x00000000ff000000ULL) << 8) |
@@ -1008,48 +1028,51 @@ namespace gpstk
                 ((v & 0x00ff000000000000ULL) >> 40) |
                 ((v & 0xff00000000000000ULL) >> 56));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
       inline void buhtonss(void* p, int16_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         int16_t *tp = reinterpret_cast<int16_t*>(cp);
+         int16_t tv;
 #if BYTE_ORDER == BIG_ENDIAN
-         *tp = v;
+         tv = v;
 #else
             // mask after shift so sign extension doesn't break stuff
-         *tp = (((v & 0x00ff) << 8) |
+         tv = (((v & 0x00ff) << 8) |
                 ((v >> 8) & 0x00ff));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
       
       
       inline void buhtonsl(void* p, int32_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         int32_t *tp = reinterpret_cast<int32_t*>(cp);
+         int32_t tv;
 #if BYTE_ORDER == BIG_ENDIAN
-         *tp = v;
+         tv = v;
 #else
             // mask after shift so sign extension doesn't break stuff
-         *tp = (((v & 0x000000ff) << 24) |
+         tv = (((v & 0x000000ff) << 24) |
                 ((v & 0x0000ff00) << 8) |
                 ((v & 0x00ff0000) >> 8) |
                 ((v >> 24) & 0x000000ff));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
       inline void buhtonsll(void* p, int64_t v, unsigned pos)
       {
          uint8_t *cp = static_cast<uint8_t*>(p) + pos;
-         int64_t *tp = reinterpret_cast<int64_t*>(cp);
+         int64_t tv;
 #if BYTE_ORDER == BIG_ENDIAN
-         *tp = v;
+         tv = v;
 #else
             // mask after shift so sign extension doesn't break stuff
-         *tp = (((v & 0x00000000000000ffULL) << 56) |
+         tv = (((v & 0x00000000000000ffULL) << 56) |
                 ((v & 0x000000000000ff00ULL) << 40) |
                 ((v & 0x0000000000ff0000ULL) << 24) |
                 ((v & 0x00000000ff000000ULL) << 8) |
@@ -1058,6 +1081,7 @@ namespace gpstk
                 ((v & 0x00ff000000000000ULL) >> 40) |
                 ((v >> 56) & 0x00000000000000ffULL));
 #endif
+         std::memcpy(cp, &tv, sizeof(tv));
       }
 
 
-- 
2.43.0


From ada34ae1532a6c56b1e4f33d6d8e6dc0bc7d13aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 129/216] fix: xorChecksum divided by a word size of zero

---
 core/lib/Utilities/BinUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/BinUtils.hpp b/core/lib/Utilities/BinUtils.hpp
index fe3218f..28d8a8c 100644
--- a/core/lib/Utilities/BinUtils.hpp
+++ b/core/lib/Utilities/BinUtils.hpp
@@ -330,7 +330,7 @@ namespace gpstk
           * @param[in] wordSize The size of the checksum in bytes.
           * @return the calculated checksum in the same byte order as \a str.
           * @throw gpstk::InvalidParameter if there is a partial word at 
-          *  the end of \a str.
+          *  the end of \a str or if wordSize is zero.
           */
       inline std::string xorChecksum(const std::string& str, unsigned wordSize);
 
@@ -550,7 +550,7 @@ namespace gpstk
          size_t strSize = str.size();
          std::string rv(wordSize, 0);
          
-         if (strSize % wordSize != 0)
+         if (wordSize == 0 || strSize % wordSize != 0)
          {
             gpstk::InvalidParameter ip("Incomplete word in string.");
             GPSTK_THROW(ip);
-- 
2.43.0


From f8217fd9928ad2e79a61e34acac9b0c142f5e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 130/216] fix: inverseUT() reported a singular matrix with the
 documented exception only when its last diagonal element was zero

---
 ext/lib/Geomatics/SRIMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRIMatrix.hpp b/ext/lib/Geomatics/SRIMatrix.hpp
index 61a3413..807a79c 100644
--- a/ext/lib/Geomatics/SRIMatrix.hpp
+++ b/ext/lib/Geomatics/SRIMatrix.hpp
@@ -389,7 +389,7 @@ namespace gpstk
             if(UT(i,i) == T(0)) {
                std::ostringstream oss;
                oss << "Singular matrix at element " << i;
-               GPSTK_THROW(MatrixException(oss.str()));
+               GPSTK_THROW(SingularMatrixException(oss.str()));
             }
    
             if(fabs(UT(i,i)) > big) big = fabs(UT(i,i));
-- 
2.43.0


From 5a6a352e6259412083bb850ff01e9b4be0aa8ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 131/216] fix: inverseLT() did not return the smallest and
 largest eigenvalue of a 1x1 matrix

---
 ext/lib/Geomatics/SRIMatrix.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRIMatrix.hpp b/ext/lib/Geomatics/SRIMatrix.hpp
index 807a79c..41ce870 100644
--- a/ext/lib/Geomatics/SRIMatrix.hpp
+++ b/ext/lib/Geomatics/SRIMatrix.hpp
@@ -487,7 +487,6 @@ namespace gpstk
    
       big = small = fabs(dum);
       Inv(0,0) = T(1)/dum;
-      if(n == 1) return Inv;                 // 1x1 matrix
       //for(i=1; i<n; i++) Inv(0,i)=0;         // zero out columns to right of 0,0
    
          // now move to rows i = 1 to n-1
-- 
2.43.0


From 4e84ea8a000900411959bac60bc81fd83d74b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 132/216] fix: SRI::zeroAll(n) did nothing when n was the
 dimension or more, so Reset() to the same dimension kept all information

---
 ext/lib/Geomatics/SRI.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index 948d109..a741dae 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -502,15 +502,12 @@ using namespace StringUtils;
    void SRI::zeroAll(const unsigned int n)
       throw()
    {
-      if(n <= 0) {
+      if(n <= 0 || n >= R.rows()) {
          R = 0.0;
          Z = 0.0;
          return;
       }
 
-      if(n >= int(R.rows()))
-         return;
-
       for(unsigned int i=0; i<n; i++) {
          for(unsigned int j=i; j<R.cols(); j++) 
             R(i,j) = 0.0;
-- 
2.43.0


From 2a0072608b2e66eb5898bc529b1018f8db294187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 133/216] fix: SRI::stateFixAndRemove() of several states wrote
 outside the reduced matrix

---
 ext/lib/Geomatics/SRI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index a741dae..dba5cb0 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -839,7 +839,7 @@ using namespace StringUtils;
             for(i=0; i<m; i++) if((int)j == indx[i]) { skip=true; break; }
             if(skip) continue;      // skip col to be dropped
 
-            for(i=0; i<=j; i++) R(i,k) = Rtmp(i,j);
+            for(i=0; i<=k; i++) R(i,k) = Rtmp(i,j);
             k++;
          }
 
-- 
2.43.0


From eb19f75a585083fe87267f4893b658834a38b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 134/216] fix: SRI::reshape() did not permute to the given
 order, and failed when it had only to add names

---
 ext/lib/Geomatics/SRI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index dba5cb0..72e9903 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -333,7 +333,6 @@ using namespace StringUtils;
    void SRI::reshape(const Namelist& NL)
    {
       try {
-         if(names == NL) return;
          Namelist keep(names);
          keep &= NL;                // keep only those in both names and NL
          //Namelist drop(names);    // (drop is unneeded - split would do it)
@@ -342,7 +341,8 @@ using namespace StringUtils;
          add ^= keep;               // add those in NL but not in keep
          SRI Sdrop;                 // make a new SRI to hold the losers
          // would like to allow caller access to Sdrop..
-         split(keep,Sdrop);         // split off only the losers
+         if(keep.size() < names.size())
+            split(keep,Sdrop);      // split off only the losers
                                     // NB names = drop | keep; drop & keep is empty
          *this += add;              // add the new ones
          this->permute(NL);         // permute it to match NL
-- 
2.43.0


From 230ab2954ff9dea931bd24b4d282dd5a126e4ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 135/216] fix: SRIFilter::Reset() and SRIleastSquares::Reset()
 to another dimension left the old number of names

---
 ext/lib/Geomatics/SRIFilter.cpp       | 1 +
 ext/lib/Geomatics/SRIleastSquares.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ext/lib/Geomatics/SRIFilter.cpp b/ext/lib/Geomatics/SRIFilter.cpp
index 4b9635e..f01ea0f 100644
--- a/ext/lib/Geomatics/SRIFilter.cpp
+++ b/ext/lib/Geomatics/SRIFilter.cpp
@@ -260,6 +260,7 @@ void SRIFilter::Reset(const int N)
    if(N > 0 && N != (int)R.rows()) {
       R.resize(N,N,0.0);
       Z.resize(N,0.0);
+      names.resize(N);
    }
    else
       SRI::zeroAll(N);
diff --git a/ext/lib/Geomatics/SRIleastSquares.cpp b/ext/lib/Geomatics/SRIleastSquares.cpp
index 3a1ee69..8ea3d3f 100644
--- a/ext/lib/Geomatics/SRIleastSquares.cpp
+++ b/ext/lib/Geomatics/SRIleastSquares.cpp
@@ -541,6 +541,7 @@ void SRIleastSquares::Reset(const int N)
       if(N > 0 && N != (int)R.rows()) {
          R.resize(N,N,0.0);
          Z.resize(N,0.0);
+         names.resize(N);
       }
       else
          SRI::zeroAll(N);
-- 
2.43.0


From a653823a723d499240c3c9b185a247c802a728ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 136/216] fix: the sparse SrifMU() looked past the end of the
 columns when the last ones were empty

---
 ext/lib/Geomatics/SparseMatrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index a8d17ba..bc00a4e 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -2062,7 +2062,8 @@ namespace gpstk
             SparseVector<T> Vk(m);     // will be column k of A
 
             if(kt->first == k-1) ++kt; // kt now points to next column -- is it k?
-            if(kt->first != k) {       // no col k - should create a column in A...
+            if(kt == AT.rowsMap.end() ||
+               kt->first != k) {       // no col k - should create a column in A...
                AT.rowsMap[k] = Vk;
                kt = AT.rowsMap.find(k);
             }
-- 
2.43.0


From 85616aa8283f3b3873d82aa9b39c37a324967abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 137/216] fix: the sparse SrifMU() failed when the data and the
 information about the observed states were zero

---
 ext/lib/Geomatics/SparseMatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index bc00a4e..2f04654 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -2095,8 +2095,8 @@ namespace gpstk
 
       // must put last row of AT (last column of A) back into A - these are residuals
       jt = AT.rowsMap.find(AT.rows()-1);
-      // should never happen
-      if(jt == AT.rowsMap.end()) GPSTK_THROW(Exception("Failure on last column"));
+      // no residuals at all: the data were all zero and are left so
+      if(jt == AT.rowsMap.end()) return;
 
       // put this row, jt->second, into the last column of A
       j = A.cols()-1;
-- 
2.43.0


From d7897b236e2df76010668a5fb7e3c28af0ff350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 138/216] fix: SRIleastSquares::dataUpdate() threw on a nearly
 singular problem instead of returning -2

---
 ext/lib/Geomatics/SRI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index 72e9903..233e37d 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -967,7 +967,7 @@ using namespace StringUtils;
          // how best to test?
          //  ::log(big) - ::log(small) + 1 >= numeric_limits<double>::max_exponent
          if(small <= 10*numeric_limits<double>::epsilon()) {
-            MatrixException me("Singular matrix: condition number is "
+            SingularMatrixException me("Singular matrix: condition number is "
                   + asString<double>(big) + " / " + asString<double>(small));
             GPSTK_THROW(me);
          }
-- 
2.43.0


From 6705a949bf2ac3a31489483f23b668276667f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 139/216] fix: SparseVector::sum() and cosVec() of sparse
 vectors did not compile

---
 ext/lib/Geomatics/SparseVector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index d0ed8a0..09fa3a4 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -401,8 +401,8 @@ namespace gpstk
       inline T sum(const SparseVector<T>& SV) const
       {
          T tot(0);
-         typename std::map<unsigned int, T>::iterator it = vecMap.begin();
-         for( ; it != vecMap.end(); ++it)
+         typename std::map<unsigned int, T>::const_iterator it = SV.vecMap.begin();
+         for( ; it != SV.vecMap.end(); ++it)
             tot += it->second;
          return tot;
       }
@@ -609,7 +609,7 @@ namespace gpstk
    {
       T cv;
       // try in case RANGECHECK is set
-      try { cv = S1.dot(S2); }
+      try { cv = dot(S1,S2); }
       catch(Exception& e) { GPSTK_RETHROW(e); }
 
       T norm1(norm(S1)), norm2(norm(S2));
@@ -623,7 +623,7 @@ namespace gpstk
    {
       T cv;
       // try in case RANGECHECK is set
-      try { cv = SV.dot(V); }
+      try { cv = dot(SV,V); }
       catch(Exception& e) { GPSTK_RETHROW(e); }
 
       T norm1(norm(SV)), norm2(norm(V));
-- 
2.43.0


From d0d8a3efaf6f27723097d29391e2d295b27cb25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 140/216] fix: norm() of a sparse vector counted its first
 element twice

---
 ext/lib/Geomatics/SparseVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 09fa3a4..d99e2c3 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -592,7 +592,7 @@ namespace gpstk
          return T(0);
 
       T tn(ABS(it->second));   // cmath/cstdlib makes this valid for std types
-      for( ; it != SV.vecMap.end(); ++it) {
+      for(++it; it != SV.vecMap.end(); ++it) {
          if(tn > ABS(it->second))
             tn *= SQRT(T(1) + (it->second/tn)*(it->second/tn));
          else if(tn < ABS(it->second))
-- 
2.43.0


From dc97049237a889f29b85ed204aed41439b3f69c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 141/216] fix: sub-vectors of a sparse vector took the element
 after their end, and empty ones had no length

---
 ext/lib/Geomatics/SparseVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index d99e2c3..9880938 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -518,13 +518,13 @@ namespace gpstk
    {
       if(ind+n > SV.len)
          GPSTK_THROW(Exception("Invalid input subvector c'tor - out of range"));
+      len = n;
       if(n == 0) return;
 
-      len = n;
       typename std::map<unsigned int, T>::const_iterator it;
       for(it = SV.vecMap.begin(); it != SV.vecMap.end(); ++it) {
          if(it->first < ind) continue;       // skip ones before ind
-         if(it->first > ind+n) break;
+         if(it->first >= ind+n) break;
          vecMap[it->first-ind] = it->second;
       }
    }
-- 
2.43.0


From d86b48787745007104a2ca4817f444d2bdc3a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 142/216] fix: multiplying a sparse vector by zero changed its
 length to zero

---
 ext/lib/Geomatics/SparseVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 9880938..68f04f9 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -846,7 +846,7 @@ namespace gpstk
    SparseVector<T>& SparseVector<T>::operator*=(const T& value)
    {
       if(value == T(0)) {
-         resize(0);
+         clear();
       }
       else {
          typename std::map<unsigned int, T>::iterator it;
-- 
2.43.0


From 44faa11ac70b3d61262b21937ddc672f57ae6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 143/216] fix: sub-matrices of a sparse matrix kept the row
 indexes of the original and took a row too many

---
 ext/lib/Geomatics/SparseMatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 2f04654..3445b06 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -643,9 +643,9 @@ namespace gpstk
       typename std::map< unsigned int, SparseVector<T> >::const_iterator it;
       for(it = SM.rowsMap.begin(); it != SM.rowsMap.end(); ++it) {
          if(it->first < rind) continue;               // skip rows before rind
-         if(it->first > rind+rnum) break;             // done with rows
+         if(it->first >= rind+rnum) break;             // done with rows
          SparseVector<T> SV(it->second,cind,cnum);    // get sub-vector
-         if(!SV.isEmpty()) rowsMap[it->first] = SV;   // add it
+         if(!SV.isEmpty()) rowsMap[it->first-rind] = SV;   // add it
       }
    }
 
-- 
2.43.0


From 0b5ed25ae8fb54b67405e5756f9e6b48939f7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 144/216] fix: sums of sparse matrices were differences

---
 ext/lib/Geomatics/SparseMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 3445b06..2ddcaab 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1328,7 +1328,7 @@ namespace gpstk
       //std::cout << "SM::op+(SM,SM)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
@@ -1342,7 +1342,7 @@ namespace gpstk
       //std::cout << "SM::op+(SM,M)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
@@ -1356,7 +1356,7 @@ namespace gpstk
       //std::cout << "SM::op+(M,SM)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
-- 
2.43.0


From 9fd3d90e8a8780a795183cca4f2ea8b1a140ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 145/216] fix: row vector times sparse matrix used the wrong
 rows of the matrix

---
 ext/lib/Geomatics/SparseMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 2ddcaab..3b5a386 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -918,7 +918,7 @@ namespace gpstk
          // loop over rows of R and elements of V
          for(unsigned int k=0; k<jt->second.size(); k++)
             if(V.isFilled(jt->second[k]))
-               sum += V[jt->second[k]] * R(k,jt->first);
+               sum += V[jt->second[k]] * R(jt->second[k],jt->first);
          if(sum != T(0)) retSV.vecMap[jt->first] = sum;
       }
 
-- 
2.43.0


From 6de97e1fcd43085b2af75ea462d8cb865ac5de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 146/216] fix: rows of a sparse matrix were not extended by
 resize(), and emptied ones were kept

---
 ext/lib/Geomatics/SparseMatrix.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 3b5a386..c235c54 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -444,9 +444,15 @@ namespace gpstk
             it = rowsMap.lower_bound(newrows);
             rowsMap.erase(it,rowsMap.end());
          }
-         if(newcols < ncols)
-            for(it=rowsMap.begin(); it != rowsMap.end(); ++it)
+         if(newcols != ncols) {
+            for(it=rowsMap.begin(); it != rowsMap.end(); ) {
                it->second.resize(newcols);
+               if(it->second.isEmpty())            // never keep an empty row
+                  rowsMap.erase(it++);
+               else
+                  ++it;
+            }
+         }
          
          nrows = newrows;
          ncols = newcols;
-- 
2.43.0


From 5354f6e5f61609273d10a70b6156126dd4146aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 147/216] fix: joining sparse matrices misplaced or dropped
 rows and left rows of the wrong length

---
 ext/lib/Geomatics/SparseMatrix.hpp | 35 +++++++++---------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index c235c54..c8e6e41 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1094,7 +1094,7 @@ namespace gpstk
          GPSTK_THROW(Exception("Incompatible dimensions op||(SM,V)"));
       
       SparseMatrix<T> toRet(L);
-      toRet.ncols++;
+      toRet.resize(L.rows(),L.cols()+1);
 
       unsigned int i,n(toRet.ncols-1);
       typename std::map< unsigned int, SparseVector<T> >::iterator jt;
@@ -1119,32 +1119,17 @@ namespace gpstk
          GPSTK_THROW(Exception("Incompatible dimensions op||(SM,SM)"));
 
       SparseMatrix<T> toRet(L);
-      toRet.ncols += R.ncols;
+      toRet.resize(L.rows(),L.cols()+R.cols());
 
-      unsigned int i, N(L.ncols);
-      typename std::map< unsigned int, SparseVector<T> >::iterator it;
+      const unsigned int N(L.cols());
       typename std::map< unsigned int, SparseVector<T> >::const_iterator jt;
-      it = toRet.rowsMap.begin();
-      jt = R.rowsMap.begin();
-      while(it != toRet.rowsMap.end() && jt != R.rowsMap.end()) {
-         if(it->first < jt->first) {         // R has no row here - do nothing
-            it->second.len += N;
-            ++it;
-         }
-         else if(it->first > jt->first) {    // R has a row where toRet does not
-            toRet.rowsMap[jt->first] = jt->second;
-            toRet.rowsMap[jt->first].len += N;
-            ++jt;
-         }
-         else {                              // equal indexes - both have rows
-            it->second.len += N;
-            typename std::map< unsigned int, T >::const_iterator vt;
-            for(vt = jt->second.vecMap.begin(); vt != jt->second.vecMap.end(); ++vt) {
-               toRet.rowsMap[it->first].vecMap[N+vt->first] = vt->second;
-            }
-            ++it;
-            ++jt;
-         }
+      typename std::map< unsigned int, T >::const_iterator vt;
+      // loop over rows of R, adding each to the row of toRet (create it if necessary)
+      for(jt = R.rowsMap.begin(); jt != R.rowsMap.end(); ++jt) {
+         SparseVector<T>& row(toRet.rowsMap[jt->first]);
+         row.len = toRet.ncols;
+         for(vt = jt->second.vecMap.begin(); vt != jt->second.vecMap.end(); ++vt)
+            row.vecMap[N+vt->first] = vt->second;
       }
 
       return toRet;
-- 
2.43.0


From fb4b792378a6f9e6fd5cdfd31df12a2f1084a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 148/216] fix: copies of empty rows and of diagonals of sparse
 matrices had the wrong length

---
 ext/lib/Geomatics/SparseMatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index c8e6e41..10b3d02 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1359,7 +1359,7 @@ namespace gpstk
    template <class T>
    SparseVector<T> SparseMatrix<T>::rowCopy(const unsigned int i) const
    {
-      SparseVector<T> retSV;
+      SparseVector<T> retSV(cols());
       typename std::map< unsigned int, SparseVector<T> >::const_iterator it;
       it = rowsMap.find(i);
       if(it != rowsMap.end())
@@ -1394,7 +1394,7 @@ namespace gpstk
          if(it->second.isFilled(it->first))
             retSV.vecMap[it->first] = it->second[it->first];
       }
-      retSV.len = rows();
+      retSV.len = (rows() < cols() ? rows() : cols());
 
       return retSV;
    }
-- 
2.43.0


From 337317ea83f170ecb38120496cd31a7c094d647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 149/216] fix: SparseMatrix::swapCols() transposed the matrix
 instead of swapping columns

---
 ext/lib/Geomatics/SparseMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 10b3d02..71e64d5 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1437,7 +1437,7 @@ namespace gpstk
       // may not be the fastest, but may be fast enough - tranpose() is fast
       SparseMatrix<T> trans(transpose(*this));
       trans.swapRows(ii,jj);
-      *this = transpose(*this);
+      *this = transpose(trans);
    }
 
    //---------------------------------------------------------------------------------
-- 
2.43.0


From 456b1253fa90f45c86ca4c95384aa9112dd6a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:23 +0000
Subject: [PATCH 150/216] fix: zeroize() of sparse vectors and matrices did not
 link without a tolerance

---
 ext/lib/Geomatics/SparseVector.cpp | 6 ------
 ext/lib/Geomatics/SparseVector.hpp | 4 ++++
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ext/lib/Geomatics/SparseVector.cpp b/ext/lib/Geomatics/SparseVector.cpp
index 31f61d2..78bba42 100644
--- a/ext/lib/Geomatics/SparseVector.cpp
+++ b/ext/lib/Geomatics/SparseVector.cpp
@@ -39,9 +39,3 @@
 /// @file SparseVector.cpp  Class for a sparse vector.
 
 #include "SparseVector.hpp"
-namespace gpstk
-{
-   /// tolerance in considering element to be zero is std::abs(elem) < tolerance
-   /// see zeroize(), where this is the default input value
-   template <class T> const double SparseVector<T>::zeroTolerance=1.0e-14;
-}
diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 68f04f9..4e4f9f2 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -498,6 +498,10 @@ namespace gpstk
    //---------------------------------------------------------------------------
    // implementation of SparseVector
    //---------------------------------------------------------------------------
+   /// tolerance in considering element to be zero is std::abs(elem) < tolerance
+   /// see zeroize(), where this is the default input value
+   template <class T> const double SparseVector<T>::zeroTolerance=1.0e-14;
+
    // constructor from regular Vector<T>
    template <class T> SparseVector<T>::SparseVector(const Vector<T>& V)
    {
-- 
2.43.0


From 5219fd397c13110cbf7d1dd6267553eda871b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:51 +0000
Subject: [PATCH 151/216] fix: lowerCholesky() of a sparse matrix accepted
 matrices whose last rows are zero

---
 ext/lib/Geomatics/SparseMatrix.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 71e64d5..60601b4 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1708,6 +1708,12 @@ namespace gpstk
 
          rowSums.push_back(T(0));
       }
+      if(i != n) {
+         std::ostringstream oss;
+         oss << "lowerCholesky() requires positive-definite input:"
+            << " (zero rows at index " << i << ")";
+         GPSTK_THROW(Exception(oss.str()));
+      }
 
       // loop over columns of A, at the same time looping over rows of L
       // use jt to iterate over the columns of A, keeping count with (column) j
-- 
2.43.0


From ee6ffb18be4fccc23f31f02f916fea114d302de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:51 +0000
Subject: [PATCH 152/216] fix: inverseLT() of a sparse matrix did not return
 the smallest and largest diagonal element

---
 ext/lib/Geomatics/SparseMatrix.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 60601b4..65c8401 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1792,10 +1792,8 @@ namespace gpstk
          }
 
          dum = it->second[i];
-         if(ptrSmall) {
-            if(ABS(dum) > big) big = ABS(dum);
-            if(ABS(dum) < small) small = ABS(dum);
-         }
+         if(i == 0 || ABS(dum) > big) big = ABS(dum);
+         if(i == 0 || ABS(dum) < small) small = ABS(dum);
 
          // create row i and element i,i in the answer
          dum = T(1)/dum;
-- 
2.43.0


From d948ddbdbd6ade7ca9e720cab6d066fa64135407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:51 +0000
Subject: [PATCH 153/216] fix: inverse() of a sparse matrix took roundoff for
 pivots, and accepted matrices whose last rows are zero

---
 ext/lib/Geomatics/SparseMatrix.hpp | 39 +++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 65c8401..3c37899 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1557,7 +1557,13 @@ namespace gpstk
          }
 
          const unsigned int N(A.rows());
-         typename std::map< unsigned int, SparseVector<T> >::iterator jt,kt;
+         if(i != N) {
+            std::ostringstream oss;
+            oss << "Singular matrix - zero row at index " << i << ")";
+            GPSTK_THROW(Exception(oss.str()));
+         }
+
+         typename std::map< unsigned int, SparseVector<T> >::iterator jt,kt,pt;
          typename std::map< unsigned int, T >::iterator vt;
          SparseMatrix<T> GJ(A || identSparse<T>(N));
 
@@ -1567,24 +1573,23 @@ namespace gpstk
          // loop over rows of work matrix, making lower left triangular = unity
          for(jt = GJ.rowsMap.begin(); jt != GJ.rowsMap.end(); ++jt) {
 
-            // divide row by diagonal element; if diagonal is zero, add another row
-            vt = jt->second.vecMap.find(jt->first);      // diagonal element GJ(j,j)
-            if(vt == jt->second.vecMap.end() || vt->second == T(0)) {
-               // find a lower row with non-zero element (same col); add to this row
-               for((kt=jt)++; kt != GJ.rowsMap.end(); ++kt) {
-                  vt = kt->second.vecMap.find(jt->first);      // GJ(k,j)
-                  if(vt == kt->second.vecMap.end() || vt->second == T(0))
-                     continue;                                 // nope, its zero
-
-                  // add the kt row to the jt row
-                  jt->second += kt->second;
-                  break;
-               }
-               if(kt == GJ.rowsMap.end())
-                  GPSTK_THROW(Exception("Singular matrix"));
+            // divide row by pivot element; the pivot is the largest element in this
+            // column, at or below the diagonal
+            dtmp = T(0);
+            pt = jt;
+            for(kt=jt; kt != GJ.rowsMap.end(); ++kt) {
+               vt = kt->second.vecMap.find(jt->first);         // GJ(k,j)
+               if(vt == kt->second.vecMap.end() || ABS(vt->second) <= ABS(dtmp))
+                  continue;
+               dtmp = vt->second;
+               pt = kt;
             }
+            if(dtmp == T(0))
+               GPSTK_THROW(Exception("Singular matrix"));
+
+            // bring the pivot to the diagonal
+            if(pt != jt) GJ.swapRows(jt->first, pt->first);
 
-            dtmp = vt->second;
             // are these scales 1/dtmp related to condition number? eigenvalues? det?
             // they are close to condition number....
             //if(jt == GJ.rowsMap.begin()) big = small = ::fabs(dtmp);
-- 
2.43.0


From 6ede6a07c59bbd0d5af622749a869fe1fc302b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 154/216] fix: FileSpec::newSpec forgets the fields of the
 previous specification

---
 core/lib/FileDirProc/FileSpec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 8712092..a5bef03 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -411,6 +411,7 @@ namespace gpstk
       try
       {
          fileSpecList.clear();
+         fileSpecSet.clear();
          fileSpecString.clear();
 
          fileSpecString = fileSpec;
-- 
2.43.0


From 8af2c1c249ebfac9648b984ac8d69938b1fc3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:05 +0000
Subject: [PATCH 155/216] fix: a left-justified FileSpec field has the width
 given, not a huge one

---
 core/lib/FileDirProc/FileSpec.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index a5bef03..771e02f 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -293,7 +293,12 @@ namespace gpstk
             // the file spec. otherwise, just put the fixed field in.
          if (fstsItr != fstsMap.end())
          {
-            if ((*fstsItr).first == text)
+            if ((*fslItr).field.compare(0, 2, "%-") == 0)
+            {
+               toReturn +=
+                  leftJustify((*fstsItr).second, (*fslItr).numCh);
+            }
+            else if ((*fstsItr).first == text)
             {
                   // Don't fill text fields with "0".  Filling with
                   // space isn't the best idea either but it's better
@@ -476,6 +481,11 @@ namespace gpstk
                stripLeading(fs, asString(numChs));
 
                atom += asString(numChs);
+
+                  // as in printf, a minus sign left-justifies the
+                  // field, its width is what follows
+               if (numChs < 0)
+                  numChs = -numChs;
                
                   // get the file spec type and erase that part of the string
                FileSpecType fst = convertFileSpecType(fs.substr(0,1));
-- 
2.43.0


From 2d604590b97be0128031e46dd7385cfc846ba10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 156/216] fix: FileSpec::extractField reports names too short
 for the field with its documented exception

---
 core/lib/FileDirProc/FileSpec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 771e02f..86b9861 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -231,6 +231,11 @@ namespace gpstk
             // found it - get the substring and return
          if ((*itr).type == fst)
          {
+            if ((*itr).offset > filename.length())
+            {
+               FileSpecException fse("File name is too short: " + filename);
+               GPSTK_THROW(fse);
+            }
             return filename.substr((*itr).offset, (*itr).numCh);
          }
 
-- 
2.43.0


From a3ed75642e70a32653715be891b7d68ddfcd28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 157/216] fix: FileSpec::sortList compares only the file name
 of names with a path, as documented

---
 core/lib/FileDirProc/FileSpec.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 86b9861..3a58d03 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -72,6 +72,14 @@ namespace gpstk
                                             const std::string& r)
       const
    {
+         // If the FileSpec is for a file name, the offsets of its
+         // elements start after any directories in the strings.
+      std::string::size_type lstart = 0, rstart = 0;
+      if (fileSpec.fileSpecString.find(slash) == std::string::npos)
+      {
+         lstart = l.rfind(slash) + 1;
+         rstart = r.rfind(slash) + 1;
+      }
          // This sort operator compares all fields in the order
          // defined in the FileSpecType enum.
       for(FileSpecType fst = FileSpecType(unknown+1); fst < end; fst++)
@@ -84,8 +92,15 @@ namespace gpstk
                std::string::size_type numCh = fileSpec.fileSpecList[i].numCh;
                if (fileSpec.fileSpecList[i].type == fst)
                {
-                  std::string lsub(l.substr(offset, numCh));
-                  std::string rsub(r.substr(offset, numCh));
+                  if ((lstart + offset > l.length()) ||
+                      (rstart + offset > r.length()))
+                  {
+                     FileSpecException fse("File name is too short: " + l +
+                                           " or " + r);
+                     GPSTK_THROW(fse);
+                  }
+                  std::string lsub(l.substr(lstart + offset, numCh));
+                  std::string rsub(r.substr(rstart + offset, numCh));
                   if (((sortDir == ascending) && (lsub < rsub)) ||
                       ((sortDir == descending) && (lsub > rsub)))
                   {
-- 
2.43.0


From 56a289ef28b19f61d30d13ff5c8ae2cc52f1def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 158/216] fix: FileSpec::sortList keeps the newest version in
 either order and leaves the list sorted

---
 core/lib/FileDirProc/FileSpec.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 3a58d03..d213f0c 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -355,13 +355,12 @@ namespace gpstk
 
          // to filter out versions, generate a list of the version FSEs first
          // and copy the file list.  then make a map of the file name without
-         // the version field to the name with the version field. since its
-         // sorted, the highest version will be the last one set and the map
-         // will only have the latest versions...
+         // the version field to the file with the highest version. the files
+         // left out of the map are then dropped from the sorted list...
          // 
          // ex.  a1a a2a a3a a4a a5a     file spec: a%1va
          // copyOfFileList after versions removed:  aa aa aa aa aa
-         // versionMap[aa] = a1a then a2a, a3a, a4a, and finally a5a
+         // versionMap[aa] = index of a5a
          // 
          // note that this only handles 1 version field right now, not that
          // it couldnt do more but it gets very difficult...
@@ -384,11 +383,14 @@ namespace gpstk
             // remove the version fields from the copied list, but only for the
             // last directory/file entry in this name
          vector<string>::size_type index;
+         vector<string> versions(copyOfFileList.size());
          for (index = 0; index < copyOfFileList.size(); index++)
          {
             string::size_type slashpos = copyOfFileList[index].rfind(slash);
             if (slashpos != string::npos)
                copyOfFileList[index].erase(0, slashpos + 1);
+            versions[index] = copyOfFileList[index].substr(
+               versionVec[0].offset, versionVec[0].numCh);
             copyOfFileList[index].erase(versionVec[0].offset,
                                         versionVec[0].numCh);
          }
@@ -399,17 +401,24 @@ namespace gpstk
 
             // FIX: this will only compare the first version field encountered.
             // it could be changed to do more, but it's not essential now...
-         map<string, string> versionMap;
+         map<string, vector<string>::size_type> versionMap;
          for (index = 0; index < copyOfFileList.size(); index++)
-            versionMap[copyOfFileList[index]] = fileList[index];
+         {
+            map<string, vector<string>::size_type>::iterator mapitr =
+               versionMap.find(copyOfFileList[index]);
+            if (mapitr == versionMap.end())
+               versionMap[copyOfFileList[index]] = index;
+            else if (versions[index] >= versions[(*mapitr).second])
+               (*mapitr).second = index;
+         }
 
-         fileList.erase(fileList.begin(), fileList.end());
-         map<string, string>::iterator mapitr = versionMap.begin();
-         while (mapitr != versionMap.end())
+         vector<string> newestList;
+         for (index = 0; index < fileList.size(); index++)
          {
-            fileList.push_back((*mapitr).second);
-            mapitr++;
+            if (versionMap[copyOfFileList[index]] == index)
+               newestList.push_back(fileList[index]);
          }
+         fileList.swap(newestList);
       }
    }
 
-- 
2.43.0


From ef25b2a6ee19ffbfbabe79676182f731ef4df719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 159/216] fix: FileSpecFind gives selected tokens without a
 width the length of their own value

---
 core/lib/FileDirProc/FileSpecFind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 44694f8..7297c57 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -256,7 +256,7 @@ namespace gpstk
          selLen = 1;
       }
       string selTok = gpstk::FileSpec::convertFileSpecType(fsSel);
-      string selLenS = gpstk::StringUtils::asString(textLen);
+      string selLenS = gpstk::StringUtils::asString(selLen);
          // Just change the arbitrary text token to the value we have,
          // since there's at most one value to match.
       gpstk::StringUtils::change(spec, "%"+textTok, dummyFSTS[fsType]);
-- 
2.43.0


From 9ac6e3f8de2dfb6209dd5454d8c16c0fe8379802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 160/216] fix: FileSpecFind checks time and filter of the first
 token of a path without directories

---
 core/lib/FileDirProc/FileSpecFind.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 7297c57..ce3461c 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -497,9 +497,10 @@ namespace gpstk
          // find the first part of the path that contains a FileSpec token
       string::size_type stokpos = spec.find('%', pos);
          // find the beginning of the remaining path (subdirectory or
-         // file within the directory starting at stokpos)
-      string::size_type stoppos = min(
-         stokpos, spec.find_last_of(PATH_SEP_STRING, stokpos));
+         // file within the directory starting at stokpos), which is
+         // the beginning of spec if there is no directory before it.
+      string::size_type stoppos = spec.find_last_of(PATH_SEP_STRING, stokpos);
+      stoppos = (stoppos == string::npos) ? 0 : stoppos+1;
          // srest is the first character of the "rest" of the path
          // i.e. lower depths in the tree.
       string::size_type srest =
@@ -524,7 +525,7 @@ namespace gpstk
          // check upper level directories against the filter, or time
          // range if there are no time-related spec types at this
          // level, as they will have already been checked.
-      string currentSpec = thisSpec.substr(stoppos+1);
+      string currentSpec = thisSpec.substr(stoppos);
       FileSpec currentSpecScanner(currentSpec);
       bool checkTime = currentSpecScanner.hasTimeField();
 
-- 
2.43.0


From 6a4ee52855c9a24bf8da1a654a9acafe66ab674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 161/216] fix: FileSpecFind takes names it has already matched
 literally

---
 core/lib/FileDirProc/FileSpecFind.cpp | 31 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index ce3461c..07fa23d 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -219,6 +219,26 @@ static void globfree(glob_t *pglob)
 }
 #endif
 
+/** Turn a path that has already been matched into a glob pattern that
+ * matches just that path.
+ * @param[in] path The path to match.
+ * @return path with any special characters made literal. */
+static std::string literalPath(const std::string& path)
+{
+#ifdef WIN32
+   return path;
+#else
+   std::string rv;
+   for (std::string::size_type i = 0; i < path.length(); i++)
+   {
+      if (std::string("*?[]\\").find(path[i]) != std::string::npos)
+         rv += '\\';
+      rv += path[i];
+   }
+   return rv;
+#endif
+}
+
 namespace gpstk
 {
    list<string> FileSpecFind ::
@@ -509,15 +529,12 @@ namespace gpstk
           : spec.find_first_of(PATH_SEP_STRING, stokpos+1));
          // thisSpec is JUST the part of the path that we've already searched
       string thisSpec(spec.substr(0, srest));
-         // patternSpec takes the parts of the original spec that have
+         // pattern takes the parts of the original spec that have
          // already been matched and replaces that with the "matched"
          // string which fixes us into the specific directory tree
-         // we're searching with glob
-      string patternSpec(thisSpec);
-      patternSpec.replace(0, pos, matched);
-         // pattern is the same as patternSpec but with all the
-         // FileSpec tokens replaced with glob patterns.
-      string pattern = transToken(patternSpec);
+         // we're searching with glob.  In the remainder, all the
+         // FileSpec tokens are replaced with glob patterns.
+      string pattern = literalPath(matched) + transToken(thisSpec.substr(pos));
          // currentSpec and currentSpecScanner contain the file spec
          // for just the currently searched directory.  We do this to
          // minimize the amount of effort done in matching, because
-- 
2.43.0


From d95c7a7509f3ec7295d714afec2e9866b075d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 162/216] fix: FileSpecFind finds files and directories which
 start within the last year, month or day of the span

---
 core/lib/FileDirProc/FileSpecFind.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 07fa23d..8fa9289 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -546,17 +546,19 @@ namespace gpstk
       FileSpec currentSpecScanner(currentSpec);
       bool checkTime = currentSpecScanner.hasTimeField();
 
-         // Use the current spec to turn our time range into something
-         // that will be useable to match at this level in the
-         // heirarchy.
-      gpstk::CommonTime fromTimeMatch, toTimeMatch;
+         // Use the current spec to turn the start of our time range
+         // into something that will be useable to match at this level
+         // in the heirarchy.  The end of the range isn't reduced to
+         // the granularity of this level, as anything that starts
+         // before it can contain data before it.
+      gpstk::CommonTime fromTimeMatch, toTimeMatch(toTime);
       gpstk::FileSpec specScanner(thisSpec);
       if (checkTime)
       {
          string fromString = specScanner.toString(fromTime, dummyFSTS);
-         string toString = specScanner.toString(toTime, dummyFSTS);
          fromTimeMatch = specScanner.extractCommonTime(fromString);
-         toTimeMatch = specScanner.extractCommonTime(toString);
+            // file names have no time system of their own
+         toTimeMatch.setTimeSystem(fromTimeMatch.getTimeSystem());
             // Make sure our conditions can be met, i.e. from <= t < to
             // by adding 1/10th of a second to "to" if from and to are the same
          if (toTimeMatch == fromTimeMatch)
-- 
2.43.0


From a091351d34ac75ad1833a08e34a0bd10acfb3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 163/216] fix: FileSpecFind accepts spans starting before what
 the fields of a name can express, like BEGINNING_OF_TIME

---
 core/lib/FileDirProc/FileSpecFind.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 8fa9289..4614642 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -551,14 +551,26 @@ namespace gpstk
          // in the heirarchy.  The end of the range isn't reduced to
          // the granularity of this level, as anything that starts
          // before it can contain data before it.
-      gpstk::CommonTime fromTimeMatch, toTimeMatch(toTime);
+      gpstk::CommonTime fromTimeMatch(fromTime), toTimeMatch(toTime);
       gpstk::FileSpec specScanner(thisSpec);
       if (checkTime)
       {
-         string fromString = specScanner.toString(fromTime, dummyFSTS);
-         fromTimeMatch = specScanner.extractCommonTime(fromString);
             // file names have no time system of their own
-         toTimeMatch.setTimeSystem(fromTimeMatch.getTimeSystem());
+         fromTimeMatch.setTimeSystem(TimeSystem::Any);
+         toTimeMatch.setTimeSystem(TimeSystem::Any);
+         try
+         {
+            string fromString = specScanner.toString(fromTime, dummyFSTS);
+            gpstk::CommonTime t = specScanner.extractCommonTime(fromString);
+               // times before the range of the fields (e.g. two digit
+               // years) come back later, and can't be reduced.
+            if (t < fromTimeMatch)
+               fromTimeMatch = t;
+         }
+         catch (gpstk::Exception &exc)
+         {
+               // fromTime can't be expressed in the fields of the spec.
+         }
             // Make sure our conditions can be met, i.e. from <= t < to
             // by adding 1/10th of a second to "to" if from and to are the same
          if (toTimeMatch == fromTimeMatch)
-- 
2.43.0


From 3c5b37cf3e8f78c1f7f50c2e92f554c5fcb0753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 164/216] fix: FileUtils::fileAccessCheck for writing erased
 the file

---
 core/lib/FileDirProc/FileUtils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/FileDirProc/FileUtils.hpp b/core/lib/FileDirProc/FileUtils.hpp
index 072791f..f7b5c78 100644
--- a/core/lib/FileDirProc/FileUtils.hpp
+++ b/core/lib/FileDirProc/FileUtils.hpp
@@ -151,6 +151,12 @@ namespace gpstk
       inline bool fileAccessCheck(const char* fname, 
                                   std::ios::openmode mode=std::ios::in)
       {
+            // opening a file just for output would erase its contents
+         if ((mode & (std::ios::in|std::ios::out|std::ios::app|
+                      std::ios::trunc)) == std::ios::out)
+         {
+            mode |= std::ios::app;
+         }
          std::fstream test(fname, mode);
          return !test.fail();
       }
-- 
2.43.0


From b6992a2a8ea905f4328f5bcf6242cba1e331c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:26 +0000
Subject: [PATCH 165/216] fix: FileHunter lost the files of the week a year
 starts in which are of the year before

---
 core/lib/FileDirProc/FileHunter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileHunter.cpp b/core/lib/FileDirProc/FileHunter.cpp
index 93a0ef1..503fed6 100644
--- a/core/lib/FileDirProc/FileHunter.cpp
+++ b/core/lib/FileDirProc/FileHunter.cpp
@@ -198,7 +198,7 @@ namespace gpstk
 
          // Set min and max years for progressive coarse time filtering
       int minY, maxY;
-      YDSTime tmpStart(start);
+      YDSTime tmpStart(exStart);
       YDSTime tmpEnd(end);
       minY = tmpStart.year;
       maxY = tmpEnd.year;
-- 
2.43.0


From ca7c640117e57eaf9e6e542a090236e2b53f2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 166/216] fix: CommandOptionWithCommonTimeArg.hpp and
 CommandOptionWithTimeArg.hpp can both be included

---
 core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp b/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
index 5b80a5b..af14e67 100644
--- a/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
+++ b/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
@@ -41,8 +41,8 @@
  * Command line options with time arguments
  */
 
-#ifndef COMMANDOPTIONWITHTIMEARG_HPP
-#define COMMANDOPTIONWITHTIMEARG_HPP
+#ifndef COMMANDOPTIONWITHCOMMONTIMEARG_HPP
+#define COMMANDOPTIONWITHCOMMONTIMEARG_HPP
 
 #include "CommandOption.hpp"
 #include "CommonTime.hpp"
-- 
2.43.0


From 822e07410c5060b52e0ecf8d388ce57dabb501f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 167/216] fix: the option parser mixed up a short option with
 the long option of one character of the same name

---
 core/lib/CommandLine/CommandOptionParser.cpp | 25 ++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index 6b90e2b..acaa3cc 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -115,8 +115,10 @@ namespace gpstk
    CommandOptionParser::parseOptions(int argc,
                                      char* argv[])
    {
-         // this maps the index of optionVec to the command line options
+         // these map the short options, and the index in optArray of
+         // the long options, to the command line options.
       CommandOptionMap com;
+      CommandOptionVec longOpts;
       
          // keep track of the order of command options
       unsigned int order = 0;
@@ -172,7 +174,7 @@ namespace gpstk
                   resizeOptionArray(optArray, optArraySize);
                   optArray[optArraySize - 1] = 
                      optionVec[index]->toGetoptLongOption();
-                  com[optionVec[index]->longOpt] = optionVec[index];
+                  longOpts.push_back(optionVec[index]);
                }
 
                   // keep track of whether or not there are required or
@@ -246,12 +248,21 @@ namespace gpstk
             else
                thisOption = string(optArray[optionIndex].name);
                
-               // try to find the option in our option map
-            map<string, CommandOption*>::iterator itr = com.find(thisOption);
+               // try to find the option in our option maps
+            CommandOption* pickedOption = NULL;
+            if (cha == 0)
+            {
+               pickedOption = longOpts[optionIndex];
+            }
+            else
+            {
+               CommandOptionMap::iterator itr = com.find(thisOption);
+               if (itr != com.end())
+                  pickedOption = (*itr).second;
+            }
 
-            if (itr != com.end())
+            if (pickedOption != NULL)
             {
-               CommandOption* pickedOption = (*itr).second;
                   // if there is an value for this option...
                if (optarg)
                {
@@ -294,7 +305,7 @@ namespace gpstk
                {
                   helpOptions.push_back(helpOpt);
                }
-            } // itr != end()
+            } // pickedOption != NULL
             else
             {
                errorStrings.push_back("Unknown option error");               
-- 
2.43.0


From 166cda9002906db5d5e4b946210041ae85f1c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 168/216] fix: the option parser reported excess arguments when
 nothing follows --

---
 core/lib/CommandLine/CommandOptionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index acaa3cc..b9b6786 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -212,7 +212,7 @@ namespace gpstk
          if ((cha = getopt_long(argc, argv, shortOptString.c_str(),
                                 optArray, &optionIndex)) == -1)
          {
-            if (!trailing)
+            if (!trailing && (optind < argc))
                errorStrings.push_back("Excess arguments");
             break;
          }
-- 
2.43.0


From d8fe5f4c588bc10bde2e93251eb8b34d1a0a941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 169/216] fix: CommandOptionParser::displayUsage changed the
 text it shows every time

---
 core/lib/CommandLine/CommandOptionParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index b9b6786..801397a 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -387,6 +387,8 @@ namespace gpstk
    {
       CommandOptionVec::size_type index;
       CommandOption *trailing = NULL;
+         // prettyPrint changes its argument
+      string usageText(text);
 
       char *colch = getenv("COLUMNS");
       int columns = 80;
@@ -413,7 +415,8 @@ namespace gpstk
       if (trailing)
          out << " " << trailing->description;
       out << endl
-          << (doPretty ? prettyPrint(text,"\n","","",columns) : text);
+          << (doPretty ? prettyPrint(usageText,"\n","","",columns)
+              : usageText);
 // << endl
 //          << endl 
 //          << "Command options:" << endl;
-- 
2.43.0


From d8da8e7e2ad00f2cf79fcdaab1b8ab9e83a746e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 170/216] fix: the option parser passed a null pointer to
 memcpy

---
 core/lib/CommandLine/CommandOptionParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index 801397a..63716f1 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -456,7 +456,8 @@ namespace gpstk
                                                unsigned long& oldSize)
    {
       struct option* newArray = new struct option[1 + oldSize];
-      std::memcpy(newArray, oldArray, oldSize * sizeof(struct option));
+      if (oldSize > 0)
+         std::memcpy(newArray, oldArray, oldSize * sizeof(struct option));
       delete [] oldArray;
       oldArray = newArray;
       newArray = NULL;
-- 
2.43.0


From 6c08c6ecf4ca6b53524636434defb00c6c9cd623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:59 +0000
Subject: [PATCH 171/216] fix: isDigitString and isDecimalString took a sign or
 a point without a digit for a number

---
 core/lib/Utilities/StringUtils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 9be4423..e7d797f 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1859,6 +1859,8 @@ namespace gpstk
          std::string::size_type index = 0;
          if((s[0] == '-') || (s[0] == '+'))
             index++;
+         if (index == s.size())
+            return false;
          for( ; index < s.size(); index++)
             if (!isdigit(s[index]))
                return false;
@@ -1872,6 +1874,7 @@ namespace gpstk
 
          std::string::size_type index = 0;
          bool sawdot = false;
+         bool sawdigit = false;
          if((s[0] == '-') || (s[0] == '+'))
             index++;
          for( ; index < s.size(); index++)
@@ -1884,8 +1887,10 @@ namespace gpstk
             }
             else if (!isdigit(s[index]))
                return false;
+            else
+               sawdigit = true;
          }
-         return true;
+         return sawdigit;
       }
 
       inline bool isScientificString(const std::string& s)
-- 
2.43.0


From 9caeb50595911950efa1093d350a14ced6d954be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 172/216] fix: a new CommandLine had uninitialised flags

---
 core/lib/CommandLine/CommandLine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandLine.hpp b/core/lib/CommandLine/CommandLine.hpp
index aa88a9d..168f9b0 100644
--- a/core/lib/CommandLine/CommandLine.hpp
+++ b/core/lib/CommandLine/CommandLine.hpp
@@ -148,7 +148,8 @@ public:
    // -------------- member functions -------------------------------------
    // constructor
    CommandLine(void)
-      : help(false),debug(-1),verbose(false),requireOneArg(true),syntaxPageBuilt(0)
+      : help(false),verbose(false),helponly(false),foundErrors(false),
+        requireOneArg(true),debug(-1),syntaxPageBuilt(0),optionsize(0)
          { }
 
    // destructor
-- 
2.43.0


From fccf0bfcfc27512a2957ea67311073999e53bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 173/216] fix: CommandLine::hasErrors() is true when the
 definition of the options has errors

---
 core/lib/CommandLine/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 9ff7292..ab9855d 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -111,6 +111,7 @@ try {
    // validate the command line ------------------------------------------
    if(!ValidateCommandLine(word)) {              // word is a dummy here
       Errors = word;
+      foundErrors = true;
       return -3;
    }
 
-- 
2.43.0


From bb942b4abdc6eb5bf1ea9ae964872b68ca8a36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 174/216] fix: the end of one command line was ignored or read
 as a file name in the next CommandLine

---
 core/lib/CommandLine/CommandLine.cpp | 4 +---
 core/lib/CommandLine/CommandLine.hpp | 7 ++++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index ab9855d..c9ead4a 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -92,6 +92,7 @@ try {
 
    // preliminaries ------------------------------------------------------
    helponly = foundErrors = false;
+   found_cfg_file = ignore_opts = ignore_once = false;
    Usage = string();
    Errors = string();
    Unrecog.clear();
@@ -484,9 +485,6 @@ void CommandLine::PreProcessArgs(const char *in_arg, vector<string>& Args,
    string& Errors)
 {
 try {
-   static bool found_cfg_file=false;
-   static bool ignore_opts=false;              // ignore args for now...
-   static bool ignore_once=false;              // ignore one argument
    int i,k;
    string msg,sarg(in_arg);
 
diff --git a/core/lib/CommandLine/CommandLine.hpp b/core/lib/CommandLine/CommandLine.hpp
index 168f9b0..b89957d 100644
--- a/core/lib/CommandLine/CommandLine.hpp
+++ b/core/lib/CommandLine/CommandLine.hpp
@@ -121,6 +121,10 @@ private:
    bool help,verbose,helponly,foundErrors,requireOneArg;
    int debug;        // NB default is -1
 
+   bool found_cfg_file;       // PreProcessArgs: next arg is the name of an options file
+   bool ignore_opts;          // PreProcessArgs: ignoring args for now...
+   bool ignore_once;          // PreProcessArgs: ignore one argument
+
    int syntaxPageBuilt;       // 0 c'tor, 1 Usage: ..., 2 prgm descript, 3 complete
    std::string syntaxPage;
    int optionsize;         // length of the string '--opt <arg>     ' in syntax page
@@ -149,7 +153,8 @@ public:
    // constructor
    CommandLine(void)
       : help(false),verbose(false),helponly(false),foundErrors(false),
-        requireOneArg(true),debug(-1),syntaxPageBuilt(0),optionsize(0)
+        requireOneArg(true),debug(-1),found_cfg_file(false),
+        ignore_opts(false),ignore_once(false),syntaxPageBuilt(0),optionsize(0)
          { }
 
    // destructor
-- 
2.43.0


From a030b6ecd0053ac2769ca07b564bc5d104042049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 175/216] fix: CommandLine reports an options file it cannot
 open in the errors

---
 core/lib/CommandLine/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index c9ead4a..78d9567 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -543,6 +543,7 @@ try {
       ifstream infile(filename.c_str());
       if(!infile) {
          LOG(ERROR) << "Error: could not open options file " << filename;
+         Errors += "Error - options file " + filename + " could not be opened.\n";
          return;
       }
 
-- 
2.43.0


From 0dbdc0fdedb77e512763ab3180af09107ce477d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 176/216] fix: CommandLine reports the option --file without a
 file name

---
 core/lib/CommandLine/CommandLine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 78d9567..78289e7 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -129,6 +129,7 @@ try {
    // PreProcessArgs pulls out help, debug, verbose, file, deprecated and ignore args
    vector<string> Args;
    for(j=1; j<argc; j++) PreProcessArgs(argv[j],Args,Errors);
+   if(found_cfg_file) Errors += "Error - option --file or -f without value.\n";
    LOG(DEBUG) << "Return from CommandLine::PreProcessArgs: help is "
       << (help ? "T":"F") << " and helponly is " << (helponly ? "T":"F");
 
@@ -580,6 +581,9 @@ try {
          }
          if(infile.eof() || !infile.good()) break;
       }  // end loop over file
+      if(again_cfg_file)
+         Errors += "Error - option --file or -f without value in options file "
+               + filename + ".\n";
 
       ignore_opts = false;
    }
-- 
2.43.0


From d2d2fcff3ff4ded2ed1a5cc9ab77f20b6483e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 177/216] fix: CommandLine split quoted words at the begin of
 an indented line of an options file

---
 core/lib/CommandLine/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 78289e7..c13bfe2 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -557,6 +557,7 @@ try {
 
          // process the buffer before checking eof or bad b/c there can be
          // a line at EOF that has no CRLF...
+         stripLeading(buffer);
          while(!buffer.empty()) {
             word = firstWord(buffer);
             if(again_cfg_file) {
-- 
2.43.0


From 5287e5482b45cd9f088440f147ea2e5653873262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 178/216] fix: CommandLine reported a missing list file for all
 the following options as well

---
 core/lib/CommandLine/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index c13bfe2..656746d 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -837,6 +837,7 @@ try {
                                options[i].type == typeVectorInt))
       {
          vector<string> nvalues;
+         errStr = string();
          expand_args(values, nvalues, errStr);
          if(!errStr.empty())
             oss << errStr << " for option --" << options[i].longOpt << "\n";
-- 
2.43.0


From 5f94cb1792e42e4d8b2bbc28998e703193b9f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:27 +0000
Subject: [PATCH 179/216] fix: CommandLine took comments for file names, and
 ignored options for the option --file, in options files

---
 core/lib/CommandLine/CommandLine.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 656746d..5a76dc5 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -536,7 +536,7 @@ try {
    if(sarg == "--file" || sarg == "-f")         // strip out before found_cfg_file
       found_cfg_file = true;
 
-   // NB second test (in_arg[0]...) is for -f <file> embedded in another cfg file *1*
+   // NB second test (in_arg[0]...) is for -f<file>
    else if(found_cfg_file || (in_arg[0]=='-' && in_arg[1]=='f')) {
       string filename(in_arg);
       if(!found_cfg_file) filename.erase(0,2); else found_cfg_file = false;
@@ -548,7 +548,6 @@ try {
          return;
       }
 
-      bool again_cfg_file=false;
       string buffer,word;
       while(1) {
          getline(infile,buffer);
@@ -560,16 +559,9 @@ try {
          stripLeading(buffer);
          while(!buffer.empty()) {
             word = firstWord(buffer);
-            if(again_cfg_file) {
-               word = "-f" + word;           // see above *1*
-               again_cfg_file = false;
-               PreProcessArgs(word.c_str(),Args,Errors);
-            }
-            else if(word[0] == '#') {        // skip to end of line
+            if(word[0] == '#') {             // skip to end of line
                buffer = "";
             }
-            else if(word == "--file" || word == "-f")
-               again_cfg_file = true;
             else if(word[0] == '"') {
                word = stripFirstWord(buffer,'"');
                buffer = "dummy " + buffer;   // to be stripped below
@@ -582,9 +574,11 @@ try {
          }
          if(infile.eof() || !infile.good()) break;
       }  // end loop over file
-      if(again_cfg_file)
+      if(found_cfg_file) {
          Errors += "Error - option --file or -f without value in options file "
                + filename + ".\n";
+         found_cfg_file = false;
+      }
 
       ignore_opts = false;
    }
-- 
2.43.0


From 6181ed4281ed625a2d0c2209b8d875a942cc524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 180/216] fix: RinexMetHeader did not read the version 3.00 it
 writes

---
 core/lib/FileHandling/RINEX/RinexMetHeader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexMetHeader.cpp b/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
index 9228cca..241ec14 100644
--- a/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
@@ -290,7 +290,7 @@ namespace gpstk
             std::string verstr(strip(line.substr(0,20)));
             if ((verstr != "2.0") && (verstr != "2.1") && (verstr != "2.00") &&
                (verstr != "2.10") && (verstr != "2.11") && (verstr != "3.0") &&
-               (verstr != "3.01") && (verstr!= "3.02"))
+               (verstr != "3.00") && (verstr != "3.01") && (verstr!= "3.02"))
             {
                FFStreamError e("Unknown or unsupported RINEX version " + 
                                asString(version));
-- 
2.43.0


From 59a1c4f93654be255adb85f3f4fa97f0d8e3e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 181/216] fix: merged RINEX met headers lacked the observation
 types of a single header, and comments if the first one has none

---
 core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp b/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
index 5c170a2..765c8f8 100644
--- a/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
@@ -162,6 +162,7 @@ namespace gpstk
          if (firstHeader)
          {
             theHeader = l;
+            obsSet.insert(l.obsTypeList.begin(), l.obsTypeList.end());
             firstHeader = false;
          }
          else
@@ -183,6 +184,7 @@ namespace gpstk
             copy(commentSet.begin(), commentSet.end(),
                  inserter(theHeader.commentList,
                           theHeader.commentList.begin()));
+            theHeader.valid |= (l.valid & RinexMetHeader::validComment);
 
                // find the set intersection of the obs types
             copy(theHeader.obsTypeList.begin(),
-- 
2.43.0


From cd2882d25d6dbddd3255fc783fdba29f19a27b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 182/216] fix: WxObsData::getMostRecent returned the last but
 one observation for times after the last

---
 core/lib/GNSSCore/WxObsMap.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 0ec9597..44bf9e2 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -57,8 +57,6 @@ namespace gpstk
          return WxObservation();
      
       WxObsMap::const_iterator i = obs.upper_bound(t);
-      if (i== obs.end())
-         i--;
       if (i != obs.begin())
          i--;
       return  i->second;
-- 
2.43.0


From 1d88a09cadeca579e4ba3556b7194575b474b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 183/216] fix: WxObsData::flush of all observations read past
 the end, and left the last time

---
 core/lib/GNSSCore/WxObsMap.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 44bf9e2..479fa7c 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -90,11 +90,19 @@ namespace gpstk
          {
             obs.erase(i);
             i = obs.begin();
-            firstTime = i->second.t;
          }
          else
             break;
       }
+      if (obs.empty())
+      {
+         firstTime = CommonTime::END_OF_TIME;
+         lastTime = CommonTime::BEGINNING_OF_TIME;
+      }
+      else
+      {
+         firstTime = obs.begin()->second.t;
+      }
    }
 
    WxObservation WxObsData::getWxObservation(const CommonTime& t,
-- 
2.43.0


From 450cce90f7063901955123af3215e663cb200b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 184/216] fix: MetReader took observations the file does not
 have for zeros observed

---
 ext/lib/Rxio/MetReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/lib/Rxio/MetReader.cpp b/ext/lib/Rxio/MetReader.cpp
index 15480cd..3eaffa9 100644
--- a/ext/lib/Rxio/MetReader.cpp
+++ b/ext/lib/Rxio/MetReader.cpp
@@ -63,11 +63,17 @@ void MetReader::read(const std::string& fn)
    RinexMetData rmd;
    while (rms >> rmd)
    {
+      const bool hasTD = rmd.data.count(RinexMetHeader::TD) > 0;
+      const bool hasPR = rmd.data.count(RinexMetHeader::PR) > 0;
+      const bool hasHR = rmd.data.count(RinexMetHeader::HR) > 0;
       WxObservation wob(
          rmd.time,
          rmd.data[RinexMetHeader::TD],
          rmd.data[RinexMetHeader::PR],
          rmd.data[RinexMetHeader::HR]);
+      if (!hasTD) wob.temperatureSource = WxObservation::noWx;
+      if (!hasPR) wob.pressureSource = WxObservation::noWx;
+      if (!hasHR) wob.humiditySource = WxObservation::noWx;
       wx.insertObservation(wob);
    }
 } // end of read()
-- 
2.43.0


From b515f652729cce5e0cd3f7e9643c8e547fa32671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 185/216] fix: reading RINEX met files took the end of a file
 with more than 8 types for an error, and a file ending within a record for
 its end

---
 core/lib/FileHandling/RINEX/RinexMetData.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexMetData.cpp b/core/lib/FileHandling/RINEX/RinexMetData.cpp
index a98316a..7341e2e 100644
--- a/core/lib/FileHandling/RINEX/RinexMetData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexMetData.cpp
@@ -120,12 +120,8 @@ namespace gpstk
       string line;
       data.clear();
 
-         // this is to see whether or not we expect an EOF
-         // when we read this next line
-      if ((int)hdr.obsTypeList.size() > maxObsPerLine)
-         strm.formattedGetLine(line); 
-      else
-         strm.formattedGetLine(line, true);
+         // the file may end before a record, not within it
+      strm.formattedGetLine(line, true);
 
       processFirstLine(line, hdr, hdr.version);
 
@@ -133,10 +129,7 @@ namespace gpstk
 
       while (data.size() < hdr.obsTypeList.size())
       {
-         if ((int)(hdr.obsTypeList.size() - data.size()) < maxObsPerContinuationLine)
-            strm.formattedGetLine(line, true);
-         else
-            strm.formattedGetLine(line);
+         strm.formattedGetLine(line);
          processContinuationLine(line, hdr);
       }
 
-- 
2.43.0


From 147bdb74b4ce2fb1221e9aa7bb7611d793b23dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 186/216] fix: IonexHeader kept the auxiliary data of the
 header read before

---
 ext/lib/FileHandling/Ionex/IonexHeader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ext/lib/FileHandling/Ionex/IonexHeader.cpp b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
index ed19a9f..0f194fa 100644
--- a/ext/lib/FileHandling/Ionex/IonexHeader.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
@@ -99,6 +99,7 @@ namespace gpstk
       lon[0] = lon[1] = lon[2] = 0.0;
 
       exponent = -1;    // that's the default value
+      auxData.clear();
       svsmap.clear();
       valid = auxDataFlag = false;
 
-- 
2.43.0


From c48dc584ba360503fa07a58cb4a2d9094fa5ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 187/216] fix: IONEX grids whose steps are not exact in binary
 were refused or lost their last line

---
 ext/lib/FileHandling/Ionex/IonexHeader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexHeader.cpp b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
index 0f194fa..e18984d 100644
--- a/ext/lib/FileHandling/Ionex/IonexHeader.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
@@ -398,7 +398,8 @@ namespace gpstk
       // Number of points of a grid definition (0 if it makes no sense)
    int IonexHeader::gridSize(const double grid[3])
    {
-      const double n( (grid[1] - grid[0]) / grid[2] + 1.0 );
+         // (rounded, as the quotient may be slightly less than an integer)
+      const double n( std::floor((grid[1] - grid[0]) / grid[2] + 1.5) );
       return ( (n >= 1.0) && (n <= 100000.0) ) ? static_cast<int>(n) : 0;
    }
 
@@ -537,7 +538,7 @@ namespace gpstk
       for (int i = 0; i < 4; i++)
       {
          //const double xdif1( grdfac[i] - static_cast<int>(grdfac[i]) );
-         const double xdif( ABS(grdfac[i] - std::trunc(grdfac[i])) );
+         const double xdif( ABS(grdfac[i] - std::floor(grdfac[i] + 0.5)) );
 
             // (not 'xdif > 1e-4', which is false for a grid of zero step)
          if ( !(xdif <= 1e-4) )
-- 
2.43.0


From ce3573e3ab12eeac6436f2f04d7587d76bc4e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 188/216] fix: IONEX files of maps at varying intervals, which
 have an interval of 0, were refused

---
 ext/lib/FileHandling/Ionex/IonexHeader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexHeader.cpp b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
index e18984d..734a806 100644
--- a/ext/lib/FileHandling/Ionex/IonexHeader.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
@@ -492,7 +492,8 @@ namespace gpstk
          // time arguments consistency
       double interval0( (numMaps > 1) ?
                         (lastEpoch - firstEpoch) / (numMaps -1.0) : interval );
-      if (interval != std::floor(interval0))
+         // (an interval of 0 says that it may vary)
+      if (interval != 0 && interval != std::floor(interval0))
       {
          FFStreamError e("Inconsistent time arguments.");
          GPSTK_THROW(e);
-- 
2.43.0


From 1dacd2e390849009c44b48998d8c5ff366dc873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 189/216] fix: only the lowest height of three-dimensional
 IONEX maps was written

---
 ext/lib/FileHandling/Ionex/IonexData.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexData.cpp b/ext/lib/FileHandling/Ionex/IonexData.cpp
index 46a078d..09def1a 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.cpp
@@ -125,8 +125,12 @@ namespace gpstk
          // write TEC/RMS data sequence
       int nlat(dim[0]), nlon(dim[1]);
 
-      for (int ilat = 0; ilat < nlat; ilat++)
+         // the latitudes of all heights, one after the other
+      for (int iblock = 0; iblock < nlat*dim[2]; iblock++)
       {
+         const int ilat(iblock % nlat);
+         const double currHgt = hgt[0] + (iblock / nlat)*hgt[2];
+
             // write record initializing a new TEC/RMS 
             // data block for latitude 'currLat'
          double currLat = lat[0] + ilat*lat[2];
@@ -137,7 +141,7 @@ namespace gpstk
          line += rightJustify( asString(lon[0],1), 6 );
          line += rightJustify( asString(lon[1],1), 6 );
          line += rightJustify( asString(lon[2],1), 6 );
-         line += rightJustify( asString(hgt[0],1), 6 );
+         line += rightJustify( asString(currHgt,1), 6 );
          line += string(28, ' ');
          line += leftJustify(dataBlockString,20);
          strm << line << endl;
@@ -148,7 +152,7 @@ namespace gpstk
          line.clear();
          for (int ilon = 0; ilon < nlon; ilon++)
          {
-            int index = ilat*dim[1]+ilon;
+            int index = iblock*dim[1]+ilon;
 
             double val = (data[index] != 999.9) ?
                          std::pow(10.0,-exponent)*data[index] : 9999.0;
@@ -174,7 +178,7 @@ namespace gpstk
 
          }  // End of 'for (int ilon = 0; ilon < nlon; ilon++)'
 
-      }  // End of 'for (int ilat = 0; ilat < nlat; ilat++)'
+      }  // End of 'for (int iblock = 0; iblock < nlat*dim[2]; iblock++)'
 
 
          // write closing TEC/RMS map
-- 
2.43.0


From 3c07d171d9bbb265c4dbaa5192a6856d3be80235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 190/216] fix: values of IONEX maps could not be had at the
 last latitude and for longitudes a turn away from the grid

---
 ext/lib/FileHandling/Ionex/IonexData.cpp | 52 ++++++++++++++++--------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexData.cpp b/ext/lib/FileHandling/Ionex/IonexData.cpp
index 09def1a..41b9a41 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.cpp
@@ -487,8 +487,9 @@ namespace gpstk
          // latitude
       xlat = (in[0] - lat[0]) / lat[2] + 1.0;
 
-      ilat = (igp == 1) ?
-             static_cast<int>(xlat+0.5) : static_cast<int>(xlat);
+         // (points on a line of the grid may be slightly less than it)
+      const double eps(1e-9);
+      ilat = static_cast<int>( std::floor( xlat + ((igp == 1) ? 0.5 : eps) ) );
 
       if (ilat >= 1 && ilat <= nlat)
       {
@@ -510,23 +511,25 @@ namespace gpstk
          // longitude
       xlon = (in[1] - lon[0]) / lon[2] + 1.0;
 
-      ilon = (igp == 1) ?
-             static_cast<int>(xlon + 0.5) : static_cast<int>(xlon);
+      ilon = static_cast<int>( std::floor( xlon + ((igp == 1) ? 0.5 : eps) ) );
 
          // Round to neareast integer
       ncyc = static_cast<int>( ( 360.0 / std::abs(lon[2]) ) + 0.5 );
 
 
-      if (ilon < 1)
+         // add or subtract whole turns
+      if (ilon < 1 || ilon > nlon)
       {
 
-         ilon = ilon + ncyc;
+         const double turn( 360.0 / std::abs(lon[2]) );
+         xlon -= turn * std::floor( (xlon - 1.0)/turn + eps );
+         ilon = static_cast<int>( std::floor( xlon + ((igp == 1) ? 0.5 : eps) ) );
 
-      }
-      else if (ilon > nlon)
-      {
-
-         ilon = ilon - ncyc;
+            // the first meridian is next to the last one
+         if (ilon == ncyc + 1 && std::abs(turn - ncyc) < eps)
+         {
+            ilon = 1;
+         }
 
       }
 
@@ -559,8 +562,8 @@ namespace gpstk
 
          xhgt = (in[2]/1000.0 - hgt[0]) / hgt[2] + 1.0;
 
-         ihgt = (igp == 1) ?
-                static_cast<int>(xhgt + 0.5) : static_cast<int>(xhgt);
+         ihgt = static_cast<int>( std::floor( xhgt +
+                                              ((igp == 1) ? 0.5 : eps) ) );
 
          if ( (ihgt >= 1) && (ihgt <= nhgt) )
          {
@@ -647,6 +650,20 @@ namespace gpstk
       double xp( (inarg[1] - ABC[0][1]) / lon[2] );
       double xq( (inarg[0] - ABC[0][0]) / lat[2] );
 
+         // getIndex() may have found the longitude some turns away
+      const double turn( 360.0 / std::abs(lon[2]) );
+      xp -= turn * std::floor( xp/turn + 1e-9 );
+
+         // on a line of the grid, up to rounding
+      if ( std::abs(xp) < 1e-9 )
+      {
+         xp = 0.0;
+      }
+      if ( std::abs(xq) < 1e-9 )
+      {
+         xq = 0.0;
+      }
+
          // this never should happen but just in case
       if ( (xp < 0) || (xp > 1) || (xq < 0) || (xq > 1) )
       {
@@ -655,17 +672,20 @@ namespace gpstk
 
       }
 
+         // points of weight zero need not exist, which matters at the edges
+
          // get E10's position index
       inarg = Triple( ABC[0][0], ABC[0][1]+lon[2], ABC[0][2] );
-      e[1] = getIndex( inarg, 1, ABC[1] );
+      e[1] = (xp == 0.0) ? e[0] : getIndex( inarg, 1, ABC[1] );
 
          // get E01's position index
       inarg = Triple( ABC[0][0]+lat[2], ABC[0][1], ABC[0][2] );
-      e[2] = getIndex( inarg, 1, ABC[2] );
+      e[2] = (xq == 0.0) ? e[0] : getIndex( inarg, 1, ABC[2] );
 
          // get E11's position index
       inarg = Triple( ABC[0][0]+lat[2], ABC[0][1]+lon[2], ABC[0][2] );
-      e[3] = getIndex( inarg, 1, ABC[3] );
+      e[3] = (xq == 0.0) ? e[1] : (xp == 0.0) ? e[2] :
+             getIndex( inarg, 1, ABC[3] );
 
          // let's fetch the values
       double pntval[4];
-- 
2.43.0


From 4dca71a7f59f11cb002b307270f0ea5c08c8067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 191/216] fix: an IonexStore of maps added in descending order,
 or of one map, had no final time

---
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index ca57ff2..46bcc98 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -131,7 +131,8 @@ namespace gpstk
       {
          initialTime = t;
       }
-      else if (t > finalTime)
+
+      if (t > finalTime)
       {
          finalTime = t;
       }
-- 
2.43.0


From c1d09c5b32e7e20cb0dcb5e6594c41224eb1b9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 192/216] fix: IonexStore::getIonexValue at the time of the
 last map used what is after the end of the maps

---
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 24 ++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index 46bcc98..a2ed2cb 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -336,7 +336,15 @@ namespace gpstk
             itm = inxMaps.lower_bound(t);
                // store current and next epoch
             T[0] = itm->first;
-            T[1] = (++itm)->first;
+               // (there is no next epoch after the last one)
+            if ( ++itm != inxMaps.end() )
+            {
+               T[1] = itm->first;
+            }
+            else
+            {
+               T[1] = T[0];
+            }
 
          }
          else                                   // t is between two maps
@@ -360,8 +368,18 @@ namespace gpstk
 
          // factors (As in Eq.(3), pag.2 of the manual)
       double f[2];
-      f[0] = (T[1]-t   ) / (T[1]-T[0]);
-      f[1] = (t   -T[0]) / (T[1]-T[0]);
+      if ( T[1] == T[0] )
+      {
+            // the last map is all there is
+         f[0] = 1.0;
+         f[1] = 0.0;
+         nmap = 1;
+      }
+      else
+      {
+         f[0] = (T[1]-t   ) / (T[1]-T[0]);
+         f[1] = (t   -T[0]) / (T[1]-T[0]);
+      }
 
          // if only one map, then we have to use the neareast
       if( nmap == 1 )
-- 
2.43.0


From 1335f070d91083eb879e15582983dac461b7b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 193/216] fix: IonexStore::clear() left the code biases and the
 names of the files, which could not be loaded again

---
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index a2ed2cb..4a99405 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -245,6 +245,8 @@ namespace gpstk
    {
 
       inxMaps.clear();
+      inxDCBMap.clear();
+      FileStore<IonexHeader>::clear();
 
       initialTime = CommonTime::END_OF_TIME;
       finalTime = CommonTime::BEGINNING_OF_TIME;
-- 
2.43.0


From 6c112be66dec816eded74895362dc4072af59ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 194/216] fix: IonexStore::findDCB returned 0 instead of
 throwing after the day of the last file

---
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index 4a99405..ab69272 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -713,8 +713,10 @@ namespace gpstk
       }  // End of 'while ( itm != inxDCBMap.end() )'
 
 
-         // You should never get here, but just in case
-      return 0.0;
+         // the time is after the last day there are values for
+      InvalidRequest e( "Inadequate data before requested time: " +
+                        time.asString() );
+      GPSTK_THROW(e);
 
    }  // End of method 'IonexStore::findDCB()'
 
-- 
2.43.0


From 73338c12a9c612b44bedc08a8577a5687a3c72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 195/216] fix: the texts of SVNumXRef's exceptions overflowed
 their buffers for large numbers

---
 core/lib/GNSSCore/SVNumXRef.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/lib/GNSSCore/SVNumXRef.cpp b/core/lib/GNSSCore/SVNumXRef.cpp
index 0524bef..f542585 100644
--- a/core/lib/GNSSCore/SVNumXRef.cpp
+++ b/core/lib/GNSSCore/SVNumXRef.cpp
@@ -572,10 +572,10 @@ int SVNumXRef::getNAVSTAR( const int PRNID, const gpstk::CommonTime dt ) const
    
       // We didn't find a NAVSTAR # for this PRN ID and date, so throw an 
       // exception.
-   char textOut[80];
-   sprintf(textOut,"No NAVSTAR # found associated with PRN ID %d at requested date: %s.", 
-            PRNID,printTime(dt,"%02m/%02d/%04Y").c_str() ); 
-   std::string sout = textOut;
+   std::ostringstream textOut;
+   textOut << "No NAVSTAR # found associated with PRN ID " << PRNID
+           << " at requested date: " << printTime(dt,"%02m/%02d/%04Y") << ".";
+   std::string sout = textOut.str();
    NoNAVSTARNumberFound noFound( sout );
    GPSTK_THROW(noFound); 
    return 0;
@@ -604,10 +604,10 @@ SVNumXRef::BlockType SVNumXRef::getBlockType( const int NAVSTARID ) const
    
       // We didn't find a BlockType for this NAVSTAR #, so throw an 
       // exception.
-   char textOut[80];
-   sprintf(textOut,"No BlockType found associated with NAVSTAR Num %d.", 
-            NAVSTARID);
-   std::string sout = textOut;
+   std::ostringstream textOut;
+   textOut << "No BlockType found associated with NAVSTAR Num " << NAVSTARID
+           << ".";
+   std::string sout = textOut.str();
    NoNAVSTARNumberFound noFound( sout );
    GPSTK_THROW(noFound); 
    return SVNumXRef::BlockType();
@@ -644,10 +644,10 @@ int SVNumXRef::getPRNID( const int NAVSTARID, const gpstk::CommonTime dt ) const
 
       // We didn't find a PRN ID for this NAVSTAR # and date, so throw an 
       // exception.
-   char textOut[80];
-   sprintf(textOut,"No PRN ID found associated with NAVSTAR Num %d at requested date: %s.", 
-            NAVSTARID,printTime(dt,"%02m/%02d/%04Y").c_str() ); 
-   std::string sout = textOut;
+   std::ostringstream textOut;
+   textOut << "No PRN ID found associated with NAVSTAR Num " << NAVSTARID
+           << " at requested date: " << printTime(dt,"%02m/%02d/%04Y") << ".";
+   std::string sout = textOut.str();
    NoNAVSTARNumberFound noFound( sout );
    GPSTK_THROW(noFound);
    return 0;
-- 
2.43.0


From 8beede7cfe60de20b6608e76765c006574f3bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 196/216] fix: SatMetaDataStore kept half a launch record if
 its time is invalid

---
 core/lib/GNSSCore/SatMetaDataStore.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/SatMetaDataStore.cpp b/core/lib/GNSSCore/SatMetaDataStore.cpp
index aa51664..f3b3789 100644
--- a/core/lib/GNSSCore/SatMetaDataStore.cpp
+++ b/core/lib/GNSSCore/SatMetaDataStore.cpp
@@ -369,21 +369,24 @@ namespace gpstk
          cerr << "Duplicate LAUNCH " << svn << " on line " << lineNo << endl;
          return false;
       }
-      launchMap[svn].svn = svn;
+      LaunchConfig launch;
+      launch.svn = svn;
       unsigned y = StringUtils::asUnsigned(vals[i++]);
       unsigned doy = StringUtils::asUnsigned(vals[i++]);
       double sod = StringUtils::asDouble(vals[i++]);
       try
       {
-         launchMap[svn].launchTime = YDSTime(y,doy,sod,gpstk::TimeSystem::Any);
+         launch.launchTime = YDSTime(y,doy,sod,gpstk::TimeSystem::Any);
       }
       catch (gpstk::Exception& exc)
       {
          exc.addText("Processing launchTime");
          GPSTK_RETHROW(exc);
       }
-      launchMap[svn].type = vals[i++];
-      launchMap[svn].mission = vals[i++];
+      launch.type = vals[i++];
+      launch.mission = vals[i++];
+         // only complete records are kept
+      launchMap[svn] = launch;
       return true;
    }
 
-- 
2.43.0


From 6c3958855953d7f9d0937b0c2d5b2177d27e2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 197/216] fix: errorFunc and compErrorFunc refused negative
 arguments

---
 ext/lib/Geomatics/SpecialFuncs.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ext/lib/Geomatics/SpecialFuncs.cpp b/ext/lib/Geomatics/SpecialFuncs.cpp
index 5638624..efa71a1 100644
--- a/ext/lib/Geomatics/SpecialFuncs.cpp
+++ b/ext/lib/Geomatics/SpecialFuncs.cpp
@@ -287,7 +287,6 @@ double compIncompGamma(const double& a, const double& x)
 // return          erf(x)
 double errorFunc(const double& x)
 {
-   if(x < 0) GPSTK_THROW(Exception("Negative first argument"));
    try {
       return (x < 0.0 ? -incompGamma(0.5,x*x) : incompGamma(0.5,x*x));
    }
@@ -299,7 +298,6 @@ double errorFunc(const double& x)
 // return          erfc(x)
 double compErrorFunc(const double& x)
 {
-   if(x < 0) GPSTK_THROW(Exception("Negative first argument"));
    try {
       return (x < 0.0 ? 1.0+incompGamma(0.5,x*x) : compIncompGamma(0.5,x*x));
    }
-- 
2.43.0


From c7e67d59a1b0cea3be77ca317b7c8b232cf80c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 198/216] fix: invNormalCDF and invStudentsCDF gave 0 for
 probabilities near zero

---
 ext/lib/Geomatics/SpecialFuncs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SpecialFuncs.cpp b/ext/lib/Geomatics/SpecialFuncs.cpp
index efa71a1..62126b3 100644
--- a/ext/lib/Geomatics/SpecialFuncs.cpp
+++ b/ext/lib/Geomatics/SpecialFuncs.cpp
@@ -444,7 +444,7 @@ double invNormalCDF(double prob, const double& mu, const double& sig)
       static const double eps(1000000*std::numeric_limits<double>().epsilon());
 
       if(prob < eps)
-         return 0.0;
+         GPSTK_THROW(Exception("Invalid probability -- too close to 0.0"));
       if(1.0-prob < eps)
          GPSTK_THROW(Exception("Invalid probability -- too close to 1.0"));
 
@@ -674,7 +674,7 @@ double invStudentsCDF(double prob, int n)
 
       static const double eps(1000000*std::numeric_limits<double>().epsilon());
       if(prob < eps)
-         return 0.0;
+         GPSTK_THROW(Exception("Invalid probability -- too close to 0.0"));
       if(1.0-prob < eps)
          GPSTK_THROW(Exception("Invalid probability -- too close to 1.0"));
 
-- 
2.43.0


From 6271c48ca0fb3074715e0ddde165dc5ff575618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 199/216] fix: ChisqPDF and FDistPDF overflowed to NaN for many
 degrees of freedom

---
 ext/lib/Geomatics/SpecialFuncs.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ext/lib/Geomatics/SpecialFuncs.cpp b/ext/lib/Geomatics/SpecialFuncs.cpp
index 62126b3..693753e 100644
--- a/ext/lib/Geomatics/SpecialFuncs.cpp
+++ b/ext/lib/Geomatics/SpecialFuncs.cpp
@@ -523,7 +523,10 @@ double ChisqPDF(const double& x, const int& n)
 
    try {
       double dn(double(n)/2.0);
-      return ( ::exp(-x/2.0) * ::pow(x,dn-1.0) / (::pow(2.0,dn) * Gamma(dn)) );
+         // the terms overflow separately if n is large, so sum their logs
+      double lnc(-x/2.0 - dn * ::log(2.0) - lnGamma(dn));
+      if(n != 2) lnc += (dn-1.0) * ::log(x);
+      return ::exp(lnc);
    }
    catch(Exception& e) { GPSTK_RETHROW(e); }
 }
@@ -773,10 +776,12 @@ double FDistPDF(double x, int n1, int n2)
 {
    try {
       double dn1(n1),dn2(n2);
-      double F = Gamma((dn1+dn2)/2.0) / (Gamma(dn1/2.0)*Gamma(dn2/2.0));
-      F *= ::pow(dn1/dn2,dn1/2.0) * ::pow(x,dn1/2.0 - 1.0);
-      F /= ::pow(1.0+x*dn1/dn2,(dn1+dn2)/2.0);
-      return F;
+         // the terms overflow separately if n1 or n2 is large, so sum their logs
+      double F = lnGamma((dn1+dn2)/2.0) - lnGamma(dn1/2.0) - lnGamma(dn2/2.0);
+      F += dn1/2.0 * ::log(dn1/dn2);
+      F -= (dn1+dn2)/2.0 * ::log(1.0+x*dn1/dn2);
+      if(n1 != 2) F += (dn1/2.0 - 1.0) * ::log(x);
+      return ::exp(F);
    }
    catch(Exception& e) { GPSTK_RETHROW(e); }
 }
-- 
2.43.0


From 78531471ecd04479047e8219a1a4ddf416f44bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 200/216] fix: erf was five times too small for tiny arguments

---
 ext/lib/Math/SpecialFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Math/SpecialFunctions.cpp b/ext/lib/Math/SpecialFunctions.cpp
index 9f8a1a0..3c3fa16 100644
--- a/ext/lib/Math/SpecialFunctions.cpp
+++ b/ext/lib/Math/SpecialFunctions.cpp
@@ -502,7 +502,7 @@ namespace gpstk
             return ( 1.128379167095512586316e+0 * x );
          }
 
-         return ( x * ( 2.28379167095512586316e-01 ) );
+         return ( x * ( 1.128379167095512586316e+0 ) );
       }
 
       double z( x*x );
-- 
2.43.0


From 16699f6430aa8f0d2f5bb4ddbe5eb0adee084221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 201/216] fix: gamma overflowed for arguments above 143

---
 ext/lib/Math/SpecialFunctions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Math/SpecialFunctions.cpp b/ext/lib/Math/SpecialFunctions.cpp
index 3c3fa16..7e16791 100644
--- a/ext/lib/Math/SpecialFunctions.cpp
+++ b/ext/lib/Math/SpecialFunctions.cpp
@@ -104,7 +104,10 @@ namespace gpstk
 
          double t (val + static_cast<double>(g) + 0.5);
 
-         return ( 2.5066282746310002 * pow( t, (val+0.5) ) * exp(-t) * x );
+            // The power alone overflows well before the result does
+         double p( pow( t, 0.5*(val+0.5) ) );
+
+         return ( 2.5066282746310002 * p * exp(-t) * p * x );
 
       }
 
-- 
2.43.0


From 149dec0d144afa3b8da09ea20753cc68b695efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:26 +0000
Subject: [PATCH 202/216] fix: incomplete gamma functions hung or were wrong
 for large arguments

---
 ext/lib/Math/SpecialFunctions.cpp | 68 ++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Math/SpecialFunctions.cpp b/ext/lib/Math/SpecialFunctions.cpp
index 7e16791..90b6175 100644
--- a/ext/lib/Math/SpecialFunctions.cpp
+++ b/ext/lib/Math/SpecialFunctions.cpp
@@ -215,6 +215,39 @@ namespace gpstk
 
 
 
+      // Auxiliar function: upper incomplete gamma function G(a,z) divided by
+      // z**a * exp(-z), from its continued fraction. Use when z > a+1.
+   static double upperFraction(const double a, const double z)
+   {
+
+      double eps(1.0e-15);    // Small threshold controling precision
+      double tiny(1.0e-300);
+
+      double b( z + 1.0 - a );
+      double c( 1.0/tiny );
+      double d( 1.0/b );
+      double h( d );
+      double delta( 0.0 );
+
+      for( int i = 1; (i < 10000) && (abs(delta-1.0) > eps); ++i )
+      {
+         double an( i*(a-i) );
+         b += 2.0;
+         d = an*d + b;
+         if( abs(d) < tiny ) d = tiny;
+         c = b + an/c;
+         if( abs(c) < tiny ) c = tiny;
+         d = 1.0/d;
+         delta = c*d;
+         h *= delta;
+      }
+
+      return h;
+
+   }  // End of function 'upperFraction()'
+
+
+
       // Lower incomplete gamma function.
    double lower_gamma(const double a, const double z)
    {
@@ -222,9 +255,15 @@ namespace gpstk
       double zp( abs(z) );    // We only allow positive values of 'z'
       double ap( abs(a) );    // We only allow positive values of 'a'
 
+         // The series is slow, and its terms overflow, for large values of z
+      if( zp > ap + 1.0 )
+      {
+         return ( gamma(ap) - exp(log(zp)*ap - zp) * upperFraction(ap, zp) );
+      }
+
       double s( kummerFunc(ap, zp) );
 
-      return exp(log(zp)*ap) * exp(-zp) * s / ap;
+      return exp(log(zp)*ap - zp) * s / ap;
 
    }  // End of function 'lower_gamma()'
 
@@ -234,6 +273,14 @@ namespace gpstk
    double upper_gamma(const double a, const double z)
    {
 
+      double zp( abs(z) );    // We only allow positive values of 'z'
+      double ap( abs(a) );    // We only allow positive values of 'a'
+
+      if( zp > ap + 1.0 )
+      {
+         return ( exp(log(zp)*ap - zp) * upperFraction(ap, zp) );
+      }
+
       return ( gamma(a) - lower_gamma(a, z) );
 
    }  // End of function 'upper_gamma()'
@@ -243,7 +290,16 @@ namespace gpstk
       // Lower incomplete regularized gamma function P(a,z).
    double gammaP(const double a, const double z)
    {
-      return ( lower_gamma(a,z) / gamma(a) );
+      double zp( abs(z) );    // We only allow positive values of 'z'
+      double ap( abs(a) );    // We only allow positive values of 'a'
+
+      if( zp > ap + 1.0 )
+      {
+         return ( 1.0 - gammaQ(a,z) );
+      }
+
+         // Use logarithms: both lower_gamma() and gamma() may overflow
+      return ( exp(log(zp)*ap - zp - lngamma(ap)) * kummerFunc(ap, zp) / ap );
    }
 
 
@@ -251,6 +307,14 @@ namespace gpstk
       // Upper incomplete regularized gamma function Q(a,z).
    double gammaQ(const double a, const double z)
    {
+      double zp( abs(z) );    // We only allow positive values of 'z'
+      double ap( abs(a) );    // We only allow positive values of 'a'
+
+      if( zp > ap + 1.0 )
+      {
+         return ( exp(log(zp)*ap - zp - lngamma(ap)) * upperFraction(ap, zp) );
+      }
+
       return ( 1.0 - gammaP(a,z) );
    }
 
-- 
2.43.0


From b82812ddca640c4a5e18bac43ec9c98960e5d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:26 +0000
Subject: [PATCH 203/216] fix: regIncompleteBeta overflowed to NaN for
 parameters above 140

---
 ext/lib/Math/SpecialFunctions.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ext/lib/Math/SpecialFunctions.cpp b/ext/lib/Math/SpecialFunctions.cpp
index 90b6175..839b0a2 100644
--- a/ext/lib/Math/SpecialFunctions.cpp
+++ b/ext/lib/Math/SpecialFunctions.cpp
@@ -1205,11 +1205,10 @@ within the interval [0,1]." );
          w = incompletebetafe2(xx, aa, bb) / xc;
       }
 
-      t = std::pow(xc, bb);
-      t = t * std::pow(xx, aa);
-      t = t/aa;
-      t = t*w;
-      t = t * ( gamma(aa+bb) / ( gamma(aa) * gamma(bb) ) );
+         // Use logarithms: the factors may overflow or underflow on their own
+      t = bb * std::log(xc) + aa * std::log(xx)
+          + lngamma(aa+bb) - lngamma(aa) - lngamma(bb);
+      t = std::exp(t) * w / aa;
 
       if( flag==1 )
       {
-- 
2.43.0


From 2010dad3713df276ea39b81d1e24890d5f79a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 204/216] fix: SatPass::SSI() of two types looked up the type
 that is not there

---
 ext/lib/Geomatics/SatPass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index bcfb9d1..5674c0b 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -851,9 +851,9 @@ unsigned short SatPass::SSI(unsigned int i, string type1, string type2)
       GPSTK_THROW(e);
    }
    map<string, unsigned int>::const_iterator it;
-   if((it = indexForLabel.find(type1)) == indexForLabel.end())
+   if((it = indexForLabel.find(type1)) != indexForLabel.end())
       return spdvector[i].ssi[it->second];
-   else if((it = indexForLabel.find(type2)) == indexForLabel.end())
+   else if((it = indexForLabel.find(type2)) != indexForLabel.end())
       return spdvector[i].ssi[it->second];
    else {
       Exception e("Invalid obs types in SSI() " + type1 + " " + type2);
-- 
2.43.0


From ac823c69bb48c1ae4f4b9aaf4d87df760978e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 205/216] fix: SatPass::renameObstypes hung on absent types and
 erased while iterating

---
 ext/lib/Geomatics/SatPass.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.hpp b/ext/lib/Geomatics/SatPass.hpp
index 554cf5d..0be22b8 100644
--- a/ext/lib/Geomatics/SatPass.hpp
+++ b/ext/lib/Geomatics/SatPass.hpp
@@ -486,7 +486,10 @@ public:
       std::map<std::string, std::string>::const_iterator it = subst.begin();
       std::map<unsigned int,std::string>::iterator jt;
       while(it != subst.end()) {
-         if(indexForLabel.find(it->first) == indexForLabel.end()) continue;
+         if(indexForLabel.find(it->first) == indexForLabel.end()) {
+            ++it;
+            continue;
+         }
 
          i = indexForLabel[it->first];
          indexForLabel.insert(
@@ -494,11 +497,7 @@ public:
          indexForLabel.erase(it->first);
 
          for(jt=labelForIndex.begin(); jt!=labelForIndex.end(); ++jt) {
-            if(jt->second != it->first) continue;
-            i = jt->first;        
-            labelForIndex.erase(i);
-            labelForIndex.insert(
-               std::map<unsigned int,std::string>::value_type(i,it->second));
+            if(jt->second == it->first) jt->second = it->second;
          }
 
          ++it;
-- 
2.43.0


From 6cb3ccb0ab7d9d14f7b92501952049706a77eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 206/216] fix: SatPass::trimAfter kept the data at or after the
 given time

---
 ext/lib/Geomatics/SatPass.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index 5674c0b..6f65a36 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -224,22 +224,18 @@ try {
    if(ttag <= firstTime) return -1;
    if(ttag >= lastTime) return 1;
 
-   // find the count for this time limit
-   int count = countForTime(ttag);
-   //if(count == -1) return 1;            // 4/16/13
-   if(count < 0) return -1;
-
-   unsigned int i, j, n(0);                     // count for ngood
+   // find the first data at or after this time limit
+   unsigned int i, n(0);                        // count for ngood
    for(i=0; i<spdvector.size(); i++) {
-      if(spdvector[i].ndt >= static_cast<unsigned int>(count)) { j=i; break; }
+      if(time(i) - ttag > -1.e-8) break;
       if(spdvector[i].flag != SatPass::BAD) n++;
    }
-   if(j > -1) {
-      spdvector.resize(j+1);
-      lastTime = time(j);
-      ngood = n;
-   }
-   else return 1;                      // also should never happen ... handled above
+   if(i == spdvector.size()) return 1;
+   if(i == 0) return -1;
+
+   spdvector.resize(i);
+   lastTime = time(i-1);
+   ngood = n;
 
    return 0;
 }
-- 
2.43.0


From 27ea3ed7652b86b2a4c52ea6faf766056ac6d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 207/216] fix: SatPass::decimate changed the times of short
 passes and missed early references

---
 ext/lib/Geomatics/SatPass.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index 6f65a36..47657de 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -929,11 +929,11 @@ void SatPass::decimate(const int N, Epoch refTime)
 {
 try {
    if(N <= 1) return;
-   if(spdvector.size() < N) { dt = N*dt; return; }
+   if(spdvector.size() == 0) { dt = N*dt; return; }
    if(refTime == CommonTime::BEGINNING_OF_TIME) refTime = firstTime;
 
    // find new firstTime = time(nstart)
-   int i,j,nstart=int(0.5+(firstTime-refTime)/dt);
+   int i,j,nstart=int(std::floor(0.5+(firstTime-refTime)/dt));
    nstart = nstart % N;
    while(nstart < 0) nstart += N;
    if(nstart > 0) nstart = N-nstart;
@@ -960,7 +960,8 @@ try {
    }
 
    dt = N*dt;
-   firstTime = newfirstTime;
+   if(j > 0) firstTime = newfirstTime;
+   else lastTime = firstTime;
    spdvector.resize(j); // trim
 }
 catch(Exception& e) { GPSTK_RETHROW(e); }
-- 
2.43.0


From b8dd08833ddb17bfad0beb516d9eddc1198d0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 208/216] fix: SatPass::split needed data with the exact count
 of the split

---
 ext/lib/Geomatics/SatPass.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index 47657de..bedbb94 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -895,6 +895,11 @@ try {
    newSP.indexForLabel = indexForLabel;
    newSP.labelForIndex = labelForIndex;
 
+   // there must be data on both sides of the split
+   if(spdvector.size() == 0 || int(spdvector[0].ndt) >= N
+      || int(spdvector[spdvector.size()-1].ndt) < N)
+      return false;
+
    oldgood = ngood;
    ngood = ilast = 0;
    for(i=0; i<spdvector.size(); i++) {             // loop over all data
@@ -905,10 +910,11 @@ try {
          ilast = i;
       }
       else {                                          // copy out data into new SP
-         if(n == N) {
+         if(newSP.spdvector.size() == 0) {
             newSP.ngood = oldgood-ngood;
             newSP.firstTime = newSP.lastTime = tt;
          }
+         newSP.lastTime = tt;
          j = newSP.countForTime(tt);
          spdvector[i].ndt = j;
          spdvector[i].toffset = tt - newSP.firstTime - j*dt;
-- 
2.43.0


From 1034122df37c37ed17251558413f4d0d787b6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 209/216] fix: SatPass::clear left the number of good data

---
 ext/lib/Geomatics/SatPass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SatPass.hpp b/ext/lib/Geomatics/SatPass.hpp
index 0be22b8..ae4f3b7 100644
--- a/ext/lib/Geomatics/SatPass.hpp
+++ b/ext/lib/Geomatics/SatPass.hpp
@@ -455,7 +455,7 @@ public:
 
    // -------------------------------- utils ---------------------------------
    /// clear the data (but not the obs types) from the arrays
-   void clear(void) throw() { spdvector.clear(); }
+   void clear(void) throw() { spdvector.clear(); ngood = 0; }
 
    /// compute the timetag associated with index i in the data array
    /// @param  i   index of the data of interest
-- 
2.43.0


From c482ccbb2cc16d1e7b569a461f0f86b245a2c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 210/216] fix: SatPass::addData accepted unknown obs types and
 short lists

---
 ext/lib/Geomatics/SatPass.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index bedbb94..12b0080 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -157,6 +157,17 @@ int SatPass::addData(const Epoch tt,
       GPSTK_THROW(e);
    }
 
+   if(data.size() != obstypes.size() || data.size() != labelForIndex.size()) {
+      Exception e("Error - addData passed obs types different than constructor's");
+      GPSTK_THROW(e);
+   }
+   for(int k=0; k<obstypes.size(); k++) {
+      if(!hasType(obstypes[k])) {
+         Exception e("Invalid obs type in addData() " + obstypes[k]);
+         GPSTK_THROW(e);
+      }
+   }
+
    // create a new SatPassData
    SatPassData spd(data.size());
    spd.flag = flag;
-- 
2.43.0


From 7f5e23c65b3c5b6555a6305ee75d4eb1e1203cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 211/216] fix: SatPass::smooth and smoothSF gave smoothed
 ranges with the wrong bias

---
 ext/lib/Geomatics/SatPass.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index 12b0080..c2a20b9 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -474,7 +474,7 @@ try {
    bool first,useC1(hasType("C1")),useC2(hasType("C2"));
    int i;
    double RB,dLB0(0.0);
-   long LB,LB0;
+   long LB,LB0(0);
    Stats<double> PB;
 
    // get the biases B = L - P
@@ -511,6 +511,7 @@ try {
 
    RB = PB.Average()/wl;                           // real bias in cycles
    LB = LB0 + long(RB + (RB > 0 ? 0.5 : -0.5));    // integer bias (cycles)
+   RB += dLB0;                                     // include what was removed
 
    oss.str("");
    oss << "SMT" << fixed << setprecision(2)
@@ -543,11 +544,11 @@ try {
          // compute the debiased phase, with real bias
          if(freq==1) {
             spdvector[i].data[indexForLabel[(useC1 ? "C1" : "P1")]]
-                        = spdvector[i].data[indexForLabel["L1"]] - RB;
+                        = wl * (spdvector[i].data[indexForLabel["L1"]] - RB);
          }
          else if(freq==2) {
             spdvector[i].data[indexForLabel[(useC2 ? "C2" : "P2")]]
-                        = spdvector[i].data[indexForLabel["L2"]] - RB;
+                        = wl * (spdvector[i].data[indexForLabel["L2"]] - RB);
          }
       }
 
@@ -598,8 +599,8 @@ try {
 
    bool first;
    int i;
-   double RB1,RB2,dbL1,dbL2,dLB10(0.0),dLB20(0.0);
-   long LB1,LB2,LB10,LB20;
+   double RB1,RB2,dbL1(0.0),dbL2(0.0),dLB10(0.0),dLB20(0.0);
+   long LB1,LB2,LB10(0),LB20(0);
    Stats<double> PB1,PB2;
 
    // get the biases B = L - DP
@@ -651,6 +652,9 @@ try {
    // integer biases (cycles)
    LB1 = LB10 + long(RB1 + (RB1 > 0 ? 0.5 : -0.5));
    LB2 = LB20 + long(RB2 + (RB2 > 0 ? 0.5 : -0.5));
+   // include what was removed
+   RB1 += dLB10;
+   RB2 += dLB20;
 
    oss.str("");
    oss << "SMT" << fixed << setprecision(2)
-- 
2.43.0


From 438ed4f91ff59d7daad5b42ea20cab02548751ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 212/216] fix: SatPass::getGLOchannel used P2 even when there
 is only C2

---
 ext/lib/Geomatics/SatPass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index c2a20b9..b68a170 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -277,6 +277,7 @@ try {
       GPSTK_THROW(e);
    }
    if(indexForLabel.find("P1") == indexForLabel.end()) useC1=true;
+   bool useC2(indexForLabel.find("P2") == indexForLabel.end());
 
    // transformation matrix
    // PB = D * L - P   pure biases = constants for continuous phase
@@ -320,7 +321,7 @@ try {
          if(!(spdvector[i].flag & OK)) continue;         // skip bad data
 
          double P1 = spdvector[i].data[indexForLabel[(useC1 ? "C1" : "P1")]];
-         double P2 = spdvector[i].data[indexForLabel["P2"]];
+         double P2 = spdvector[i].data[indexForLabel[(useC2 ? "C2" : "P2")]];
          double L1 = spdvector[i].data[indexForLabel["L1"]];
          double L2 = spdvector[i].data[indexForLabel["L2"]];
          double RB1 = wl1*L1 - D11*P1 - D12*P2;
-- 
2.43.0


From cbb53f678a0baa4b731b789b3d120ec7977f28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 213/216] fix: SatPass::getFirstTime and getLastTime terminated
 on empty passes

---
 ext/lib/Geomatics/SatPass.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index b68a170..ca79a2c 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -816,10 +816,18 @@ unsigned int SatPass::getCount(unsigned int i) const
 }
 
 // @return the earliest time (full, including toffset) in this SatPass data
-Epoch SatPass::getFirstTime(void) const throw() { return time(0); }
+Epoch SatPass::getFirstTime(void) const throw() 
+{
+   if(spdvector.size() == 0) return CommonTime::END_OF_TIME;
+   return time(0);
+}
 
 // @return the latest time (full, including toffset) in this SatPass data
-Epoch SatPass::getLastTime(void) const throw() { return time(spdvector.size()-1); }
+Epoch SatPass::getLastTime(void) const throw() 
+{
+   if(spdvector.size() == 0) return CommonTime::BEGINNING_OF_TIME;
+   return time(spdvector.size()-1);
+}
 
 // these allow you to get e.g. P1 or C1. NB return double not double& as above: rvalue
 double SatPass::data(unsigned int i, string type1, string type2) const
-- 
2.43.0


From c2b03d7d6873b550c85f49f88eb6de3d1c038123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 214/216] fix: SatPass::index gave 0 for times up to 1.5
 intervals before the pass

---
 ext/lib/Geomatics/SatPass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SatPass.hpp b/ext/lib/Geomatics/SatPass.hpp
index ae4f3b7..dcfc9e1 100644
--- a/ext/lib/Geomatics/SatPass.hpp
+++ b/ext/lib/Geomatics/SatPass.hpp
@@ -722,7 +722,7 @@ protected:
    /// @throw Exception
    int countForTime(const Epoch& tt) const
    {
-      return int((tt-firstTime)/dt + 0.5);
+      return int(std::floor((tt-firstTime)/dt + 0.5));
    }
 
 }; // end class SatPass
-- 
2.43.0


From 2e198b36485666e0fa1e080b957950f3991ee5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 215/216] fix: SatPassIterator missed or ran past data at the
 end of overlapping or empty passes

---
 ext/lib/Geomatics/SatPassIterator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SatPassIterator.cpp b/ext/lib/Geomatics/SatPassIterator.cpp
index f574978..0b03278 100644
--- a/ext/lib/Geomatics/SatPassIterator.cpp
+++ b/ext/lib/Geomatics/SatPassIterator.cpp
@@ -115,11 +115,15 @@ void SatPassIterator::reset(bool rev, bool dbug) throw()
       for(;;) {
          // ignore passes with negative Status
          if(SPList[i].Status < 0) break;
+         // ... and passes without data
+         if(SPList[i].size() == 0) break;
 
          // define latest epoch when time reversed
-         if(timeReverse && currentN == 0)
-            currentN = int((SPList[i].firstTime - FirstTime)/DT + 0.5)
+         if(timeReverse) {
+            int lastN = int((SPList[i].firstTime - FirstTime)/DT + 0.5)
                                  + SPList[i].spdvector[SPList[i].size()-1].ndt;
+            if(lastN > currentN) currentN = lastN;
+         }
 
          // (re)build the maps
          if(listIndex.find(SPList[i].sat) == listIndex.end()) {
@@ -223,6 +227,8 @@ int SatPassIterator::next(map<unsigned int, unsigned int>& indexMap)
                   for(;;) {
                      if(SPList[k].Status < 0)      // bad pass
                         break;
+                     if(SPList[k].size() == 0)     // no data
+                        break;
                      if(SPList[k].sat != sat)      // wrong sat
                         break;
                      if(indexStatus[k] > 0)        // already done
-- 
2.43.0


From 196d01af08ddbc4f8cd6a991823df88b5a158d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:22 +0000
Subject: [PATCH 216/216] fix: sorting a list with empty SatPasses terminated
 the program

---
 ext/lib/Geomatics/SatPass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index ca79a2c..8d647a4 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -95,8 +95,8 @@ void SatPass::init(RinexSatID insat, double indt, vector<string> obstypes) throw
 {
    sat = insat;
    dt = indt;
-   //firstTime = CommonTime::BEGINNING_OF_TIME;
-   //lastTime = CommonTime::END_OF_TIME;
+   // before there is data; these compare with times in any time system
+   firstTime = lastTime = CommonTime::BEGINNING_OF_TIME;
    ngood = 0;
    Status = 0;
 
-- 
2.43.0

