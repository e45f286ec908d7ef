TH = "core/lib/TimeHandling/"
P("c01-century-august", "C01", TH + "TimeConverters.cpp", "              mm > 2 &&\n              mm < 9)      ||", "              mm > 2 &&\n              mm < 8)      ||",
 "a date in August of a century year that is not a leap year (1700, 1800, 1900, 2100)", "calendar to Julian day is one off for a whole month once a century", r'''
#include "TimeConverters.hpp"
#include <cstdio>
int main()
{
   int bad = 0;
   for (int y = 1600; y < 2400; y++)
   {
      long prev = gpstk::convertCalendarToJD(y, 1, 1) - 1;
      for (int m = 1; m <= 12; m++)
      {
         static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
         int n = L[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)));
         for (int d = 1; d <= n; d++) { long j = gpstk::convertCalendarToJD(y, m, d); if (j != prev + 1) { if (!bad++) printf("%d-%d-%d JD %ld after %ld\n", y, m, d, j, prev); } prev = j; }
      }
   }
   return bad != 0;
}
''')
P("c02-addseconds-exact-days", "C02", TH + "CommonTime.cpp", "      if( ABS( seconds ) > SEC_PER_DAY )\n      {\n         days  = seconds / SEC_PER_DAY;\n         seconds -= days * SEC_PER_DAY;  // seconds %= SEC_PER_DAY\n      }\n      add( days, seconds * MS_PER_SEC, 0. );",
 "      if( ABS( seconds ) > SEC_PER_DAY )\n      {\n         days  = seconds / SEC_PER_DAY;\n         seconds -= days * SEC_PER_DAY;  // seconds %= SEC_PER_DAY\n      }\n      int ms = static_cast<int>( seconds ) * static_cast<int>( MS_PER_SEC );\n      if( days < -36500 )\n         ++days;\n      add( days, ms, 0. );",
 "subtracting more than a century with the integer addSeconds", "integer second arithmetic is a day off for large negative steps", r'''
#include "CommonTime.hpp"
#include <cstdio>
#include <cmath>
using namespace gpstk;
int main()
{
   int bad = 0;
   for (long d = 1; d < 60000; d += 13)
   {
      CommonTime t; t.set(2460000L, 3600L, 0.25, TimeSystem::GPS); CommonTime u(t);
      u.addSeconds(-(d * 86400L + 77)); double diff = t - u;
      if (std::fabs(diff - (d * 86400. + 77)) > 1e-6) { if (!bad++) printf("%ld days: %f\n", d, diff); }
   }
   return bad != 0;
}
''')
P("c03-adjust-rollover", "C03", TH + "Week.hpp", "         jd2 = convertCalendarToJD(y,12,31);", "         jd2 = convertCalendarToJD(y,11,1);",
 "a year whose 10-bit week rollover falls in November or December (2038)", "truncated weeks after a late-year rollover are attributed to the previous cycle", r'''
#include "GPSWeek.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "CivilTime.hpp"
#include <cstdio>
#include <cstdlib>
using namespace gpstk;
template <class T> int run(unsigned roll, int y0, int y1)
{
   int bad = 0;
   for (int y = y0; y < y1; y++)
   {
      CivilTime c0(y, 1, 1, 0, 0, 0, TimeSystem::Any), c1(y, 12, 31, 0, 0, 0, TimeSystem::Any);
      int w0 = T(c0.convertToCommonTime()).week, w1 = T(c1.convertToCommonTime()).week, e0 = w0 / roll, e1 = w1 / roll;
      for (unsigned m = 0; m < roll; m++)
      {
         T t; t.week = m; t.adjustToYear(y);
         int want = (e0 == e1) ? e0 * roll + m : (m >= roll / 2 ? e0 : e1) * roll + m;
         if (m == roll / 2 && e0 != e1) continue;
         if ((int)t.week != want) { if (!bad++) printf("year %d mod week %u -> %d want %d\n", y, m, (int)t.week, want); }
      }
   }
   return bad;
}
int main() { return (run<GPSWeekSecond>(1024, 1981, 2060)) != 0; }
''')
P("c04-two-digit-year", "C04", TH + "TimeString.cpp", "                  if (iyear >= 69)\n                     iyear += 1900;", "                  if (iyear > 69)\n                     iyear += 1900;",
 "a two-digit year 69 scanned with %y", "two-digit year 69 reads as 2069", r'''
#include "TimeString.hpp"
#include "CivilTime.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   int bad = 0;
   for (int yy = 0; yy < 100; yy++)
   {
      char b[64]; snprintf(b, 64, "%02d 07 04 12:00:00", yy); CommonTime t; mixedScanTime(t, b, "%y %m %d %H:%M:%S");
      CivilTime c(t); int want = yy >= 69 ? 1900 + yy : 2000 + yy; if (c.year != want) { bad++; printf("%s -> %d\n", b, c.year); }
   }
   return bad != 0;
}
''')
P("c06-overlap-edge", "C06", TH + "TimeRange.cpp", "      if (       includeStartTime && \n           right.includeEndTime && \n                 start==right.end ) return true;", "      if (       includeEndTime && \n           right.includeEndTime && \n                 start==right.end ) return true;",
 "two ranges that touch at one instant, the later one open at its start or closed there with an open end", "overlap of touching intervals looks at the wrong bracket", r'''
#include "TimeRange.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   int bad = 0; CommonTime t[3]; for (int i = 0; i < 3; i++) t[i].set(2459000L + i, 0L, 0.0, TimeSystem::GPS);
   for (int k = 0; k < 16; k++)
   {
      TimeRange l(t[0], t[1], k & 1, k & 2), r(t[1], t[2], k & 4, k & 8); bool want = (k & 2) && (k & 4);
      if (l.overlaps(r) != want || r.overlaps(l) != want) { bad++; printf("case %d: %d %d want %d\n", k, l.overlaps(r), r.overlaps(l), want); }
   }
   return bad != 0;
}
''')
P("c06-store-edit-swapped", "C06", TH + "EpochDataStore.cpp", "      it = allData.upper_bound(tmax);\n      if(it != allData.end())", "      it = allData.lower_bound(tmax);\n      if(it != allData.end() && it->first != initialTime)",
 "edit() whose upper limit coincides with a stored epoch", "the record at the end of the kept interval is dropped", r'''
#include "EpochDataStore.hpp"
#include <cstdio>
using namespace gpstk;
struct S : public EpochDataStore { using EpochDataStore::addData; size_t n() { return epochList().size(); } };
int main()
{
   S s; CommonTime t; t.set(2459000L, 0L, 0.0, TimeSystem::GPS);
   for (int i = 0; i < 10; i++) s.addData(t + 60.0 * i, std::vector<double>(1, i));
   s.edit(t + 120.0, t + 360.0); printf("%zu\n", s.n()); return s.n() != 5;
}
''')
G = "core/lib/GNSSCore/"
P("c10-nb-wet-height", "C10", G + "NBTropModel.cpp", "         kw = std::exp(base*(-1.0+(lam+1)*NBg/(NBRd*beta)));", "         kw = std::exp(base*(-1.0+(lam+1)*NBg/(NBRd*NB_Interpolate(latitude,28,ZB))));",
 "a latitude above 15 degrees on a day other than mid-winter at a non-zero height", "height scaling of the wet delay uses the wrong season's temperature lapse rate", r'''
#include "NBTropModel.hpp"
#include "MOPSTropModel.hpp"
#include <cstdio>
#include <cmath>
using namespace gpstk;
int main()
{
   int bad = 0;
   for (int lat = 0; lat < 90; lat += 7) for (int doy = 1; doy < 366; doy += 20)
   {  // the two models share their meteorology; gravity differs by at most 0.5%
      NBTropModel n(3000.0, (double)lat, doy); MOPSTropModel m(3000.0, (double)lat, doy);
      double r = n.wet_zenith_delay() / m.wet_zenith_delay(); if (std::fabs(r - 1) > 0.006) { if (!bad++) printf("lat %d doy %d ratio %f\n", lat, doy, r); }
   }
   return bad != 0;
}
''')
P("c10-saas-band-edge", "C10", G + "SaasTropModel.cpp", "      else if(lat < 75.) {          // coefficients are for 15,30,45,60,75 deg\n         int i=int(lat/15.0)-1;\n         double frac=(lat-15.*(i+1))/15.;\n         a = SaasDryA[i]", "      else if(lat < 75.) {          // coefficients are for 15,30,45,60,75 deg\n         int i=int(lat/15.0)-1;\n         double frac=(lat-15.*(i+1))/15.;\n         if(i == 3 && latitude < 0) ct = -ct;\n         a = SaasDryA[i]",
 "a receiver between 60 and 75 degrees south", "annual term of the dry mapping function has the wrong sign in one southern latitude band", r'''
#include "SaasTropModel.hpp"
#include "NeillTropModel.hpp"
#include <cstdio>
#include <cmath>
using namespace gpstk;
int main()
{
   int bad = 0;
   for (double lat = -89; lat < 90; lat += 3.5) for (int doy = 1; doy < 366; doy += 30)
   {
      SaasTropModel s(lat, doy, 15, 1000, 50); s.setReceiverHeight(500.0); NeillTropModel n(500.0, lat, doy);
      if (std::fabs(s.dry_mapping_function(6) - n.dry_mapping_function(6)) > 1e-9) { if (!bad++) printf("lat %f doy %d: %.9f %.9f\n", lat, doy, s.dry_mapping_function(6), n.dry_mapping_function(6)); }
   }
   return bad != 0;
}
''')
