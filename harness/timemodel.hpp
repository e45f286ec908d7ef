// Independent model of calendars and of CommonTime values, used as oracle.
#ifndef VF_TIMEMODEL_HPP
#define VF_TIMEMODEL_HPP
#include "vf.hpp"
#include "CommonTime.hpp"
#include "TimeSystem.hpp"

namespace tm_
{
   using gpstk::CommonTime;
   using gpstk::TimeSystem;

   struct Ymd { int y, m, d; };            // historical years: ... -2, -1, 1, 2 ...
   inline bool leapG(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
      // astronomical year number from historical one
   inline long astro(long y) { return y < 0 ? y + 1 : y; }
   inline long floordiv(long a, long b) { long q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }

   inline bool isGregorian(long y, int m, int d)
   { return y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 15))); }

      // Julian day number (civil day), counting days month by month
   inline long jdn(long hy, int m, int d)
   {
      static const int cum[] = {0,31,59,90,120,151,181,212,243,273,304,334};
      long y = astro(hy);
      if (isGregorian(hy, m, d))
      {
         long n = 365 * (y - 1) + floordiv(y - 1, 4) - floordiv(y - 1, 100) + floordiv(y - 1, 400)
                + cum[m-1] + (m > 2 && leapG(y)) + d;     // 1 = 0001-01-01 Gregorian
         return n + 1721425;
      }
      long n = 365 * (y - 1) + floordiv(y - 1, 4) + cum[m-1] + (m > 2 && floordiv(y, 4) * 4 == y) + d;
      return n + 1721423;                                 // 1 = 0001-01-01 Julian
   }
   inline int monthDays(long hy, int m)
   {
      static const int md[] = {31,28,31,30,31,30,31,31,30,31,30,31};
      long y = astro(hy);
      bool lp = isGregorian(hy, m, 28) ? leapG(y) : floordiv(y, 4) * 4 == y;
      if (hy == 1582 && m == 10) return 31;               // days 5..14 do not exist
      return md[m-1] + (m == 2 && lp);
   }
      // walk forward from a known date: the civil calendar, day by day
   inline void next(Ymd& c)
   {
      if (c.y == 1582 && c.m == 10 && c.d == 4) { c.d = 15; return; }
      if (++c.d > monthDays(c.y, c.m))
      {
         c.d = 1;
         if (++c.m > 12) { c.m = 1; if (++c.y == 0) c.y = 1; }
      }
   }
   inline Ymd civil(long j)
   {
      // binary search on year, then month
      long lo = -4714, hi = 4800;
      while (lo < hi)
      {
         long mid = floordiv(lo + hi + 1, 2);
         long h = mid == 0 ? 1 : mid;      // no year 0; treat as year 1
         long jj = jdn(mid == 0 ? 1 : h, 1, 1);
         if (jj <= j) lo = mid; else hi = mid - 1;
      }
      Ymd r; r.y = lo == 0 ? 1 : (int)lo; 
      if (r.y == 1 && jdn(1, 1, 1) > j) r.y = -1;
      if (lo == 0) r.y = (jdn(1,1,1) <= j) ? 1 : -1;
      r.m = 1;
      while (r.m < 12 && jdn(r.y, r.m + 1, 1) <= j) ++r.m;
      r.d = 1;
      long base = jdn(r.y, r.m, 1);
      r.d = (int)(j - base) + 1;
      if (r.y == 1582 && r.m == 10 && r.d > 4) r.d += 10;
      return r;
   }
   inline int doy(const Ymd& c, long j) { return (int)(j - jdn(c.y, 1, 1)) + 1; }

   const long J_MIN = 0, J_MAX = 3442448, J_GPS = 2444245, J_UNIX = 2440588, J_MJD0 = 2400001;

   typedef __int128 i128;
   const i128 ATTO = (i128)1000000000 * 1000000000;        // per second
   const i128 DAYA = ATTO * 86400;

   inline i128 atto(double s)                               // exact to ~1e-19 s for |s|<1e12
   {
      double ip = std::trunc(s);
      long double f = (long double)(s - ip) * 1e18L;
      return (i128)ip * ATTO + (i128)llroundl(f);
   }
   inline i128 value(const CommonTime& t)
   {
      long d, ms; double fs;
      t.getInternal(d, ms, fs);
      return (i128)d * DAYA + (i128)ms * (ATTO / 1000) + atto(fs);
   }
   inline double secdiff(i128 a, i128 b) { return (double)((long double)(a - b) * 1e-18L); }

   inline std::string show(const CommonTime& t)
   {
      long d, ms; double fs; TimeSystem ts;
      t.getInternal(d, ms, fs, ts);
      std::ostringstream o;
      o << std::setprecision(17) << "{day=" << d << ",msod=" << ms << ",fsod=" << fs << ",sys=" << gpstk::StringUtils::asString(ts) << "}";
      return o.str();
   }
   inline bool normalised(const CommonTime& t)
   {
      long d, ms; double fs;
      t.getInternal(d, ms, fs);
      return ms >= 0 && ms < 86400000 && fs >= 0 && fs < 0.001;
   }

   static const std::vector<TimeSystem> SYSTEMS = {
      TimeSystem::Unknown, TimeSystem::Any, TimeSystem::GPS, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::QZS,
      TimeSystem::BDT, TimeSystem::IRN, TimeSystem::UTC, TimeSystem::TAI, TimeSystem::TT, TimeSystem::TDB };

   inline long genDay(vf::Rng& r, long lo = 1, long hi = J_MAX - 2)
   {
      switch (r.below(6))
      {
         case 0: return r.range(lo, hi);
         case 1: return std::max(lo, std::min(hi, (long)(J_GPS + r.range(-10, 20000))));
         case 2: {  // around a year, month or century boundary
            static const int ys[] = {-4712,-1,1,4,100,1500,1582,1583,1600,1700,1800,1858,1900,1904,1970,1972,1980,1999,2000,2001,2004,2019,2038,2100,2200,2400,4000,4712};
            int y = r.chance(0.5) ? ys[r.below(sizeof ys / sizeof *ys)] : (int)r.range(1970, 2100);
            long j = jdn(y, (int)r.range(1, 12), 1) + r.range(-2, 2);
            return std::max(lo, std::min(hi, j)); }
         case 3: return std::max(lo, std::min(hi, 2299160 + r.range(-12, 12)));
         case 4: return std::max(lo, std::min(hi, (long)(J_GPS + 7 * r.range(0, 4200) + r.range(-1, 1))));
         default: return std::max(lo, std::min(hi, (long)(J_UNIX + r.range(0, 24855))));
      }
   }
   inline void genSod(vf::Rng& r, long& ms, double& fs)
   {
      switch (r.below(6))
      {
         case 0: ms = 0; break;
         case 1: ms = 86399999; break;
         case 2: ms = 1000 * r.range(0, 86399); break;
         case 3: ms = 60000 * r.range(0, 1439) + r.pick<long>({0, 59999, 1}); break;
         case 4: ms = 1500 * r.range(0, 57599) + r.pick<long>({0, -1, 1}); if (ms < 0) ms = 0; break;
         default: ms = r.range(0, 86399999);
      }
      switch (r.below(5))
      {
         case 0: case 1: fs = 0; break;
         case 2: fs = r.range(0, 999) * 1e-6; break;
         case 3: fs = r.unif(0, 0.000999999); break;
         default: fs = r.pick({1e-9, 5e-13, 0.00099999999, 0.0005, 1e-7}); 
      }
   }
   inline CommonTime genTime(vf::Rng& r, TimeSystem ts, long lo = 1, long hi = J_MAX - 2)
   {
      long ms; double fs; long d = genDay(r, lo, hi);
      genSod(r, ms, fs);
      CommonTime t; t.setInternal(d, ms, fs, ts);
      return t;
   }
}
#endif
