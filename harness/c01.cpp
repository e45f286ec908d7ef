// C01: calendar and time-representation conversions
#include "timemodel.hpp"
#include "TimeConverters.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "JulianDate.hpp"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
#include "ANSITime.hpp"
#include "TimeConstants.hpp"
using namespace gpstk; using namespace tm_;

static const long CH = 2000;      // days per calendar case

static void calendar(vf::Case& c)     // exhaustive over every supported civil day
{
   long j0 = (long)c.idx * CH, j1 = std::min(J_MAX + 1, j0 + CH);
   if (j0 > J_MAX) return;
   Ymd m = civil(j0);
   for (long j = j0; j < j1; j++)
   {
      int y = 0, mo = 0, d = 0;
      convertJDtoCalendar(j, y, mo, d);
      VF_CHECK("cal.jd2civil", y == m.y && mo == m.m && d == m.d,
               "day " << j << " gave " << y << "/" << mo << "/" << d << " want " << m.y << "/" << m.m << "/" << m.d);
      long b = convertCalendarToJD(m.y, m.m, m.d);
      VF_CHECK("cal.civil2jd", b == j, m.y << "/" << m.m << "/" << m.d << " gave " << b << " want " << j);
      CommonTime t; t.setInternal(j, 43200000, 0, TimeSystem::GPS);
      YDSTime yd(t);
      VF_CHECK("cal.doy", yd.year == m.y && yd.doy == doy(m, j), "day " << j << " gave " << yd.year << "/" << yd.doy << " want " << m.y << "/" << doy(m, j));
      if (j < J_MAX)
      {
         YDSTime yi(m.y, doy(m, j), 43200.0, TimeSystem::GPS);
         CommonTime tb = yi.convertToCommonTime();
         VF_CHECK("cal.doy2day", tb == t, m.y << "/" << doy(m, j) << " gave " << show(tb));
      }
      next(m);
   }
   c.distinct(j0);
   if (c.idx == 1222) c.sample("calendar days " + std::to_string(j0) + ".." + std::to_string(j1 - 1));
}

static void reps(vf::Case& c)
{
   vf::Rng& r = c.rng;
   TimeSystem ts = r.pick(SYSTEMS);
   CommonTime t = genTime(r, ts);
   long day, ms; double fs; t.getInternal(day, ms, fs);
   i128 v = value(t);
   Ymd m = civil(day);
   c.note(show(t));
   c.distinct((uint64_t)(v / (ATTO / 1000000)) * 31 + (int)ts);
   if (r.chance(0.001)) c.sample("time " + show(t));
   double secs = ms / 1000.0 + fs;
   long wsec = ms / 1000; double sofmin = (wsec % 60) + (ms % 1000) / 1000.0 + fs;

   {  // CommonTime accessors
      long d2, s2; double f2; TimeSystem t2;
      t.get(d2, s2, f2, t2);
      VF_CHECK("get.dsf", d2 == day && s2 == wsec && vf::close(f2, (ms % 1000) / 1000.0 + fs, 1e-15) && t2 == ts, show(t));
      double s3; t.get(d2, s3, t2);
      VF_CHECK("get.ds", d2 == day && vf::close(s3, secs, 2e-11), show(t) << " sod " << s3);
      VF_CHECK("get.sod", vf::close(t.getSecondOfDay(), secs, 2e-11), show(t));
      VF_CHECK("get.days", vf::close(t.getDays(), day + secs / 86400, 1e-9), show(t) << t.getDays());
      CommonTime s; s.set(day, wsec, (ms % 1000) / 1000.0 + fs, ts);
      VF_CHECK("set.dsf", std::fabs(vf::relerr(0,0)) == 0 && std::fabs(secdiff(value(s), v)) < 1e-14 && s.getTimeSystem() == ts && normalised(s), show(t) << " set " << show(s));
      CommonTime s2t; s2t.set(day, secs, ts);
      VF_CHECK("set.ds", std::fabs(secdiff(value(s2t), v)) < 2e-11 && normalised(s2t) && s2t.getTimeSystem() == ts, show(t) << " set " << show(s2t));
      double dd = day + secs / 86400; CommonTime s3t; s3t.set(dd, ts);
      VF_CHECK("set.day", std::fabs(secdiff(value(s3t), v)) < 1e-4 && normalised(s3t) && s3t.getTimeSystem() == ts, show(t) << " set " << show(s3t));
   }
   {  // CivilTime
      CivilTime x(t);
      VF_CHECK("civil.from", x.year == m.y && x.month == m.m && x.day == m.d && x.hour == (int)(wsec / 3600)
               && x.minute == (int)(wsec % 3600 / 60) && vf::close(x.second, sofmin, 1e-13) && x.getTimeSystem() == ts,
               show(t) << " -> " << x.year << "/" << x.month << "/" << x.day << " " << x.hour << ":" << x.minute << ":" << x.second);
      VF_CHECK("civil.range", x.second >= 0 && x.second < 60, show(t) << x.second);
      CommonTime b = x.convertToCommonTime();
      double e = secdiff(value(b), v); c.maximum("civil.roundtrip_s", std::fabs(e));
      VF_CHECK("civil.back", std::fabs(e) < 3e-11 && b.getTimeSystem() == ts && normalised(b), show(t) << " back " << show(b));
      CivilTime y(m.y, m.m, m.d, wsec / 3600, wsec % 3600 / 60, sofmin, ts);
      VF_CHECK("civil.ctor", std::fabs(secdiff(value(y.convertToCommonTime()), v)) < 3e-11, show(t));
      if (fs == 0 && ms % 1000 == 0) VF_CHECK("civil.valid", x.isValid(), show(t));
   }
   {  // YDSTime
      YDSTime x(t);
      VF_CHECK("yds.from", x.year == m.y && x.doy == doy(m, day) && vf::close(x.sod, secs, 2e-11) && x.getTimeSystem() == ts, show(t) << " -> " << x.year << "/" << x.doy << "/" << x.sod);
      if (day < J_MAX - 3)
      {
         CommonTime b = x.convertToCommonTime();
         double e = secdiff(value(b), v); c.maximum("yds.roundtrip_s", std::fabs(e));
         VF_CHECK("yds.back", std::fabs(e) < 3e-11 && b.getTimeSystem() == ts && normalised(b), show(t) << " back " << show(b));
         if (fs == 0 && ms % 1000 == 0) VF_CHECK("yds.valid", x.isValid(), show(t));
      }
   }
   {  // MJD, JD: long double days
      gpstk::MJD x(t);
      long double want = (long double)(day - J_MJD0) + (long double)secs / 86400.0L;
      VF_CHECK("mjd.from", std::fabs((double)(x.mjd - want)) * 86400 < 1e-7 && x.getTimeSystem() == ts, show(t) << " -> " << (double)x.mjd);
      if (day >= J_MJD0 - 2400000)
      {
         CommonTime b = x.convertToCommonTime();
         double e = secdiff(value(b), v); c.maximum("mjd.roundtrip_s", std::fabs(e));
         VF_CHECK("mjd.back", std::fabs(e) < 1e-6 && b.getTimeSystem() == ts && normalised(b), show(t) << " back " << show(b));
      }
      JulianDate y(t);
      VF_CHECK("jd.from", std::fabs((double)(y.jd - (want + 2400000.5L))) * 86400 < 1e-7 && y.getTimeSystem() == ts, show(t) << " -> " << (double)y.jd);
      CommonTime b = y.convertToCommonTime();
      double e = secdiff(value(b), v); c.maximum("jd.roundtrip_s", std::fabs(e));
      VF_CHECK("jd.back", std::fabs(e) < 1e-6 && b.getTimeSystem() == ts && normalised(b), show(t) << " back " << show(b));
   }
   {  // UnixTime: rounds to the nearest microsecond
      i128 us = (v + ATTO / 2000000) / (ATTO / 1000000) - (i128)J_UNIX * 86400 * 1000000;
      UnixTime x(t);
      i128 g = (i128)x.tv.tv_sec * 1000000 + x.tv.tv_usec;
      long double fr = (long double)(v % (ATTO / 1000000)) / 1e12L;
      bool tie = std::fabs((double)fr - 0.5) < 1e-3;
      if (day >= J_UNIX)
         VF_CHECK("unix.from", (g == us || (tie && (g - us == 1 || us - g == 1))) && x.tv.tv_usec >= 0 && x.tv.tv_usec < 1000000 && x.getTimeSystem() == ts,
                  show(t) << " -> " << x.tv.tv_sec << "." << x.tv.tv_usec << " want us " << (double)us);
      if (day >= J_UNIX)
      {
         CommonTime b = x.convertToCommonTime();
         VF_CHECK("unix.back", std::fabs(secdiff(value(b), v)) < 0.51e-6 && normalised(b) && b.getTimeSystem() == ts, show(t) << " back " << show(b));
      }
   }
   bool in31 = day >= J_UNIX && (v - (i128)J_UNIX * DAYA) / ATTO < 2147483647;
   if (in31)
   {
      PosixTime x(t);
      i128 g = (i128)x.ts.tv_sec * 1000000000 + x.ts.tv_nsec;
      i128 ns = (v + ATTO / 2000000000) / (ATTO / 1000000000) - (i128)J_UNIX * 86400 * 1000000000;
      i128 df = g - ns;
      VF_CHECK("posix.from", df >= -1 && df <= 1 && std::fabs((double)((long double)g * 1e-9L - (long double)(v - (i128)J_UNIX * DAYA) * 1e-18L)) < 0.6e-9L + 1e-9
               && x.ts.tv_nsec >= 0 && x.ts.tv_nsec < 1000000000 && x.getTimeSystem() == ts, show(t) << " -> " << x.ts.tv_sec << "." << x.ts.tv_nsec);
      CommonTime b = x.convertToCommonTime();
      VF_CHECK("posix.back", std::fabs(secdiff(value(b), v)) < 0.6e-9 && normalised(b) && b.getTimeSystem() == ts, show(t) << " back " << show(b));
      ANSITime a(t);
      VF_CHECK("ansi.from", (i128)a.time == (v - (i128)J_UNIX * DAYA) / ATTO && a.getTimeSystem() == ts, show(t) << " -> " << a.time);
      CommonTime ab = a.convertToCommonTime();
      VF_CHECK("ansi.back", secdiff(v, value(ab)) >= 0 && secdiff(v, value(ab)) < 1 && normalised(ab) && ab.getTimeSystem() == ts, show(t) << " back " << show(ab));
   }
   else
   {
      VF_THROWS("posix.range", gpstk::Exception, PosixTime x(t), show(t));
      VF_THROWS("ansi.range", gpstk::Exception, ANSITime x(t), show(t));
   }
   {  // seconds of day <-> h:m:s
      int hh, mm; double ss;
      double sod = secs;
      convertSODtoTime(sod, hh, mm, ss);
      VF_CHECK("sod.hms", hh >= 0 && hh < 24 && mm >= 0 && mm < 60 && ss >= 0 && ss < 60 && vf::close(hh * 3600.0 + mm * 60.0 + ss, sod, 1e-9), sod << " -> " << hh << ":" << mm << ":" << ss);
      VF_CHECK("sod.back", vf::close(convertTimeToSOD(hh, mm, ss), sod, 1e-9), sod);
      long k = r.range(1, 3); // multiples of a day are removed
      auto modday = [](double a, double b) { double e = std::fabs(a - b); return std::min(e, 86400 - e) < 1e-9; };
      convertSODtoTime(sod + 86400.0 * k, hh, mm, ss);
      VF_CHECK("sod.wrap", hh >= 0 && hh < 24 && mm >= 0 && mm < 60 && ss >= 0 && ss < 60 && modday(hh * 3600.0 + mm * 60.0 + ss, sod), sod << " + " << k << " days -> " << hh << ":" << mm << ":" << ss);
      convertSODtoTime(sod - 86400.0 * k, hh, mm, ss);
      VF_CHECK("sod.neg", hh >= 0 && hh < 24 && mm >= 0 && mm < 60 && ss >= 0 && ss < 60 && modday(hh * 3600.0 + mm * 60.0 + ss, sod), sod << " - " << k << " days -> " << hh << ":" << mm << ":" << ss);
   }
}

template <class X> static void order(vf::Case& c, const char* k, const X& a, const X& b, int want)
{
   bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
   bool ok = (want < 0) ? (lt && !gt && le && !ge && !eq && ne) : (want > 0) ? (!lt && gt && !le && ge && !eq && ne)
                        : (!lt && !gt && le && ge && eq && !ne);
   VF_CHECK(std::string("order.") + k, ok, "want " << want << " got lt=" << lt << " gt=" << gt << " le=" << le << " ge=" << ge << " eq=" << eq << " ne=" << ne
            << " for " << a.convertToCommonTime() << " and " << b.convertToCommonTime());
}
template <class X> static void mixed(const char* k, const X& a, const X& b)
{
   VF_CHECK(std::string("mixed.") + k + ".eq", !(a == b), "equal across systems");
   VF_THROWS(std::string("mixed.") + k + ".lt", gpstk::Exception, (void)(a < b), "compare across systems");
   VF_THROWS(std::string("mixed.") + k + ".gt", gpstk::Exception, (void)(a > b), "compare across systems");
}

static void tags(vf::Case& c)        // comparison operators of the representations
{
   vf::Rng& r = c.rng;
   TimeSystem ts = r.pick(SYSTEMS);
   long d1 = genDay(r, J_UNIX + 10, J_UNIX + 24800), ms1; double fs;
   genSod(r, ms1, fs);
   long d2 = d1, ms2 = ms1;
   switch (r.below(6))
   {
      case 0: break;
      case 1: d2 = genDay(r, J_UNIX + 10, J_UNIX + 24800); break;
      case 2: ms1 = ms1 / 1000 * 1000; ms2 = std::min(86399000L, ms1 + 1000 * r.range(1, 100)); break;
      case 3: d2 = d1 + r.range(-1, 1); ms2 = r.range(0, 86399999); break;
      case 4: { Ymd m = civil(d1); m.y += (int)r.range(-1, 1); m.d = std::min(m.d, 28); d2 = jdn(m.y, m.m, m.d); break; }
      default: { Ymd m = civil(d1); m.d = (int)r.range(1, 28); m.m = (int)r.range(1, 12); d2 = jdn(m.y, m.m, m.d); ms2 = r.range(0, 86399999); }
   }
   d2 = std::max(J_UNIX + 10, std::min(J_UNIX + 24800, d2));
   CommonTime a, b;
   a.setInternal(d1, ms1, 0, ts); b.setInternal(d2, ms2, 0, r.chance(0.2) ? TimeSystem::Any : ts);
   int w = d1 != d2 ? (d1 < d2 ? -1 : 1) : ms1 != ms2 ? (ms1 < ms2 ? -1 : 1) : 0;
   c.note(show(a) + show(b)); c.distinct((uint64_t)(d1 * 131071 + ms1 * 31 + d2 * 17 + ms2));
   order(c, "civil", CivilTime(a), CivilTime(b), w);
   order(c, "yds", YDSTime(a), YDSTime(b), w);
   order(c, "mjd", gpstk::MJD(a), gpstk::MJD(b), w);
   order(c, "jd", JulianDate(a), JulianDate(b), w);
   order(c, "unix", UnixTime(a), UnixTime(b), w);
   order(c, "posix", PosixTime(a), PosixTime(b), w);
   int wa = d1 != d2 ? w : ms1 / 1000 != ms2 / 1000 ? w : 0;
   order(c, "ansi", ANSITime(a), ANSITime(b), wa);
   TimeSystem t1 = r.pick(SYSTEMS), t2 = r.pick(SYSTEMS);
   if (t1 != t2 && t1 != TimeSystem::Any && t2 != TimeSystem::Any)
   {
      CommonTime p(a), q(a); p.setTimeSystem(t1); q.setTimeSystem(t2);
      mixed("civil", CivilTime(p), CivilTime(q)); mixed("yds", YDSTime(p), YDSTime(q));
      mixed("mjd", gpstk::MJD(p), gpstk::MJD(q)); mixed("jd", JulianDate(p), JulianDate(q));
      mixed("unix", UnixTime(p), UnixTime(q)); mixed("posix", PosixTime(p), PosixTime(q)); mixed("ansi", ANSITime(p), ANSITime(q));
   }
}

static void invalid(vf::Case& c)     // unrepresentable values are refused, never wrapped
{
   vf::Rng& r = c.rng;
   long d = genDay(r); long ms; double fs; genSod(r, ms, fs);
   CommonTime keep; keep.setInternal(d, ms, fs, TimeSystem::GPS);
   CommonTime t(keep);
   c.distinct((uint64_t)(d * 7 + ms));
   long badDay = r.chance(0.5) ? -r.range(1, 100000) : J_MAX + r.range(1, 100000);
   long badSod = r.chance(0.5) ? -r.range(1, 100000) : 86400 + r.range(0, 100000);
   double badF = r.chance(0.5) ? -r.unif(1e-9, 5) : r.unif(1.0, 5);
   long badMs = r.chance(0.5) ? -r.range(1, 100000) : 86400000L + r.range(0, 100000);
   double badFm = r.chance(0.5) ? -r.unif(1e-12, 5) : r.unif(0.001, 5);
   VF_THROWS("bad.day", gpstk::Exception, t.set(badDay, 0L, 0.0, TimeSystem::GPS), badDay);
   VF_THROWS("bad.sod", gpstk::Exception, t.set(d, badSod, 0.0, TimeSystem::GPS), badSod);
   VF_THROWS("bad.fsod", gpstk::Exception, t.set(d, 5L, badF, TimeSystem::GPS), badF);
   VF_THROWS("bad.int.day", gpstk::Exception, t.setInternal(badDay, 0, 0, TimeSystem::GPS), badDay);
   VF_THROWS("bad.int.ms", gpstk::Exception, t.setInternal(d, badMs, 0, TimeSystem::GPS), badMs);
   VF_THROWS("bad.int.fs", gpstk::Exception, t.setInternal(d, 0, badFm, TimeSystem::GPS), badFm);
   VF_CHECK("bad.unchanged", t == keep, "a refused set() changed the value to " << show(t));
   Ymd m = civil(d);
   VF_THROWS("bad.civil.sec", gpstk::Exception, CivilTime(m.y, m.m, m.d, 23, 59, 60 + r.unif(0, 100)).convertToCommonTime(), "second >= 60 at 23:59");
   VF_THROWS("bad.civil.hour", gpstk::Exception, CivilTime(m.y, m.m, m.d, 24 + (int)r.below(50), 0, 0).convertToCommonTime(), "hour >= 24");
   VF_THROWS("bad.civil.year", gpstk::Exception, CivilTime(r.chance(0.5) ? 4714 + (int)r.below(999) : -4715 - (int)r.below(999), 6, 1, 0, 0, 0).convertToCommonTime(), "year");
   VF_THROWS("bad.yds.sod", gpstk::Exception, YDSTime(m.y, 1, 86400 + r.unif(0, 1e5)).convertToCommonTime(), "sod");
   int md = monthDays(m.y, m.m);
   if (md < 31) VF_CHECK("bad.civil.dom", !CivilTime(m.y, m.m, md + 1, 0, 0, 0, TimeSystem::GPS).isValid(), m.y << "/" << m.m << "/" << md + 1);
   long u = r.range(0, 2000000000);
   VF_THROWS("bad.unix.usec", gpstk::Exception, UnixTime((int)u, 1000000 + (int)r.below(100000)).convertToCommonTime(), u);
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {
      {"calendar", (uint64_t)(J_MAX / CH + 1), (uint64_t)(J_MAX / CH + 1), calendar},
      {"reps", 60000, 3000000, reps},
      {"tags", 30000, 1000000, tags},
      {"invalid", 10000, 300000, invalid}});
}
