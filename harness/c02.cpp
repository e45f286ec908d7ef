// C02: time arithmetic and ordering
#include "timemodel.hpp"
#include "Epoch.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "TimeConstants.hpp"
using namespace gpstk; using namespace tm_;

static double genDt(vf::Rng& r)
{
   switch (r.below(12))
   {
      case 0: return r.range(-1000000, 1000000);
      case 1: return 86400.0 * r.range(-5000, 5000);
      case 2: return r.logmag(1e-9, 1e9);
      case 3: return r.range(-1000000, 1000000) * 1e-3;
      case 4: return r.range(-1000000, 1000000) * 1e-6;
      case 5: return r.pick({0.001, -0.001, 0.0009999999, -0.0009999999, 1e-12, -1e-12, 0.5e-3, -0.5e-3, 0.0});
      case 6: return 86400.0 * r.range(-30, 30) + r.pick({0.001, -0.001, 1e-9, -1e-9, 0.9995, -0.9995});
      case 7: return r.unif(-100, 100);
      case 8: return r.unif(-90000, 90000);
      case 9: return 604800.0 * r.range(-2000, 2000) + r.unif(-1, 1);
      case 10: return r.range(-100000, 100000) * 1.5;
      default: return r.unif(-1e-3, 1e-3);
   }
}
static bool inRange(i128 v) { return v > DAYA * 2 && v < DAYA * (J_MAX - 2); }

static void single(vf::Case& c)
{
   vf::Rng& r = c.rng;
   TimeSystem ts = r.pick(SYSTEMS);
   CommonTime t = genTime(r, ts);
   i128 v = value(t);
   double dt = genDt(r);
   i128 ex = v + atto(dt);
   c.note(show(t)); 
   c.distinct((uint64_t)(v / 1000000) ^ (uint64_t)llround(dt * 1e6));
   if (r.chance(0.0005)) { std::ostringstream o; o << std::setprecision(17) << show(t) << " + " << dt; c.sample(o.str()); }
   if (inRange(ex))
   {
      CommonTime a = t + dt;
      double e = secdiff(value(a), ex); c.maximum("add_error_s", std::fabs(e));
      VF_CHECK("add.value", std::fabs(e) < 3e-11 && normalised(a) && a.getTimeSystem() == ts, show(t) << " + " << dt << " = " << show(a) << " error " << e);
      CommonTime b(t); b += dt; CommonTime b2(t); b2.addSeconds(dt);
      VF_CHECK("add.same", value(b) == value(a) && value(b2) == value(a), show(t) << " + " << dt);
      double d = a - t;
      VF_CHECK("sub.inverse", vf::close(d, dt, 6e-11, 4.5e-16), show(t) << " + " << dt << " - t = " << d);
      VF_CHECK("sub.antisym", vf::close(d, -(t - a), 1e-15, 4.5e-16), show(t) << " " << dt);
      CommonTime k = a - dt; CommonTime k2(a); k2 -= dt;
      VF_CHECK("add.undo", std::fabs(secdiff(value(k), v)) < 6e-11 && normalised(k) && value(k2) == value(k), show(t) << " +- " << dt << " = " << show(k));
      if (std::fabs(dt) > 1e-9)
         VF_CHECK("order.add", dt > 0 ? (a > t && t < a && a >= t && t <= a && !(a < t) && a != t && !(a == t)) : (a < t && t > a && a <= t && t >= a && !(a > t) && a != t && !(a == t)),
                  show(t) << " + " << dt << " = " << show(a));
   }
   long ls = r.chance(0.5) ? r.range(-200000, 200000) : r.pick({86400L, -86400L, 86401L, -86399L, 86399L, 172800L, -172800L}) * r.range(1, 5000);
   if (r.chance(0.5)) ls = r.range(-150000000000L, 150000000000L);
   if (r.chance(0.2)) ls = ls / 86400 * 86400;
   if (inRange(v + (i128)ls * ATTO))
   {
      CommonTime a(t); a.addSeconds(ls);
      VF_CHECK("addint.seconds", value(a) == v + (i128)ls * ATTO && normalised(a), show(t) << " + " << ls << " s = " << show(a));
   }
   long lm = r.chance(0.5) ? r.range(-2000000, 2000000) : r.chance(0.5) ? r.range(-100000000000L, 100000000000L) : r.range(-100000000000000L, 100000000000000L);
   if (inRange(v + (i128)lm * (ATTO / 1000)))
   {
      CommonTime a(t); a.addMilliseconds(lm);
      VF_CHECK("addint.ms", value(a) == v + (i128)lm * (ATTO / 1000) && normalised(a), show(t) << " + " << lm << " ms = " << show(a));
   }
   long ld = r.chance(0.5) ? r.range(-20000, 20000) : r.range(-1500000, 1500000);
   if (inRange(v + (i128)ld * DAYA))
   {
      CommonTime a(t); a.addDays(ld);
      VF_CHECK("addint.days", value(a) == v + (i128)ld * DAYA && normalised(a), show(t) << " + " << ld << " days = " << show(a));
   }
}

static void seq(vf::Case& c)        // a long history of mixed operations tracks the exact sum
{
   vf::Rng& r = c.rng;
   CommonTime t = genTime(r, TimeSystem::GPS, J_GPS, J_GPS + 20000), t0(t);
   Epoch ep(t);
   i128 v = value(t), v0 = v;
   int n = (int)r.range(20, 200); double budget = 0, small = r.pick({0.1, 0.001, 1.5, 1e-4, 1.0/3, 0.02, 30.0});
   int mode = (int)r.below(3);
   c.note(show(t)); c.distinct((uint64_t)(v / 1000000) + n);
   for (int i = 0; i < n; i++)
   {
      double dt = mode == 0 ? small : mode == 1 ? genDt(r) : -small;
      i128 nv = v + atto(dt);
      if (nv < DAYA * 2000000 || nv > DAYA * 3000000) continue;
      switch (r.below(3))
      {
         case 0: t += dt; break;
         case 1: t -= -dt; break;
         default: t = t + dt;
      }
      ep += dt;
      v = nv; budget += 3e-11;
      VF_CHECK("seq.value", std::fabs(secdiff(value(t), v)) <= budget && normalised(t), "after " << i + 1 << " adds from " << show(t0) << ": " << show(t) << " error " << secdiff(value(t), v));
      VF_CHECK("seq.epoch", value((CommonTime)ep) == value(t), "Epoch and CommonTime diverge");
   }
   VF_CHECK("seq.diff", vf::close(t - t0, secdiff(v, v0), budget + 6e-11, 4.5e-16), show(t) << " - " << show(t0));
}

static double fsodOf(const CommonTime& t) { long d, m; double f; t.getInternal(d, m, f); return f; }
static void order(vf::Case& c)
{
   vf::Rng& r = c.rng;
   TimeSystem ts = r.pick(SYSTEMS);
   CommonTime base = genTime(r, ts, 10, J_MAX - 10), x[3];
   for (int i = 0; i < 3; i++)
   {
      long d, ms; double fs; base.getInternal(d, ms, fs);
      switch (r.below(5))
      {
         case 0: break;
         case 1: d += r.range(-1, 1); break;
         case 2: ms = std::max(0L, std::min(86399999L, ms + r.range(-2, 2))); break;
         case 3: fs = r.pick({0.0, 1e-9, 2e-9, 0.000999, 0.0005}); break;
         default: ms = r.range(0, 86399999); d += r.range(-1, 1);
      }
      x[i].setInternal(d, ms, fs, r.chance(0.15) ? TimeSystem::Any : ts);
   }
   c.note(show(x[0]) + show(x[1]) + show(x[2])); c.distinct((uint64_t)((value(x[0]) ^ value(x[1]) * 3 ^ value(x[2]) * 7) / 1000));
   for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
   {
      const CommonTime &a = x[i], &b = x[j];
      i128 d = value(a) - value(b);
      bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
      bool ok = d < -1000 ? (lt && !gt && le && !ge && !eq && ne) : d > 1000 ? (!lt && gt && !le && ge && !eq && ne) : (!lt && !gt && le && ge && eq && !ne);
      if ((d == 0 && vf::sameBits(a.getSecondOfDay(), b.getSecondOfDay()) && fsodOf(a) == fsodOf(b)) || d < -1000 || d > 1000) VF_CHECK("order.model", ok, show(a) << " vs " << show(b) << " lt=" << lt << " gt=" << gt << " le=" << le << " ge=" << ge << " eq=" << eq << " ne=" << ne);
      double df = a - b;
      VF_CHECK("order.diff", vf::close(df, secdiff(value(a), value(b)), 3e-11, 4.5e-16), show(a) << " - " << show(b) << " = " << df);
   }
   TimeSystem t1 = r.pick(SYSTEMS), t2 = r.pick(SYSTEMS);
   CommonTime p(x[0]), q(x[1]); p.setTimeSystem(t1); q.setTimeSystem(t2);
   if (t1 != t2 && t1 != TimeSystem::Any && t2 != TimeSystem::Any)
   {
      VF_CHECK("mixed.eq", !(p == q) && p != q && !(p == CommonTime(p).setTimeSystem(t2) ), show(p) << show(q));
      VF_THROWS("mixed.lt", gpstk::Exception, (void)(p < q), show(p) << show(q));
      VF_THROWS("mixed.gt", gpstk::Exception, (void)(p > q), show(p) << show(q));
      VF_THROWS("mixed.le", gpstk::Exception, (void)(p <= q), show(p) << show(q));
      VF_THROWS("mixed.ge", gpstk::Exception, (void)(p >= q), show(p) << show(q));
      VF_THROWS("mixed.sub", gpstk::Exception, (void)(p - q), show(p) << show(q));
   }
   else
   {
      VF_NOTHROW("wild.lt", (void)(p < q), show(p) << show(q));
      VF_NOTHROW("wild.sub", (void)(p - q), show(p) << show(q));
   }
}

static void epoch(vf::Case& c)
{
   vf::Rng& r = c.rng;
   CommonTime t = genTime(r, TimeSystem::GPS, J_MJD0 - 300000, J_MAX - 400);
   double tolA = r.pick({1e-9, 1e-6, 1e-3, 1.0, 60.0, 3600.0}), tolB = r.pick({1e-9, 1e-6, 1e-3, 1.0, 60.0, 3600.0});
   double dt = r.chance(0.5) ? r.pick({tolA, tolB}) * r.unif(-3, 3) : genDt(r);
   if (std::fabs(dt) > 1e7) dt = 17;
   c.note(show(t)); c.distinct((uint64_t)(value(t) / 1000000) + (uint64_t)llround(dt * 1e6));
   Epoch a(t), b(t); b += dt;
   a.setTolerance(tolA); b.setTolerance(tolB);
   double tol = std::min(tolA, tolB), d = secdiff(value(t), value((CommonTime)b));
   if (std::fabs(std::fabs(d) - tol) > 1e-10 + tol * 1e-12)
   {
      bool near = std::fabs(d) < tol;
      bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
      bool ok = near ? (!lt && !gt && le && ge && eq && !ne) : d < 0 ? (lt && !gt && le && !ge && !eq && ne) : (!lt && gt && !le && ge && !eq && ne);
      VF_CHECK("epoch.order", ok, show(t) << " + " << dt << " tol " << tolA << "," << tolB << " lt=" << lt << " gt=" << gt << " le=" << le << " ge=" << ge << " eq=" << eq);
   }
   VF_CHECK("epoch.sub", vf::close(b - a, secdiff(value((CommonTime)b), value(t)), 3e-11, 4.5e-16), show(t) << " " << dt);
   long us = r.range(-10000000, 10000000);
   Epoch u(t); u.addMicroSeconds(us);
   VF_CHECK("epoch.us", std::fabs(secdiff(value((CommonTime)u), value(t) + (i128)us * (ATTO / 1000000))) < 3e-11, show(t) << " + " << us << " us");
   Epoch m(t); m.addMilliSeconds(us);
   VF_CHECK("epoch.ms", value((CommonTime)m) == value(t) + (i128)us * (ATTO / 1000), show(t) << " + " << us << " ms");
   Epoch s(t); s.addSeconds(us / 100);
   VF_CHECK("epoch.s", value((CommonTime)s) == value(t) + (i128)(us / 100) * ATTO, show(t));
   // fields
   long day, ms; double fs; t.getInternal(day, ms, fs);
   Ymd cv = civil(day); Epoch e(t);
   VF_CHECK("epoch.fields", e.year() == cv.y && e.month() == cv.m && e.day() == cv.d && e.doy() == doy(cv, day) && e.hour() == ms / 3600000 && e.minute() == ms / 60000 % 60
            && vf::close(e.second(), ms % 60000 / 1000.0 + fs, 1e-12) && vf::close(e.sod(), ms / 1000.0 + fs, 3e-11), show(t));
   VF_CHECK("epoch.mjd", std::fabs((double)(e.MJD() - (day - J_MJD0) - (ms / 1000.0L + fs) / 86400.0L)) < 1e-11L && std::fabs((double)(e.JD() - e.MJD() - 2400000.5L)) < 1e-11, show(t));
   // date/time replacement
   CommonTime o = genTime(r, TimeSystem::GPS, J_MJD0, J_MAX - 400);
   long od, oms; double ofs; o.getInternal(od, oms, ofs);
   Epoch st(t); st.setTime(o); 
   VF_CHECK("epoch.settime", std::fabs(secdiff(value((CommonTime)st), (i128)day * DAYA + value(o) % DAYA)) < 1e-14, show(t) << show(o) << show((CommonTime)st));
   Epoch sd(t); sd.setDate(o);
   VF_CHECK("epoch.setdate", std::fabs(secdiff(value((CommonTime)sd), (i128)od * DAYA + value(t) % DAYA)) < 1e-14, show(t) << show(o) << show((CommonTime)sd));
   long j = day; int wd = (int)((j + 1) % 7);     // 0 = Sunday by civil day
   VF_CHECK("epoch.dow", e.dow() == wd, show(t) << " dow " << e.dow() << " want " << wd);
   if (day >= J_GPS && day < J_GPS + 7 * 32767)
   {
      long n = day - J_GPS;
      VF_CHECK("epoch.gps", e.GPSweek() == n / 7 && vf::close(e.GPSsow(), n % 7 * 86400 + ms / 1000.0 + fs, 1.2e-10) && e.GPSModWeek() == n / 7 % 1024, show(t));
   }
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {
      {"single", 100000, 5000000, single},
      {"seq", 4000, 200000, seq},
      {"order", 40000, 2000000, order},
      {"epoch", 40000, 1500000, epoch}});
}
