// C05: leap seconds, time-system corrections, EphTime
#include "timemodel.hpp"
#include "TimeSystem.hpp"
#include "TimeSystemCorr.hpp"
#include "EphTime.hpp"
#include "EnumIterator.hpp"
using namespace gpstk; using namespace tm_;

// IERS Bulletin C history: MJD (UTC) from which TAI-UTC has the value
static const struct { long mjd; int v; } IERS[] = {
   {41317,10},{41499,11},{41683,12},{42048,13},{42413,14},{42778,15},{43144,16},{43509,17},{43874,18},{44239,19},
   {44786,20},{45151,21},{45516,22},{46247,23},{47161,24},{47892,25},{48257,26},{48804,27},{49169,28},{49534,29},
   {50083,30},{50630,31},{51179,32},{53736,33},{54832,34},{56109,35},{57204,36},{57754,37} };
// USNO tai-utc.dat: from MJD, offset, reference MJD, rate
static const struct { long mjd; double off; long ref; double rate; } PRE[] = {
   {36934,1.4178180,37300,.001296},{37300,1.4228180,37300,.001296},{37512,1.3728180,37300,.001296},{37665,1.8458580,37665,.0011232},
   {38334,1.9458580,37665,.0011232},{38395,3.2401300,38761,.001296},{38486,3.3401300,38761,.001296},{38639,3.4401300,38761,.001296},
   {38761,3.5401300,38761,.001296},{38820,3.6401300,38761,.001296},{38942,3.7401300,38761,.001296},{39004,3.8401300,38761,.001296},
   {39126,4.3131700,39126,.002592},{39887,4.2131700,39126,.002592} };

static int leapRef(long mjd)
{ int v = 0; for (auto& e : IERS) if (mjd >= e.mjd) v = e.v; return v; }
static double utcRef(long mjd, double fr)
{
   if (mjd < 36934) return 0;
   if (mjd >= 41317) return leapRef(mjd);
   double v = 0;
   for (auto& e : PRE) if (mjd >= e.mjd) v = e.off + (mjd - e.ref + fr) * e.rate;
   return v;
}
static const std::vector<TimeSystem> CONV = { TimeSystem::GPS, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::BDT, TimeSystem::IRN,
   TimeSystem::UTC, TimeSystem::TAI, TimeSystem::TT, TimeSystem::TDB };

static long genLeapDay(vf::Rng& r)
{
   if (r.chance(0.5)) return (r.chance(0.7) ? IERS[r.below(28)].mjd : PRE[r.below(14)].mjd) + r.range(-2, 2);
   if (r.chance(0.5)) return r.range(41317, 70000);
   if (r.chance(0.5)) return r.range(36934, 41316);
   return r.range(-100000, 150000);
}
// every day from 1950 to 2100, one per case
static void leapTable(vf::Case& c)
{
   long mjd = 33282 + (long)c.idx;
   Ymd d = civil(mjd + J_MJD0);
   c.distinct(mjd);
   double g = getLeapSeconds(d.y, d.m, d.d);
   if (mjd >= 41317 || mjd < 36934)
      VF_CHECK("leap.iers", g == leapRef(mjd), d.y << "-" << d.m << "-" << d.d << " got " << g << " want " << leapRef(mjd));
   else
   {
      int row = 0; for (int i = 0; i < 14; i++) if (mjd >= PRE[i].mjd) row = i;
      std::ostringstream k; k << "leap.pre72.row" << row;
      if (vf::close(g, PRE[row].off + (mjd - PRE[row].mjd) * PRE[row].rate, 1e-9)) k << ".rowstart";  // drift counted from the row's own date
      VF_CHECK(k.str(), vf::close(g, utcRef(mjd, 0), 1e-7), d.y << "-" << d.m << "-" << d.d << " got " << g << " want " << utcRef(mjd, 0));
         // within a row the offset drifts at the published rate, also within a day
      double f = c.rng.unit();
      VF_CHECK("leap.drift", vf::close(getLeapSeconds(d.y, d.m, d.d + f) - g, f * PRE[row].rate, 1e-9), d.y << "-" << d.m << "-" << d.d << "+" << f);
      if (mjd != PRE[row].mjd)
      {
         Ymd p = civil(mjd - 1 + J_MJD0);
         VF_CHECK("leap.daydrift", vf::close(g - getLeapSeconds(p.y, p.m, p.d), PRE[row].rate, 1e-9), d.y << "-" << d.m << "-" << d.d);
      }
   }
   double g2 = getLeapSeconds(d.y, d.m, d.d + c.rng.unit() * 0.99999);
   if (mjd >= 41317) VF_CHECK("leap.dayfraction", g2 == g, d.y << "-" << d.m << "-" << d.d);
}

static double taiMinus(TimeSystem s, double utcoff, double tdb)
{
   switch (s)
   {
      case TimeSystem::GPS: case TimeSystem::GAL: case TimeSystem::IRN: return 19;
      case TimeSystem::BDT: return 33;
      case TimeSystem::UTC: case TimeSystem::GLO: return utcoff;
      case TimeSystem::TAI: return 0;
      case TimeSystem::TT: return -32.184;
      default: return -32.184 - tdb;
   }
}
static void corr(vf::Case& c)
{
   vf::Rng& r = c.rng;
   long mjd = genLeapDay(r); Ymd d = civil(mjd + J_MJD0);
   double fr = r.chance(0.3) ? 0 : r.unif(0, 0.999999);
   TimeSystem a = r.pick(CONV), b = r.pick(CONV), m = r.pick(CONV);
   std::string ctx = StringUtils::asString(a) + "->" + StringUtils::asString(b) + " mjd " + std::to_string(mjd + fr);
   c.note(ctx); c.distinct(ctx);
   double x = getTimeSystemCorrection(a, b, d.y, d.m, d.d + fr);
      // TDB-TT: Astronomical Almanac expression, never beyond 2 ms
   double T = mjd + fr - 51544.5, DEG = M_PI / 180;
   double tdb = 0.0001657 * sin(std::fmod(357.53 + 0.98560028 * T, 360.) * DEG) + 0.000022 * sin(std::fmod(246.11 + 0.90251792 * T, 360.) * DEG);
   double u = (mjd >= 41317 || mjd < 36934) ? utcRef(mjd, fr) : getLeapSeconds(d.y, d.m, d.d + fr);
   bool isT = a == TimeSystem::TDB || b == TimeSystem::TDB;
   double want = a == b ? 0 : taiMinus(a, u, tdb) - taiMinus(b, u, tdb);
   c.maximum("corr_err_s", std::fabs(x - want));
      // sign convention of the small TDB term is not pinned: it is bounded instead
   VF_CHECK("corr.value", vf::close(x, want, isT ? 4.2e-4 : 1e-9), ctx << " got " << x << " want " << want);
   VF_CHECK("corr.antisym", vf::close(x, -getTimeSystemCorrection(b, a, d.y, d.m, d.d + fr), 1e-12), ctx);
   VF_CHECK("corr.compose", vf::close(getTimeSystemCorrection(a, m, d.y, d.m, d.d + fr) + getTimeSystemCorrection(m, b, d.y, d.m, d.d + fr), x, 1e-9), ctx << " via " << StringUtils::asString(m));
   if (isT && a != b)
   {
      TimeSystem o = a == TimeSystem::TDB ? b : a;
      double per = (a == TimeSystem::TDB ? 1 : -1) * (x - (taiMinus(a, u, 0) - taiMinus(b, u, 0)));
      VF_CHECK("corr.tdbterm", vf::close(std::fabs(per), std::fabs(tdb), 1e-8), ctx << " term " << per << " want " << tdb << " other " << StringUtils::asString(o));
   }
   VF_CHECK("corr.identity", getTimeSystemCorrection(a, a, d.y, d.m, d.d + fr) == 0, ctx);
   VF_THROWS("corr.unknown", gpstk::Exception, getTimeSystemCorrection(a, TimeSystem::Unknown, d.y, d.m, d.d), ctx);
   VF_THROWS("corr.unknown", gpstk::Exception, getTimeSystemCorrection(TimeSystem::Unknown, a, d.y, d.m, d.d), ctx);
   VF_THROWS("corr.any", gpstk::Exception, getTimeSystemCorrection(TimeSystem::Any, a, d.y, d.m, d.d), ctx);
}

static void names(vf::Case& c)
{
   for (TimeSystem s : SYSTEMS)
   {
      c.distinct((uint64_t)s);
      VF_CHECK("names.roundtrip", StringUtils::asTimeSystem(StringUtils::asString(s)) == s, StringUtils::asString(s));
      std::ostringstream o; o << s;
      VF_CHECK("names.stream", o.str() == StringUtils::asString(s), o.str());
   }
   VF_CHECK("names.unknown", StringUtils::asTimeSystem(c.rng.str(5, "abcXYZ")) == TimeSystem::Unknown, "");
}

static void tsc(vf::Case& c)
{
   vf::Rng& r = c.rng;
   struct K { const char* n; TimeSystem f, t; int kind; };   // kind: 1 poly, 2 constant, 0 unimplemented
   static const std::vector<K> ks = {
      {"GPUT",TimeSystem::GPS,TimeSystem::UTC,1},{"GAUT",TimeSystem::GAL,TimeSystem::UTC,1},{"SBUT",TimeSystem::GPS,TimeSystem::UTC,0},
      {"GLUT",TimeSystem::GLO,TimeSystem::UTC,2},{"GPGA",TimeSystem::GPS,TimeSystem::GAL,1},{"GLGP",TimeSystem::GLO,TimeSystem::GPS,2},
      {"QZGP",TimeSystem::QZS,TimeSystem::GPS,3},{"QZUT",TimeSystem::QZS,TimeSystem::UTC,1},{"BDUT",TimeSystem::BDT,TimeSystem::UTC,1},
      {"BDGP",TimeSystem::BDT,TimeSystem::GPS,1},{"IRUT",TimeSystem::IRN,TimeSystem::UTC,1},{"IRGP",TimeSystem::IRN,TimeSystem::GPS,1} };
   K k = r.pick(ks);
   std::string nm = k.n; if (nm == "GPGA" && r.chance(0.4)) nm = "GAGP";
   if (r.chance(0.2)) for (auto& ch : nm) ch = tolower(ch);
   TimeSystemCorrection x(nm);
   VF_CHECK("tsc.type", x.asString4() == k.n && x.frTS == k.f && x.toTS == k.t, nm << " " << x.asString4());
   x.A0 = r.chance(0.1) ? 0 : r.logmag(1e-12, 20); x.A1 = r.chance(0.2) ? 0 : r.logmag(1e-16, 1e-8);
   x.refWeek = r.range(0, 3000); x.refSOW = r.range(0, 604799);
   long rday = J_GPS + 7 * x.refWeek + x.refSOW / 86400, rms = (x.refSOW % 86400) * 1000;
   long ms; double fs; genSod(r, ms, fs);
   long day = r.chance(0.7) ? rday + r.range(-40, 40) : J_GPS + r.range(0, 20000);
   bool fwd = r.chance(0.5);
   CommonTime t; t.setInternal(day, ms, fs, fwd ? k.f : k.t);
   double dt = (day - rday) * 86400.0 + (ms - rms) / 1000.0 + fs;
   std::string ctx = nm + (fwd ? " fwd " : " back ") + show(t); c.note(ctx); c.distinct(ctx);
   VF_CHECK("tsc.isconv", x.isConverterFor(k.f, k.t) && x.isConverterFor(k.t, k.f), ctx);
   for (TimeSystem s : SYSTEMS)
   {
      if (s == TimeSystem::Unknown) { VF_THROWS("tsc.isconv.unknown", gpstk::Exception, x.isConverterFor(s, k.f), ctx); continue; }
      if (s != k.f && s != k.t) VF_CHECK("tsc.notconv", !x.isConverterFor(s, k.f) && !x.isConverterFor(k.t, s), ctx);
      if (s != k.f && s != k.t && s != TimeSystem::Any)
      {
         CommonTime w(t); w.setTimeSystem(s);
         VF_THROWS("tsc.wrongsystem", gpstk::Exception, x.Correction(w), ctx << " sys " << StringUtils::asString(s));
      }
   }
   VF_THROWS("tsc.identical", gpstk::Exception, x.isConverterFor(k.f, k.f), ctx);
   if (k.kind == 0) { VF_THROWS("tsc.sbas", gpstk::Exception, x.Correction(t), ctx); return; }
   double v = x.Correction(t);
   CommonTime o(t); o.setTimeSystem(fwd ? k.t : k.f);
   double w = x.Correction(o);
   VF_CHECK("tsc.antisym", vf::close(v, -w, 1e-15, 1e-12), ctx << " " << v << " " << w);
   if (k.kind == 3) return;
   double want = x.A0 + (k.kind == 1 ? x.A1 * dt : 0);
   VF_CHECK("tsc.value", vf::close(std::fabs(v), std::fabs(want), 1e-15, 1e-9), ctx << " A0 " << x.A0 << " A1 " << x.A1 << " dt " << dt << " got " << v);
   std::string K4 = k.n;
   if (K4 != "GPGA" && K4 != "BDGP" && K4 != "GLGP" && K4 != "GLUT")   // RINEX 3: XXUT, XXGP = XX minus target
      VF_CHECK("tsc.sign", vf::close(v, fwd ? -want : want, 1e-15, 1e-9), ctx << " got " << v << " want " << want);
   TimeSystemCorrection y(k.n), z("GPUT");
   VF_CHECK("tsc.order", x == y && !(x < y) && ((x == z) == (std::string(k.n) == "GPUT")) && !((x < z) && (z < x)), ctx);
   VF_THROWS("tsc.badname", gpstk::Exception, TimeSystemCorrection q(r.str(4, "GPUTXYZ") + "?"), ctx);
}

static void ephtime(vf::Case& c)
{
   vf::Rng& r = c.rng;
   long mjd = r.chance(0.5) ? genLeapDay(r) : r.range(41317, 70000);
   if (mjd < 1) mjd = 1 - mjd;
   double sod = r.chance(0.2) ? 0 : r.chance(0.2) ? r.unif(86390, 86399.999) : r.unif(0, 86399.999);
   static const TimeSystem S3[3] = { TimeSystem::UTC, TimeSystem::TT, TimeSystem::TDB };
   TimeSystem a = S3[r.below(3)], b = S3[r.below(3)];
   EphTime e((int)mjd, sod, a);
   std::ostringstream os; os << std::setprecision(12) << mjd << " " << sod << " " << StringUtils::asString(a) << "->" << StringUtils::asString(b);
   c.note(os.str()); c.distinct(os.str());
   auto diff = [](const EphTime& x, long m, double s) { return (x.lMJD() - m) * 86400.0 + (x.secOfDay() - s); };
   EphTime p(e); double add = r.chance(0.5) ? r.unif(-200000, 200000) : r.logmag(1e-6, 1e5);
   p += add;
   VF_CHECK("eph.add", vf::close(diff(p, mjd, sod), add, 1e-9) && p.secOfDay() >= 0 && p.secOfDay() <= 86400, os.str() << " add " << add << " -> " << p.lMJD() << " " << p.secOfDay());
   VF_CHECK("eph.year", e.year() == civil(mjd + J_MJD0).y || sod > 86399.9, os.str() << " year " << e.year());
   VF_CHECK("eph.dmjd", vf::close(e.dMJD(), mjd + sod / 86400, 1e-10), os.str());
      // CommonTime cast
   CommonTime ct = e; long D, M; double F; TimeSystem T; ct.getInternal(D, M, F, T);
   VF_CHECK("eph.cast", vf::close((D - J_MJD0 - mjd) * 86400.0 + M / 1000.0 + F - sod, 0, 3e-6) && T == a, os.str() << " " << show(ct));
   EphTime back(ct);
   VF_CHECK("eph.back", vf::close(diff(back, mjd, sod), 0, 5e-6), os.str());
      // conversions (away from the ambiguous second around a leap)
   EphTime q(e); q.convertSystemTo(b);
   long lm = mjd; Ymd cd = civil(lm + J_MJD0);
   double want = getTimeSystemCorrection(a, b, cd.y, cd.m, cd.d + sod / 86400);
   VF_CHECK("eph.convert", vf::close(diff(q, mjd, sod), want, 1e-8), os.str() << " moved " << diff(q, mjd, sod) << " want " << want);
   CommonTime qc = q; VF_CHECK("eph.convert.system", qc.getTimeSystem() == b, os.str());
   if (mjd > 41318)
   {
      bool edge = sod < 100 || sod > 86300;
      EphTime q2(q); q2.convertSystemTo(a);
      if (!edge) VF_CHECK("eph.convert.back", vf::close(diff(q2, mjd, sod), 0, 1e-8), os.str());
         // from a GNSS time: the UTC instant, labelled UTC
      static const TimeSystem G[6] = { TimeSystem::GPS, TimeSystem::GAL, TimeSystem::BDT, TimeSystem::GLO, TimeSystem::TAI, TimeSystem::IRN };
      TimeSystem g = G[r.below(6)];
      CommonTime gt; gt.setInternal(mjd + J_MJD0, (long)(sod * 1000), 0, g);
      double gs = (long)(sod * 1000) / 1000.0;
      if (!edge)
      {
         EphTime ge(gt);
         double u = leapRef(mjd), w = taiMinus(g, u, 0) - u;
         VF_CHECK("eph.gnss.value", vf::close(diff(ge, mjd, gs), w, 5e-6), os.str() << " from " << StringUtils::asString(g) << " moved " << diff(ge, mjd, gs) << " want " << w);
         CommonTime gc = ge;
         VF_CHECK("eph.gnss.system", gc.getTimeSystem() == TimeSystem::UTC, os.str() << " from " << StringUtils::asString(g));
         EphTime gtt(ge); gtt.convertSystemTo(TimeSystem::TT);
         VF_CHECK("eph.gnss.tt", vf::close(diff(gtt, mjd, gs), taiMinus(g, u, 0) + 32.184, 5e-6), os.str() << " from " << StringUtils::asString(g));
      }
   }
   if (mjd >= 44244)
   {
      std::istringstream is(EphTime((int)mjd, sod, a).asGPSString(4)); long wk; double sow; is >> wk >> sow;
      VF_CHECK("eph.gpsstring", (bool)is && vf::close((wk * 7 + 44244 - mjd) * 86400.0 + sow, sod, 6e-5) && sow >= 0 && sow <= 604800, os.str() << " " << e.asGPSString(4));
   }
   {
      std::istringstream is(e.asMJDString(4)); long m; int h, mi; char c1, c2; double s; is >> m >> h >> c1 >> mi >> c2 >> s;
      VF_CHECK("eph.mjdstring", (bool)is && m == mjd && vf::close(h * 3600 + mi * 60 + s, sod, 6e-5), os.str() << " " << e.asMJDString(4));
   }
   static const TimeSystem BAD[4] = { TimeSystem::GPS, TimeSystem::Unknown, TimeSystem::TAI, TimeSystem::GLO };
   VF_THROWS("eph.notallowed", gpstk::Exception, e.setTimeSystem(BAD[r.below(4)]), os.str());
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, { {"leap", 54800, 54800, leapTable}, {"corr", 60000, 2000000, corr}, {"names", 20, 20, names},
      {"tsc", 60000, 2000000, tsc}, {"ephtime", 60000, 2000000, ephtime} });
}
