// C16: validity windows, health and accuracy of broadcast ephemerides
#include "vf.hpp"
#include "GPSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "OrbitEph.hpp"
#include "GPS_URA.hpp"
#include "GPSWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
using namespace gpstk;

struct T { long week; double sow; double tot() const { return week * 604800.0 + sow; } };
template <class W> static CommonTime mk(double tot) { long w = (long)std::floor(tot / 604800); return W((int)w, tot - w * 604800.0).convertToCommonTime(); }
template <class E> static void probe(vf::Case& c, const std::string& k, const E& e, double b0, double e0, const std::function<CommonTime(double)>& at, const std::string& d)
{
   vf::Rng& r = c.rng; CommonTime wb = at(b0), we = at(e0);
   VF_CHECK(k + ".begin", e.beginValid == wb, d << " begin " << e.beginValid << " want " << wb); VF_CHECK(k + ".end", e.endValid == we, d << " end " << e.endValid << " want " << we);
   if (!(b0 <= e0)) return;
   double in = b0 + (e0 - b0) * r.unit(); VF_CHECK(k + ".inside", e.isValid(at(in)) && e.isValid(wb) && e.isValid(we), d);
   CommonTime x = wb, y = we; x -= r.pick({1e-3, 1.0, 3600.0}); y += r.pick({1e-3, 1.0, 3600.0}); VF_CHECK(k + ".outside", !e.isValid(x) && !e.isValid(y), d);
   std::unique_ptr<OrbitEph> q(e.clone()); VF_CHECK(k + ".clone", q->beginValid == e.beginValid && q->endValid == e.endValid && q->isValid(at(in)) && !q->isValid(x) && q->getName() == e.getName(), d);
}
// IS-GPS-200 table 20-XI / XII (and the retired Block II rows the library documents)
static int fitHours(int iodc, int flag)
{
   if (flag == 0) return 4;
   if (flag != 1 || iodc < 0 || iodc > 1023) return 4;
   int lo = iodc & 0xff; if (lo < 240) return 6;
   if (iodc <= 247) return 8;
   if (iodc <= 255 || iodc == 496) return 14;
   if ((iodc >= 497 && iodc <= 503) || iodc >= 1021) return 26;
   if (iodc >= 504 && iodc <= 510) return 50;
   if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
   if (iodc >= 757 && iodc <= 763) return 98;
   if ((iodc >= 764 && iodc <= 767) || (iodc >= 1008 && iodc <= 1010)) return 122;
   if (iodc >= 1011 && iodc <= 1020) return 146;
   return 4;
}
static T anyToe(vf::Rng& r) { T t; t.week = r.range(2, 3000); t.sow = r.chance(0.3) ? r.pick({0.0, 604784.0, 597600.0, 7200.0, 604792.0, 3600.0, 601200.0}) : (double)r.range(0, 604799) ; if (r.chance(0.6)) t.sow = std::floor(t.sow / 3600) * 3600; else if (r.chance(0.7)) t.sow = std::floor(t.sow / 16) * 16; return t; }

static void gps(vf::Case& c)
{
   vf::Rng& r = c.rng; GPSEphemeris e; T toe = anyToe(r); bool same = r.chance(0.85); double toc = same ? toe.tot() : toe.tot() + r.range(-20, 20) * 16.0; if (toc < 604800) toc = toe.tot();
   e.IODC = (short)(r.chance(0.6) ? r.range(0, 1023) : r.pick({239, 240, 247, 248, 255, 256, 495, 496, 497, 503, 504, 510, 511, 512, 751, 752, 756, 757, 763, 764, 767, 1007, 1008, 1010, 1011, 1020, 1021, 1023, 1024, -1})); int flag = (int)r.below(2);
   std::function<CommonTime(double)> at = [](double t) { return mk<GPSWeekSecond>(t); };
   e.ctToe = at(toe.tot()); e.ctToc = at(toc); double tx = toe.tot() - r.range(0, 4 * 3600); e.transmitTime = at(tx); long xs = (long)(tx - 604800.0 * std::floor(tx / 604800)); e.HOWtime = std::min(604799L, xs + (long)r.range(0, 29));
   e.satID = SatID((int)r.range(1, 32), SatelliteSystem::GPS); VF_CHECK("gps.table", GPSEphemeris::getFitInterval(e.IODC, (short)flag) == fitHours(e.IODC, flag), e.IODC << " flag " << flag << " gives " << GPSEphemeris::getFitInterval(e.IODC, (short)flag));
   VF_THROWS("gps.unloaded", InvalidRequest, e.adjustValidity(), ""); e.dataLoadedFlag = true; e.setFitIntervalFlag((short)flag); int h = fitHours(e.IODC, flag); e.adjustValidity();
   std::ostringstream d; d.precision(12); d << "GPS toe " << toe.week << "/" << toe.sow << " toc-toe " << toc - toe.tot() << " IODC " << e.IODC << " flag " << flag << " transmit " << tx << " HOW " << e.HOWtime; c.note(d.str()); c.distinct(d.str()); c.sample(d.str());
   double b; long tocs = (long)(toc - 604800.0 * std::floor(toc / 604800)); if (tocs % 7200 != 0) b = 604800.0 * std::floor(tx / 604800) + (e.HOWtime / 30) * 30; else b = toc - h / 2 * 3600.0;
   double up = std::ceil(toe.tot() / 3600) * 3600; probe(c, "gps", e, b, up + h / 2 * 3600.0, at, d.str());
   e.health = (short)r.below(64); if (r.chance(0.4)) e.health = 0; VF_CHECK("gps.health", e.isHealthy() == (e.health == 0), e.health);
   e.accuracyFlag = (short)r.range(-1, 17); static const double mx[] = {2.4, 3.4, 4.85, 6.85, 9.65, 13.65, 24, 48, 96, 192, 384, 768, 1536, 3072, 6144, 9.999999999999e99};
   VF_CHECK("gps.accuracy", e.getAccuracy() == mx[std::min(15, std::max(0, (int)e.accuracyFlag))], e.accuracyFlag << " " << e.getAccuracy());
}
static void others(vf::Case& c)
{
   vf::Rng& r = c.rng; T toe = anyToe(r); double tx = toe.tot() + r.range(-7200, 7200); std::ostringstream d; d.precision(12); d << "toe " << toe.week << "/" << toe.sow << " transmit " << tx; c.note(d.str()); c.distinct(d.str());
   {
      BDSEphemeris e; std::function<CommonTime(double)> at = [](double t) { return mk<BDSWeekSecond>(t); }; e.ctToe = at(toe.tot()); e.ctToc = e.ctToe; e.transmitTime = at(tx); VF_THROWS("bds.unloaded", InvalidRequest, e.adjustValidity(), ""); VF_THROWS("bds.unloaded", InvalidRequest, e.isHealthy(), ""); e.dataLoadedFlag = true; e.satID = SatID(7, SatelliteSystem::BeiDou);
      e.adjustValidity(); probe(c, "bds", e, std::max(toe.tot(), tx), toe.tot() + 604800.0, at, "BDS " + d.str()); e.health = (short)r.below(3); VF_CHECK("bds.health", e.isHealthy() == (e.health == 0), e.health);
   }
   {
      QZSEphemeris e; std::function<CommonTime(double)> at = [](double t) { return mk<QZSWeekSecond>(t); }; e.ctToe = at(toe.tot()); e.ctToc = e.ctToe; e.transmitTime = at(tx); e.fitDuration = 2; VF_THROWS("qzs.unloaded", InvalidRequest, e.adjustValidity(), ""); e.dataLoadedFlag = true; e.satID = SatID(194, SatelliteSystem::QZSS); int f = (int)r.below(2);
      e.setFitIntervalFlag((short)f); VF_CHECK("qzs.fit", e.fitDuration == (f ? 4 : 2), f); probe(c, "qzs", e, tx, toe.tot() + (f ? 4 : 2) * 1800.0, at, "QZS " + d.str());
      e.health = (short)r.below(64); VF_CHECK("qzs.health", e.isHealthy() == ((e.health & 0x1e) == 0), e.health); for (int w = -1; w <= 7; w++) VF_CHECK("qzs.signal", e.isHealthy(w) == (w >= 1 && w <= 5 && !(e.health & (1 << (w - 1)))), e.health << " signal " << w);
   }
   {
      GalEphemeris e; std::function<CommonTime(double)> at = [](double t) { return mk<GALWeekSecond>(t); }; e.ctToe = at(toe.tot()); e.ctToc = e.ctToe; e.transmitTime = at(tx); VF_THROWS("gal.unloaded", InvalidRequest, e.adjustValidity(), ""); e.dataLoadedFlag = true; e.satID = SatID(11, SatelliteSystem::Galileo);
      e.adjustValidity(); probe(c, "gal", e, tx, toe.tot() + 14400.0, at, "GAL " + d.str());
      unsigned short s = (unsigned short)r.below(4), v = (unsigned short)r.below(2), a = (unsigned short)(r.chance(0.3) ? 255 : r.below(256)); Xvt::HealthStatus w = s == 1 || s == 3 ? Xvt::Unhealthy : s == 2 || v == 1 || a == 255 ? Xvt::Degraded : Xvt::Healthy;
      e.health = GalEphemeris::deriveHealth(s, v, a); VF_CHECK("gal.health", e.health == w && e.isHealthy() == (w == Xvt::Healthy), s << " " << v << " " << a);
   }
   {
      OrbitEph e; std::function<CommonTime(double)> at = [](double t) { return mk<GPSWeekSecond>(t); }; e.ctToe = at(toe.tot()); VF_THROWS("orb.unloaded", InvalidRequest, e.isValid(e.ctToe), ""); VF_THROWS("orb.unloaded", InvalidRequest, e.adjustValidity(), ""); VF_THROWS("orb.unloaded", InvalidRequest, e.isHealthy(), "");
      e.dataLoadedFlag = true; e.satID = SatID(3, SatelliteSystem::GPS); e.adjustValidity(); probe(c, "orb", e, toe.tot() - 7200, toe.tot() + 7200, at, "ORB " + d.str()); VF_CHECK("orb.health", e.isHealthy(), "");
   }
}
static void ura(vf::Case& c)
{
   vf::Rng& r = c.rng; static const double mx[] = {2.4, 3.4, 4.85, 6.85, 9.65, 13.65, 24, 48, 96, 192, 384, 768, 1536, 3072, 6144, 9.999999999999e99};
   static const double nm[] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 9.999999999999e99};
   static const double cm[] = {0.01, 0.02, 0.03, 0.04, 0.06, 0.08, 0.11, 0.15, 0.21, 0.30, 0.43, 0.60, 0.85, 1.20, 1.7, 2.4, 3.4, 4.85, 6.85, 9.65, 13.65, 24, 48, 96, 192, 384, 768, 1536, 3072, 6144, 9.999999999999e99};
   double a = 0; switch (r.below(5)) { case 0: a = mx[r.below(16)]; break; case 1: a = nm[r.below(16)]; break; case 2: a = cm[r.below(31)]; break; default: a = std::exp(r.unif(std::log(1e-4), std::log(2e4))); }
   if (r.chance(0.2)) a = std::nextafter(a, r.chance(0.5) ? 0 : 1e300); if (r.chance(0.05)) a = r.pick({0.0, -1.0, 1e200}); c.distinct(std::to_string(a) + std::to_string(r.u64()));
   auto first = [&](const double* t, int n) { int i = 0; while (i < n && a > t[i]) i++; return std::min(i, n - 1); };
   VF_CHECK("ura.legacy", accuracy2ura(a) == first(mx, 16), a << " -> " << accuracy2ura(a)); VF_CHECK("ura.nominal", nominalAccuracy2ura(a) == first(nm, 16), a << " -> " << nominalAccuracy2ura(a)); VF_CHECK("ura.cnav", accuracy2CNAVura(a) == first(cm, 31) - 15, a << " -> " << accuracy2CNAVura(a));
   short u = (short)r.range(-40, 40); VF_CHECK("ura.value", ura2accuracy(u) == mx[std::min(15, std::max(0, (int)u))] && ura2nominalAccuracy(u) == nm[std::min(15, std::max(0, (int)u))], u);
   if (u < -15 || u > 15) { VF_THROWS("ura.cnav.range", InvalidRequest, ura2CNAVaccuracy(u), u); VF_THROWS("ura.cnav.range", InvalidRequest, ura2CNAVNominalaccuracy(u), u); }
   else
   {
      VF_CHECK("ura.cnav.value", ura2CNAVaccuracy(u) == cm[u + 15] && accuracy2CNAVura(ura2CNAVaccuracy(u)) == u, u);
         // IS-GPS-200 30.3.3.1.1.4: nominal value 2^(1+N/2) for N<=6, 2^(N-2) above, index 15 not usable
      double w = u == 15 ? 9.999999999999e99 : u == 1 ? 2.8 : u == 3 ? 5.7 : u == 5 ? 11.3 : u <= 6 ? std::pow(2.0, 1 + u / 2.0) : std::pow(2.0, u - 2.0);
      double g = ura2CNAVNominalaccuracy(u); VF_CHECK("ura.cnav.nominal", vf::relerr(g, w) < 5e-5, u << " " << g << " want " << w);
   }
   if (u >= 0 && u <= 15) VF_CHECK("ura.round", accuracy2ura(ura2accuracy(u)) == u && nominalAccuracy2ura(ura2nominalAccuracy(u)) == u, u);
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"gps", 20000, 500000, gps}, {"others", 8000, 200000, others}, {"ura", 15000, 300000, ura}}); }
