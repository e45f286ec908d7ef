// C15: evaluation of broadcast Kepler orbits and clocks
#include "vf.hpp"
#include "kepler.hpp"
#include "OrbitEph.hpp"
#include "OrbElem.hpp"
#include "BDSEphemeris.hpp"
#include "BrcKeplerOrbit.hpp"
#include "BrcClockCorrection.hpp"
#include "AlmOrbit.hpp"
#include "GPSWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
using namespace gpstk;

struct TestElem : public OrbElem
{
   OrbElem* clone() const override { return new TestElem(*this); }
   std::string getName() const override { return "T"; }
   std::string getNameLong() const override { return "test"; }
   void adjustBeginningValidity() override {}
   void dumpTerse(std::ostream&) const override {}
};

static const double P2 = 2 * 3.14159265358979323846;
struct Gen
{
   SatelliteSystem sys; TimeSystem ts; kep::El k; double v[20]; int week; double sow, dt;
   CommonTime toe, t; double af0, af1, af2; CommonTime toc; std::string str;
};

static Gen make(vf::Case& c, SatelliteSystem s, bool lnav, bool geo)
{
   vf::Rng& r = c.rng; Gen g; g.sys = s;
   g.ts = s == SatelliteSystem::BeiDou ? TimeSystem::BDT : s == SatelliteSystem::Galileo ? TimeSystem::GAL : s == SatelliteSystem::QZSS ? TimeSystem::QZS : TimeSystem::GPS;
   bool bds = s == SatelliteSystem::BeiDou, gal = s == SatelliteSystem::Galileo;
   g.k.mu = bds || gal ? 3.986004418e14L : 3.986005e14L; g.k.om = bds ? 7.292115e-5L : 7.2921151467e-5L;
   g.k.geo = geo;
   g.week = (int)r.range(1, 3000); g.sow = r.chance(0.25) ? r.pick({0.0, 604784.0, 16.0, 302400.0, 597600.0, 7200.0}) : (double)r.range(0, 37799) * 16;
   auto near = [&](double m) { return r.chance(0.12) ? 0.0 : r.chance(0.15) ? (r.chance(0.5) ? m : -m) : r.unif(-m, m); };
   double e = r.chance(0.5) ? r.unif(0, 0.03) : r.chance(0.1) ? 0.0 : r.unif(0, 0.5);
   double A = r.chance(0.6) ? r.pick({26559710.0, 27906100.0, 29600318.0, 42164200.0}) + r.unif(-50000, 50000) : r.unif(8e6, 5e7);
   double ah = std::sqrt(A); if (lnav) A = ah * ah;
   double x[] = { near(P2 / 2), near(2e-8), lnav ? 0.0 : near(2e-14), e, A, lnav ? 0.0 : near(0.1), near(P2 / 2),
                  geo ? r.unif(0.0, 0.12) : r.unif(bds ? 0.13 : 0.05, 3.0), near(P2 / 2), near(3e-8), near(1e-9),
                  near(6e-5), near(6e-5), near(1000), near(1000), near(6e-5), near(6e-5) };
   for (int i = 0; i < 17; i++) g.v[i] = x[i];
   g.v[17] = ah;
   kep::El& k = g.k; k.toeSow = g.sow; k.M0 = x[0]; k.dn = x[1]; k.dndot = x[2]; k.e = x[3]; k.A = x[4]; k.Adot = x[5]; k.O0 = x[6]; k.i0 = x[7]; k.w = x[8]; k.Od = x[9]; k.idot = x[10];
   k.Cuc = x[11]; k.Cus = x[12]; k.Crc = x[13]; k.Crs = x[14]; k.Cic = x[15]; k.Cis = x[16];
   CommonTime base; if (bds) base = BDSWeekSecond(g.week, g.sow); else if (gal) base = GALWeekSecond(g.week, g.sow); else if (s == SatelliteSystem::QZSS) base = QZSWeekSecond(g.week, g.sow); else base = GPSWeekSecond(g.week, g.sow);
   g.toe = base;
   switch (r.below(5)) { case 0: g.dt = 0; break; case 1: g.dt = r.pick({7200.0, -7200.0, 1.0, -1.0, 3600.0}); break; case 2: g.dt = r.unif(-400000, 400000); break; default: g.dt = r.unif(-10000, 10000); }
   g.t = g.toe; g.t += g.dt; g.dt = g.t - g.toe;
   g.toc = g.toe; g.toc += (double)r.range(-10, 10) * 16; g.af0 = near(1e-3); g.af1 = near(1e-9); g.af2 = near(1e-15);
   std::ostringstream o; o.precision(17); o << convertSatelliteSystemToString(s) << (geo ? " GEO" : "") << " week " << g.week << " toe " << g.sow << " dt " << g.dt;
   static const char* nm[] = {"M0", "dn", "dndot", "e", "A", "Adot", "O0", "i0", "w", "Od", "idot", "Cuc", "Cus", "Crc", "Crs", "Cic", "Cis"};
   for (int i = 0; i < 17; i++) o << " " << nm[i] << "=" << g.v[i];
   g.str = o.str(); c.note(g.str); c.distinct(g.str); c.sample(g.str); return g;
}
template <class T> static void fill(T& o, const Gen& g, int prn)
{
   o.dataLoadedFlag = true; o.satID = SatID(prn, g.sys); o.ctToe = g.toe; o.ctToc = g.toc; o.af0 = g.af0; o.af1 = g.af1; o.af2 = g.af2;
   const double* x = g.v; o.M0 = x[0]; o.dn = x[1]; o.dndot = x[2]; o.ecc = x[3]; o.A = x[4]; o.Adot = x[5]; o.OMEGA0 = x[6]; o.i0 = x[7]; o.w = x[8]; o.OMEGAdot = x[9]; o.idot = x[10];
   o.Cuc = x[11]; o.Cus = x[12]; o.Crc = x[13]; o.Crs = x[14]; o.Cic = x[15]; o.Cis = x[16];
}
static void judge(vf::Case& c, const std::string& who, const Gen& g, const Xvt& sv)
{
   kep::V3 p = kep::pos(g.k, g.dt, g.dt), v = kep::vel(g.k, g.dt);
   double dp = (double)sqrtl((sv.x[0] - p.x) * (sv.x[0] - p.x) + (sv.x[1] - p.y) * (sv.x[1] - p.y) + (sv.x[2] - p.z) * (sv.x[2] - p.z));
   double dv = (double)sqrtl((sv.v[0] - v.x) * (sv.v[0] - v.x) + (sv.v[1] - v.y) * (sv.v[1] - v.y) + (sv.v[2] - v.z) * (sv.v[2] - v.z));
   c.maximum("pos_err_m:" + who, dp); c.maximum("vel_err_mps:" + who, dv);
   VF_CHECK("pos." + who, dp < 2e-5, g.str << " got " << sv.x << " off by " << dp << " m");
   VF_CHECK("vel." + who, dv < 1e-7, g.str << " got " << sv.v << " off by " << dv << " m/s");
}
static void clockrel(vf::Case& c, const std::string& who, const Gen& g, const Xvt& sv, double bias, double drift, double rel)
{
   long double d = g.t - g.toc, b = g.af0 + d * (g.af1 + d * (long double)g.af2), dr = g.af1 + 2 * d * (long double)g.af2, rl = kep::rel(g.k, g.dt);
   double ra = 4.5e-10 * g.v[3] * std::sqrt(g.v[4]) * std::fabs(0.5 * g.v[2] * g.dt * g.dt) / (1 - g.v[3]);
   VF_CHECK("clk.bias." + who, std::fabs(bias - (double)b) < 1e-18 + 1e-15 * std::fabs((double)b) + 1e-14 * std::fabs(g.af1 * (double)d) && sv.clkbias == bias, g.str << " bias " << bias << " in Xvt " << sv.clkbias << " want " << (double)b);
   VF_CHECK("clk.drift." + who, std::fabs(drift - (double)dr) < 1e-24 + 1e-14 * (std::fabs(g.af1) + std::fabs(g.af2 * (double)d)) && sv.clkdrift == drift, g.str << " drift " << drift << " in Xvt " << sv.clkdrift << " want " << (double)dr);
   VF_CHECK("rel." + who, std::fabs(rel - (double)rl) < 1e-16 + ra && std::fabs(sv.relcorr - rel) <= ra, g.str << " relativity " << rel << " in Xvt " << sv.relcorr << " want " << (double)rl);
      // the broadcast constant is -2 r.v / c^2 for an unperturbed orbit
   double rv = (sv.x[0] * sv.v[0] + sv.x[1] * sv.v[1] + sv.x[2] * sv.v[2]);
   (void)rv;
}
static SatelliteSystem pickSys(vf::Rng& r) { return r.pick({SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::QZSS}); }

static void orbiteph(vf::Case& c)
{
   vf::Rng& r = c.rng; Gen g = make(c, pickSys(r), false, false); OrbitEph o;
   VF_THROWS("unloaded.OrbitEph", InvalidRequest, o.svXvt(g.t), ""); VF_THROWS("unloaded.OrbitEph", InvalidRequest, o.svClockBias(g.t), ""); VF_THROWS("unloaded.OrbitEph", InvalidRequest, o.svRelativity(g.t), "");
   fill(o, g, (int)r.range(1, 32)); Xvt sv = o.svXvt(g.t);
   judge(c, "OrbitEph", g, sv); clockrel(c, "OrbitEph", g, sv, o.svClockBias(g.t), o.svClockDrift(g.t), o.svRelativity(g.t));
   std::unique_ptr<OrbitEph> q(o.clone()); Xvt s2 = q->svXvt(g.t); bool same = true; for (int i = 0; i < 3; i++) same = same && s2.x[i] == sv.x[i] && s2.v[i] == sv.v[i];
   VF_CHECK("clone.OrbitEph", same && s2.clkbias == sv.clkbias, g.str);
}
static void orbelem(vf::Case& c)
{
   vf::Rng& r = c.rng; Gen g = make(c, r.pick({SatelliteSystem::GPS, SatelliteSystem::BeiDou, SatelliteSystem::QZSS}), false, false); TestElem o;
   o.dataLoadedFlag = false; VF_THROWS("unloaded.OrbElem", InvalidRequest, o.svXvt(g.t), ""); VF_THROWS("unloaded.OrbElem", InvalidRequest, o.svClockBias(g.t), "");
   fill(o, g, (int)r.range(1, 32)); bool h = r.chance(0.5); o.setHealthy(h); Xvt sv = o.svXvt(g.t);
   judge(c, "OrbElem", g, sv); clockrel(c, "OrbElem", g, sv, o.svClockBias(g.t), o.svClockDrift(g.t), o.svRelativity(g.t));
   VF_CHECK("health.OrbElem", sv.health == (h ? Xvt::Healthy : Xvt::Unhealthy), g.str); VF_CHECK("biasM", vf::relerr(o.svClockBiasM(g.t), o.svClockBias(g.t) * 299792458.0) < 1e-15, g.str);
   VF_CHECK("same.self", o.isSameData(&o) && o.compare(&o).empty(), g.str);
   TestElem q(o); double* f[] = {&q.Cuc, &q.Cus, &q.Crc, &q.Crs, &q.Cic, &q.Cis, &q.M0, &q.dn, &q.dndot, &q.ecc, &q.A, &q.Adot, &q.OMEGA0, &q.i0, &q.w, &q.OMEGAdot, &q.idot, &q.af0, &q.af1, &q.af2};
   size_t k = r.below(22); if (k < 20) *f[k] = *f[k] == 0 ? 1e-3 : *f[k] * 1.001; else if (k == 20) q.ctToe += 16; else q.ctToc += 16;
   VF_CHECK("same.differs", !o.isSameData(&q) && !q.isSameData(&o) && !o.compare(&q).empty(), g.str << " changed field " << k);
}
static void bdsgeo(vf::Case& c)
{
   vf::Rng& r = c.rng; bool geo = r.chance(0.7); Gen g = make(c, SatelliteSystem::BeiDou, geo, geo); BDSEphemeris o;
   fill(o, g, (int)r.range(1, 5)); o.health = r.chance(0.5) ? 0 : 1; Xvt sv = o.svXvt(g.t);
   judge(c, geo ? "BDS.geo" : "BDS.meo", g, sv); clockrel(c, "BDS", g, sv, o.svClockBias(g.t), o.svClockDrift(g.t), o.svRelativity(g.t));
   if (geo) VF_CHECK("health.BDS", sv.health == (o.health == 0 ? Xvt::Healthy : Xvt::Unhealthy), g.str);
}
static void brckep(vf::Case& c)
{
   vf::Rng& r = c.rng; Gen g = make(c, SatelliteSystem::GPS, r.chance(0.5), false); g.v[17] = std::sqrt(g.v[4]); const double* x = g.v; bool h = r.chance(0.5);
   ObsID ob(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA); CommonTime b = g.toe, e = g.toe; b -= 7200; e += 7200; short prn = (short)r.range(1, 32);
   BrcKeplerOrbit o("G", ob, prn, b, e, g.toe, 2, h, x[11], x[12], x[13], x[14], x[15], x[16], x[0], x[1], x[2], x[3], x[4], x[17], x[5], x[6], x[7], x[8], x[9], x[10]);
   Xvt sv = o.svXvt(g.t); judge(c, "BrcKepler", g, sv); double rl = (double)kep::rel(g.k, g.dt);
   bool rates = x[2] != 0 || x[5] != 0; VF_CHECK(rates ? "rel.BrcKepler.rates" : "rel.BrcKepler", std::fabs(o.svRelativity(g.t) - rl) < 1e-16 && sv.relcorr == o.svRelativity(g.t), g.str << " " << o.svRelativity(g.t) << " want " << rl);
   VF_CHECK("health.BrcKepler", sv.health == (h ? Xvt::Healthy : Xvt::Unhealthy) && o.isHealthy() == h, g.str);
   CommonTime inside = b; inside += r.unif(0, 14400); CommonTime a1 = b, a2 = e; a1 -= 1e-3; a2 += 1e-3;
   VF_CHECK("fit.BrcKepler", o.withinFitInterval(inside) && o.withinFitInterval(b) && o.withinFitInterval(e) && !o.withinFitInterval(a1) && !o.withinFitInterval(a2), g.str);
   VF_CHECK("fields.BrcKepler", o.getCuc() == x[11] && o.getCus() == x[12] && o.getCrc() == x[13] && o.getCrs() == x[14] && o.getCic() == x[15] && o.getCis() == x[16] && o.getM0() == x[0] && o.getDn() == x[1] && o.getDnDot() == x[2] && o.getAdot() == x[5] && o.getAhalf() == x[17] && o.getEcc() == x[3] && o.getA() == x[4] && o.getOmega0() == x[6] && o.getI0() == x[7] && o.getW() == x[8] && o.getOmegaDot() == x[9] && o.getIDot() == x[10] && o.getPRNID() == prn && o.getOrbitEpoch() == g.toe, g.str);
   BrcClockCorrection k("G", ob, prn, g.toc, g.toc, 3, 3, 3, true, g.af0, g.af1, g.af2); Xvt s2; s2.clkbias = k.svClockBias(g.t); s2.clkdrift = k.svClockDrift(g.t); s2.relcorr = rl;
   clockrel(c, "BrcClock", g, s2, k.svClockBias(g.t), k.svClockDrift(g.t), rl);
}
static void alm(vf::Case& c)
{
   vf::Rng& r = c.rng; Gen g = make(c, SatelliteSystem::GPS, true, false); double* x = g.v; kep::El& k = g.k;
   k.dn = k.Cuc = k.Cus = k.Crc = k.Crs = k.Cic = k.Cis = k.idot = 0; double io = r.unif(-0.2, 0.2); k.i0 = 0.3L * kep::PIL + io; g.dt *= r.pick({1.0, 1.0, 5.0}); g.t = g.toe; g.t += g.dt; g.dt = g.t - g.toe;
   short hl = (short)r.below(4); AlmOrbit o((short)r.range(1, 32), x[3], io, x[9], x[17], x[6], x[8], x[0], g.af0, g.af1, (long)g.sow, (long)g.sow, (short)g.week, hl);
   g.str += " i_offset=" + std::to_string(io); Xvt sv = o.svXvt(g.t); judge(c, "Alm", g, sv);
   double b = g.af0 + g.af1 * g.dt; VF_CHECK("clk.Alm", vf::close(sv.clkbias, b, 1e-18, 1e-12), g.str << " " << sv.clkbias << " want " << b);
   VF_CHECK("health.Alm", sv.health == (hl == 0 ? Xvt::Healthy : Xvt::Unhealthy), g.str);
   CommonTime ta = o.getToaTime(); VF_CHECK("toa.Alm", ta == g.toe, g.str << " " << ta);
}
int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"orbiteph", 12000, 400000, orbiteph}, {"orbelem", 9000, 300000, orbelem}, {"bdsgeo", 6000, 200000, bdsgeo}, {"brckep", 9000, 300000, brckep}, {"alm", 6000, 200000, alm}});
}
