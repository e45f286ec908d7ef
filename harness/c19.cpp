// C19: GLONASS ephemeris: orbit integration and store
#include "vf.hpp"
#include "GloEphemeris.hpp"
#include "GloEphemerisStore.hpp"
#include "Rinex3NavData.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
using namespace gpstk;
typedef long double L;

struct G { int sat; double t; L p[3], v[3], a[3]; double tau, gam; int health, freq; double age; long mf; };   // km, km/s
struct S6 { L s[6]; };
// motion in the Earth-fixed frame, GLONASS interface document
static S6 deriv(const S6& q, const L* a)
{
   const L mu = 398600.4418L, ae = 6378.136L, J2 = 1.08262575e-3L, w = 7.292115e-5L; const L *x = q.s, *v = q.s + 3; L r2 = x[0]*x[0] + x[1]*x[1] + x[2]*x[2], r = sqrtl(r2), m = mu / (r2 * r), k = 1.5L * J2 * m * ae * ae / r2, z2 = 5 * x[2] * x[2] / r2; S6 d;
   for (int i = 0; i < 3; i++) d.s[i] = v[i];
   d.s[3] = -m * x[0] - k * x[0] * (1 - z2) + w * w * x[0] + 2 * w * v[1] + a[0]; d.s[4] = -m * x[1] - k * x[1] * (1 - z2) + w * w * x[1] - 2 * w * v[0] + a[1]; d.s[5] = -m * x[2] - k * x[2] * (3 - z2) + a[2]; return d;
}
static S6 propagate(const G& g, L dt)
{
   S6 q; for (int i = 0; i < 3; i++) { q.s[i] = g.p[i]; q.s[i+3] = g.v[i]; } int n = (int)(fabsl(dt) / 5) + 1; L h = dt / n; auto add = [](const S6& a, const S6& b, L f) { S6 c; for (int i = 0; i < 6; i++) c.s[i] = a.s[i] + f * b.s[i]; return c; };
   for (int k = 0; k < n; k++) { S6 a = deriv(q, g.a), b = deriv(add(q, a, h / 2), g.a), c = deriv(add(q, b, h / 2), g.a), d = deriv(add(q, c, h), g.a); for (int i = 0; i < 6; i++) q.s[i] += h / 6 * (a.s[i] + 2 * b.s[i] + 2 * c.s[i] + d.s[i]); }
   return q;
}
static G random(vf::Rng& r, int sat, double t)
{
   G g; g.sat = sat; g.t = t; L inc = (64.8L + r.unit()) * 3.14159265358979L / 180, om = 6.283L * r.unit(), u = 6.283L * r.unit(), R = 25508 + 20 * r.unit(), V = sqrtl(398600.44L / R) * (1 + 0.002L * (r.unit() - 0.5L)), w = 7.292115e-5L; L co = cosl(om), so = sinl(om), ci = cosl(inc), si = sinl(inc), cu = cosl(u), su = sinl(u);
   L p[3] = {R * (cu * co - su * so * ci), R * (cu * so + su * co * ci), R * su * si}, v[3] = {V * (-su * co - cu * so * ci), V * (-su * so + cu * co * ci), V * cu * si}; v[0] += w * p[1]; v[1] -= w * p[0];
   for (int i = 0; i < 3; i++) { g.p[i] = (double)p[i]; g.v[i] = (double)v[i]; g.a[i] = (double)(r.range(-4, 4) * 9.31322574615e-10L); }
   g.tau = (r.unit() - 0.5) * 1e-3; g.gam = (r.unit() - 0.5) * 1e-11; g.health = r.chance(0.8) ? 0 : (int)r.range(1, 5); g.freq = (int)r.range(-7, 13); g.age = (double)r.range(0, 5); g.mf = r.range(0, 604799); return g;
}
static CommonTime at(double s) { static CommonTime z = CivilTime(1990, 1, 1, 0, 0, 0, TimeSystem::GLO); CommonTime t = z; long d = (long)std::floor(s / 86400); t.addDays(d); t += s - d * 86400.0; return t; }
static double anywhen(vf::Rng& r) { return 86400.0 * r.range(0, 16000) + 900.0 * r.range(0, 95); }
static bool same(const Xvt& x, const S6& q, const G& g, double dt, double tolp, double tolv, std::string& why)
{
   std::ostringstream o; o.precision(12); bool ok = true; L rel = 0; const L c = 299792458;
   for (int i = 0; i < 3; i++) { L ep = q.s[i] * 1000 - x.x[i], ev = q.s[i+3] * 1000 - x.v[i]; ok = ok && fabsl(ep) <= tolp && fabsl(ev) <= tolv; rel -= 2 * q.s[i] * q.s[i+3] * 1000000 / (c * c); o << " axis " << i << " dx " << (double)ep << " dv " << (double)ev; }
   bool clk = fabsl(x.clkbias - (g.tau + (L)g.gam * dt - rel)) < 1e-14 + tolv * 1e-9 && x.clkdrift == g.gam && fabsl(x.relcorr - rel) < 1e-14 + tolv * 1e-9; if (!clk) o << " clkbias " << x.clkbias << " want " << (double)(g.tau + g.gam * dt - rel) << " relcorr " << x.relcorr; why = o.str(); return ok && clk;
}
static GloEphemeris make(const G& g, double step)
{ GloEphemeris e; e.setRecord("R", (short)g.sat, at(g.t), Triple(g.p[0], g.p[1], g.p[2]), Triple(g.v[0], g.v[1], g.v[2]), Triple(g.a[0], g.a[1], g.a[2]), g.tau, g.gam, g.mf, (short)g.health, (short)g.freq, g.age, step); return e; }

static void orbit(vf::Case& c)
{
   vf::Rng& r = c.rng; G g = random(r, (int)r.range(1, 27), anywhen(r)); double step = r.pick(std::vector<double>{1, 10, 30, 60, 60}); GloEphemeris e = make(g, r.chance(0.5) ? step : 7); e.setIntegrationStep(step); VF_CHECK("step", e.getIntegrationStep() == step, "");
   for (int k = 0; k < 3; k++)
   {
      double dt; switch (r.below(6)) { case 0: dt = 0; break; case 1: dt = -900; break; case 2: dt = 899.999; break; case 3: dt = r.range(-1000, 1000) / 1000.0; break; default: dt = (r.unit() * 2 - 1) * 900; dt = std::floor(dt * 1000) / 1000; } if (dt < -900) dt = -900;
      std::ostringstream d; d.precision(12); d << "R" << g.sat << " t " << g.t << " dt " << dt << " step " << step << " p " << (double)g.p[0] << " " << (double)g.p[1] << " " << (double)g.p[2]; if (k == 0) { c.note(d.str()); c.distinct(d.str()); c.sample(d.str()); }
      S6 q = propagate(g, dt); std::string why; Xvt x; VF_NOTHROW("orbit", x = e.svXvt(at(g.t) + dt), d.str()); double tp = dt == 0 ? 1e-6 : 5e-4 + 2e-4 * step, tv = dt == 0 ? 1e-9 : 2e-6 + 1e-6 * step; bool ok = same(x, q, g, dt, tp, tv, why); VF_CHECK("orbit", ok, d.str() << why); VF_CHECK("frame", x.frame == ReferenceFrame::PZ90, d.str()); 
      L m = 0; for (int i = 0; i < 3; i++) m = std::max(m, fabsl(q.s[i] * 1000 - x.x[i])); c.maximum("position error m, step " + std::to_string((int)step), (double)m);
      double far = r.chance(0.5) ? dt : (r.chance(0.5) ? 1 : -1) * (double)r.range(900, 3000); if (far == -900) far = -901; if (std::fabs(far) > 900 || far == 900) { VF_THROWS("fit", InvalidRequest, e.svXvt(at(g.t) + far), d.str() << " far " << far); if (r.chance(0.2)) { Xvt y; VF_NOTHROW("override", y = e.svXvtOverrideFit(at(g.t) + far), d.str()); VF_CHECK("override", same(y, propagate(g, far), g, far, 1e-2 + 5e-3 * step, 1e-5 + 1e-5 * step, why), d.str() << " far " << far << why); } }
      L rel = 0; for (int i = 0; i < 3; i++) rel -= 2 * g.p[i] * g.v[i] * 1000000 / ((L)299792458 * 299792458); (void)rel; VF_CHECK("drift", e.svClockDrift(at(g.t) + dt) == g.gam, d.str());
   }
   VF_CHECK("get", e.getPRNID() == g.sat && e.getSatSys() == "R" && e.getEphemerisEpoch() == at(g.t) && e.getEpochTime() == at(g.t) && e.getTauN() == g.tau && e.getGammaN() == g.gam && e.getMFtime() == g.mf && e.getHealth() == g.health && e.getfreqNum() == g.freq && e.getAgeOfInfo() == g.age && e.getAcc()[1] == (double)g.a[1] && e.isValid(1), "");
   GloEphemeris z; VF_CHECK("unloaded", !z.isValid(1), ""); VF_THROWS("unloaded", InvalidRequest, z.getPRNID(), ""); VF_THROWS("unloaded", InvalidRequest, z.svClockBias(at(g.t)), ""); VF_THROWS("unloaded", InvalidRequest, z.svClockDrift(at(g.t)), ""); VF_THROWS("unloaded", InvalidRequest, z.svXvt(CommonTime()), ""); VF_THROWS("unloaded", InvalidRequest, z.getEphemerisEpoch(), "");
}
// splitting a propagation in two gives the same orbit: forward then back returns to the start
static void reverse(vf::Case& c)
{
   vf::Rng& r = c.rng; G g = random(r, 5, anywhen(r)); double dt = (double)r.range(1, 899) * (r.chance(0.5) ? 1 : -1); GloEphemeris e = make(g, 20); Xvt x = e.svXvt(at(g.t) + dt); G h = g; h.t = g.t + dt; for (int i = 0; i < 3; i++) { h.p[i] = x.x[i] / 1000; h.v[i] = x.v[i] / 1000; } Xvt y = make(h, 20).svXvt(at(g.t)); double m = 0; for (int i = 0; i < 3; i++) m = std::max(m, std::fabs(y.x[i] - (double)g.p[i] * 1000)); c.distinct(std::to_string(g.t) + " " + std::to_string(dt)); c.maximum("closure m", m); VF_CHECK("reverse", m < 0.05, "dt " << dt << " closure " << m);
}

static Rinex3NavData nav(const G& g)
{
   Rinex3NavData d; d.time = at(g.t); d.satSys = "R"; d.PRNID = (short)g.sat; d.sat = RinexSatID(g.sat, SatelliteSystem::Glonass); d.TauN = g.tau; d.GammaN = g.gam; d.MFtime = g.mf; d.MFTraw = (double)g.mf; d.health = (short)g.health; d.freqNum = (short)g.freq; d.ageOfInfo = g.age;
   d.px = (double)g.p[0]; d.py = (double)g.p[1]; d.pz = (double)g.p[2]; d.vx = (double)g.v[0]; d.vy = (double)g.v[1]; d.vz = (double)g.v[2]; d.ax = (double)g.a[0]; d.ay = (double)g.a[1]; d.az = (double)g.a[2]; return d;
}
static void store(vf::Case& c)
{
   vf::Rng& r = c.rng; double t0 = anywhen(r); bool only = r.chance(0.4); GloEphemerisStore st = r.chance(0.5) ? GloEphemerisStore(30, only) : GloEphemerisStore(); st.setIntegrationStep(30); if (st.getCheckHealthFlag() != only) { VF_CHECK("flag", !st.getCheckHealthFlag(), "flag given to constructor lost"); if (only && r.chance(0.5)) VF_CHECK("flag.ctor", GloEphemerisStore(1, true).getCheckHealthFlag(), ""); st.setCheckHealthFlag(only); }
   VF_THROWS("empty.limits", InvalidRequest, st.getInitialTime(), ""); int ns = (int)r.range(1, 3), n = (int)r.range(1, 15); std::map<std::pair<int, double>, G> kept; std::ostringstream ds; ds << (only ? "healthy only" : "all") << " t0 " << t0;
   for (int i = 0; i < n; i++) { int s = (int)r.range(1, ns) * 4; double t = t0 + (r.chance(0.7) ? 1800.0 : 900.0) * r.range(-4, 6) + (r.chance(0.1) ? (double)r.range(-300, 300) : 0.0); G g = random(r, s, t); bool add = st.addEphemeris(nav(g)); VF_CHECK("add", add == (!only || g.health == 0), ds.str()); if (add) kept[std::make_pair(s, t)] = g; ds << " [R" << s << " " << t - t0 << (g.health ? " bad" : "") << "]"; }
   c.note(ds.str()); c.distinct(ds.str()); c.sample(ds.str());
   for (int pass = 0; pass < 2; pass++)
   {
      std::set<int> sats; double lo = 1e300, hi = -1e300; for (auto& k : kept) { sats.insert(k.first.first); lo = std::min(lo, k.first.second); hi = std::max(hi, k.first.second); }
      VF_CHECK("size", st.size() == (int)sats.size() && st.getIndexSet().size() == sats.size(), ds.str() << " size " << st.size()); std::list<GloEphemeris> li; VF_CHECK("list", st.addToList(li) == (int)kept.size() && li.size() == kept.size(), ds.str());
      for (auto& e : li) { auto k = kept.end(); for (auto i = kept.begin(); i != kept.end(); ++i) if (i->first.first == e.getPRNID() && at(i->first.second) == e.getEphemerisEpoch()) k = i; VF_CHECK("list.content", k != kept.end() && k->second.tau == e.getTauN() && k->second.health == e.getHealth() && k->second.freq == e.getfreqNum() && (double)k->second.p[2] == e.x[2] && (double)k->second.v[0] == e.v[0] && (double)k->second.a[1] == e.getAcc()[1] && k->second.mf == e.getMFtime() && k->second.age == e.getAgeOfInfo(), ds.str()); }
      if (kept.empty()) { VF_THROWS("empty.limits", InvalidRequest, st.getFinalTime(), ds.str()); break; }
      VF_CHECK("limits", st.getInitialTime() == at(lo) && st.getFinalTime() == at(hi), ds.str() << " pass " << pass << " limits " << st.getInitialTime() - at(t0) << ".." << st.getFinalTime() - at(t0) << " want " << lo - t0 << ".." << hi - t0);
      for (int s = 4; s <= ns * 4; s += 4) { double a = 1e300, b = -1e300; for (auto& k : kept) if (k.first.first == s) { a = std::min(a, k.first.second); b = std::max(b, k.first.second); } SatID id(s, SatelliteSystem::Glonass); VF_CHECK("present", st.isPresent(id) == (b > -1e300), ds.str()); VF_CHECK("limits.sat", b > -1e300 ? st.getInitialTime(id) == at(a) && st.getFinalTime(id) == at(b) : st.getInitialTime(id) == CommonTime::END_OF_TIME && st.getFinalTime(id) == CommonTime::BEGINNING_OF_TIME, ds.str() << " sat " << s); }
      for (int k = 0; k < 8; k++)
      {
         auto it = kept.begin(); std::advance(it, r.below(kept.size())); double off; switch (r.below(7)) { case 0: off = 0; break; case 1: off = -900; break; case 2: off = 899; break; case 3: off = 901; break; case 4: off = -901; break; default: off = (double)r.range(-2000, 2000); } double t = it->first.second + off; int s = r.chance(0.9) ? it->first.first : (int)r.range(1, 3) * 4; SatID id(s, SatelliteSystem::Glonass); std::ostringstream w; w << ds.str() << " pass " << pass << " R" << s << " at " << t - t0;
         bool any = false, edge = false; for (auto& q : kept) if (q.first.first == s) { double d = t - q.first.second; if (d >= -900 && d < 900) any = true; if (d == 900) edge = true; }
         CommonTime ct = at(t); bool threw = false; Xvt x; try { x = st.getXvt(id, ct); } catch (InvalidRequest&) { threw = true; } Xvt y = st.computeXvt(id, ct); Xvt::HealthStatus hs = st.getSVHealth(id, ct); const GloEphemeris* e = 0; try { e = &st.findEphemeris(id, ct); } catch (InvalidRequest&) {}
         if (any) VF_CHECK("answered", !threw && y.health != Xvt::Unavailable && hs == y.health && e, w.str() << " refused"); else if (!edge) VF_CHECK("refused", threw && y.health == Xvt::Unavailable && hs == Xvt::Unavailable && !e, w.str() << " answered");
         if (any && !threw && e)
         {
            auto q = kept.end(); for (auto i = kept.begin(); i != kept.end(); ++i) if (i->first.first == s && at(i->first.second) == e->getEphemerisEpoch()) q = i; VF_CHECK("found", q != kept.end() && e->getPRNID() == s && e->getTauN() == q->second.tau, w.str()); if (q == kept.end()) continue; double dt = t - q->first.second; VF_CHECK("found.near", dt >= -900 && dt <= 900, w.str() << " gave record " << q->first.second - t0); std::string why; if (dt == 900) continue;
            VF_CHECK("health", hs == (q->second.health == 0 ? Xvt::Healthy : Xvt::Unhealthy), w.str()); bool ok = same(x, propagate(q->second, dt), q->second, dt, 1e-2, 1e-4, why); VF_CHECK("xvt", ok, w.str() << why); VF_CHECK("xvt.same", x.x[0] == y.x[0] && x.v[2] == y.v[2] && x.clkbias == y.clkbias, w.str());
         }
         CommonTime g = ct; g.setTimeSystem(TimeSystem::GPS); VF_THROWS("system", InvalidRequest, st.getXvt(id, g), w.str()); VF_CHECK("system", st.computeXvt(id, g).health == Xvt::Unavailable, w.str());
      }
      if (!pass) { double a = t0 + 900.0 * r.range(-8, 8), b = a + 900.0 * r.range(0, 16); st.edit(at(a), at(b)); ds << " edit " << a - t0 << ".." << b - t0; std::map<std::pair<int, double>, G> k2; for (auto& k : kept) if (k.first.second >= a && k.first.second <= b) k2.insert(k); kept.swap(k2); }
   }
   std::ostringstream os; st.dump(os, (short)r.range(0, 1)); st.clear(); VF_CHECK("clear", st.size() == 0 && st.getIndexSet().empty(), ds.str()); VF_THROWS("clear", InvalidRequest, st.getFinalTime(), ds.str());
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"orbit", 2500, 90000, orbit}, {"reverse", 1000, 10000, reverse}, {"store", 1000, 20000, store}}); }
