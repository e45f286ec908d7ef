// C18: tabular satellite stores (SP3 / clock tables)
#include "vf.hpp"
#include "PositionSatStore.hpp"
#include "ClockSatStore.hpp"
#include "SP3EphemerisStore.hpp"
#include "GPSWeekSecond.hpp"
#include "CivilTime.hpp"
using namespace gpstk;
typedef long double L;

static CommonTime at(double tot) { long w = (long)std::floor(tot / 604800); return GPSWeekSecond((int)w, tot - w * 604800.0); }
struct Fit { L y, dy; };
static Fit lagrange(const std::vector<L>& x, const std::vector<L>& y, L t)      // value and slope of the interpolating polynomial
{
   Fit f = {0, 0}; size_t n = x.size();
   for (size_t i = 0; i < n; i++)
   {
      L p = 1, s = 0; for (size_t j = 0; j < n; j++) if (j != i) p *= (t - x[j]) / (x[i] - x[j]);
      for (size_t k = 0; k < n; k++) if (k != i) { L q = 1 / (x[i] - x[k]); for (size_t j = 0; j < n; j++) if (j != i && j != k) q *= (t - x[j]) / (x[i] - x[j]); s += q; }
      f.y += y[i] * p; f.dy += y[i] * s;
   }
   return f;
}
struct Table { std::vector<double> t; double t0, h; };
static Table table(vf::Rng& r, int nmin, int nmax)
{
   Table b; int n = (int)r.range(nmin, nmax); b.h = (double)r.pick(std::vector<int>{30, 300, 900}); b.t0 = 604800.0 * r.range(1000, 2300) + b.h * (r.chance(0.3) ? 604800 / b.h - r.range(0, n) : r.range(0, 500)); int jit = (int)r.below(3); double t = b.t0;
   for (int i = 0; i < n; i++) { b.t.push_back(t); t += b.h; if (jit == 1) t += (double)r.range(-(int)(b.h / 10), (int)(b.h / 10)); if (jit == 2 && r.chance(0.12)) t += b.h * r.range(1, 4); }
   return b;
}
static double query(vf::Rng& r, const Table& b)
{
   size_t n = b.t.size(); switch (r.below(6)) { case 0: return b.t[0] - r.range(1, 1000) / 10.0; case 1: return b.t[n-1] + r.range(1, 1000) / 10.0; case 2: return b.t[r.below(n)]; case 3: return b.t[r.chance(0.5) ? std::min<size_t>(n - 1, r.below(8)) : n - 1 - std::min<size_t>(n - 1, r.below(8))];
   default: { size_t i = r.below(n - 1); return b.t[i] + std::floor((b.t[i+1] - b.t[i]) * r.unit() * 8) / 8; } }
}
enum Ans { Value, Refuse, Free };
// what a request must do: half = points wanted each side; exact = index of a matching time or -1
static Ans spec(const Table& b, double t, int half, bool useExact, bool gap, double gapS, bool mx, double maxS, int& exact, int& lo)
{
   int n = (int)b.t.size(); exact = lo = -1; for (int i = 0; i < n; i++) { if (b.t[i] == t) exact = i; if (b.t[i] <= t) lo = i; }
   if (n < 2) return Refuse; if (exact >= 0 && useExact) return Value; if (lo < 0 || (lo == n - 1 && exact < 0)) return Refuse;
   if (exact >= 0) { if (half == 1) return gap || mx ? Free : Value; if (gap || mx) return Free; if (exact < half - 1 || exact > n - half + 1) return Refuse; return exact >= half && exact <= n - half ? Value : Free; }
   if (lo + 1 < half || n - 1 - lo < half) return Refuse;
   bool wide = false; for (int i = lo - half + 1; i < lo + half; i++) wide = wide || b.t[i+1] - b.t[i] > gapS; bool central = b.t[lo+1] - b.t[lo] > gapS;
   if (gap && central) return Refuse; if (mx && b.t[lo + half] - b.t[lo - half + 1] > maxS) return Refuse; if (gap && wide) return Free; return Value;
}
// data: a polynomial in scaled time, so that every window holding the point gives the same answer, or rough values
struct Data { bool poly; std::vector<L> c; L t0, h; std::vector<double> y; L scale; };
static Data data(vf::Rng& r, const Table& b, bool poly, int maxdeg, double mag)
{
   Data d; d.poly = poly; d.t0 = b.t[b.t.size() / 2]; d.h = b.h * b.t.size(); int deg = (int)r.range(0, std::min(maxdeg, 6)); for (int i = 0; i <= deg; i++) d.c.push_back((L)(mag * (r.unit() * 2 - 1)));
   for (double t : b.t) { L v = 0, u = ((L)t - d.t0) / d.h; for (size_t i = d.c.size(); i-- > 0; ) v = v * u + d.c[i]; d.y.push_back(poly ? (double)v : mag * (r.unit() * 2 - 1)); }
   d.scale = 0; for (double y : d.y) d.scale = std::max(d.scale, fabsl((L)y)); if (d.scale == 0) d.scale = (L)mag; return d;
}
static Fit truth(const Data& d, const Table& b, double t, int half, int lo)
{
   if (d.poly) { Fit f = {0, 0}; L u = ((L)t - d.t0) / d.h, v = 0, w = 0; for (size_t i = d.c.size(); i-- > 0; ) { w = w * u + v; v = v * u + d.c[i]; } f.y = v; f.dy = w / d.h; return f; }
   std::vector<L> x, y; for (int i = lo - half + 1; i <= lo + half; i++) { x.push_back((L)b.t[i] - t); y.push_back(d.y[i]); } return lagrange(x, y, 0);
}
static bool near(double got, L want, L tol) { return fabsl((L)got - want) <= tol; }

static void position(vf::Case& c)
{
   vf::Rng& r = c.rng; Table b = table(r, 1, 30); int n = (int)b.t.size(), order = (int)r.range(3, 14), half = (order + 1) / 2; bool poly = r.chance(0.6); int kind = (int)r.below(3);   // 0 P, 1 P+V, 2 P+V+A
   SatID sat((int)r.range(1, 32), r.chance(0.5) ? SatelliteSystem::GPS : SatelliteSystem::Glonass); Data p[3], v[3], a[3]; std::vector<Triple> sg; PositionSatStore st; st.setInterpolationOrder(order);
   for (int i = 0; i < 3; i++) { p[i] = data(r, b, poly, 2 * half - 1, 3e4); v[i] = data(r, b, poly, 2 * half - 1, 4e4); a[i] = data(r, b, poly, 2 * half - 1, 1); for (auto& y : v[i].y) if (y == 0) y = 1; for (auto& y : a[i].y) if (y == 0) y = 1; }
   if (n > 1 && kind && poly) for (int i = 0; i < 3; i++) if (v[i].y[0] == 0) return;
   std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); r.shuffle(ord);
   for (int i : ord)
   {
      PositionRecord q; q.Pos = q.sigPos = q.Vel = q.sigVel = q.Acc = q.sigAcc = Triple(0, 0, 0); Triple P(p[0].y[i], p[1].y[i], p[2].y[i]), V(v[0].y[i], v[1].y[i], v[2].y[i]), A(a[0].y[i], a[1].y[i], a[2].y[i]); CommonTime t = at(b.t[i]); double s = r.range(1, 50); Triple S(s, s + 1, s + 2);
      if (r.chance(0.2)) { PositionRecord g = q; g.Pos = Triple(1, 2, 3); st.addPositionRecord(sat, t, g); }     // superseded
      int how = (int)r.below(2); q.Pos = P; q.sigPos = S; if (kind) { q.Vel = V; q.sigVel = S; } if (kind == 2) { q.Acc = A; q.sigAcc = S; }
      if (how) st.addPositionRecord(sat, t, q); else { if (kind == 2) st.addAccelerationData(sat, t, A, S); st.addPositionData(sat, t, P, S); if (kind) st.addVelocityData(sat, t, V, S); }
   }
   for (int i = 0; i < n; i++) sg.push_back(Triple(0, 0, 0));
   bool hv = st.hasVelocity(), ha = st.hasAccleration(); VF_CHECK("pos.flags", hv == (kind > 0) && ha == (kind == 2) && st.getInterpolationOrder() == (unsigned)(2 * half) && st.hasPosition() && !st.hasClockBias(), "kind " << kind << " " << hv << ha);
   bool gap = r.chance(0.3), mx = r.chance(0.3); double gs = b.h * (r.chance(0.5) ? 1.5 : 3), ms = b.h * (2 * half - 1) * (r.chance(0.5) ? 1.0 : 1.3) + 1; if (gap) st.setGapInterval(gs); if (mx) st.setMaxInterval(ms);
   std::ostringstream ds; ds << "n " << n << " h " << b.h << " half " << half << " kind " << kind << (poly ? " poly" : " rough") << (gap ? " gap" : "") << (mx ? " max" : "") << " t0 " << std::fixed << b.t0; c.note(ds.str()); c.distinct(ds.str()); c.sample(ds.str());
   for (int k = 0; k < 12; k++)
   {
      if (n < 2 && k > 1) break; double t = n < 2 ? b.t[0] + k : query(r, b); CommonTime ct = at(t); int exact, lo; std::ostringstream w; w << ds.str() << " t +" << t - b.t0; 
      L hl = b.h; for (int i = 0; i + 1 < n; i++) hl = std::min<L>(hl, b.t[i+1] - b.t[i]);
         // the whole record
      Ans an = spec(b, t, half, hv, gap, gs, mx, ms, exact, lo); PositionRecord q; bool threw = false; try { q = st.getValue(sat, ct); } catch (InvalidRequest&) { threw = true; }
      if (an == Value) VF_CHECK("pos.answered", !threw, w.str() << " refused"); if (an == Refuse) VF_CHECK("pos.refused", threw, w.str() << " answered");
      if (an == Free) c.count("unspecified");
      if (!threw && an != Refuse) for (int i = 0; i < 3; i++)
      {
         bool ok = exact >= 0; if (ok || poly || exact < 0) { L tolP = p[i].scale * 2e-11L * (poly ? 1 : 30); if (ok) VF_CHECK("pos.exact", near(q.Pos[i], p[i].y[exact], 1e-10L * p[i].scale), w.str() << " axis " << i << " " << q.Pos[i] << " want " << p[i].y[exact]); else { Fit f = truth(p[i], b, t, half, lo); VF_CHECK("pos.value", near(q.Pos[i], f.y, tolP), w.str() << " axis " << i << " " << q.Pos[i] << " want " << (double)f.y); } }
         if (ok && hv) { VF_CHECK("vel.exact", q.Vel[i] == v[i].y[exact] && (!ha || q.Acc[i] == a[i].y[exact]), w.str() << " axis " << i); }
         else if (!hv) { if (exact < 0 || poly) { Fit f = truth(p[i], b, t, half, lo); L tol = p[i].scale / hl * 1e4L * 1e-9L * (poly ? 1 : 30); VF_CHECK("vel.slope", near(q.Vel[i], f.dy * 10000, tol), w.str() << " axis " << i << " " << q.Vel[i] << " want " << (double)f.dy * 10000); } }
         else { Fit f = truth(v[i], b, t, half, lo); VF_CHECK("vel.value", near(q.Vel[i], f.y, v[i].scale * 6e-10L), w.str() << " axis " << i << " " << q.Vel[i] << " want " << (double)f.y); if (ha) { Fit g = truth(a[i], b, t, half, lo); VF_CHECK("acc.value", near(q.Acc[i], g.y, a[i].scale * 6e-10L), w.str() << " axis " << i); } else VF_CHECK("acc.slope", near(q.Acc[i], f.dy * 0.1L, v[i].scale / hl * 3e-8L), w.str() << " axis " << i << " " << q.Acc[i] << " want " << (double)f.dy * 0.1); }
      }
         // the single-quantity routines agree with the record
      Triple g; an = spec(b, t, half, true, gap, gs, mx, ms, exact, lo); threw = false; try { g = st.getPosition(sat, ct); } catch (InvalidRequest&) { threw = true; }
      if (an == Value) VF_CHECK("getPosition.answered", !threw, w.str() << " refused"); if (an == Refuse) VF_CHECK("getPosition.refused", threw, w.str());
      if (!threw && an != Refuse) for (int i = 0; i < 3; i++) { L want = exact >= 0 ? (L)p[i].y[exact] : truth(p[i], b, t, half, lo).y; VF_CHECK("getPosition", near(g[i], want, p[i].scale * 6e-10L), w.str() << " axis " << i << " " << g[i] << " want " << (double)want); }
      an = spec(b, t, half, hv, gap, gs, mx, ms, exact, lo); threw = false; try { g = st.getVelocity(sat, ct); } catch (InvalidRequest&) { threw = true; }
      if (an == Value) VF_CHECK("getVelocity.answered", !threw, w.str() << " refused"); if (an == Refuse) VF_CHECK("getVelocity.refused", threw, w.str());
      if (!threw && an != Refuse && (exact < 0 || poly || hv)) for (int i = 0; i < 3; i++) { L want = hv ? (exact >= 0 ? (L)v[i].y[exact] : truth(v[i], b, t, half, lo).y) : truth(p[i], b, t, half, lo).dy * 10000; VF_CHECK("getVelocity", near(g[i], want, hv ? v[i].scale * 6e-10L : p[i].scale / hl * 1e4L * 3e-8L), w.str() << " axis " << i << " " << g[i] << " want " << (double)want); }
      if (!hv) VF_THROWS("getAcceleration.none", InvalidRequest, st.getAcceleration(sat, ct), w.str());
      else { an = spec(b, t, half, ha, gap, gs, mx, ms, exact, lo); threw = false; try { g = st.getAcceleration(sat, ct); } catch (InvalidRequest&) { threw = true; } if (an == Value) VF_CHECK("getAcceleration.answered", !threw, w.str() << " refused"); if (an == Refuse) VF_CHECK("getAcceleration.refused", threw, w.str());
         if (!threw && an != Refuse && (exact < 0 || poly || ha)) for (int i = 0; i < 3; i++) { L want = ha ? (exact >= 0 ? (L)a[i].y[exact] : truth(a[i], b, t, half, lo).y) : truth(v[i], b, t, half, lo).dy * 0.1L; VF_CHECK("getAcceleration", near(g[i], want, ha ? a[i].scale * 6e-10L : v[i].scale / hl * 3e-8L), w.str() << " axis " << i << " " << g[i] << " want " << (double)want); } }
      if (k == 0) { VF_THROWS("pos.absent", InvalidRequest, st.getValue(SatID(31, SatelliteSystem::Galileo), ct), w.str()); CommonTime o = ct; o.setTimeSystem(TimeSystem::UTC); st.setTimeSystem(TimeSystem::GPS); PositionRecord z; z.Pos = z.Vel = z.Acc = z.sigPos = z.sigVel = z.sigAcc = Triple(1, 1, 1); int before = st.ndata(); VF_THROWS("pos.system", InvalidRequest, st.addPositionRecord(sat, o, z), w.str()); VF_CHECK("pos.system.kept", st.ndata() == before, w.str()); }
   }
}

static void clock_(vf::Case& c)
{
   vf::Rng& r = c.rng; Table b = table(r, 1, 30); int n = (int)b.t.size(), order = (int)r.range(3, 14); bool lin = r.chance(0.5), poly = r.chance(0.6); int half = lin ? 1 : (order + 1) / 2, kind = (int)r.below(3); SatID sat((int)r.range(1, 32), SatelliteSystem::GPS); ClockSatStore st; if (lin) { st.setLagrangeInterp(); st.setLinearInterp(); if (r.chance(0.3)) st.setInterpolationOrder(order); } else { if (r.chance(0.2)) st.setLinearInterp(); if (r.chance(0.5)) st.setLagrangeInterp(); else { st.setLagrangeInterp(); } st.setInterpolationOrder(order); }
   int deg = lin ? 1 : 2 * half - 1; Data B = data(r, b, poly, deg, 1e-4), D = data(r, b, poly, deg, 1e-9), A = data(r, b, poly, deg, 1e-14); for (auto& y : D.y) if (y == 0) y = 1e-12; for (auto& y : A.y) if (y == 0) y = 1e-16; std::vector<double> sb, sd, sa; for (int i = 0; i < n; i++) { sb.push_back(1e-11 * r.range(1, 99)); sd.push_back(1e-14 * r.range(1, 99)); sa.push_back(1e-18 * r.range(1, 99)); }
   std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); r.shuffle(ord);
   for (int i : ord)
   {
      CommonTime t = at(b.t[i]); ClockRecord q; q.bias = B.y[i]; q.sig_bias = sb[i]; q.drift = kind ? D.y[i] : 0; q.sig_drift = kind ? sd[i] : 0; q.accel = kind == 2 ? A.y[i] : 0; q.sig_accel = kind == 2 ? sa[i] : 0;
      if (r.chance(0.2)) st.addClockBias(sat, t, 7, 8);
      if (r.chance(0.5)) st.addClockRecord(sat, t, q); else { if (kind) st.addClockDrift(sat, t, q.drift, q.sig_drift); st.addClockBias(sat, t, q.bias, q.sig_bias); if (kind == 2) st.addClockAcceleration(sat, t, q.accel, q.sig_accel); }
   }
   bool hd = st.hasClockDrift(), ha = st.hasClockAccel(); VF_CHECK("clk.flags", hd == (kind > 0) && ha == (kind == 2) && st.getInterpolationOrder() == (unsigned)(2 * half), "kind " << kind << hd << ha << " order " << st.getInterpolationOrder() << " half " << half);
   bool gap = r.chance(0.3), mx = r.chance(0.3); double gs = b.h * (r.chance(0.5) ? 1.5 : 3), ms = b.h * (2 * half - 1) * (r.chance(0.5) ? 1.0 : 1.3) + 1; if (gap) st.setGapInterval(gs); if (mx) st.setMaxInterval(ms);
   std::ostringstream ds; ds << "n " << n << " h " << b.h << " half " << half << (lin ? " linear" : "") << " kind " << kind << (poly ? " poly" : " rough") << (gap ? " gap" : "") << (mx ? " max" : "") << " t0 " << std::fixed << b.t0; c.note(ds.str()); c.distinct(ds.str());
   for (int k = 0; k < 12; k++)
   {
      if (n < 2 && k > 1) break; double t = n < 2 ? b.t[0] + k : query(r, b); CommonTime ct = at(t); int exact, lo; std::ostringstream w; w << ds.str() << " t +" << t - b.t0; L hl = b.h; for (int i = 0; i + 1 < n; i++) hl = std::min<L>(hl, b.t[i+1] - b.t[i]);
      auto val = [&](const Data& d) -> L { return exact >= 0 ? (L)d.y[exact] : truth(d, b, t, half, lo).y; };
      auto slope_ok = [&](const Data& d, double got, L tol) -> bool    // at a node of a linear table either neighbouring slope will do
      { if (lin && exact >= 0) { bool ok = false; for (int i = std::max(0, exact - 1); i <= exact && i + 1 < n; i++) ok = ok || near(got, ((L)d.y[i+1] - d.y[i]) / ((L)b.t[i+1] - b.t[i]), tol); return ok; } if (exact >= 0 && !poly) return true; return near(got, truth(d, b, t, half, lo).dy, tol); };
      Ans an = spec(b, t, half, hd, gap, gs, mx, ms, exact, lo); ClockRecord q; bool threw = false; try { q = st.getValue(sat, ct); } catch (InvalidRequest&) { threw = true; }
      if (an == Value) VF_CHECK("clk.answered", !threw, w.str() << " refused"); if (an == Refuse) VF_CHECK("clk.refused", threw, w.str() << " answered"); L e = 6e-10L;
      if (!threw && an != Refuse)
      {
         VF_CHECK("clk.bias", near(q.bias, val(B), B.scale * e), w.str() << " " << q.bias << " want " << (double)val(B));
         if (hd) VF_CHECK("clk.drift", near(q.drift, val(D), D.scale * e), w.str() << " " << q.drift << " want " << (double)val(D)); else VF_CHECK("clk.drift.slope", slope_ok(B, q.drift, B.scale / hl * 3e-8L), w.str() << " " << q.drift);
         if (ha) VF_CHECK("clk.accel", near(q.accel, val(A), A.scale * e), w.str() << " " << q.accel << " want " << (double)val(A)); else if (hd && exact < 0) VF_CHECK("clk.accel.slope", slope_ok(D, q.accel, D.scale / hl * 3e-8L), w.str() << " " << q.accel);
         if (exact >= 0) VF_CHECK("clk.sigma", vf::close(q.sig_bias, sb[exact], 1e-12), w.str() << " " << q.sig_bias); else VF_CHECK("clk.sigma", vf::close(q.sig_bias, std::sqrt(sb[lo] * sb[lo] + sb[lo+1] * sb[lo+1]), 1e-12), w.str() << " " << q.sig_bias);
      }
      double g = 0; an = spec(b, t, half, true, gap, gs, mx, ms, exact, lo); threw = false; try { g = st.getClockBias(sat, ct); } catch (InvalidRequest&) { threw = true; } if (an == Value) VF_CHECK("getClockBias.answered", !threw, w.str()); if (an == Refuse) VF_CHECK("getClockBias.refused", threw, w.str());
      if (!threw && an != Refuse) VF_CHECK("getClockBias", near(g, val(B), B.scale * e), w.str() << " " << g << " want " << (double)val(B));
      an = spec(b, t, half, hd, gap, gs, mx, ms, exact, lo); threw = false; try { g = st.getClockDrift(sat, ct); } catch (InvalidRequest&) { threw = true; } if (an == Value) VF_CHECK("getClockDrift.answered", !threw, w.str()); if (an == Refuse) VF_CHECK("getClockDrift.refused", threw, w.str());
      if (!threw && an != Refuse) { if (hd) VF_CHECK("getClockDrift", near(g, val(D), D.scale * e), w.str() << " " << g << " want " << (double)val(D)); else VF_CHECK("getClockDrift.slope", slope_ok(B, g, B.scale / hl * 3e-8L), w.str() << " " << g); }
   }
   (void)sd;
}

static void limits(vf::Case& c)     // bookkeeping of a store: edits, limits, counts, nominal step
{
   vf::Rng& r = c.rng; SP3EphemerisStore st; std::map<SatID, std::set<double>> P, K; double t0 = 604800.0 * r.range(1000, 2300), h = r.pick(std::vector<int>{30, 300, 900}); int ns = (int)r.range(1, 4); std::vector<SatID> sats; std::ostringstream d; d << "h " << h;
   if (r.chance(0.3)) st.useRinexClockData();
   for (int s = 0; s < ns; s++)
   {
      SatID sat(s + 1, s % 2 ? SatelliteSystem::Glonass : SatelliteSystem::GPS); sats.push_back(sat); int n = (int)r.range(1, 20), f = (int)r.range(-10, 10); d << " [" << sat << " from " << f << " n " << n << "]"; PositionRecord q; q.Pos = Triple(1, 2, 3); q.sigPos = q.Vel = q.sigVel = q.Acc = q.sigAcc = Triple(0, 0, 0);
      for (int i = 0; i < n; i++) { double t = t0 + (f + i) * h; if (r.chance(0.9)) { st.addPositionRecord(sat, at(t), q); P[sat].insert(t); } if (r.chance(0.9)) { st.addClockBias(sat, at(t), 1e-5 * i + 1e-6); K[sat].insert(t); } }
   }
   if (r.chance(0.5)) { double a = t0 + h * r.range(-12, 20) - r.pick(std::vector<double>{0, 0, 1, -1}), b = a + h * r.range(0, 20) + r.pick(std::vector<double>{0, 0, 1, -1}); bool open = r.chance(0.2); d << " edit " << a - t0 << " " << b - t0 << (open ? " open" : ""); if (open) { st.edit(at(a)); b = 1e300; } else st.edit(at(a), at(b)); for (auto* m : {&P, &K}) for (auto& p : *m) { std::set<double> k; for (double t : p.second) if (t >= a && t <= b) k.insert(t); p.second = k; } }
   c.note(d.str()); c.distinct(d.str()); size_t np = 0, nk = 0; double plo = 1e300, phi = -1, klo = 1e300, khi = -1; std::set<SatID> both, ps, ks;
   for (auto& p : P) { np += p.second.size(); if (!p.second.empty()) { ps.insert(p.first); plo = std::min(plo, *p.second.begin()); phi = std::max(phi, *p.second.rbegin()); } } for (auto& p : K) { nk += p.second.size(); if (!p.second.empty()) { ks.insert(p.first); klo = std::min(klo, *p.second.begin()); khi = std::max(khi, *p.second.rbegin()); } } for (auto& s : ps) if (ks.count(s)) both.insert(s);
   VF_CHECK("count", st.ndata() == (int)np && st.size() == (int)np && st.ndataPosition() == (int)np && st.ndataClock() == (int)nk, d.str() << " has " << st.ndata() << "/" << st.ndataClock() << " want " << np << "/" << nk);
   auto tm = [&](double t, bool first) -> CommonTime { if (t == 1e300) return CommonTime::END_OF_TIME; if (t == -1) return CommonTime::BEGINNING_OF_TIME; (void)first; return at(t); };
   VF_CHECK("limit.position", st.getPositionInitialTime() == tm(plo, true) && st.getPositionFinalTime() == tm(phi, false), d.str()); VF_CHECK("limit.clock", st.getClockInitialTime() == tm(klo, true) && st.getClockFinalTime() == tm(khi, false), d.str());
   std::vector<SatID> l = st.getSatList(); VF_CHECK("sats", std::set<SatID>(l.begin(), l.end()) == both && st.getIndexSet() == both && l.size() == both.size(), d.str()); l = st.getPositionSatList(); VF_CHECK("sats.position", std::set<SatID>(l.begin(), l.end()) == ps, d.str()); l = st.getClockSatList(); VF_CHECK("sats.clock", std::set<SatID>(l.begin(), l.end()) == ks, d.str());
   int ng = 0; for (auto& p : P) if (p.first.system == SatelliteSystem::GPS) ng += (int)p.second.size(); VF_CHECK("count.system", st.ndata(SatelliteSystem::GPS) == ng, d.str());
   for (auto& s : sats)
   {
      VF_CHECK("count.sat", st.ndata(s) == (int)P[s].size() && st.ndataClock(s) == (int)K[s].size(), d.str() << " " << s); 
      CommonTime a = st.getPositionInitialTime(s), b = st.getPositionFinalTime(s), e = st.getClockInitialTime(s), f = st.getClockFinalTime(s);
      if (!P[s].empty()) VF_CHECK("limit.sat", a == at(*P[s].begin()) && b == at(*P[s].rbegin()), d.str() << " " << s); else VF_CHECK("limit.sat.none", a == CommonTime::END_OF_TIME && b == CommonTime::BEGINNING_OF_TIME, d.str() << " " << s);
      if (!K[s].empty()) VF_CHECK("limit.sat.clock", e == at(*K[s].begin()) && f == at(*K[s].rbegin()), d.str() << " " << s); else VF_CHECK("limit.sat.none", e == CommonTime::END_OF_TIME && f == CommonTime::BEGINNING_OF_TIME, d.str() << " " << s);
      if (both.count(s)) VF_CHECK("present", st.isPresent(s), d.str());
      std::map<double, int> steps; double last = -1; for (double t : P[s]) { if (last >= 0) steps[t - last]++; last = t; } double step = st.getPositionTimeStep(s); int best = 0; for (auto& q : steps) best = std::max(best, q.second);
      if (steps.empty()) VF_CHECK("step.none", step == 0, d.str() << " " << s << " step " << step); else if (steps.size() <= 3) VF_CHECK("step", steps.count(step) && steps[step] == best, d.str() << " " << s << " step " << step);
   }
   std::ostringstream os; st.dump(os, (short)r.range(0, 2)); st.clear(); VF_CHECK("clear", st.ndata() == 0 && st.ndataClock() == 0 && st.getSatList().empty(), d.str());
}

// files in SP3 format written here, loaded into the store
static void load(vf::Case& c)
{
   vf::Rng& r = c.rng; char ver = "acd"[r.below(3)]; bool vel = r.chance(0.4); int ns = (int)r.range(1, 5), n = (int)r.range(1, 14); double h = 900; CommonTime t0 = CivilTime((int)r.range(1995, 2035), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.range(0, 23), 15 * (int)r.range(0, 3), 0, TimeSystem::GPS); SP3EphemerisStore st; bool rb = r.chance(0.7), rc = r.chance(0.7), pp = r.chance(0.5), pc = r.chance(0.5); st.rejectBadPositions(rb); st.rejectBadClocks(rc); st.rejectPredPositions(pp); st.rejectPredClocks(pc);
   bool rinexClock = r.chance(0.2); if (rinexClock) st.useRinexClockData(); std::ostringstream f; char b[200]; CivilTime ct(t0); double basePV = 1.25, baseC = 1.025;
   std::vector<SatID> sats; for (int i = 0; i < ns; i++) sats.push_back(SatID(i * 5 + 1, ver == 'a' || r.chance(0.6) ? SatelliteSystem::GPS : SatelliteSystem::Glonass));
   auto name = [&](const SatID& s) { char q[8]; if (ver == 'a') snprintf(q, 8, "%3d", s.id); else snprintf(q, 8, "%c%02d", s.system == SatelliteSystem::GPS ? 'G' : 'R', s.id); return std::string(q); };
   snprintf(b, 200, "#%c%c%4d %2d %2d %2d %2d %11.8f %7d ORBIT IGS05 FIT  VER", ver, vel ? 'V' : 'P', ct.year, ct.month, ct.day, ct.hour, ct.minute, 0.0, n); f << b << "\n"; GPSWeekSecond g(t0); snprintf(b, 200, "## %4d %15.8f %14.8f %5d %15.13f", g.week, g.sow, h, (int)(g.sow / 86400), 0.0); f << b << "\n";
   for (int l = 0; l < 5; l++) { if (l == 0) snprintf(b, 200, "+   %2d   ", ns); else snprintf(b, 200, "+        "); f << b; for (int i = 0; i < 17; i++) f << (l == 0 && i < ns ? name(sats[i]) : std::string("  0")); f << "\n"; } for (int l = 0; l < 5; l++) { f << "++       "; for (int i = 0; i < 17; i++) f << "  0"; f << "\n"; }
   if (ver == 'a') f << "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"; else f << "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n";
   snprintf(b, 200, "%%f %10.7f %12.9f %14.11f %18.15f", ver == 'a' ? 0.0 : basePV, ver == 'a' ? 0.0 : baseC, 0.0, 0.0); f << b << "\n"; f << "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n"; for (int i = 0; i < 2; i++) f << "%i    0    0    0    0      0      0      0      0         0\n"; for (int i = 0; i < 4; i++) f << "/* comment\n";
   struct R { double x[3], v[3], clk, rate; int sg[4]; bool sig; }; std::map<std::pair<SatID, int>, R> wantP, wantC; std::ostringstream d; d << "ver " << ver << (vel ? "V" : "P") << " sats " << ns << " n " << n << " reject " << rb << rc << pp << pc << (rinexClock ? " rinexclk" : "");
   for (int k = 0; k < n; k++)
   {
      CivilTime e(t0 + k * h); snprintf(b, 200, "*  %4d %2d %2d %2d %2d %11.8f", e.year, e.month, e.day, e.hour, e.minute, e.second); f << b << "\n";
      for (int s = 0; s < ns; s++)
      {
         if (s && r.chance(0.05)) continue; R q; for (int i = 0; i < 3; i++) { q.x[i] = std::floor((r.unit() * 2 - 1) * 3e10) / 1e6 + 0.000001; q.v[i] = std::floor((r.unit() * 2 - 1) * 4e10) / 1e6; } q.clk = std::floor((r.unit() * 2 - 1) * 9e8) / 1e6; q.rate = std::floor((r.unit() * 2 - 1) * 9e7) / 1e6; bool badP = r.chance(0.1), badC = r.chance(0.1), fp = ver != 'a' && r.chance(0.15), fc = ver != 'a' && r.chance(0.15); q.sig = ver != 'a'; for (int i = 0; i < 4; i++) q.sg[i] = (int)r.range(0, i < 3 ? 30 : 200); if (badP) { if (r.chance(0.5)) q.x[0] = q.x[1] = q.x[2] = 0; else q.x[r.below(3)] = 0; } if (badC) q.clk = 999999.999999;
         snprintf(b, 200, "P%s%14.6f%14.6f%14.6f%14.6f", name(sats[s]).c_str(), q.x[0], q.x[1], q.x[2], q.clk); f << b; if (ver != 'a') { snprintf(b, 200, " %2d %2d %2d %3d %c%c  %c%c", q.sg[0], q.sg[1], q.sg[2], q.sg[3], r.chance(0.1) ? 'E' : ' ', fc ? 'P' : ' ', r.chance(0.1) ? 'M' : ' ', fp ? 'P' : ' '); f << b; } f << "\n";
         if (vel) { snprintf(b, 200, "V%s%14.6f%14.6f%14.6f%14.6f", name(sats[s]).c_str(), q.v[0], q.v[1], q.v[2], q.rate); f << b; if (ver != 'a') { snprintf(b, 200, " %2d %2d %2d %3d         ", 2, 3, 4, 5); f << b; } f << "\n"; }
         bool drop = (badP && rb) || (badC && rc && !rinexClock); auto key = std::make_pair(sats[s], k); if (!drop && !(fp && pp)) wantP[key] = q; if (!drop && !(fc && pc) && !rinexClock) wantC[key] = q; d << (badP ? "p" : badC ? "c" : fp || fc ? "f" : ".");
      }
      d << "|";
   }
   f << "EOF\n"; std::string path = vf::scratch() + "/l.sp3"; vf::spit(path, f.str()); c.note(d.str()); c.distinct(d.str()); VF_NOTHROW("load", st.loadFile(path), d.str()); VF_CHECK("load.files", st.nSP3files() == 1 && (ver == 'a' || st.getTimeSystem() == TimeSystem::GPS), d.str());
   VF_CHECK("load.count", st.ndataPosition() == (int)wantP.size() && st.ndataClock() == (int)wantC.size(), d.str() << " loaded " << st.ndataPosition() << "/" << st.ndataClock() << " want " << wantP.size() << "/" << wantC.size());
   for (auto& p : sats) { int np = 0, nc = 0; for (auto& q : wantP) np += q.first.first == p; for (auto& q : wantC) nc += q.first.first == p; VF_CHECK("load.count.sat", st.ndataPosition(p) == np && st.ndataClock(p) == nc, d.str() << " sat " << p); }
      // table values come back at the epochs (velocity data present) with the documented units
   st.setClockLinearInterp(); bool hv = st.hasVelocity(); 
   for (auto& q : wantP)
   {
      const R& e = q.second; CommonTime t = t0 + q.first.second * h; if (!hv || st.ndataPosition(q.first.first) < 2) continue; bool okc = wantC.count(q.first) && st.ndataClock(q.first.first) >= 2; t.setTimeSystem(TimeSystem::GPS); Triple x, v; try { x = st.getPosition(q.first.first, t); v = st.getVelocity(q.first.first, t); } catch (InvalidRequest& er) { VF_CHECK("load.at", false, d.str() << " " << q.first.first << " epoch " << q.first.second << " " << er.what()); continue; }
      bool ok = true; for (int i = 0; i < 3; i++) ok = ok && vf::close(x[i], e.x[i] * 1000, 1e-6) && vf::close(v[i], e.v[i] * 0.1, 1e-9); VF_CHECK("load.at", ok, d.str() << " " << q.first.first << " epoch " << q.first.second << " " << x << v);
      if (okc) { Xvt a = st.computeXvt(q.first.first, t); bool thr = false; Xvt y; try { y = st.getXvt(q.first.first, t); } catch (InvalidRequest&) { thr = true; } VF_CHECK("load.xvt", !thr && a.health == Xvt::Unused && y.health == Xvt::Unused && vf::close(y.clkbias, e.clk * 1e-6, 1e-13) && a.clkbias == y.clkbias && vf::close(y.x[0], e.x[0] * 1000, 1e-6) && a.x[2] == y.x[2] && vf::close(y.v[1], e.v[1] * 0.1, 1e-9), d.str() << " " << q.first.first << " epoch " << q.first.second << " clk " << y.clkbias << " want " << e.clk * 1e-6); if (st.hasClockDrift()) VF_CHECK("load.drift", vf::close(y.clkdrift, e.rate * 1e-10, 1e-18), d.str() << " drift " << y.clkdrift << " want " << e.rate * 1e-10);
         double rel = -2 * ((L)y.x[0] * y.v[0] + (L)y.x[1] * y.v[1] + (L)y.x[2] * y.v[2]) / ((L)299792458 * 299792458); VF_CHECK("load.rel", vf::close(y.relcorr, rel, 1e-9 * std::fabs(rel) + 1e-18), d.str() << " relcorr " << y.relcorr << " want " << rel); }
   }
   for (auto& s : sats) VF_CHECK("absent.xvt", st.computeXvt(s, t0 - 86400.0).health == Xvt::Unavailable, d.str()); 
   if (ver != 'a') { std::string pf = vf::scratch() + "/missing.sp3"; VF_THROWS("load.missing", Exception, st.loadFile(pf), ""); }
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"position", 600, 60000, position}, {"clock", 1200, 60000, clock_}, {"limits", 800, 40000, limits}, {"load", 500, 30000, load}}); }
