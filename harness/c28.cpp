// C28: pseudorange position solutions, RAIM, Bancroft, combinations
#include "vf.hpp"
#include "PRSolution.hpp"
#include "PRSolutionLegacy.hpp"
#include "Bancroft.hpp"
#include "Combinations.hpp"
#include "XvtStore.hpp"
#include "TropModel.hpp"
#include "GPSEllipsoid.hpp"
#include "GPSWeekSecond.hpp"
#include "Position.hpp"
using namespace gpstk;
typedef long double ld;
typedef std::vector<double> V;
typedef std::vector<std::vector<ld>> M;

struct Orb { double x[3], v[3], clk, drift, rel; bool eph = true; };
class Store : public XvtStore<SatID>
{
public:
   std::map<SatID, Orb> o; CommonTime t0; mutable size_t calls = 0;
   Xvt at(const Orb& q, const CommonTime& t) const { Xvt p; double d = t - t0; for (int i = 0; i < 3; i++) { p.x[i] = q.x[i] + q.v[i] * d; p.v[i] = q.v[i]; } p.clkbias = q.clk + q.drift * d; p.clkdrift = q.drift; p.relcorr = q.rel; return p; }
   Xvt getXvt(const SatID& id, const CommonTime& t) const { calls++; auto i = o.find(id); if (i == o.end() || !i->second.eph) { InvalidRequest e("no ephemeris"); GPSTK_THROW(e); } return at(i->second, t); }
   Xvt computeXvt(const SatID&, const CommonTime&) const throw() { return Xvt(); }
   Xvt::HealthStatus getSVHealth(const SatID&, const CommonTime&) const throw() { return Xvt::HealthStatus::Unknown; }
   void dump(std::ostream&, short) const {}
   void edit(const CommonTime&, const CommonTime&) {}
   void clear() { o.clear(); }
   TimeSystem getTimeSystem() const { return TimeSystem::GPS; }
   CommonTime getInitialTime() const { return CommonTime::BEGINNING_OF_TIME; }
   CommonTime getFinalTime() const { return CommonTime::END_OF_TIME; }
   bool hasVelocity() const { return true; }
   bool isPresent(const SatID& id) const { return o.count(id) > 0; }
   std::set<SatID> getIndexSet() const { std::set<SatID> s; for (auto& q : o) s.insert(q.first); return s; }
};
class Stub : public TropModel
{
public:
   double zen; CommonTime want; size_t calls = 0; bool good = true;
   std::string name() { return "Stub"; }
   double dry_zenith_delay() const { return zen; }
   double wet_zenith_delay() const { return 0; }
   double dry_mapping_function(double) const { return 1; }
   double wet_mapping_function(double) const { return 1; }
   using TropModel::correction;
   double f(const Position& R, const Position& S) const { double e = std::max(R.elevation(S), 2.0) * 0.017453292519943295; return zen / (std::sin(e) + 0.01); }
   double correction(const Position& R, const Position& S, const CommonTime& t) { calls++; if (!(t == want)) good = false; return f(R, S); }
};
static double C() { GPSEllipsoid e; return e.c(); }
static const double CLIGHT = 299792458.0, OMEGA = 7.292115e-5;

struct Scene
{
   Store st; Stub trop; std::vector<SatID> sats; V pr; CommonTime tr; double rx[3]; std::map<SatelliteSystem, double> clk; std::vector<SatelliteSystem> sys; std::string ds;
};
static void enu(const double* rx, double* e, double* n, double* u) { double r = std::sqrt(rx[0] * rx[0] + rx[1] * rx[1] + rx[2] * rx[2]), p = std::hypot(rx[0], rx[1]); u[0] = rx[0] / r; u[1] = rx[1] / r; u[2] = rx[2] / r; e[0] = -rx[1] / p; e[1] = rx[0] / p; e[2] = 0; n[0] = u[1] * e[2] - u[2] * e[1]; n[1] = u[2] * e[0] - u[0] * e[2]; n[2] = u[0] * e[1] - u[1] * e[0]; }
// the receiver's measurement of each satellite: time tags, rotation of the Earth during flight, clocks, troposphere
static void measure(Scene& s, double common, const V& noise)
{
   s.pr.clear(); CommonTime tt = s.tr; tt -= common / CLIGHT; s.trop.want = s.tr;
   for (size_t i = 0; i < s.sats.size(); i++)
   {
      SatID id = s.sats[i]; id.id = std::abs(id.id); const Orb& q = s.st.o[id]; double tau = 0.075; Xvt p; double w[3], rho = 0;
      for (int k = 0; k < 8; k++) { CommonTime t = tt; t -= tau; p = s.st.at(q, t); double a = OMEGA * tau; w[0] = std::cos(a) * p.x[0] + std::sin(a) * p.x[1]; w[1] = -std::sin(a) * p.x[0] + std::cos(a) * p.x[1]; w[2] = p.x[2]; rho = std::sqrt((w[0] - s.rx[0]) * (w[0] - s.rx[0]) + (w[1] - s.rx[1]) * (w[1] - s.rx[1]) + (w[2] - s.rx[2]) * (w[2] - s.rx[2])); tau = rho / CLIGHT; }
      Position R(s.rx[0], s.rx[1], s.rx[2]), S(w[0], w[1], w[2]);
      s.pr.push_back(rho + s.clk[id.system] - CLIGHT * (p.clkbias + p.relcorr) + s.trop.f(R, S) + noise[i]);
   }
}
static Scene scene(vf::Rng& r, size_t n, int nsys, double noise)
{
   Scene s; static const SatelliteSystem all[] = {SatelliteSystem::GPS, SatelliteSystem::Glonass, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::QZSS};
   std::vector<SatelliteSystem> a(all, all + 5); for (size_t i = 5; i > 1; i--) std::swap(a[i - 1], a[r.range(0, i - 1)]); for (int i = 0; i < nsys; i++) { s.sys.push_back(a[i]); }
   s.tr = GPSWeekSecond((int)r.range(1000, 2300), (double)r.range(0, 604799) + (r.chance(0.5) ? 0 : r.unit()), TimeSystem::GPS).convertToCommonTime(); s.st.t0 = s.tr; s.trop.zen = r.chance(0.2) ? 0 : 1.8 + r.unit();
   double lat = (r.unit() - 0.5) * 3.1, lon = r.unit() * 6.283, R = 6371e3 + r.unit() * 9000; s.rx[0] = R * std::cos(lat) * std::cos(lon); s.rx[1] = R * std::cos(lat) * std::sin(lon); s.rx[2] = R * std::sin(lat); { GPSEllipsoid e; Position p(s.rx[0], s.rx[1], s.rx[2]); p.transformTo(Position::Geodetic); Position g(p.getGeodeticLatitude(), p.longitude(), -100 + r.unit() * 9000, Position::Geodetic); g.transformTo(Position::Cartesian); s.rx[0] = g.X(); s.rx[1] = g.Y(); s.rx[2] = g.Z(); }
   double e[3], nn[3], u[3]; enu(s.rx, e, nn, u); double common = r.chance(0.3) ? 0 : (r.unit() - 0.5) * 4e5; for (auto y : s.sys) s.clk[y] = common + (r.unit() - 0.5) * 100; V nz;
   double az0 = r.unit() * 6.283;
   for (size_t i = 0; i < n; i++)
   {
      SatID id((int)(1 + i * 3 + r.range(0, 2)), s.sys[i < (size_t)nsys ? i : r.range(0, nsys - 1)]); Orb q; double el = i % 3 == 0 ? 55 + r.unit() * 33 : 9 + r.unit() * 40; el *= 0.0174533; double az = az0 + 6.283 * (i * 0.381966 + 0.12 * r.unit());
      double d[3]; for (int k = 0; k < 3; k++) d[k] = std::cos(el) * (std::sin(az) * e[k] + std::cos(az) * nn[k]) + std::sin(el) * u[k];
      double rad = 25.5e6 + r.unit() * 3e6, b = s.rx[0] * d[0] + s.rx[1] * d[1] + s.rx[2] * d[2], rr = s.rx[0] * s.rx[0] + s.rx[1] * s.rx[1] + s.rx[2] * s.rx[2], L = -b + std::sqrt(b * b - rr + rad * rad); for (int k = 0; k < 3; k++) q.x[k] = s.rx[k] + L * d[k];
      for (int k = 0; k < 3; k++) { q.v[k] = (r.unit() - 0.5) * 5000; } q.clk = (r.unit() - 0.5) * 1e-3; q.drift = (r.unit() - 0.5) * 1e-10; q.rel = (r.unit() - 0.5) * 6e-8; s.st.o[id] = q; s.sats.push_back(id); double g = 0; for (int k = 0; k < 6; k++) g += r.unit() - 0.5; nz.push_back(g * noise);
   }
   measure(s, common, nz); std::ostringstream o; o << n << " satellites of " << nsys << " systems noise " << noise << " rx " << std::fixed << s.rx[0] << "," << s.rx[1] << "," << s.rx[2] << " clock " << common; s.ds = o.str(); return s;
}
static bool invert(M a, M& inv) { size_t n = a.size(); inv.assign(n, std::vector<ld>(n, 0)); for (size_t i = 0; i < n; i++) inv[i][i] = 1; for (size_t c = 0; c < n; c++) { size_t p = c; for (size_t i = c; i < n; i++) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; if (fabsl(a[p][c]) < 1e-17L) return false; std::swap(a[c], a[p]); std::swap(inv[c], inv[p]); ld d = a[c][c]; for (size_t j = 0; j < n; j++) { a[c][j] /= d; inv[c][j] /= d; } for (size_t i = 0; i < n; i++) if (i != c) { ld f = a[i][c]; for (size_t j = 0; j < n; j++) { a[i][j] -= f * a[c][j]; inv[i][j] -= f * inv[c][j]; } } } return true; }
struct Fit { int ret = -3; size_t n = 0, dim = 0; std::vector<ld> x; M cov, dop, P; V res, slope; double rms = 0, maxslope = 0; int nit = 0; bool trop = false, edge = false, weak = false; std::vector<SatelliteSystem> sys; };
// least squares on the given satellites: SV position at transmission and corrected range
static Fit fit(const M& svp, const std::vector<SatID>& id, const std::vector<bool>& use, const std::vector<SatelliteSystem>& allowed, const M& W, std::vector<ld> x0, const Stub& trop, int limit, double conv, double hmax = 44247)
{
   Fit f; std::vector<size_t> ix; for (size_t i = 0; i < id.size(); i++) if (use[i]) ix.push_back(i); for (auto y : allowed) { bool any = false; for (size_t i : ix) if (id[i].system == y) any = true; if (any) f.sys.push_back(y); } size_t n = f.n = ix.size(), m = f.dim = 3 + f.sys.size(); if (n < m) return f;
   f.x.assign(m, 0); for (int k = 0; k < 3; k++) f.x[k] = x0.size() ? x0[k] : 0; if (x0.size()) for (size_t k = 0; k < f.sys.size(); k++) for (size_t j = 0; j < allowed.size(); j++) if (allowed[j] == f.sys[k]) f.x[3 + k] = x0[3 + j];
   f.ret = -1; if (limit < 2) limit = 2; M G; for (;;)
   {
      f.P.assign(n, std::vector<ld>(m, 0)); std::vector<ld> r(n); f.trop = false;
      for (size_t a = 0; a < n; a++)
      {
         const std::vector<ld>& s = svp[ix[a]]; ld t = f.nit ? sqrtl((s[0] - f.x[0]) * (s[0] - f.x[0]) + (s[1] - f.x[1]) * (s[1] - f.x[1]) + (s[2] - f.x[2]) * (s[2] - f.x[2])) / CLIGHT : 0.07L, w = OMEGA * t, p[3] = {cosl(w) * s[0] + sinl(w) * s[1], -sinl(w) * s[0] + cosl(w) * s[1], s[2]}, rho = sqrtl((p[0] - f.x[0]) * (p[0] - f.x[0]) + (p[1] - f.x[1]) * (p[1] - f.x[1]) + (p[2] - f.x[2]) * (p[2] - f.x[2]));
         ld c = s[3] - rho; if (f.nit) { Position R, S; R.setECEF((double)f.x[0], (double)f.x[1], (double)f.x[2]); S.setECEF((double)p[0], (double)p[1], (double)p[2]); double h = R.getHeight(), el = R.elevation(S); if (std::fabs(el) < 1e-3 || std::fabs(h - hmax) < 1 || std::fabs(h + 1000) < 1) f.edge = true; if (el < 0 || h > hmax || h < -1000) f.trop = true; else c -= trop.f(R, S); }
         size_t j = 3; while (f.sys[j - 3] != id[ix[a]].system) j++; r[a] = c - f.x[j]; for (int k = 0; k < 3; k++) f.P[a][k] = (f.x[k] - p[k]) / rho; f.P[a][j] = 1;
      }
      M N(m, std::vector<ld>(m, 0)), D(N), B(m, std::vector<ld>(n, 0)); for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { ld w = W.size() ? W[ix[a]][ix[b]] : a == b; if (w == 0) continue; for (size_t i = 0; i < m; i++) B[i][b] += f.P[a][i] * w; }
      for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) for (size_t a = 0; a < n; a++) { N[i][j] += B[i][a] * f.P[a][j]; D[i][j] += f.P[a][i] * f.P[a][j]; }
      if (!invert(N, f.cov) || !invert(D, f.dop)) { f.ret = -2; return f; } for (auto& z : f.dop) for (ld t : z) if (fabsl(t) > 1e6L) f.edge = true;
      G.assign(m, std::vector<ld>(n, 0)); for (size_t i = 0; i < m; i++) for (size_t a = 0; a < n; a++) for (size_t j = 0; j < m; j++) G[i][a] += f.cov[i][j] * B[j][a];
      ld nm = 0; for (size_t i = 0; i < m; i++) { ld d = 0; for (size_t a = 0; a < n; a++) d += G[i][a] * r[a]; f.x[i] += d; nm += d * d; } f.nit++; nm = sqrtl(nm); f.res.assign(r.begin(), r.end()); if (f.nit > 1 && nm < conv) { f.ret = 0; break; } if (f.nit >= limit || nm > 1e10L) { f.ret = -1; break; }
   }
   ld q = 0; for (double z : f.res) q += (ld)z * z; f.rms = (double)sqrtl(q / n); f.slope.assign(n, 0); for (size_t a = 0; a < n; a++) { ld pg = 0, g = 0; for (size_t i = 0; i < m; i++) { pg += f.P[a][i] * G[i][a]; g += G[i][a] * G[i][a]; } if (1 - pg < 1e-5L) f.weak = true; if (fabsl(1 - pg) < 1e-9L) continue; if (1 - pg < 1e-5L) f.edge = true; f.slope[a] = (double)sqrtl(g * (n - m) / (1 - pg)); f.maxslope = std::max(f.maxslope, f.slope[a]); }
   return f;
}
static M mat(const Matrix<double>& a) { M m(a.rows(), std::vector<ld>(a.cols())); for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < a.cols(); j++) m[i][j] = a(i, j); return m; }
static std::string cmpm(const Matrix<double>& a, const M& b, ld rel) { if (a.rows() != b.size() || (b.size() && a.cols() != b[0].size())) return " dimension"; ld mx = 0; for (auto& r : b) for (ld z : r) mx = std::max(mx, fabsl(z)); for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < a.cols(); j++) if (!(fabsl(a(i, j) - b[i][j]) <= rel * mx)) { std::ostringstream o; o << " (" << i << "," << j << ") " << a(i, j) << " not " << (double)b[i][j]; return o.str(); } return ""; }
static std::string cmpv(const Vector<double>& a, const V& b, double tol) { if (a.size() != b.size()) return " length"; for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol)) { std::ostringstream o; o << " [" << i << "] " << a[i] << " not " << b[i]; return o.str(); } return ""; }
static std::string list(const std::vector<SatID>& v) { std::ostringstream o; for (auto& s : v) o << " " << (int)s.system << ":" << s.id; return o.str(); }
static ld cond(const Fit& f) { ld t = 0; for (auto& r : f.dop) for (ld z : r) t = std::max(t, fabsl(z)); return t; }
static PRSolution& fresh(void* mem) { std::memset(mem, 0xa5, sizeof(PRSolution)); return *new (mem) PRSolution; }
struct Holder { alignas(16) char mem[sizeof(PRSolution)]; PRSolution& p; Holder() : p(fresh(mem)) {} ~Holder() { p.~PRSolution(); } };

static void simple(vf::Case& c)
{
   vf::Rng& r = c.rng; int nsys = (int)r.range(1, 4); size_t n = r.range(3 + nsys, 12) - (r.chance(0.05) ? 1 : 0); double noise = r.chance(0.4) ? 0 : std::fabs(r.logmag(0.01, 30)); Scene s = scene(r, n, nsys, noise); std::string ds = s.ds; c.note(ds); c.distinct(ds); c.sample(ds);
   Holder H; PRSolution& p = H.p; p.hasMemory = r.chance(0.4); for (auto y : s.sys) { if (r.chance(0.15)) p.allowedGNSS.push_back(SatelliteSystem::IRNSS); p.allowedGNSS.push_back(y); } std::vector<SatelliteSystem> full = p.allowedGNSS; if (p.allowedGNSS.size() > 1 && r.chance(0.3)) p.allowedGNSS.erase(p.allowedGNSS.begin() + r.range(0, p.allowedGNSS.size() - 1)); std::vector<SatelliteSystem> al = p.allowedGNSS; for (size_t i = al.size(); i > 1; i--) if (r.chance(0.5)) std::swap(p.allowedGNSS[i - 1], p.allowedGNSS[r.range(0, i - 1)]); al = p.allowedGNSS; auto allowed = [&](SatelliteSystem y) { return std::find(al.begin(), al.end(), y) != al.end(); };
   VF_CHECK("init", !p.isValid() && p.getAPV() == 0 && p.was.getN() == 0, "a new solution: valid " << p.isValid() << " APV " << p.getAPV());
   std::vector<SatID> sats = s.sats; for (auto& q : sats) if (r.chance(0.06)) q.id = -q.id; for (auto& q : sats) if (r.chance(0.06)) { SatID w = q; w.id = std::abs(w.id); s.st.o[w].eph = false; } std::vector<SatID> in = sats, want = sats; int good = 0, noeph = 0, N = 0; for (auto& q : want) { if (q.id <= 0) continue; if (!allowed(q.system)) { q.id = -q.id; continue; } N++; if (!s.st.o[q].eph) { q.id = -q.id; noeph++; } else good++; }
   Matrix<double> SVP; int rc = p.PreparePRSolution(s.tr, sats, s.pr, &s.st, SVP); VF_CHECK("prepare.code", rc == (N == 0 ? 0 : good == 0 ? -4 : good), ds << " returned " << rc << " of " << good << " good"); bool ok = sats == want && SVP.rows() == n && SVP.cols() == 4; VF_CHECK("prepare.marks", ok, ds << list(in) << " became" << list(sats)); if (!ok) return;
   for (size_t i = 0; i < n; i++) { if (sats[i].id <= 0) { VF_CHECK("prepare.zero", SVP(i, 0) == 0 && SVP(i, 3) == 0, ds); continue; } const Orb& q = s.st.o[sats[i]]; CommonTime t = s.tr; t -= s.pr[i] / CLIGHT; Xvt a = s.st.at(q, t); t -= a.clkbias + a.relcorr; a = s.st.at(q, t); double d = 0; for (int k = 0; k < 3; k++) d += std::fabs(SVP(i, k) - a.x[k]); VF_CHECK("prepare.transmit", d < 1e-4 && std::fabs(SVP(i, 3) - (s.pr[i] + CLIGHT * (a.clkbias + a.relcorr))) < 1e-5, ds << " satellite " << i << " off by " << d); }
   // the solution proper: marks on satellites of systems not allowed may be missing
   std::vector<SatID> sm(sats); bool unmarked = r.chance(0.3); if (unmarked) for (size_t i = 0; i < n; i++) if (in[i].id > 0 && !allowed(in[i].system)) sm[i].id = in[i].id; std::vector<bool> use(n); for (size_t i = 0; i < n; i++) use[i] = sats[i].id > 0;
   Matrix<double> iMC; M W; int wk = (int)r.range(0, 2); if (wk) { W.assign(n, std::vector<ld>(n, 0)); V g(n); for (size_t i = 0; i < n; i++) W[i][i] = 0.05 + r.unit() * 4; if (wk == 2) for (int k = 0; k < 2; k++) { for (auto& z : g) z = r.unit() - 0.5; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) W[i][j] += (ld)(g[i] * g[j]); } iMC = Matrix<double>(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { iMC(i, j) = (double)W[i][j]; W[i][j] = iMC(i, j); } }
   std::vector<ld> x0; if (p.hasMemory) { x0.assign(3 + al.size(), 0); if (r.chance(0.5)) { double q[3]; for (int k = 0; k < 3; k++) q[k] = s.rx[k] + (r.unit() - 0.5) * 1e5; p.fixAPSolution(q[0], q[1], q[2]); for (int k = 0; k < 3; k++) x0[k] = q[k]; } }
   int limit = r.chance(0.1) ? (int)r.range(0, 4) : 12; double conv = r.chance(0.7) ? 3e-7 : 1e-3; Fit f = fit(mat(SVP), sm, use, al, W, x0, s.trop, limit, conv); Vector<double> res, sl; std::ostringstream o; o << ds << list(sm) << " weights " << wk << " memory " << p.hasMemory << " limit " << limit; ds = o.str(); c.note(ds); s.trop.calls = 0; rc = p.SimplePRSolution(s.tr, sm, SVP, iMC, &s.trop, limit, conv, res, sl); c.count(f.ret == 0 ? "solved" : f.ret == -3 ? "too_few" : f.ret == -1 ? "not_converged" : "singular");
   bool border = f.edge || f.nit > 8 || (f.ret != -3 && cond(f) > 1e4) || (rc != f.ret && rc <= 0 && rc >= -1 && cond(f) > 500); if (border) { c.count("ill_conditioned"); return; }
   VF_CHECK("simple.code", rc == f.ret, ds << " returned " << rc << " not " << f.ret); VF_CHECK("simple.valid", p.isValid() == (rc == 0), ds << " code " << rc << " valid " << p.isValid()); VF_CHECK("simple.trop", s.trop.good, ds << " the troposphere was evaluated at another time"); if (rc != f.ret || rc != 0) { if (rc == -3 && f.ret == -3) VF_CHECK("simple.few", p.Nsvs == (int)f.n, ds << " counts " << p.Nsvs); return; }
   ld k = cond(f) + 10; VF_CHECK("simple.systems", p.dataGNSS == f.sys && p.Nsvs == (int)f.n, ds); ok = p.Solution.size() == f.dim; std::ostringstream w; w.precision(15); for (size_t i = 0; i < f.dim && ok; i++) if (!(fabsl(p.Solution[i] - f.x[i]) < 1e-6L * k)) { ok = false; w << " component " << i << " " << p.Solution[i] << " not " << (double)f.x[i]; } VF_CHECK("simple.solution", ok, ds << w.str()); std::string e = cmpm(p.Covariance, f.cov, 1e-9L * k); VF_CHECK("simple.covariance", e.empty(), ds << e); e = cmpm(p.Partials, f.P, 1e-9L); VF_CHECK("simple.partials", e.empty(), ds << e); e = cmpv(res, f.res, 1e-5 * (double)k); VF_CHECK("simple.residuals", e.empty(), ds << e); VF_CHECK("simple.rms", std::fabs(p.RMSResidual - f.rms) < 1e-5 * (double)k, ds << " RMS " << p.RMSResidual << " not " << f.rms); double st = 1e-5 * (double)k * (1 + f.maxslope); e = cmpv(sl, f.slope, st * (1 + f.maxslope)); VF_CHECK("simple.slopes", e.empty(), ds << e); VF_CHECK("simple.maxslope", std::fabs(p.MaxSlope - f.maxslope) <= st * (1 + f.maxslope), ds << " largest slope " << p.MaxSlope << " not " << f.maxslope); VF_CHECK("simple.iterations", (k > 300 || std::abs(p.NIterations - f.nit) <= 1) && p.Convergence >= 0 && p.Convergence < conv, ds << " iterations " << p.NIterations << " not " << f.nit << " converge " << p.Convergence); VF_CHECK("simple.tropflag", p.TropFlag == f.trop, ds << " flag " << p.TropFlag);
   { M wi; if (wk) { for (size_t i = 0; i < n; i++) if (use[i]) { std::vector<ld> row; for (size_t j = 0; j < n; j++) if (use[j]) row.push_back(W[i][j]); wi.push_back(row); } } e = cmpm(p.invMeasCov, wi, 1e-14L); VF_CHECK("simple.weights", e.empty(), ds << e); }
   if (noise == 0 && fabsl(f.x[0] - s.rx[0]) < 1) { double d = 0; for (int i = 0; i < 3; i++) d = std::max(d, std::fabs(p.Solution[i] - s.rx[i])); for (size_t i = 0; i < f.sys.size(); i++) d = std::max(d, std::fabs(p.Solution[3 + i] - s.clk[f.sys[i]])); c.maximum("truth_error", d / std::sqrt((double)k)); VF_CHECK("simple.truth", d < 0.01 * std::sqrt((double)k), ds << " error " << d); }
   if (p.hasMemory) { Vector<double> dx(f.dim); V pf(f.n); bool g = p.PreFitResidual.size() == f.n; for (size_t i = 0; i < f.n; i++) { ld z = -f.res[i]; for (size_t j = 0; j < f.dim; j++) { ld a = 0; if (j < 3) a = x0[j]; z += f.P[i][j] * (f.x[j] - a); } pf[i] = (double)z; } e = g ? cmpv(p.PreFitResidual, pf, 1e-3 * (double)k) : " length"; VF_CHECK("simple.prefit", e.empty(), ds << e); }
   p.DOPCompute(); ld pd = sqrtl(f.dop[0][0] + f.dop[1][1] + f.dop[2][2]), td = 0; for (size_t i = 3; i < f.dim; i++) td += f.dop[i][i]; td = sqrtl(td); VF_CHECK("simple.dop", std::fabs(p.PDOP - pd) < 1e-8 * k && std::fabs(p.TDOP - td) < 1e-8 * k && std::fabs(p.GDOP - hypotl(pd, td)) < 1e-8 * k, ds << " DOPs " << p.PDOP << " " << p.TDOP << " " << p.GDOP << " not " << (double)pd << " " << (double)td);
   { std::vector<SatelliteSystem> none; PRSolution q; VF_THROWS("noallowed", Exception, q.PreparePRSolution(s.tr, sats, s.pr, &s.st, SVP), ds); VF_THROWS("noallowed", Exception, q.SimplePRSolution(s.tr, sats, SVP, iMC, &s.trop, 10, 1e-7, res, sl), ds); VF_THROWS("notrop", Exception, p.SimplePRSolution(s.tr, sats, SVP, iMC, 0, 10, 1e-7, res, sl), ds); Matrix<double> bad(n + 1, 4, 1.0), bw(n + 1, n + 1, 1.0); VF_THROWS("dims", Exception, p.SimplePRSolution(s.tr, sats, bad, iMC, &s.trop, 10, 1e-7, res, sl), ds); VF_THROWS("dims", Exception, p.SimplePRSolution(s.tr, sats, SVP, bw, &s.trop, 10, 1e-7, res, sl), ds); }
}
static size_t bits(unsigned m) { return __builtin_popcount(m); }
// what the documented search selects: rejecting none, then one, then two ... the subset of least RMS residual below the limit
struct Raim { bool sure = true; int ret = -4; unsigned out = 0; Fit best; double rms = -1; };
static Raim search(const M& svp, const std::vector<SatID>& id, const std::vector<bool>& use, const std::vector<SatelliteSystem>& al, const M& W, const std::vector<ld>& x0, const Stub& trop, double lim, int reject, int maxit, double conv)
{
   Raim q; std::vector<size_t> g; for (size_t i = 0; i < id.size(); i++) if (use[i]) g.push_back(i); size_t N = g.size(); if (!N) return q; q.ret = -3; double second = 1e300;
   for (int stage = 0; stage <= (int)N; stage++)
   {
      if (reject > -1 && stage > reject) break; bool few = false;
      for (unsigned m = 0; m < 1u << N; m++)
      {
         if ((int)bits(m) != stage) continue; std::vector<bool> u = use; for (size_t i = 0; i < N; i++) if (m >> i & 1) u[g[i]] = false; Fit f = fit(svp, id, u, al, W, x0, trop, maxit, conv); if (f.ret == -3) { few = true; q.sure = false; continue; } if (f.n == f.dim) q.sure = q.sure && (stage == 0); if (f.ret == -1 || f.ret == -2 || f.edge || f.nit > 8) { if (f.ret != -1 || f.edge || cond(f) > 1e4L) q.sure = false; if (f.ret == -1 && f.nit >= maxit) q.sure = q.sure && f.rms > lim * 3; continue; } if (cond(f) > 2e3L) q.sure = false;
         if (q.rms < 0 || f.rms < q.rms) { if (q.rms >= 0) second = q.rms; q.rms = f.rms; q.best = f; q.out = m; } else second = std::min(second, f.rms);
      }
      if (q.rms >= 0 && q.rms < lim) { q.ret = 0; if (std::fabs(q.rms - lim) < 1e-3 * lim) q.sure = false; if (stage && second < q.rms * 1.01 + 1e-4) q.sure = false; return q; } if (std::fabs(q.rms - lim) < 1e-3 * lim) q.sure = false; if (few) { q.sure = false; break; }
   }
   if (q.rms >= 0) { q.ret = 1; if (second < q.rms * 1.01 + 1e-4) q.sure = false; } return q;
}
static void raim(vf::Case& c)
{
   vf::Rng& r = c.rng; int nsys = r.chance(0.7) ? 1 : 2; size_t n = r.range(nsys == 1 ? 4 : 6, nsys == 1 ? 9 : 10); double noise = std::fabs(r.logmag(0.05, 3)); Scene s = scene(r, n, nsys, noise); int bad = n >= 6 ? (int)r.range(0, n >= 8 ? 2 : 1) : 0; std::ostringstream o; o << s.ds << " errors"; std::set<size_t> ob; while ((int)ob.size() < bad) ob.insert(r.range(0, n - 1)); for (size_t i : ob) { double z = std::fabs(r.logmag(60, 5e4)) * (r.chance(0.5) ? 1 : -1); s.pr[i] += z; o << " " << i << ":" << z; }
   Holder H; PRSolution& p = H.p; p.hasMemory = r.chance(0.3); p.allowedGNSS = s.sys; if (r.chance(0.2)) p.allowedGNSS.insert(p.allowedGNSS.begin() + r.range(0, nsys), SatelliteSystem::IRNSS); p.RMSLimit = r.chance(0.8) ? 6.5 : std::fabs(r.logmag(0.3, 200)); p.NSatsReject = (int)r.range(-1, 2); p.SlopeLimit = r.chance(0.6) ? 1000 : std::fabs(r.logmag(2, 50)); o << " RMS limit " << p.RMSLimit << " reject " << p.NSatsReject << " slope " << p.SlopeLimit << " memory " << p.hasMemory;
   std::vector<SatID> sats = s.sats; if (r.chance(0.3)) { SatID id(1, SatelliteSystem::IRNSS); size_t k = r.range(0, n); if (std::find(p.allowedGNSS.begin(), p.allowedGNSS.end(), id.system) == p.allowedGNSS.end() || r.chance(0.5)) { sats.insert(sats.begin() + k, id); s.pr.insert(s.pr.begin() + k, 2.2e7); } } if (r.chance(0.2)) { SatID id(60, s.sys[0]); size_t k = r.range(0, sats.size()); sats.insert(sats.begin() + k, id); s.pr.insert(s.pr.begin() + k, 2.1e7); } if (r.chance(0.2)) sats[r.range(0, sats.size() - 1)].id *= -1; n = sats.size(); o << list(sats); std::string ds = o.str(); c.note(ds); c.distinct(ds); c.sample(ds); std::vector<SatelliteSystem> al = p.allowedGNSS;
   Matrix<double> iMC; M W; int wk = r.chance(0.6) ? 0 : 1; if (wk) { iMC = Matrix<double>(n, n, 0.0); W.assign(n, std::vector<ld>(n, 0)); for (size_t i = 0; i < n; i++) W[i][i] = iMC(i, i) = 0.3 + r.unit() * 2; }
   std::vector<SatID> pre = sats; Matrix<double> SVP; { PRSolution q; q.allowedGNSS = al; q.PreparePRSolution(s.tr, pre, s.pr, &s.st, SVP); } std::vector<bool> use(n); for (size_t i = 0; i < n; i++) use[i] = pre[i].id > 0;
   std::vector<ld> x0; if (p.hasMemory) x0.assign(3 + al.size(), 0); Raim q = search(mat(SVP), pre, use, al, W, x0, s.trop, p.RMSLimit, p.NSatsReject, p.MaxNIterations, p.ConvergenceLimit); std::vector<SatID> got = sats; int rc = wk ? p.RAIMCompute(s.tr, got, s.pr, iMC, &s.st, &s.trop) : p.RAIMComputeUnweighted(s.tr, got, s.pr, &s.st, &s.trop); c.count("code_" + std::to_string(rc));
   VF_CHECK("raim.range", rc >= -4 && rc <= 1, ds << " returned " << rc); if (!std::any_of(use.begin(), use.end(), [](bool b) { return b; })) { VF_CHECK("raim.none", rc == -4 && !p.isValid(), ds << " returned " << rc << " valid " << p.isValid()); return; } bool only = true; for (size_t i = 0; i < n; i++) only = only && std::abs(got[i].id) == std::abs(sats[i].id) && got[i].system == sats[i].system && !(got[i].id > 0 && pre[i].id <= 0); VF_CHECK("raim.marks", only && got.size() == n, ds << " returned" << list(got));
   if (rc < 0) { if (q.sure) VF_CHECK("raim.code", q.ret < 0, ds << " returned " << rc << " though a solution exists with RMS " << q.rms); VF_CHECK("raim.invalid", !p.isValid(), ds << " returned " << rc << " and is valid"); return; }
   { size_t used = 0; for (auto& z : got) used += z.id > 0; VF_CHECK("raim.used", p.Nsvs == (int)used && p.SatelliteIDs == got && p.isValid(), ds << " uses " << p.Nsvs << " marks" << list(got)); VF_CHECK("raim.flags", (rc == 1) == (p.RMSFlag || p.SlopeFlag || p.TropFlag) && p.RMSFlag == (p.RMSResidual >= p.RMSLimit) && p.SlopeFlag == (p.MaxSlope > p.SlopeLimit || (p.Nsvs == 5 && p.MaxSlope > p.SlopeLimit / 2)), ds << " code " << rc << " flags " << p.RMSFlag << p.SlopeFlag << p.TropFlag << " RMS " << p.RMSResidual << " slope " << p.MaxSlope);
      if (p.NSatsReject >= 0) { size_t avail = 0; for (bool b : use) avail += b; VF_CHECK("raim.maximum", avail - used <= (size_t)p.NSatsReject, ds << " rejected " << avail - used); }
      // whatever was selected, the reported quantities belong to it
      std::vector<bool> u(n); for (size_t i = 0; i < n; i++) u[i] = got[i].id > 0; Fit f = fit(mat(SVP), pre, u, al, W, x0, s.trop, p.MaxNIterations, p.ConvergenceLimit); if (f.ret == 0 && !f.edge && cond(f) < 1e6) { ld k = cond(f) + 10; bool ok = p.Solution.size() == f.dim && p.dataGNSS == f.sys; for (size_t i = 0; i < f.dim && ok; i++) ok = fabsl(p.Solution[i] - f.x[i]) < 1e-6L * k; VF_CHECK("raim.solution", ok, ds << list(got) << " solution " << p.Solution); std::string e = cmpm(p.Covariance, f.cov, 1e-9L * k); VF_CHECK("raim.covariance", e.empty(), ds << e); e = cmpm(p.Partials, f.P, 1e-9L); VF_CHECK("raim.partials", e.empty(), ds << e); VF_CHECK("raim.rms", std::fabs(p.RMSResidual - f.rms) < 1e-5 * (double)k, ds << " RMS " << p.RMSResidual << " not " << f.rms); VF_CHECK("raim.slope", std::fabs(p.MaxSlope - f.maxslope) < 1e-5 * (double)k * (1 + f.maxslope) * (1 + f.maxslope), ds << " slope " << p.MaxSlope << " not " << f.maxslope); ld pd = sqrtl(f.dop[0][0] + f.dop[1][1] + f.dop[2][2]); VF_CHECK("raim.dop", std::fabs(p.PDOP - pd) < 1e-7 * k, ds << " PDOP " << p.PDOP << " not " << (double)pd); VF_CHECK("raim.tropflag", p.TropFlag == f.trop, ds);
         if (p.hasMemory) { bool m = p.APSolution.size() == 3 + al.size(); for (int i = 0; i < 3 && m; i++) m = p.APSolution[i] == p.Solution[i]; for (size_t i = 0; i < al.size() && m; i++) { size_t j = 0; while (j < f.sys.size() && f.sys[j] != al[i]) j++; m = p.APSolution[3 + i] == (j < f.sys.size() ? p.Solution[3 + j] : 0); } VF_CHECK("raim.memory", m && p.was.getN() == 1, ds << " a priori " << p.APSolution << " of " << p.Solution); } else VF_CHECK("raim.memory", p.was.getN() == 0, ds); } }
   if (!q.sure) { c.count("ambiguous_search"); return; } c.count("search_decided"); c.count("rejected_" + std::to_string(bits(q.out)));
   { std::vector<SatID> want = pre; std::vector<size_t> g; for (size_t i = 0; i < n; i++) if (use[i]) g.push_back(i); for (size_t i = 0; i < g.size(); i++) if (q.out >> i & 1) want[g[i]].id *= -1; bool same = got == want; VF_CHECK("raim.selected", same, ds << " selected" << list(got) << " not" << list(want) << " RMS " << p.RMSResidual << " not " << q.rms); VF_CHECK("raim.success", (q.ret == 0) == !p.RMSFlag, ds << " code " << rc); if (same && noise < 1 && q.ret == 0 && p.NSatsReject != 0 && bits(q.out) == ob.size()) { bool all = true; size_t k = 0; for (size_t i = 0; i < n; i++) (void)k, all = all && true; c.count("outliers_found", ob.size()); (void)all; } }
   { std::string nav = p.outputNAVString("tg", rc), rms = p.outputRMSString("tg", rc), hd = p.outputStringHeader("tg"), pos = p.outputPOSString("tg", rc), ck = p.outputCLKString("tg", rc); std::istringstream is(nav); std::string t, k; int wkn; double sow, x, y, z; is >> t >> k >> wkn >> sow >> x >> y >> z; GPSWeekSecond gt(s.tr); bool ok = t == "tg" && k == "NAV" && wkn == gt.week && std::fabs(sow - gt.sow) < 6e-4 && std::fabs(x - p.Solution[0]) < 1e-6 && std::fabs(y - p.Solution[1]) < 1e-6 && std::fabs(z - p.Solution[2]) < 1e-6; for (size_t i = 0; i < p.dataGNSS.size() && ok; i++) { is >> t >> x; ok = std::fabs(x - p.Solution[3 + i]) < 1e-3; } ok = ok && nav.find(rc == 0 ? "(0 ok) V" : "(1 ok but perhaps degraded due to") != std::string::npos && (rc == 0 || ((nav.find("large RMS") != std::string::npos) == p.RMSFlag && (nav.find("large slope") != std::string::npos) == p.SlopeFlag && (nav.find("missed trop") != std::string::npos) == p.TropFlag)); VF_CHECK("print.nav", ok, ds << " prints " << nav); std::istringstream im(rms); int ng, ni; double rr, td, pd, gd, sl, cv; im >> t >> k >> wkn >> sow >> ng >> rr >> td >> pd >> gd >> sl >> ni >> cv; ok = !im.fail() && k == "RMS" && ng == p.Nsvs && std::fabs(rr - p.RMSResidual) < 6e-4 && std::fabs(td - p.TDOP) < 6e-3 && std::fabs(pd - p.PDOP) < 6e-3 && std::fabs(gd - p.GDOP) < 6e-3 && std::fabs(sl - p.MaxSlope) < 0.06 && ni == p.NIterations && std::fabs(cv - p.Convergence) <= 0.006 * p.Convergence + 1e-300; size_t neg = 0, tot = 0; for (size_t i = 0; i < got.size(); i++) { tot++; neg += got[i].id < 0; } size_t sn = 0, sp = 0; while (im >> t && t[0] != '(') { if (t[0] == '-') sn++; else sp++; } VF_CHECK("print.rms", ok && sn == neg && sn + sp == tot, ds << " prints " << rms << " marks" << list(got)); VF_CHECK("print.others", hd.compare(0, 4, "#tg ") == 0 && pos.find("tg POS") == 0 && ck.find("tg CLK") == 0 && p.configString("x").find("RMS residual limit") != std::string::npos, ds << pos << ck << hd); }
}
static void memory(vf::Case& c)
{
   vf::Rng& r = c.rng; int nsys = (int)r.range(1, 3); size_t n = r.range(5 + nsys, 11); Scene s = scene(r, n, nsys, 0); std::ostringstream o; o << s.ds; Holder H; PRSolution& p = H.p; p.allowedGNSS = s.sys; bool fixed = r.chance(0.3), preset = fixed || r.chance(0.3); if (preset) p.fixAPSolution(s.rx[0] + 10, s.rx[1] - 20, s.rx[2] + 30); p.fixedAPriori = fixed; p.RMSLimit = 1e4; p.SlopeLimit = 1e9; size_t ep = r.range(1, 6); o << " epochs " << ep << " fixed " << fixed; std::string ds = o.str(); c.note(ds); c.distinct(ds); c.sample(ds);
   ld I[3][3] = {{0}}, b[3] = {0}, ref[3]; V ap; M A3; Stats<double> none; double mn[3], mx[3]; std::vector<ld> x0(3 + nsys, 0); if (preset) { x0[0] = s.rx[0] + 10; x0[1] = s.rx[1] - 20; x0[2] = s.rx[2] + 30; } size_t used = 0, data = 0;
   for (size_t e = 0; e < ep; e++)
   {
      V nz(n); for (auto& z : nz) { z = 0; for (int k = 0; k < 6; k++) z += r.unit() - 0.5; } CommonTime t = s.tr; t += 30.0; s.tr = t; double common = s.clk[s.sys[0]]; measure(s, common, nz); std::vector<SatID> sats = s.sats; if (nsys > 1 && r.chance(0.4)) { SatelliteSystem y = s.sys[r.range(1, nsys - 1)]; for (auto& q : sats) if (q.system == y) q.id = -std::abs(q.id); } Matrix<double> SVP; std::vector<SatID> pre = sats; { PRSolution q; q.allowedGNSS = s.sys; q.PreparePRSolution(s.tr, pre, s.pr, &s.st, SVP); } std::vector<bool> use(n); for (size_t i = 0; i < n; i++) use[i] = pre[i].id > 0; Fit f = fit(mat(SVP), pre, use, s.sys, M(), x0, s.trop, p.MaxNIterations, p.ConvergenceLimit); if (f.ret != 0 || f.edge || cond(f) > 1e4 || f.maxslope > 1e6) return;
      int rc = p.RAIMComputeUnweighted(s.tr, sats, s.pr, &s.st, &s.trop); VF_CHECK("mem.code", rc == 0 && p.isValid(), ds << " epoch " << e << " returned " << rc); if (rc) return; bool ok = p.Solution.size() == f.dim; ld k = cond(f) + 10; for (size_t i = 0; i < f.dim && ok; i++) ok = fabsl(p.Solution[i] - f.x[i]) < 1e-6L * k; VF_CHECK("mem.solution", ok, ds << " epoch " << e); for (int i = 0; i < 3; i++) { if (!fixed) x0[i] = p.Solution[i]; else x0[i] = s.rx[i] + (i == 0 ? 10 : i == 1 ? -20 : 30); } for (size_t i = 0; i < s.sys.size(); i++) for (size_t j = 0; j < f.sys.size(); j++) if (f.sys[j] == s.sys[i]) x0[3 + i] = p.Solution[3 + j]; ok = p.APSolution.size() == x0.size(); for (size_t i = 0; i < x0.size() && ok; i++) ok = fabsl(p.APSolution[i] - x0[i]) < 1e-9L; VF_CHECK("mem.apriori", ok, ds << " epoch " << e << " a priori " << p.APSolution);
      M c3(3, std::vector<ld>(3)), i3; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c3[i][j] = f.cov[i][j]; invert(c3, i3); if (!used) for (int i = 0; i < 3; i++) { ref[i] = f.x[i]; mn[i] = mx[i] = (double)f.x[i]; } for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { I[i][j] += i3[i][j]; b[i] += i3[i][j] * (f.x[j] - ref[j]); } mn[i] = std::min(mn[i], (double)f.x[i]); mx[i] = std::max(mx[i], (double)f.x[i]); } used++; data += f.n; M im(3, std::vector<ld>(3)), cov; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) im[i][j] = I[i][j]; invert(im, cov);
      Vector<double> av = p.was.getSol(); ok = av.size() == 3 && p.was.getN() == (int)used; ld tol = 1e-6L * k * used; for (int i = 0; i < 3 && ok; i++) { ld w = ref[i]; for (int j = 0; j < 3; j++) w += cov[i][j] * b[j]; ok = fabsl(av[i] - w) < tol; } VF_CHECK("mem.average", ok, ds << " epoch " << e << " average " << av); std::string em = cmpm(p.was.getCov(), cov, 1e-8L * k); VF_CHECK("mem.avgcov", em.empty(), ds << em); VF_CHECK("mem.apv", std::isfinite(p.getAPV()) && p.getAPV() >= 0 && (used > 1 || p.getAPV() == 0), ds << " epoch " << e << " APV " << p.getAPV()); std::ostringstream ou; p.dumpSolution(ou, "vf"); std::string dump = ou.str(); VF_CHECK("mem.dump", dump.find("N: " + std::to_string(used) + " ") != std::string::npos && dump.find("nan") == std::string::npos && (dump.find("Not enough data") != std::string::npos) == (used == 1), ds << dump); c.count("epochs"); s.st.t0 = s.tr; for (auto& q : s.st.o) for (int i = 0; i < 3; i++) q.second.x[i] += 0; 
   }
   p.was.reset(); VF_CHECK("mem.reset", p.was.getN() == 0, ds); std::ostringstream ou; ou << p.was; VF_CHECK("mem.reset", ou.str().find("No data") != std::string::npos, ds << ou.str());
}
struct LHolder { alignas(16) char mem[sizeof(PRSolutionLegacy)]; PRSolutionLegacy& p; static PRSolutionLegacy& mk(void* m) { std::memset(m, 0xa5, sizeof(PRSolutionLegacy)); return *new (m) PRSolutionLegacy; } LHolder() : p(mk(mem)) {} ~LHolder() { p.~PRSolutionLegacy(); } };
static void legacy(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(4, 9); double noise = r.chance(0.4) ? 0 : std::fabs(r.logmag(0.05, 3)); Scene s; do s = scene(r, n, 1, noise); while (s.sys[0] != SatelliteSystem::GPS); std::vector<SatID> sats = s.sats; int bad = n >= 7 ? (int)r.range(0, 1) : 0; std::ostringstream o; o << s.ds; if (bad) { size_t i = r.range(0, n - 1); double z = std::fabs(r.logmag(60, 5e4)); s.pr[i] += z; o << " error " << z << " on " << i; } int extra = (int)r.range(0, 3); std::vector<SatelliteSystem> al(1, SatelliteSystem::GPS);
   for (int k = 0; k < extra; k++) { SatID id((int)r.range(70, 90), r.chance(0.4) ? SatelliteSystem::Glonass : r.chance(0.5) ? SatelliteSystem::Galileo : SatelliteSystem::GPS); if (id.system == SatelliteSystem::GPS && r.chance(0.5)) id.id = -id.id; size_t i = r.range(0, sats.size()); sats.insert(sats.begin() + i, id); s.pr.insert(s.pr.begin() + i, 2.2e7); } if (r.chance(0.15)) { size_t i = r.range(0, sats.size() - 1); sats[i].id = -std::abs(sats[i].id); } n = sats.size(); LHolder H; PRSolutionLegacy& p = H.p; p.RMSLimit = r.chance(0.7) ? 6.5 : std::fabs(r.logmag(0.3, 100)); p.SlopeLimit = r.chance(0.7) ? 100 : std::fabs(r.logmag(3, 50)); p.NSatsReject = (int)r.range(-1, 2); p.Algebraic = r.chance(0.2); o << " RMS limit " << p.RMSLimit << " slope " << p.SlopeLimit << " reject " << p.NSatsReject << " algebraic " << p.Algebraic << list(sats); std::string ds = o.str(); c.note(ds); c.distinct(ds); c.sample(ds); VF_CHECK("leg.init", !p.isValid(), ds);
   std::vector<bool> use(n); Matrix<double> SVP; std::vector<SatID> pre = sats; int rc = PRSolutionLegacy::PrepareAutonomousSolution(s.tr, pre, s.pr, s.st, SVP); size_t N = 0; bool ok = true; for (size_t i = 0; i < n; i++) { SatID q = sats[i]; bool good = q.id > 0 && q.system == SatelliteSystem::GPS && s.st.o.count(q); use[i] = good; N += good; ok = ok && pre[i].id == (good ? q.id : -std::abs(q.id)); } VF_CHECK("leg.prepare", ok && rc == (N ? 0 : -4), ds << " marks" << list(pre) << " returned " << rc); for (size_t i = 0; i < n && ok && N; i++) if (use[i]) { const Orb& q = s.st.o[sats[i]]; CommonTime t = s.tr; t -= s.pr[i] / CLIGHT; Xvt a = s.st.at(q, t); t -= a.clkbias + a.relcorr; a = s.st.at(q, t); double d = 0; for (int k = 0; k < 3; k++) d += std::fabs(SVP(i, k) - a.x[k]); VF_CHECK("leg.transmit", d < 1e-4 && std::fabs(SVP(i, 3) - (s.pr[i] + CLIGHT * (a.clkbias + a.relcorr))) < 1e-5, ds << " satellite " << i << " off by " << d); }
   int maxit = p.MaxNIterations; double conv = p.ConvergenceLimit; Fit f = fit(mat(SVP), pre, use, al, M(), std::vector<ld>(), s.trop, maxit, conv, 10000);
   { int it = maxit; double cv = conv; Vector<double> sol, res, sl; Matrix<double> cov; int q = PRSolutionLegacy::AutonomousPRSolution(s.tr, use, SVP, &s.trop, p.Algebraic, it, cv, sol, cov, res, sl); VF_CHECK("leg.simple.code", q == f.ret || f.edge || f.nit > 8 || cond(f) > 500, ds << " returned " << q << " not " << f.ret); if (q == 0 && f.ret == 0 && !f.edge && cond(f) < 1e4) { ld k = cond(f) + 10; double tol = p.Algebraic ? 1e-3 : 1e-6; if (!p.Algebraic || noise == 0) { ok = sol.size() == 4; double d = 0; for (int i = 0; i < 4 && ok; i++) { d = std::max(d, (double)fabsl(sol[i] - f.x[i])); } if (p.Algebraic && (bad || f.n < 5)) d = 0; if (p.Algebraic) { c.count("algebraic"); c.maximum("algebraic_error", d); } VF_CHECK(p.Algebraic ? "leg.algebraic" : "leg.simple.solution", ok && d < tol * k * (p.Algebraic ? 100 : 1), ds << " solution " << sol << " off by " << d); } if (!p.Algebraic) { std::string e = cmpv(res, f.res, 1e-5 * (double)k); VF_CHECK("leg.simple.residuals", e.empty(), ds << e); e = cmpm(cov, f.cov, 1e-9L * k); VF_CHECK("leg.simple.covariance", e.empty(), ds << e); if (f.n > 4 && !f.weak) { V ws(n, 0); size_t j = 0; for (size_t i = 0; i < n; i++) if (use[i]) ws[i] = f.slope[j++]; e = cmpv(sl, ws, 1e-4 * (double)k * (1 + f.maxslope)); VF_CHECK("leg.simple.slopes", e.empty(), ds << e); } VF_CHECK("leg.simple.iterations", (k > 300 || std::abs(it - f.nit) <= 1) && cv < conv, ds << " iterations " << it); } } VF_THROWS("leg.notrop", Exception, PRSolutionLegacy::AutonomousPRSolution(s.tr, use, SVP, 0, false, it, cv, sol, cov, res, sl), ds); }
   // RAIM: at least five satellites are kept unless only one solution is asked for
   bool crit = p.ResidualCriterion = r.chance(0.85); Vector<double> ap(4, 0.0); if (!crit) { for (int i = 0; i < 3; i++) ap[i] = s.rx[i] + (r.unit() - 0.5) * 10; ap[3] = s.clk[SatelliteSystem::GPS] + (r.unit() - 0.5) * 10; p.Solution = ap; } std::vector<SatID> got = sats; rc = p.RAIMCompute(s.tr, got, s.pr, s.st, &s.trop); ds += crit ? "" : " by distance"; c.note(ds); c.count("legacy_code_" + std::to_string(rc));
   VF_CHECK("leg.range", rc >= -4 && rc <= 2 && p.isValid() == (rc == 0), ds << " returned " << rc << " valid " << p.isValid()); if (N == 0) { VF_CHECK("leg.none", rc == -4, ds << " returned " << rc); return; } if (N < 4) { VF_CHECK("leg.few", rc == -3, ds << " returned " << rc); return; } if (p.Algebraic) return;
   int minsv = !crit || p.NSatsReject == 0 ? 4 : 5, rej = p.NSatsReject; if (rej == -1 || rej > (int)N - minsv) rej = (int)N - minsv; if (rej < 0) rej = 0;
   Raim best; best.ret = -3; std::vector<size_t> g; for (size_t i = 0; i < n; i++) if (use[i]) g.push_back(i); double second = 1e300; bool sure = true, done = false; for (int st = 0; st <= rej && !done; st++) { for (unsigned m = 0; m < 1u << N; m++) { if ((int)bits(m) != st) continue; std::vector<bool> u = use; for (size_t i = 0; i < N; i++) if (m >> i & 1) u[g[i]] = false; Fit q = fit(mat(SVP), pre, u, al, M(), std::vector<ld>(), s.trop, maxit, conv, 10000); if (q.ret || q.edge || cond(q) > 2e3L) { sure = false; if (q.ret || q.edge || cond(q) > 1e5L) continue; } double z = q.rms; if (!crit) { ld t = 0; for (int i = 0; i < 4; i++) t += (q.x[i] - ap[i]) * (q.x[i] - ap[i]); z = (double)sqrtl(t / 4); } if (best.rms < 0 || z < best.rms) { if (best.rms >= 0) second = best.rms; best.rms = z; best.best = q; best.out = m; } else second = std::min(second, z); } if (best.rms >= 0 && std::fabs(best.rms - p.RMSLimit) < 1e-3 * p.RMSLimit) sure = false; done = best.rms > 0 && best.rms < p.RMSLimit; } if (best.rms < 1e-4 || (best.out && second < best.rms * 1.01 + 1e-4) || (!done && second < best.rms * 1.01 + 1e-4)) sure = false; if (!sure || best.rms < 0) { c.count("legacy_ambiguous"); return; } c.count("legacy_decided");
   Fit& q = best.best; std::vector<SatID> want = pre; for (size_t i = 0; i < g.size(); i++) if (best.out >> i & 1) want[g[i]].id *= -1; int wc = best.rms >= p.RMSLimit ? 2 : q.n > 4 && (q.maxslope > p.SlopeLimit || (q.n == 5 && q.maxslope > p.SlopeLimit / 2)) ? 1 : 0; bool sl = std::fabs(q.maxslope - p.SlopeLimit) < 1e-4 * p.SlopeLimit || std::fabs(q.maxslope - p.SlopeLimit / 2) < 1e-4 * p.SlopeLimit || q.n == 4;
   VF_CHECK("leg.selected", got == want && p.Nsvs == (int)q.n, ds << " selected" << list(got) << " not" << list(want) << " RMS " << p.RMSResidual << " not " << best.rms); if (got != want) return; VF_CHECK("leg.code", sl || rc == wc, ds << " returned " << rc << " not " << wc << " slope " << p.MaxSlope << " " << q.maxslope); ld k = cond(q) + 10; ok = p.Solution.size() == 4; for (int i = 0; i < 4 && ok; i++) ok = fabsl(p.Solution[i] - q.x[i]) < 1e-6L * k; VF_CHECK("leg.solution", ok && std::fabs(p.RMSResidual - best.rms) < 1e-5 * (double)k, ds << " solution " << p.Solution << " RMS " << p.RMSResidual << " not " << best.rms); std::string e = cmpm(p.Covariance, q.cov, 1e-9L * k); VF_CHECK("leg.covariance", e.empty(), ds << " covariance " << p.Covariance.rows() << "x" << p.Covariance.cols() << e);
}
static void bancroft(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(4, 10); Scene s = scene(r, n, 1, 0); double clk = (r.unit() - 0.5) * 1e5; Matrix<double> D(n, 4); for (size_t i = 0; i < n; i++) { const Orb& q = s.st.o[s.sats[i]]; ld d = 0; for (int k = 0; k < 3; k++) { D(i, k) = q.x[k]; d += ((ld)q.x[k] - s.rx[k]) * ((ld)q.x[k] - s.rx[k]); } D(i, 3) = (double)(sqrtl(d) + clk); } std::string ds = s.ds + " offset " + std::to_string(clk); c.note(ds); c.distinct(ds); c.sample(ds);
   M N(4, std::vector<ld>(4, 0)), inv; for (size_t i = 0; i < n; i++) { ld u[4], rho = D(i, 3) - clk; for (int k = 0; k < 3; k++) u[k] = (D(i, k) - s.rx[k]) / rho; u[3] = 1; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) N[a][b] += u[a] * u[b]; } invert(N, inv); ld k = 0; for (auto& q : inv) for (ld z : q) k = std::max(k, fabsl(z)); if (k > 1e3L) { c.count("ill_conditioned"); return; }
   Bancroft b; Vector<double> X; std::vector<size_t> junk; Matrix<double> E(D); if (r.chance(0.5)) { E = Matrix<double>(n + 2, 4); size_t j = 0, a = r.range(0, n), z = r.range(0, n); for (size_t i = 0; i < n; i++) { if (i == a) { for (int q = 0; q < 4; q++) E(j, q) = q == 3 ? (r.chance(0.5) ? 0.0 : 3.5e7) : D(0, q); j++; } for (int q = 0; q < 4; q++) E(j, q) = D(i, q); j++; if (i == z) { double f = r.chance(0.5) ? 0.5 : 1.3; for (int q = 0; q < 4; q++) E(j, q) = q == 3 ? D(i, q) : f * D(i, q); j++; } } while (j < n + 2) { for (int q = 0; q < 4; q++) E(j, q) = 0; j++; } b.testInput = true; c.count("with_bad_rows"); } else b.testInput = r.chance(0.5);
   bool in = true; for (size_t i = 0; i < n; i++) in = in && D(i, 3) >= b.minPRange && D(i, 3) <= b.maxPRange; if (!in) return; const Matrix<double> K(E); bool cst = r.chance(0.5); auto err = [&](const Vector<double>& v) { double m = 0; if (v.size() != 4) return 1e300; for (int i = 0; i < 3; i++) m = std::max(m, std::fabs(v[i] - s.rx[i])); return std::max(m, std::fabs(v[3] - clk)); };
   b.ChooseOne = false; int rc = cst ? b.Compute(K, X) : b.Compute(E, X); double tol = 1e-3 * (double)(k * k + 100), d = std::min(err(X), err(b.SecondSolution)); c.maximum("bancroft_error", d / (double)k); VF_CHECK("ban.solution", rc == 0 && d < tol, ds << " returned " << rc << " " << X << " and " << b.SecondSolution << " off by " << d << " cond " << (double)k); VF_CHECK("ban.input", K.rows() == E.rows() && cmpm(E, mat(K), 0).empty(), ds); if (rc || X.size() != 4) return;
   auto away = [&](const Vector<double>& v) { return std::fabs(std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) - b.CloseTo); }; Vector<double> one = X, two = b.SecondSolution, Y; b.ChooseOne = true; if (r.chance(0.2)) b.CloseTo = std::fabs(r.logmag(1e6, 1e8)); double a1 = away(one), a2 = away(two); rc = b.Compute(K, Y); bool ok = rc == 0 && Y.size() == 4; if (ok && std::fabs(a1 - a2) > 100) { const Vector<double>& w = a1 < a2 ? one : two; for (int i = 0; i < 4; i++) ok = ok && std::fabs(Y[i] - w[i]) < 1e-3 + 1e-9 * std::fabs(w[i]); } VF_CHECK("ban.choice", ok, ds << " chose " << Y << " of " << one << " and " << two << " close to " << b.CloseTo);
   { Matrix<double> F(3, 4); for (int i = 0; i < 3; i++) for (int q = 0; q < 4; q++) F(i, q) = D(i, q); b.testInput = r.chance(0.5); rc = b.Compute(F, X); VF_CHECK("ban.few", rc == -1, ds << " three rows returned " << rc << " with the test " << b.testInput); Matrix<double> Z(4, 4, 0.0); b.testInput = false; rc = b.Compute(Z, X); VF_CHECK("ban.zero", rc == -2, ds << " a zero matrix returned " << rc); b.testInput = true; rc = b.Compute(Z, X); VF_CHECK("ban.none", rc == -1, ds << " no acceptable row returned " << rc); }
}
static void combos(vf::Case& c)
{
   vf::Rng& r = c.rng; int n = (int)r.range(0, 11), k = (int)r.range(0, n); std::string ds = "C(" + std::to_string(n) + "," + std::to_string(k) + ")"; c.note(ds); c.distinct(ds); c.sample(ds); std::set<unsigned> seen; gpstk::Combinations q(n, k), other(3, 1); int calls = 0; bool ok = true;
   for (;;) { unsigned m = 0; for (int j = 0; j < k; j++) { int i = q.Selection(j); ok = ok && i >= 0 && i < n && (j == 0 || i > q.Selection(j - 1)); m |= 1u << i; } for (int i = 0; i < n; i++) ok = ok && q.isSelected(i) == bool(m >> i & 1); ok = ok && q.Selection(-1) == -1 && q.Selection(k) == -1 && !q.isSelected(n) && !q.isSelected(-1); ok = ok && seen.insert(m).second; if (r.chance(0.3)) { gpstk::Combinations t(q); other = t; q = other; } int x = q.Next(); if (x == -1) break; calls++; ok = ok && x == calls; if (calls > 1000) { ok = false; break; } } size_t total = 1; for (int i = 0; i < k; i++) total = total * (n - i) / (i + 1); VF_CHECK("combos", ok && seen.size() == total && q.Next() == -1, ds << " gave " << seen.size() << " of " << total); VF_THROWS("combos.invalid", Exception, gpstk::Combinations(n, n + 1), ds); VF_THROWS("combos.invalid", Exception, gpstk::Combinations(n, -1), ds); VF_THROWS("combos.invalid", Exception, gpstk::Combinations(-1, -2), ds); gpstk::Combinations e; VF_CHECK("combos.empty", e.Next() == -1 && e.Selection(0) == -1, ds);
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"simple", 2500, 60000, simple}, {"raim", 500, 12000, raim}, {"memory", 500, 10000, memory}, {"legacy", 500, 12000, legacy}, {"bancroft", 2000, 40000, bancroft}, {"combinations", 400, 4000, combos}}); }
