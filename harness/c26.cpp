// C26: statistics, robust statistics, interpolation, polynomial fits, triples
#include "vf.hpp"
#include "Stats.hpp"
#include "BivarStats.hpp"
#include "PowerSum.hpp"
#include "PolyFit.hpp"
#include "MiscMath.hpp"
#include "RobustStats.hpp"
#include "RACRotation.hpp"
#include "Triple.hpp"
#include "Xvt.hpp"
using namespace gpstk;
typedef long double ld;
typedef std::vector<double> V;

static V data(vf::Rng& r, size_t n)
{
   V v(n); int kind = (int)r.range(0, 6); double base = kind == 1 ? 0.1 : kind == 2 ? std::fabs(r.logmag(1e3, 1e9)) * (r.chance(0.5) ? 1 : -1) : kind == 3 ? 1 : 0, spread = kind == 2 ? std::fabs(base) * std::fabs(r.logmag(1e-6, 1)) : 1;
   for (auto& x : v) switch (kind) { case 0: x = r.logmag(1e-6, 1e6); break; case 1: case 3: x = base; break; case 2: x = base + (r.unit() - 0.5) * spread; break; case 4: x = (double)r.range(-3, 3); break; case 5: x = 0; break; default: x = (r.unit() - 0.5) * 20; }
   if (kind == 3) for (size_t i = 1; i < n; i++) v[i] = (double)r.range(-9, 9);
   if (kind == 5 && r.chance(0.5) && n) v[r.range(0, n - 1)] = 4.5;
   return v;
}
static std::string str(const V& v) { std::ostringstream o; o.precision(17); o << "("; for (double x : v) o << " " << x; o << " )"; return o.str(); }
struct Ref { size_t n = 0; ld ave = 0, var = 0, W = 0; double mn = 0, mx = 0; ld S2 = 0; };
static Ref ref(const V& x, const V& w) { Ref q; q.n = x.size(); if (!q.n) return q; q.mn = q.mx = x[0]; ld s = 0; for (size_t i = 0; i < q.n; i++) { q.W += w[i]; s += (ld)w[i] * x[i]; q.mn = std::min(q.mn, x[i]); q.mx = std::max(q.mx, x[i]); q.S2 += (ld)x[i] * x[i]; } q.ave = s / q.W; ld v = 0; for (size_t i = 0; i < q.n; i++) v += (ld)w[i] * (x[i] - q.ave) * (x[i] - q.ave); q.var = q.n > 1 ? v / q.W * q.n / (q.n - 1) : 0; return q; }
static bool near(double a, ld b, ld tol) { return std::isfinite(a) && fabsl(a - b) <= tol; }
// the moments of S must be those of the samples; tot bounds the magnitude of everything that went through it
template <class S> static std::string moments(const S& s, const Ref& q, double mag, size_t through, bool extremes)
{
   std::ostringstream o; o.precision(17); ld e = 4e-15L * (through + 4); if (s.N() != q.n) { o << "N " << s.N() << " not " << q.n; return o.str(); }
   if (!near(s.Average(), q.ave, e * mag)) o << " average " << s.Average() << " not " << (double)q.ave;
   if (!near(s.Variance(), q.var, e * mag * mag * 4) || s.Variance() < 0) o << " variance " << s.Variance() << " not " << (double)q.var;
   if (!near(s.StdDev(), std::sqrt(s.Variance()), 1e-14 * mag)) o << " deviation " << s.StdDev() << " of variance " << s.Variance();
   if (extremes && (s.Minimum() != q.mn || s.Maximum() != q.mx)) o << " range " << s.Minimum() << " " << s.Maximum() << " not " << q.mn << " " << q.mx;
   return o.str();
}
static void onesample(vf::Case& c)
{
   vf::Rng& r = c.rng; V a = data(r, r.range(0, 12)), b = r.chance(0.2) ? V() : data(r, r.range(0, 12)); std::string ds = str(a) + " + " + str(b); c.note(ds); c.distinct(ds); c.sample(ds); V ab(a); ab.insert(ab.end(), b.begin(), b.end()); V o1(a.size(), 1), o2(b.size(), 1), o3(ab.size(), 1); Ref ra = ref(a, o1), rb = ref(b, o2), rab = ref(ab, o3); double mag = 1e-300; for (double x : ab) mag = std::max(mag, std::fabs(x)); size_t n = ab.size(); std::string w;
   Stats<double> A, B, C; A.Add(a); Vector<double> bv(b.size()); for (size_t i = 0; i < b.size(); i++) bv[i] = b[i]; B.Add(bv); w = moments(A, ra, mag, n, true); VF_CHECK("con.moments", w.empty(), ds << w); C = A; C += B; w = moments(C, rab, mag, n, true); VF_CHECK("con.combine", w.empty(), ds << w); C = B; C += A; w = moments(C, rab, mag, n, true); VF_CHECK("con.combine", w.empty(), ds << " reversed" << w); C -= B; w = moments(C, ra, mag, 2 * n, false); VF_CHECK("con.remove", w.empty(), ds << w); C = A; C.Add(b); w = moments(C, rab, mag, n, true); VF_CHECK("con.append", w.empty(), ds << w); C.Subtract(b); w = moments(C, ra, mag, 2 * n, false); VF_CHECK("con.subtract", w.empty(), ds << w); C = A; C.Subtract(a); C += B; w = moments(C, rb, mag, n, true); VF_CHECK("con.emptied", w.empty(), ds << w);
   { std::vector<unsigned int> u; V t; A.Dump(u, t); Stats<double> D; D.Add(77); D.Load(u, t); w = moments(D, ra, mag, n, true); VF_CHECK("con.reload", w.empty(), ds << w); D.Add(b); w = moments(D, rab, mag, n, true); VF_CHECK("con.reloadadd", w.empty(), ds << w); D.Load(std::vector<unsigned int>(), V()); VF_CHECK("con.loadnothing", D.N() == 0 && D.Average() == 0, ds); D.Add(b); w = moments(D, rb, mag, n, true); VF_CHECK("con.loadnothing", w.empty(), ds << w); A.Reset(); VF_CHECK("con.reset", A.N() == 0 && A.Average() == 0 && A.Variance() == 0 && A.StdDev() == 0 && A.Minimum() == 0 && A.Maximum() == 0, ds); A.Add(b); w = moments(A, rb, mag, n, true); VF_CHECK("con.reset", w.empty(), ds << w); }
   SeqStats<double> sa, sb, sc; for (double x : a) { sa.Add(x); } sb.Add(b); w = moments(sa, ra, mag, n, true); VF_CHECK("seq.moments", w.empty(), ds << w); sc = sa; sc += sb; w = moments(sc, rab, mag, n, true); VF_CHECK("seq.combine", w.empty(), ds << w); sc -= sb; w = moments(sc, ra, mag, 2 * n, false); VF_CHECK("seq.remove", w.empty(), ds << w); sc = sa; sc.Add(bv); sc.Subtract(b); w = moments(sc, ra, mag, 4 * n * n, false); VF_CHECK("seq.subtract", w.empty(), ds << w); { std::vector<unsigned int> u; V t; sa.Dump(u, t); SeqStats<double> D; D.Load(u, t); D.Add(b); w = moments(D, rab, mag, n, true); VF_CHECK("seq.reload", w.empty(), ds << w); sa.Reset(); VF_CHECK("seq.reset", sa.N() == 0 && sa.Average() == 0 && sa.StdDev() == 0, ds); sa.Add(b); w = moments(sa, rb, mag, n, true); VF_CHECK("seq.reset", w.empty(), ds << w); }
   { V wa(a.size()), wb(b.size()), xa, xb, ya, yb; for (auto& x : wa) x = r.chance(0.1) ? 0 : std::fabs(r.logmag(0.01, 100)); for (auto& x : wb) x = r.chance(0.1) ? 0 : std::fabs(r.logmag(0.01, 100)); for (size_t i = 0; i < a.size(); i++) if (wa[i] > 0) { xa.push_back(a[i]); ya.push_back(wa[i]); } for (size_t i = 0; i < b.size(); i++) if (wb[i] > 0) { xb.push_back(b[i]); yb.push_back(wb[i]); } V xab(xa), yab(ya); xab.insert(xab.end(), xb.begin(), xb.end()); yab.insert(yab.end(), yb.begin(), yb.end()); Ref qa = ref(xa, ya), qb = ref(xb, yb), qab = ref(xab, yab); std::string dw = ds + " weights " + str(wa) + str(wb);
      WtdStats<double> A, B, C; A.Add(a, wa); Vector<double> wv(b.size()); for (size_t i = 0; i < b.size(); i++) wv[i] = r.chance(0.3) ? -wb[i] : wb[i]; B.Add(bv, wv); auto sum = [&](WtdStats<double>& z, const Ref& q) { return near(z.WtsSum(), q.W, 1e-13 * (qab.W + 1e-300)); }; w = moments(A, qa, mag, n, true); VF_CHECK("wtd.moments", w.empty() && sum(A, qa), dw << w << " sum " << A.WtsSum()); w = moments(B, qb, mag, n, true); VF_CHECK("wtd.moments", w.empty() && sum(B, qb), dw << w << " sum " << B.WtsSum()); C = A; C += B; w = moments(C, qab, mag, n, true); VF_CHECK("wtd.combine", w.empty() && sum(C, qab), dw << w); double cond = 1 + (double)(qa.W > 0 ? qab.W / qa.W : 1); C -= B; if (qa.n) { w = moments(C, qa, mag * cond, 2 * n, false); VF_CHECK("wtd.remove", w.empty() && sum(C, qa), dw << w); } else VF_CHECK("wtd.remove", C.N() == 0 && C.WtsSum() == 0, dw << " sum " << C.WtsSum()); C = A; C.Add(b, wb); C.Subtract(b, wb); if (qa.n) { w = moments(C, qa, mag * cond * 3, 4 * n * n, false); VF_CHECK("wtd.subtract", w.empty() && sum(C, qa), dw << w); } else VF_CHECK("wtd.subtract", C.N() == 0, dw);
      std::vector<unsigned int> u; V t; A.Dump(u, t); C.Load(u, t); C.Add(b, wb); w = moments(C, qab, mag, n, true); VF_CHECK("wtd.reload", w.empty() && sum(C, qab), dw << w); A.Reset(); VF_CHECK("wtd.reset", A.N() == 0 && A.WtsSum() == 0, dw << " sum " << A.WtsSum()); A.Add(bv, wv); w = moments(A, qb, mag, n, true); VF_CHECK("wtd.reset", w.empty() && sum(A, qb), dw << w); }
   { PowerSum p; std::list<double> l(ab.begin(), ab.end()), lb(b.begin(), b.end()); p.add(l.begin(), l.end()); for (int pass = 0; pass < 2; pass++) { const V& x = pass ? a : ab; const Ref& q = pass ? ra : rab; ld m[6] = {0}; for (double z : x) { ld d = 1, e = z - q.ave; for (int k = 1; k <= 5; k++) { d *= e; m[k] += d / x.size(); } } m[1] = q.ave; bool ok = p.size() == (long)x.size(); std::ostringstream o; if (x.empty()) ok = ok && p.average() == 0 && p.variance() == 0; else { if (!near(p.average(), q.ave, 1e-14 * mag * (n + 1))) { ok = false; o << " average " << p.average(); } if (x.size() >= 2 && !near(p.variance(), m[2], 1e-13 * mag * mag * (n + 1))) { ok = false; o << " variance " << p.variance() << " not " << (double)m[2]; } for (int k = 1; k <= 5; k++) if ((int)x.size() >= k && !near(p.moment(k), m[k], 1e-13 * powl(mag, k) * (n + 1) * (n + 1))) { ok = false; o << " moment " << k << " " << p.moment(k) << " not " << (double)m[k]; } if (x.size() >= 4 && m[2] > 1e-4 * mag * mag) { if (!near(p.skew(), m[3] / powl(m[2], 1.5), 1e-4)) { ok = false; o << " skew " << p.skew(); } if (!near(p.kurtosis(), m[4] / m[2] / m[2], 1e-3)) { ok = false; o << " kurtosis " << p.kurtosis(); } } } VF_CHECK("power", ok, ds << " pass " << pass << o.str()); p.subtract(lb.begin(), lb.end()); } p.clear(); VF_CHECK("power.clear", p.size() == 0 && p.average() == 0 && p.variance() == 0, ds); }
   { V s(ab); std::sort(s.begin(), s.end()); double med = n == 0 ? 0 : n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2; Vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = ab[i]; if (n) VF_CHECK("median", median(ab) == med && median(v) == med, ds << " median " << median(ab) << " not " << med); V d; for (double x : ab) d.push_back(std::fabs(x - med)); std::sort(d.begin(), d.end()); double md = n == 0 ? 0 : n % 2 ? d[n / 2] : (d[n / 2 - 1] + d[n / 2]) / 2; VF_CHECK("mad", n < 2 || mad(ab) == md, ds << " mad " << mad(ab) << " not " << md);
      V x(ab); double m2; if (n < 2) { VF_THROWS("robust.short", Exception, Robust::Median(x.data(), (int)n), ds); double q; VF_THROWS("robust.short", Exception, Robust::MAD(x.data(), (int)n, q), ds); VF_THROWS("robust.short", Exception, Robust::Quartiles(x.data(), (int)n, q, m2), ds); }
      else { VF_CHECK("robust.median", Robust::Median(x.data(), (int)n) == med && x == ab, ds); double mm = Robust::MAD(x.data(), (int)n, m2); VF_CHECK("robust.mad", x == ab && m2 == med && near(mm, md / 0.6745L, 1e-14 * mag), ds << " MAD " << mm << " median " << m2); V wt(n, -1); double me = Robust::MEstimate(x.data(), (int)n, m2, mm, wt.data()); ld sw = 0, sx = 0; bool in = true; for (size_t i = 0; i < n; i++) { sw += wt[i]; sx += (ld)wt[i] * ab[i]; in = in && wt[i] >= 0 && wt[i] <= 1; } VF_CHECK("robust.mest", in && sw > 0 && near(me, sx / sw, 1e-13 * mag) && me >= s[0] - 1e-13 * mag && me <= s[n - 1] + 1e-13 * mag, ds << " estimate " << me << " weights " << str(wt)); size_t h = (n + 1) / 2; auto md2 = [&](size_t o) { return h % 2 ? s[o + h / 2] : (s[o + h / 2 - 1] + s[o + h / 2]) / 2; }; double q1, q3; Robust::Quartiles(s.data(), (int)n, q1, q3); VF_CHECK("robust.quartiles", q1 == md2(0) && q3 == md2(n - h), ds << " quartiles " << q1 << " " << q3); Robust::Median(x.data(), (int)n, false); VF_CHECK("robust.sorts", x == s, ds);
         std::ostringstream os; Robust::StemLeafPlot(os, s.data(), (long)n, "vf"); std::string p = os.str(); size_t leaves = 0, pos = 0; bool first = true; std::istringstream is(p); std::string l; while (std::getline(is, l)) { if (first) { first = false; continue; } if (l.compare(0, 3, "END") == 0) break; pos = l.find_first_of("|MQ<>"); if (pos != std::string::npos) leaves += l.size() - std::min(l.size(), pos + 3); } VF_CHECK("robust.stemleaf", leaves == n && p.find("END Stem and Leaf") != std::string::npos, ds << " plot shows " << leaves << " of " << n << " samples\n" << p.substr(0, 600)); } }
}
static void twosample(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(0, 12), m = r.chance(0.2) ? 0 : r.range(0, 12); V x = data(r, n), y = data(r, n), u = data(r, m), v = data(r, m); if (r.chance(0.25)) { double k = r.logmag(0.1, 10); for (size_t i = 0; i < n; i++) y[i] = k * x[i] + 3; for (size_t i = 0; i < m; i++) v[i] = k * u[i] + 3; } std::string ds = str(x) + str(y) + " + " + str(u) + str(v); c.note(ds); c.distinct(ds); c.sample(ds); V X(x), Y(y); X.insert(X.end(), u.begin(), u.end()); Y.insert(Y.end(), v.begin(), v.end());
   double mx = 1e-300, my = 1e-300; for (double z : X) mx = std::max(mx, std::fabs(z)); for (double z : Y) my = std::max(my, std::fabs(z));
   auto check = [&](const char* key, const V& a, const V& b, size_t through, bool ext, std::function<double(int)> f) { size_t k = a.size(); V one(k, 1); Ref p = ref(a, one), q = ref(b, one); ld xy = 0; for (size_t i = 0; i < k; i++) xy += (a[i] - p.ave) * (b[i] - q.ave); ld vx = p.var * (k > 1 ? k - 1 : 0), vy = q.var * (k > 1 ? k - 1 : 0); std::ostringstream o; o.precision(17); ld e = 2e-14L * (through + 4); if (f(0) != k) o << " N " << f(0); if (!near(f(1), p.ave, e * mx) || !near(f(2), q.ave, e * my)) o << " averages " << f(1) << " " << f(2) << " not " << (double)p.ave << " " << (double)q.ave; if (!near(f(3), p.var, e * mx * mx) || !near(f(4), q.var, e * my * my)) o << " variances " << f(3) << " " << f(4) << " not " << (double)p.var << " " << (double)q.var; if (f(3) < 0 || f(4) < 0 || !near(f(5), std::sqrt(f(3)), 1e-14 * mx) || !near(f(6), std::sqrt(f(4)), 1e-14 * my)) o << " deviations " << f(5) << " " << f(6); if (ext && k && (f(7) != p.mn || f(8) != p.mx || f(9) != q.mn || f(10) != q.mx)) o << " ranges " << f(7) << " " << f(8) << " " << f(9) << " " << f(10);
      if (k > 1 && vx > 1e-6 * mx * mx) { ld s = xy / vx, rel = mx * mx / vx * k, t = e * rel * (my / mx + fabsl(s)); if (!near(f(11), s, t)) o << " slope " << f(11) << " not " << (double)s; if (!near(f(12), q.ave - s * p.ave, t * mx + e * my)) o << " intercept " << f(12); if (vy > 1e-6 * my * my) { ld cr = xy / sqrtl(vx * vy); if (!near(f(13), cr, e * (rel + my * my / vy * k) * 2)) o << " correlation " << f(13) << " not " << (double)cr; } if (k > 2) { ld sse = std::max((ld)0, vy - (vx > 0 ? xy * xy / vx : 0)), yx = sqrtl(sse / (k - 2)); ld er = (e * (rel + 1) * my * my * k) * 20; if (!std::isfinite(f(14)) || fabsl((ld)f(14) * f(14) * (k - 2) - sse) > er) o << " sigmaYX " << f(14) << " not " << (double)yx; else if (!std::isfinite(f(15)) || !near(f(15), f(14) / sqrtl(vx), 1e-6 * (f(15) + 1e-300) + e * rel * my / mx)) o << " sigmaSlope " << f(15) << " not " << (double)(f(14) / sqrtl(vx)); } }
      VF_CHECK(key, o.str().empty(), ds << o.str()); };
   typedef TwoSampleStats<double> TS; auto ft = [](const TS& t) { return [&t](int i) -> double { switch (i) { case 0: return t.N(); case 1: return t.AverageX(); case 2: return t.AverageY(); case 3: return t.VarianceX(); case 4: return t.VarianceY(); case 5: return t.StdDevX(); case 6: return t.StdDevY(); case 7: return t.MinimumX(); case 8: return t.MaximumX(); case 9: return t.MinimumY(); case 10: return t.MaximumY(); case 11: return t.Slope(); case 12: return t.Intercept(); case 13: return t.Correlation(); case 14: return t.SigmaYX(); default: return t.SigmaSlope(); } }; };
   TS A, B, C; A.Add(x, y); B.Add(u, v); check("two.stats", x, y, n, true, ft(A)); C = A; C += B; check("two.combine", X, Y, n + m, true, ft(C)); C -= B; check("two.remove", x, y, 2 * (n + m), false, ft(C)); C = A; C.Add(u, v); C.Subtract(u, v); check("two.subtract", x, y, 2 * (n + m), false, ft(C)); { std::vector<unsigned int> w; V t; A.Dump(w, t); TS D; D.Add(3, 4); D.Load(w, t); check("two.reload", x, y, n, true, ft(D)); D.Add(u, v); check("two.reloadadd", X, Y, n + m, true, ft(D)); w.clear(); t.clear(); VF_NOTHROW("two.loadnothing", D.Load(w, t), ds); VF_CHECK("two.loadnothing", D.N() == 0 && D.AverageX() == 0, ds); } C.Reset(); C.Add(u, v); check("two.reset", u, v, m, true, ft(C)); std::ostringstream ts; ts << A << A.asString("x"); VF_CHECK("two.print", ts.str().find("nan") == std::string::npos, ds << ts.str());
   typedef BivarStats<double> BS; auto fb = [](const BS& t) { return [&t](int i) -> double { switch (i) { case 0: return t.n(); case 1: return t.averageX(); case 2: return t.averageY(); case 3: return t.varianceX(); case 4: return t.varianceY(); case 5: return t.stdDevX(); case 6: return t.stdDevY(); case 7: return t.minimumX(); case 8: return t.maximumX(); case 9: return t.minimumY(); case 10: return t.maximumY(); case 11: return t.slope(); case 12: return t.intercept(); case 13: return t.correlation(); case 14: return t.sigmaYX(); default: return t.sigmaSlope(); } }; };
   for (int scaled = 0; scaled < 2; scaled++) { void* mem = malloc(sizeof(BS)); memset(mem, 0xa5, sizeof(BS)); BS* e = new (mem) BS(scaled != 0); BS a(x, y, scaled != 0), b(scaled != 0), d(scaled != 0); std::vector<std::pair<double, double>> uv; for (size_t i = 0; i < m; i++) uv.push_back({u[i], v[i]}); b.add(uv); check("biv.stats", x, y, n, true, fb(a)); check("biv.stats", u, v, m, true, fb(b)); *e += a; check("biv.combine", x, y, n, true, fb(*e)); *e += b; check("biv.combine", X, Y, n + m, true, fb(*e)); d = a; d += *(new (mem) BS(scaled != 0)); check("biv.combineempty", x, y, n, true, fb(d)); d.add(u, v); check("biv.append", X, Y, n + m, true, fb(d)); d.subtract(uv); check("biv.subtract", x, y, 2 * (n + m), false, fb(d)); d.clear(); d.add(uv); check("biv.clear", u, v, m, true, fb(d)); if (n > 1) { V one(n, 1); Ref p = ref(x, one); if (p.var > 1e-6 * mx * mx) { double t = x[0] + 1; VF_CHECK("biv.eval", near(a.eval(t), (ld)a.intercept() + t * (ld)a.slope(), 1e-13 * (std::fabs(a.intercept()) + std::fabs(t * a.slope()))), ds); } } free(mem); }
}
static void interp(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(4, 11); double h = std::fabs(r.logmag(1e-2, 1e3)), t0 = (r.unit() - 0.5) * h * 20; V X(n), Y(n); for (size_t i = 0; i < n; i++) { X[i] = t0 + h * (i + (r.chance(0.5) ? 0 : (r.unit() - 0.5) * 0.6)); Y[i] = r.logmag(1, 1e3); } if (r.chance(0.3)) { double a = r.unit(), b = r.unit() * 3; for (size_t i = 0; i < n; i++) Y[i] = 100 * std::sin(a + b * i); } size_t k = n / 2; double f = r.unit(), x = X[k - 1] + f * (X[k] - X[k - 1]); bool node = r.chance(0.2); if (node) x = X[r.range(0, n - 1)]; else if (r.chance(0.2)) x = X[0] + r.unit() * (X[n - 1] - X[0]); std::ostringstream o; o.precision(17); o << str(X) << str(Y) << " at " << x; std::string ds = o.str(); c.note(ds); c.distinct(ds); c.sample(ds);
   ld y = 0, d1 = 0, d2 = 0, ay = 0, a1 = 0, a2 = 0; for (size_t i = 0; i < n; i++) { ld L = 1, L1 = 0, L2 = 0, b1 = 0, b2 = 0; for (size_t j = 0; j < n; j++) if (j != i) L *= ((ld)x - X[j]) / ((ld)X[i] - X[j]); for (size_t j = 0; j < n; j++) if (j != i) { ld p = 1 / ((ld)X[i] - X[j]); for (size_t m = 0; m < n; m++) if (m != i && m != j) p *= ((ld)x - X[m]) / ((ld)X[i] - X[m]); L1 += p; b1 += fabsl(p); for (size_t m = 0; m < n; m++) if (m != i && m != j) { ld q = 1 / ((ld)X[i] - X[j]) / ((ld)X[i] - X[m]); for (size_t s = 0; s < n; s++) if (s != i && s != j && s != m) q *= ((ld)x - X[s]) / ((ld)X[i] - X[s]); L2 += q; b2 += fabsl(q); } } y += L * Y[i]; d1 += L1 * Y[i]; d2 += L2 * Y[i]; ay += fabsl(L * Y[i]); a1 += b1 * fabsl((ld)Y[i]); a2 += b2 * fabsl((ld)Y[i]); }
   ld cn = (fabsl((ld)t0) + h * n) / h * 2e-15L; double err = -1, yy, dd; ld tol = (1e-12L + cn) * (ay + a1 * h); double s = SimpleLagrangeInterpolation(X, Y, x); VF_CHECK("lag.simple", near(s, y, tol), ds << " gives " << s << " not " << (double)y); double g = LagrangeInterpolation(X, Y, x, err); ld amp = 0; { for (size_t i = 0; i < n; i++) amp = std::max(amp, fabsl((ld)Y[i])); } VF_CHECK("lag.neville", near(g, y, tol * 10 + 1e-12 * amp) && std::isfinite(err), ds << " gives " << g << " not " << (double)y << " err " << err); if (node) VF_CHECK("lag.node", near(s, y, 1e-14 * amp), ds);
   LagrangeInterpolation(X, Y, x, yy, dd); VF_CHECK("lag.value", near(yy, y, tol * 10), ds << " gives " << yy << " not " << (double)y); VF_CHECK("lag.rate", near(dd, d1, (1e-12L + cn * 4) * (a1 + a2 * h)), ds << " gives " << dd << " not " << (double)d1); double g2 = LagrangeInterpolating2ndDerivative(X, Y, x); VF_CHECK("lag.second", near(g2, d2, (1e-11L + cn * 8) * (a2 * 4 + a1 / h)), ds << " gives " << g2 << " not " << (double)d2);
   { V bad(Y.begin(), Y.end() - 1), x3(X.begin(), X.begin() + 3); VF_THROWS("lag.size", Exception, SimpleLagrangeInterpolation(X, bad, x), ds); VF_THROWS("lag.size", Exception, LagrangeInterpolation(X, bad, x, err), ds); VF_THROWS("lag.size", Exception, LagrangeInterpolation(x3, Y, x, err), ds); VF_THROWS("lag.size", Exception, LagrangeInterpolation(X, bad, x, yy, dd), ds); }
   // polynomial fits
   unsigned p = (unsigned)r.range(1, 5); size_t m = p + r.range(0, 12); V T(m), D(m), W(m, 1); for (size_t i = 0; i < m; i++) { T[i] = m > 1 ? -1 + 2.0 * i / (m - 1) + (r.unit() - 0.5) / m : 0.3; D[i] = r.logmag(0.1, 10); if (r.chance(0.5)) W[i] = 0.1 + r.unit() * 5; } bool uw = r.chance(0.5); if (!uw) W.assign(m, 1); std::vector<ld> co(p); for (auto& z : co) z = r.logmag(0.1, 10); bool exact = r.chance(0.4); if (exact) for (size_t i = 0; i < m; i++) { ld v = 0; for (unsigned j = p; j-- > 0;) v = v * T[i] + co[j]; D[i] = (double)v; } std::string fs = str(T) + str(D) + str(W) + " degree " + std::to_string(p); c.note(fs);
   PolyFit<double> pf(r.chance(0.5) ? p : p + 1); if (pf.Degree() != p) { pf.Add(1, 2); pf.Reset(p); } else if (r.chance(0.3)) { pf.Add(1, 2); pf.Evaluate(1); pf.Reset(); } VF_CHECK("fit.empty", pf.isSingular() && pf.Evaluate(0.5) == 0 && pf.N() == 0, fs); if (uw) for (size_t i = 0; i < m; i++) pf.Add(D[i], T[i], W[i]); else if (r.chance(0.5)) pf.Add(D, T); else { Vector<double> vd(m + 1), vt(m); for (size_t i = 0; i < m; i++) { vd[i] = D[i]; vt[i] = T[i]; } vd[m] = 9e9; pf.Add(vd, vt); } VF_CHECK("fit.count", pf.N() == m && pf.Degree() == p, fs);
   if (!pf.isSingular()) { Vector<double> sol = pf.Solution(); Matrix<double> cv = pf.Covariance(); bool ok = sol.size() == p && cv.rows() == p && cv.cols() == p; std::ostringstream w; if (ok) { ld N[5][5] = {{0}}, md = 0; for (size_t i = 0; i < m; i++) { ld f = 0; for (unsigned j = p; j-- > 0;) f = f * T[i] + sol[j]; double e = pf.Evaluate(T[i]); md = std::max(md, fabsl(f)); if (!near(e, f, 1e-12 * (md + 1000))) { ok = false; w << " evaluates to " << e; } ld pw = 1; for (unsigned j = 0; j < p; j++) { ld q = 1; for (unsigned k = 0; k < p; k++) { N[j][k] += W[i] * pw * q; q *= T[i]; } pw *= T[i]; } } ld nc = 0, cm = 0; for (unsigned j = 0; j < p; j++) for (unsigned k = 0; k < p; k++) { nc += fabsl(N[j][k]); cm = std::max(cm, fabsl((ld)cv(j, k))); } ld cond = nc * cm; for (unsigned j = 0; j < p; j++) for (unsigned k = 0; k < p; k++) { ld z = j == k ? -1 : 0; for (unsigned s = 0; s < p; s++) z += N[j][s] * cv(s, k); if (fabsl(z) > 1e-13 * (cond + 10)) { ok = false; w << " covariance not the inverse: " << (double)z; } } ld sd = 0; for (double z : D) sd += fabsl((ld)z); ld ws = 0; for (double z : W) ws = std::max(ws, (ld)z); for (unsigned j = 0; j < p; j++) { ld g = 0; for (size_t i = 0; i < m; i++) { ld f = 0; for (unsigned q = p; q-- > 0;) f = f * T[i] + sol[q]; g += W[i] * (D[i] - f) * powl(T[i], j); } if (fabsl(g) > 1e-13 * ws * sd * (cond + 10)) { ok = false; w << " residuals not orthogonal to t^" << j << ": " << (double)g; } if (exact && fabsl(sol[j] - co[j]) > 1e-13 * (cond + 10) * sd) { ok = false; w << " coefficient " << j << " " << sol[j] << " not " << (double)co[j]; } } Vector<double> ev(2); ev[0] = 0.25; ev[1] = -0.5; Vector<double> er = pf.Evaluate(ev); if (er.size() != 2 || !near(er[0], pf.Evaluate(0.25), 1e-12 * (md + 1000)) || !near(er[1], pf.Evaluate(-0.5), 1e-12 * (md + 1000))) { ok = false; w << " vector evaluation"; } } VF_CHECK("fit.solution", ok, fs << w.str()); } else VF_CHECK("fit.singular", false, fs << " reported singular");
   { double a = r.logmag(1e-150, 1e150), b = r.chance(0.2) ? 0 : a * r.logmag(1e-3, 1e3), d = a * r.logmag(1e-3, 1e3), e = r.chance(0.2) ? 0 : a; auto cl = [](double g, ld w) { return near(g, w, 1e-15L * 4 * w); }; VF_CHECK("rss", cl(RSS(a, b), hypotl(a, b)) && cl(RSS(a, b, d), hypotl(hypotl(a, b), d)) && cl(RSS(a, b, d, e), hypotl(hypotl(a, b), hypotl(d, e))) && RSS(0.0, 0.0) == 0, "rss of " << a << " " << b << " " << d << " " << e); double q = (r.unit() - 0.5) * 1e4; VF_CHECK("round", std::fabs(Round(q) - q) <= 0.5 && Round(q) == std::floor(Round(q)), "round " << q << " to " << Round(q)); }
}
static void robust(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(2, 60); V x(n); std::vector<int> id(n); int dup = (int)r.range(0, 3); for (size_t i = 0; i < n; i++) { x[i] = dup == 0 ? (double)r.range(0, 3) : dup == 1 ? (double)i : dup == 2 ? -(double)i : r.logmag(1e-3, 1e3); id[i] = (int)i; } std::string ds = str(x); c.note(ds); c.distinct(ds); c.sample(ds); V s(x), y(x), z(x); std::sort(s.begin(), s.end()); QSort(y.data(), (int)n); VF_CHECK("sort", y == s, ds << " sorted to " << str(y)); QSort(z.data(), id.data(), (int)n); bool ok = z == s; std::set<int> seen(id.begin(), id.end()); for (size_t i = 0; i < n && ok; i++) ok = x[id[i]] == z[i]; VF_CHECK("sort.pairs", ok && seen.size() == n, ds);
   { double m = (r.unit() - 0.5) * 10, sd = std::fabs(r.logmag(0.1, 10)), q = m + sd * (r.unit() - 0.5) * 12; ld w = 0.5L * erfcl(-((ld)q - m) / sqrtl(2.0L) / sd); VF_CHECK("cdf", near(normalCDF<double>(m, sd, q), w, 2e-7), "normalCDF " << m << " " << sd << " " << q << " gives " << normalCDF<double>(m, sd, q)); VF_CHECK("erfc", near(errfc<double>((q - m) / sd), erfcl(((ld)q - m) / sd), 1.3e-7 * erfcl(((ld)q - m) / sd) + 1e-18), "errfc " << (q - m) / sd); }
   { V g(n); for (auto& v : g) { v = 0; for (int k = 0; k < 12; k++) v += r.unit(); v -= 6; } V h(g); if (r.chance(0.3)) for (auto& v : h) v = v * v - 1; g = h; double av = 0, var = 0; for (double v : g) av += v / n; for (double v : g) var += (v - av) * (v - av) / (n > 1 ? n - 1 : 1); double sd = std::sqrt(var); if (sd > 0.1) { std::sort(h.begin(), h.end()); ld A = -(ld)n; bool far = false; for (size_t i = 1; i <= n; i++) { ld F = 0.5L * erfcl(-((ld)h[i - 1] - av) / sqrtl(2.0L) / sd), G = 0.5L * erfcl(-((ld)h[n - i] - av) / sqrtl(2.0L) / sd); if (F < 1e-5 || 1 - F < 1e-5) far = true; A -= (2.0L * i - 1) / n * (logl(F) + logl(1 - G)); } A *= 1 + 0.75L / n + 2.25L / n / n; double got = ADtest(g.data(), (int)n, av, sd); ld tol = 0.02 + 1e-3 * fabsl(A); // the known finding: weights off by one; anything else is reported as "anderson"
 ld B = -(ld)n; for (size_t i = 0; i < n; i++) { ld F = 0.5L * erfcl(-((ld)h[i] - av) / sqrtl(2.0L) / sd); B -= ((2.0L * i - 1) * logl(F) + (2.0L * (n - i) + 1) * logl(1 - F)) / n; } B *= 1 + 0.75L / n + 2.25L / n / n; VF_CHECK("anderson.weights", far || near(got, A, tol), str(g) << " statistic " << got << " not " << (double)A);
 if (!far) VF_CHECK("anderson", near(got, A, tol) || near(got, B, tol), str(g) << " statistic " << got << " not " << (double)A); } VF_THROWS("robust.short", Exception, ADtest(g.data(), 1, 0, 1), ds); }
   { V q(n); Robust::Quantiles(q.data(), (long)n); ok = true; for (size_t i = 0; i < n; i++) { ld f = (i + 0.625L) / (n + 0.25L), v = q[i], cdf = 0.5L * erfcl(-v / sqrtl(2.0L)); ok = ok && fabsl(cdf - f) < 2e-3 && near(q[i], -q[n - 1 - i], 1e-12); } VF_CHECK("quantiles", ok, "quantiles of " << n << ": " << str(q)); }
   // robust polynomial fit: a clean polynomial with noise and a few gross errors
   int N = (int)r.range(1, 3); size_t m = r.range(20, 60); V d(m), t(m); double noise = 0.01, t0 = (r.unit() - 0.5) * 100, big = std::fabs(r.logmag(1, 1000)); double co[3]; for (auto& v : co) v = (r.unit() - 0.5) * 20; std::set<size_t> out; size_t no = r.range(0, m / 10); while (out.size() < no) out.insert(r.range(0, m - 1)); for (size_t i = 0; i < m; i++) { t[i] = t0 + (double)i / m * 4; double q = t[i] - t0; d[i] = co[0] + (N > 1 ? co[1] * q : 0) + (N > 2 ? co[2] * q * q : 0) + (r.unit() - 0.5) * noise; } V clean(d); for (size_t i : out) d[i] += r.chance(0.7) ? big : -big; V w(m, -1), res(d); double cf[3] = {0, 0, 0}; int rc = Robust::RobustPolyFit(res.data(), t.data(), (int)m, N, cf, w.data()); std::string rs = "fit of " + std::to_string(N) + " to " + std::to_string(m) + " with " + std::to_string(no) + " errors of " + std::to_string(big) + " rc " + std::to_string(rc);
   if (rc == 0) { ok = true; double worst = 0, wr = 0; for (size_t i = 0; i < m; i++) { double q = t[i] - t[0], f = cf[0] + (N > 1 ? cf[1] * q : 0) + (N > 2 ? cf[2] * q * q : 0); wr = std::max(wr, std::fabs(res[i] - (d[i] - d[0] - f))); worst = std::max(worst, std::fabs(f + d[0] - clean[i])); ok = ok && w[i] >= 0 && w[i] <= 1 + 1e-12; } VF_CHECK("robustfit.residuals", ok && wr < 1e-9 * (1 + big), rs << " residual error " << wr); c.maximum("robust_error", worst); VF_CHECK("robustfit.outliers", worst < std::max(0.05, 0.002 * big), rs << " worst error of the fit " << worst); c.count("robustfit"); } else c.count("robustfit_no_convergence"); VF_CHECK("robustfit.code", rc == 0 || rc == -2 || rc == -3, rs);
}
static void triple(vf::Case& c)
{
   vf::Rng& r = c.rng; double k = std::fabs(r.logmag(1e-3, 1e8)); auto rt = [&]() { switch (r.range(0, 4)) { case 0: return Triple(k * r.range(-1, 1), k * r.range(-1, 1), k * r.range(-1, 1)); default: return Triple((r.unit() - 0.5) * k, (r.unit() - 0.5) * k, (r.unit() - 0.5) * k); } }; Triple a = rt(), b = r.chance(0.1) ? a : r.chance(0.1) ? (-1.5) * a : rt(); std::ostringstream o; o.precision(17); o << a << " " << b; std::string ds = o.str(); c.note(ds); c.distinct(ds); c.sample(ds); ld A[3] = {a[0], a[1], a[2]}, B[3] = {b[0], b[1], b[2]}; auto dot = [](const ld* p, const ld* q) { return p[0] * q[0] + p[1] * q[1] + p[2] * q[2]; }; ld na = sqrtl(dot(A, A)), nb = sqrtl(dot(B, B)), e = 1e-15L; ld D[3] = {B[0] - A[0], B[1] - A[1], B[2] - A[2]};
   VF_CHECK("t.dot", near(a.dot(b), dot(A, B), 4 * e * na * nb) && near(a.mag(), na, 4 * e * na) && near(a.slantRange(b), sqrtl(dot(D, D)), 4 * e * (na + nb)), ds); { Triple x = a.cross(b); bool ok = true; for (int i = 0; i < 3; i++) ok = ok && near(x[i], A[(i + 1) % 3] * B[(i + 2) % 3] - A[(i + 2) % 3] * B[(i + 1) % 3], 4 * e * na * nb); VF_CHECK("t.cross", ok, ds << " cross " << x); Triple s = a + b, d = a - b, m = 2.5 * a; VF_CHECK("t.arith", s == Triple(a[0] + b[0], a[1] + b[1], a[2] + b[2]) && d == Triple(a[0] - b[0], a[1] - b[1], a[2] - b[2]) && m == Triple(2.5 * a[0], 2.5 * a[1], 2.5 * a[2]), ds); Vector<double> v = a.toVector(); std::vector<double> w = a.toStdVector(); VF_CHECK("t.convert", v.size() == 3 && w.size() == 3 && v[0] == a[0] && v[1] == a[1] && v[2] == a[2] && w[0] == a[0] && w[1] == a[1] && w[2] == a[2], ds); std::valarray<double> va(2); VF_THROWS("t.size", GeometryException, (s = va), ds); }
   if (na > 1e-6) { Triple u = a.unitVector(); VF_CHECK("t.unit", near(u.mag(), 1, 4 * e) && near(u[0], A[0] / na, 4 * e) && near(u[1], A[1] / na, 4 * e) && near(u[2], A[2] / na, 4 * e), ds); } if (na == 0) { VF_THROWS("t.zero", GeometryException, a.unitVector(), ds); VF_THROWS("t.zero", GeometryException, a.cosVector(b), ds); }
   if (na > 1e-6 && nb > 1e-6) { double q = a.cosVector(b); VF_CHECK("t.cos", near(q, dot(A, B) / na / nb, 1e-14) && std::fabs(q) <= 1, ds << " cos " << q); ld nd = sqrtl(dot(D, D)); if (nd > 1e-6 * (na + nb) && nd > 1e-6) { ld sn = dot(A, D) / na / nd, el = asinl(std::max(-1.0L, std::min(1.0L, sn))) * 180 / acosl(-1.0L); VF_CHECK("t.elevation", near(a.elvAngle(b), el, 1e-5), ds << " elevation " << a.elvAngle(b) << " not " << (double)el); ld xy = hypotl(A[0], A[1]); if (xy > 1e-3 * na) { ld E = (-A[1] * D[0] + A[0] * D[1]) / xy, N = (-A[2] / na * (A[0] * D[0] + A[1] * D[1]) / xy) + xy / na * D[2]; if (hypotl(E, N) > 1e-4 * nd) { ld az = atan2l(E, N) * 180 / acosl(-1.0L); if (az < 0) az += 360; double g = a.azAngle(b); ld df = fabsl(g - az); df = std::min(df, 360 - df); VF_CHECK("t.azimuth", df < 1e-7 && g >= 0 && g <= 360, ds << " azimuth " << g << " not " << (double)az); } } } }
   { double an = (r.unit() - 0.5) * 1000; if (r.chance(0.2)) an = 90.0 * r.range(-4, 4); ld cs = cosl((ld)an * acosl(-1.0L) / 180), sn = sinl((ld)an * acosl(-1.0L) / 180), t = 1e-12L * na; auto ck = [&](const Triple& q, int i) { int j = (i + 1) % 3, k = (i + 2) % 3; return q[i] == a[i] && near(q[j], cs * A[j] + sn * A[k], t) && near(q[k], -sn * A[j] + cs * A[k], t); }; VF_CHECK("t.rotate", ck(a.R1(an), 0) && ck(a.R2(an), 1) && ck(a.R3(an), 2), ds << " angle " << an); }
   { Triple x = a.cross(b); if (na > 1e-2 && nb > 1e-2 && x.mag() > 1e-3 * na * nb) { Xvt s; s.x = a; s.v = b; s.clkbias = 3; s.clkdrift = 4; s.relcorr = 5; RACRotation R(s), R2(a, b); bool ok = R.rows() == 3; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ld z = i == j ? -1 : 0; for (int m = 0; m < 3; m++) z += (ld)R(i, m) * R(j, m); ok = ok && fabsl(z) < 1e-12 && R(i, j) == R2(i, j); } Triple pr = R.convertToRAC(a), vr = R.convertToRAC(b), xr = R.convertToRAC(x); VF_CHECK("rac", ok && near(pr[0], na, 1e-12 * na) && near(pr[1], 0, 1e-12 * na) && near(pr[2], 0, 1e-12 * na) && near(vr[2], 0, 1e-12 * nb) && vr[1] > 0 && near(xr[2], x.mag(), 1e-12 * na * nb), ds << " R " << pr << " " << vr << " " << xr); Xvt y = R.convertToRAC(s); VF_CHECK("rac.xvt", y.x == pr && y.v == vr && y.clkbias == 3 && y.clkdrift == 4 && y.relcorr == 5, ds); Vector<double> b4(4, 1.0); VF_THROWS("rac.size", Exception, R.convertToRAC(b4), ds); } }
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"onesample", 6000, 150000, onesample}, {"twosample", 6000, 150000, twosample}, {"interpolation", 4000, 100000, interp}, {"robust", 3000, 60000, robust}, {"triple", 6000, 150000, triple}}); }
