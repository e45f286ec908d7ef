// C34: square root information: SRI, SRIFilter, SRIleastSquares, factorisations, name lists
#include "vf.hpp"
#include "SRI.hpp"
#include "SRIFilter.hpp"
#include "SRIleastSquares.hpp"
#include "SRIMatrix.hpp"
#include "Namelist.hpp"
using namespace gpstk;
typedef long double ld;
typedef std::vector<std::vector<ld>> M;   // reference matrices
typedef std::vector<ld> V;
typedef std::vector<std::string> NS;
static M mat(size_t r, size_t c) { return M(r, V(c, 0)); }
static M mul(const M& a, const M& b) { size_t n = a.size(), k = b.size(), m = k ? b[0].size() : 0; M c = mat(n, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t t = 0; t < k; t++) c[i][j] += a[i][t] * b[t][j]; return c; }
static M tr(const M& a) { size_t n = a.size(), m = n ? a[0].size() : 0; M c = mat(m, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) c[j][i] = a[i][j]; return c; }
static V mul(const M& a, const V& b) { V c(a.size(), 0); for (size_t i = 0; i < a.size(); i++) for (size_t t = 0; t < b.size(); t++) c[i] += a[i][t] * b[t]; return c; }
static M add(M a, const M& b, ld s = 1) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) a[i][j] += s * b[i][j]; return a; }
static V add(V a, const V& b, ld s = 1) { for (size_t i = 0; i < a.size(); i++) a[i] += s * b[i]; return a; }
static M inv(M a) { size_t n = a.size(); M b = mat(n, n); for (size_t i = 0; i < n; i++) b[i][i] = 1; for (size_t c = 0; c < n; c++) { size_t p = c; for (size_t i = c; i < n; i++) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; std::swap(a[p], a[c]); std::swap(b[p], b[c]); ld d = a[c][c]; for (size_t j = 0; j < n; j++) { a[c][j] /= d; b[c][j] /= d; } for (size_t i = 0; i < n; i++) if (i != c) { ld f = a[i][c]; if (f != 0) for (size_t j = 0; j < n; j++) { a[i][j] -= f * a[c][j]; b[i][j] -= f * b[c][j]; } } } return b; }
static ld mx(const M& a) { ld m = 0; for (auto& r : a) for (ld x : r) m = std::max(m, fabsl(x)); return m; }
static ld mx(const V& a) { ld m = 0; for (ld x : a) m = std::max(m, fabsl(x)); return m; }
static ld dif(const M& a, const M& b) { if (a.size() != b.size()) return 1e99L; ld m = 0; for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return 1e99L; for (size_t j = 0; j < a[i].size(); j++) { ld d = fabsl(a[i][j] - b[i][j]); if (!(d <= m)) m = std::isfinite((double)d) ? d : 1e99L; } } return m; }
static ld dif(const V& a, const V& b) { return dif(M(1, a), M(1, b)); }
static M of(const Matrix<double>& a) { M m = mat(a.rows(), a.cols()); for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < a.cols(); j++) m[i][j] = a(i, j); return m; }
static V of(const Vector<double>& a) { V v(a.size()); for (size_t i = 0; i < a.size(); i++) v[i] = a(i); return v; }
static Matrix<double> to(const M& a) { Matrix<double> m(a.size(), a.size() ? a[0].size() : 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) m(i, j) = (double)a[i][j]; return m; }
static Vector<double> to(const V& a) { Vector<double> v(a.size()); for (size_t i = 0; i < a.size(); i++) v(i) = (double)a[i]; return v; }
static std::string sh(const NS& n) { std::string s = "["; for (auto& x : n) s += x + " "; return s + "]"; }
static std::string sh(const M& m) { std::ostringstream o; o.precision(17); for (auto& r : m) { o << "("; for (ld x : r) o << " " << (double)x; o << ")"; } return o.str(); }
static std::string sh(const V& v) { return sh(M(1, v)); }
static NS labs(const Namelist& n) { NS v; for (unsigned i = 0; i < n.size(); i++) v.push_back(n.getName(i)); return v; }
static Namelist list(const NS& n) { Namelist l; for (auto& s : n) l += s; return l; }
static bool has(const NS& n, const std::string& s) { return std::find(n.begin(), n.end(), s) != n.end(); }
static const char* pool[] = {"X", "Y", "Z", "T", "B01", "B02", "trop", "a name", "VX", "VY", "drift", "N-1"};
static NS names(vf::Rng& r, size_t n) { std::vector<std::string> p(pool, pool + 12); r.shuffle(p); p.resize(n); return p; }
static V rv(vf::Rng& r, size_t n, double s = 5) { V v(n); for (auto& x : v) x = r.chance(0.1) ? 0.0 : (double)((r.unit() - 0.5) * 2 * s); return v; }
static M rm(vf::Rng& r, size_t n, size_t m, double s = 2) { M a = mat(n, m); for (auto& q : a) for (auto& x : q) x = r.chance(0.15) ? 0.0 : (double)((r.unit() - 0.5) * 2 * s); return a; }
static M rut(vf::Rng& r, size_t n, bool sing = false) { M a = mat(n, n); for (size_t i = 0; i < n; i++) { if (sing && r.chance(0.3)) continue; for (size_t j = i; j < n; j++) a[i][j] = i == j ? (double)((0.5 + 2 * r.unit()) * (r.chance(0.3) ? -1 : 1)) : r.chance(0.2) ? 0.0 : (double)((r.unit() - 0.5) * 2); } return a; }
static M spd(vf::Rng& r, size_t n) { M a = rut(r, n); M s = mul(tr(a), a); for (auto& q : s) for (auto& x : q) x = (double)x; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) s[i][j] = s[j][i]; return s; }
static M nons(vf::Rng& r, size_t n) { M a = rut(r, n), b = rut(r, n); M s = mul(tr(a), b); for (auto& q : s) for (auto& x : q) x = (double)x; return s; }
template <class F> static std::string kind(F f) { try { f(); return "accepted"; } catch (SingularMatrixException& e) { return "SingularMatrixException"; } catch (MatrixException& e) { return "MatrixException"; } catch (VectorException& e) { return "VectorException"; } catch (Exception& e) { return "Exception"; } catch (std::exception& e) { return std::string("std ") + e.what(); } }

// ---- name lists against a vector of distinct strings
static void lists(vf::Case& c)
{
   vf::Rng& r = c.rng; NS m = names(r, r.range(0, 8)), m2 = names(r, r.range(0, 8)); Namelist a = list(m), b = list(m2); std::string ds = sh(m) + sh(m2); auto same = [&](const char* k, const std::string& what) { ds += " " + what; c.note(ds); VF_CHECK(k, labs(a) == m && a.size() == m.size() && a.valid(), ds << " is " << sh(labs(a)) << " not " << sh(m)); }; same("list.build", "");
   int steps = (int)r.range(1, 10); for (int s = 0; s < steps; s++) { std::string nm = r.chance(0.8) ? pool[r.range(0, 11)] : "NAME00" + std::to_string(r.range(0, 9)); size_t i = r.range(0, 9), j = r.range(0, 9); NS q; switch (r.range(0, 14)) {
      case 0: if (has(m, nm)) { VF_THROWS("list.unique", Exception, a += nm, ds << " + " << nm); } else { a += nm; m.push_back(nm); } same("list.add", "+=" + nm); break;
      case 1: { a -= nm; auto it = std::find(m.begin(), m.end(), nm); if (it != m.end()) m.erase(it); same("list.remove", "-=" + nm); break; }
      case 2: a.swap(i, j); if (i < m.size() && j < m.size()) std::swap(m[i], m[j]); same("list.swap", "swap " + std::to_string(i) + " " + std::to_string(j)); break;
      case 3: a.sort(); std::sort(m.begin(), m.end()); same("list.sort", "sort"); break;
      case 4: { size_t n = m.size(), k = n; a.resize(i); if (i < n) m.resize(i); else { VF_CHECK("list.resize", a.size() == i, ds << " resized to " << i); NS got = labs(a); while (m.size() < i && k < i) { m.push_back(got[k]); k++; } for (size_t z = n; z < got.size(); z++) VF_CHECK("list.default", got[z].size() == 7 && got[z].compare(0, 4, "NAME") == 0, ds << " default name " << got[z]); } same("list.resize", "resize " + std::to_string(i)); break; }
      case 5: { NS o = labs(a); a.randomize(r.chance(0.5) ? r.range(1, 1000) : 0); NS g = labs(a), x(g), y(o); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VF_CHECK("list.randomize", x == y, ds << " randomised to " << sh(g)); m = g; same("list.randomize", "randomize"); break; }
      case 6: { bool want = i < m.size() && (m[i] == nm || !has(m, nm)); bool got = a.setName(i, nm); if (want) m[i] = nm; VF_CHECK("list.setname", got == want, ds << " setName(" << i << "," << nm << ") " << got); same("list.setname", "set " + nm); break; }
      case 7: a |= b; for (auto& x : m2) if (!has(m, x)) m.push_back(x); same("list.or", "|="); break;
      case 8: for (auto& x : m2) if (has(m, x)) q.push_back(x); a &= b; { NS g = labs(a), x(g), y(q); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VF_CHECK("list.and", x == y, ds << " & " << sh(g)); m = g; } same("list.and", "&="); break;
      case 9: for (auto& x : m) if (!has(m2, x)) q.push_back(x); for (auto& x : m2) if (!has(m, x)) q.push_back(x); a ^= b; { NS g = labs(a), x(g), y(q); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VF_CHECK("list.xor", x == y, ds << " ^ " << sh(g)); m = g; } same("list.xor", "^="); break;
      case 10: { bool dup = false; for (auto& x : m2) dup = dup || has(m, x); if (dup) { Namelist t(a); VF_THROWS("list.unique", Exception, t += b, ds << " += " << sh(m2)); } else { a += b; m.insert(m.end(), m2.begin(), m2.end()); } same("list.addlist", "+=list"); break; }
      case 11: { NS v; for (size_t k = 0; k < i + 1; k++) v.push_back(pool[r.range(0, 5)]); Namelist n(v); NS g = labs(n); std::set<std::string> u(v.begin(), v.end()), h(g.begin(), g.end()); VF_CHECK("list.fromvector", u == h && h.size() == g.size(), sh(v) << " becomes " << sh(g)); break; }
      case 12: { m2 = m; if (r.chance(0.7)) r.shuffle(m2); if (r.chance(0.4) && m2.size() && !has(m2, nm + "'")) m2[r.range(0, m2.size() - 1)] = nm + "'"; else if (r.chance(0.2) && m2.size()) m2.pop_back(); b = list(m2); break; }
      case 13: b = a; m2 = m; if (r.chance(0.2)) { a.clear(); m.clear(); } same("list.copy", "copy"); break;
      default: { Namelist n((unsigned)i); NS g = labs(n); VF_CHECK("list.default", g.size() == i && n.valid(), "default list " << i << " " << sh(g)); break; } }
      NS x(m), y(m2); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VF_CHECK("list.compare", (a == b) == (x == y) && (a != b) == (x != y) && identical(a, b) == (m == m2), ds << " against " << sh(m2)); bool ok = true; for (int k = 0; k < 12; k++) { auto it = std::find(m.begin(), m.end(), pool[k]); int ix = it == m.end() ? -1 : (int)(it - m.begin()); ok = ok && a.index(pool[k]) == ix && a.contains(pool[k]) == (ix >= 0); } VF_CHECK("list.index", ok && a.getName((unsigned)m.size()) == "out-of-range", ds); NS q1 = labs(a | b), w1(m); for (auto& z : m2) if (!has(m, z)) w1.push_back(z); VF_CHECK("list.or", q1 == w1 && (a & b).size() + (a ^ b).size() == w1.size(), ds << " | " << sh(q1)); }
   std::ostringstream o, w; o << a; for (auto& x : m) w << " / " << x; if (m.size()) w << " / "; VF_CHECK("list.print", o.str() == w.str(), ds << " printed " << o.str()); c.distinct(ds); c.sample(ds);
}

// ---- factorisations and triangular inverses
static void factor(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(1, 8); M a = spd(r, n); double sc = std::pow(10.0, r.range(-4, 4)); for (auto& q : a) for (auto& x : q) x = (double)(x * sc); std::string ds = sh(a); c.note(ds); c.distinct(ds); c.sample(ds); Matrix<double> A = to(a); ld t = 1e-13L * (mx(a) + 1e-30L), ci = mx(inv(a)), cond = ci * mx(a);
   M L = of(lowerCholesky(A)), U = of(upperCholesky(A)); bool lo = true, up = true; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (j > i) lo = lo && L[i][j] == 0; if (j < i) up = up && U[i][j] == 0; if (i == j) { lo = lo && L[i][i] > 0; up = up && U[i][i] > 0; } } VF_CHECK("chol.lower", lo && dif(mul(L, tr(L)), a) <= t, ds << " L " << sh(L)); VF_CHECK("chol.upper", up && dif(mul(U, tr(U)), a) <= t, ds << " U " << sh(U)); M I = of(inverseCholesky(A)); VF_CHECK("chol.inverse", dif(I, inv(a)) <= 1e-13L * cond * ci, ds << " inverse " << sh(I));
   Vector<double> D; L = of(LDL(A, D)); auto dg = [&](const Vector<double>& d) { M x = mat(n, n); for (size_t i = 0; i < n && i < d.size(); i++) x[i][i] = d(i); return x; }; bool unit = D.size() == n; for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) unit = unit && L[i][j] == (i == j ? 1 : 0); VF_CHECK("ldl", unit && dif(mul(mul(L, dg(D)), tr(L)), a) <= t, ds << " L " << sh(L) << " D " << sh(of(D))); U = of(UDU(A, D)); unit = D.size() == n; for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) unit = unit && U[i][j] == (i == j ? 1 : 0); VF_CHECK("udu", unit && dif(mul(mul(U, dg(D)), tr(U)), a) <= t, ds << " U " << sh(U) << " D " << sh(of(D)));
   M u = rut(r, n); ds = sh(u); c.note(ds); double sm = -7, bg = -7; ld ci2 = mx(inv(u)), mnd = 1e99L, mxd = 0; for (size_t i = 0; i < n; i++) { mnd = std::min(mnd, fabsl(u[i][i])); mxd = std::max(mxd, fabsl(u[i][i])); } M V1 = of(inverseUT(to(u), &sm, &bg)); ld ti = 1e-14L * ci2 * ci2 * 10 * n; VF_CHECK("inverse.upper", dif(V1, inv(u)) <= ti, ds << " inverse " << sh(V1)); VF_CHECK("inverse.range", sm == (double)mnd && bg == (double)mxd, ds << " upper diagonal " << sm << " to " << bg); sm = bg = -7; V1 = of(inverseLT(to(tr(u)), &sm, &bg)); VF_CHECK("inverse.lower", dif(V1, inv(tr(u))) <= ti, ds << " inverse " << sh(V1)); VF_CHECK("inverse.range", sm == (double)mnd && bg == (double)mxd, ds << " lower diagonal " << sm << " to " << bg); V1 = of(UTtimesTranspose(to(u))); VF_CHECK("uut", dif(V1, mul(u, tr(u))) <= 1e-14L * n * (mx(u) * mx(u)), ds << " product " << sh(V1));
   { size_t z = r.range(0, n - 1); M s(u); s[z][z] = 0; Matrix<double> S = to(s), T = to(tr(s)); VF_CHECK("singular.upper", kind([&] { inverseUT(S); }) == "SingularMatrixException", sh(s) << " inverse of a singular matrix: " << kind([&] { inverseUT(S); })); VF_CHECK("singular.lower", kind([&] { inverseLT(T); }) == "SingularMatrixException", sh(s) << " " << kind([&] { inverseLT(T); })); M g(a); size_t w = r.range(0, n - 1); g[w][w] = -(double)fabsl(g[w][w]); Matrix<double> G = to(g); Vector<double> d; VF_CHECK("singular.chol", kind([&] { lowerCholesky(G); }) == "SingularMatrixException" && kind([&] { upperCholesky(G); }) == "SingularMatrixException" && kind([&] { inverseCholesky(G); }) == "SingularMatrixException" && kind([&] { LDL(G, d); }) == "SingularMatrixException" && kind([&] { UDU(G, d); }) == "SingularMatrixException", sh(g)); Matrix<double> bad(n, n + 1, 1.0), none; VF_CHECK("square", kind([&] { lowerCholesky(bad); }) == "MatrixException" && kind([&] { upperCholesky(none); }) == "MatrixException" && kind([&] { inverseUT(bad); }) == "MatrixException" && kind([&] { inverseLT(bad); }) == "MatrixException" && kind([&] { UTtimesTranspose(none); }) == "MatrixException" && kind([&] { LDL(bad, d); }) == "MatrixException", ds); }
}

// ---- the information a square root holds, by name
struct Inf { NS n; M L; V e; };
static Inf inf(const SRI& s) { Inf i; i.n = labs(s.getNames()); M R = of(s.getR()); V z = of(s.getZ()); i.L = mul(tr(R), R); i.e = mul(tr(R), z); if (R.empty()) { i.L = M(); i.e = V(); } return i; }
static Inf reorder(const Inf& a, const NS& n) { Inf b; b.n = n; b.L = mat(n.size(), n.size()); b.e = V(n.size(), 0); for (size_t i = 0; i < n.size(); i++) { size_t p = std::find(a.n.begin(), a.n.end(), n[i]) - a.n.begin(); if (p == a.n.size()) continue; b.e[i] = a.e[p]; for (size_t j = 0; j < n.size(); j++) { size_t q = std::find(a.n.begin(), a.n.end(), n[j]) - a.n.begin(); if (q < a.n.size()) b.L[i][j] = a.L[p][q]; } } return b; }
static bool ut(const SRI& s, size_t n) { M R = of(s.getR()); if (R.size() != n || s.size() != n || s.getZ().size() != n || s.getNames().size() != n) return false; for (auto& q : R) if (q.size() != n) return false; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (fabsl(R[i][j]) > 1e-12L * (1 + mx(R))) return false; return true; }
static std::string chk(const SRI& s, const Inf& w, ld tol = 1e-11L) { std::ostringstream o; Inf g = inf(s); if (!ut(s, w.n.size())) { o << " not upper triangular of dimension " << w.n.size() << ": R " << sh(of(s.getR())) << " Z " << sh(of(s.getZ())) << " names " << sh(g.n); return o.str(); } if (g.n != w.n) { o << " names " << sh(g.n) << " not " << sh(w.n); return o.str(); } ld t = tol * (1 + mx(w.L) + mx(w.e)); if (dif(g.L, w.L) > t || dif(g.e, w.e) > t) o << " information " << sh(g.L) << " vector " << sh(g.e) << " not " << sh(w.L) << " " << sh(w.e); return o.str(); }
struct Mk { NS n; M R; V z; std::string ds; };
static Mk mk(vf::Rng& r, size_t n, bool sing) { Mk m; m.n = names(r, n); m.R = rut(r, n, sing); m.z = rv(r, n); for (size_t i = 0; i < n; i++) { bool zero = true; for (ld x : m.R[i]) zero = zero && x == 0; if (zero) m.z[i] = 0; } m.ds = sh(m.n) + " R " + sh(m.R) + " Z " + sh(m.z); return m; }
static SRI sri(const Mk& m) { return SRI(to(m.R), to(m.z), list(m.n)); }
static bool regular(const SRI& s) { M R = of(s.getR()); if (R.empty()) return false; for (size_t i = 0; i < R.size(); i++) if (fabsl(R[i][i]) < 0.02L) return false; return mx(inv(R)) < 200; }
static void info(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(1, 6); Mk m = mk(r, n, r.chance(0.25)); SRI s = sri(m); std::string ds = m.ds, w; c.note(ds);
   int steps = (int)r.range(1, 6); for (int k = 0; k < steps; k++) { Inf a = inf(s); n = a.n.size(); if (n == 0) break; w = chk(s, a); VF_CHECK("sri.consistent", w.empty(), ds << w); std::ostringstream d; d.precision(17); int op = (int)r.range(0, 20); M R = of(s.getR()); V z = of(s.getZ());
      switch (op) {
      case 0: { NS p(a.n); r.shuffle(p); d << " permute " << sh(p); s.permute(list(p)); w = chk(s, reorder(a, p)); VF_CHECK("sri.permute", w.empty(), ds << d.str() << w); break; }
      case 1: { Mk o = mk(r, r.range(1, 5), r.chance(0.3)); SRI t = sri(o); Inf b = inf(t); NS u(a.n); for (auto& x : b.n) if (!has(u, x)) u.push_back(x); Inf x = reorder(a, u), y = reorder(b, u); x.L = add(x.L, y.L); x.e = add(x.e, y.e); d << " merge " << o.ds; SRI q = s + t; w = chk(q, x); VF_CHECK("sri.merge", w.empty(), ds << d.str() << w); if (r.chance(0.5)) s += t; else s.merge(t); w = chk(s, x); VF_CHECK("sri.merge", w.empty(), ds << d.str() << w); if (u.size() > 8) { ds += d.str(); steps = 0; } break; }
      case 2: { NS o = names(r, r.range(0, 4)); NS u(a.n); for (auto& x : o) if (!has(u, x)) u.push_back(x); d << " += " << sh(o); s += list(o); w = chk(s, reorder(a, u)); VF_CHECK("sri.extend", w.empty(), ds << d.str() << w); break; }
      case 3: { Mk o = mk(r, r.range(1, 4), r.chance(0.3)); SRI t = sri(o); bool dup = false; for (auto& x : o.n) dup = dup || has(a.n, x); d << " append " << o.ds; if (dup) { VF_CHECK("sri.append.duplicate", kind([&] { s.append(t); }) != "accepted", ds << d.str()); w = chk(s, a); VF_CHECK("sri.append.duplicate", w.empty(), ds << d.str() << " changed" << w); break; } s.append(t); NS u(a.n); u.insert(u.end(), o.n.begin(), o.n.end()); Inf x = reorder(a, u), y = reorder(inf(t), u); x.L = add(x.L, y.L); x.e = add(x.e, y.e); w = chk(s, x); VF_CHECK("sri.append", w.empty(), ds << d.str() << w); break; }
      case 4: { V x = rv(r, n); d << " shift " << sh(x); s.shift(to(x)); Inf b = a; b.e = add(a.e, mul(a.L, x), -1); w = chk(s, b); VF_CHECK("sri.shift", w.empty(), ds << d.str() << w); break; }
      case 5: { V x = rv(r, n); d << " shiftZ " << sh(x); s.shiftZ(to(x)); VF_CHECK("sri.shiftz", dif(of(s.getZ()), add(z, x, -1)) < 1e-14L * (1 + mx(z) + mx(x)) && dif(of(s.getR()), R) == 0, ds << d.str()); break; }
      case 6: { M t = nons(r, n); NS p = names(r, n); d << " transform by inverse " << sh(t) << " to " << sh(p); s.transform(to(t), list(p)); Inf b; b.n = p; b.L = mul(mul(tr(t), a.L), t); b.e = mul(tr(t), a.e); w = chk(s, b); VF_CHECK("sri.transform", w.empty(), ds << d.str() << w); break; }
      case 7: { size_t q = r.range(1, 6); M H = rm(r, q, n); V D = rv(r, q); d << " measure " << sh(H) << sh(D); Matrix<double> P = to(H); Vector<double> dd = to(D); if (r.chance(0.5)) { s.measurementUpdate(P, dd); } else { SparseMatrix<double> sp(P); s.measurementUpdate(sp, dd); } Inf b = a; b.L = add(a.L, mul(tr(H), H)); b.e = add(a.e, mul(tr(H), D)); w = chk(s, b); VF_CHECK("sri.measure", w.empty(), ds << d.str() << w); ld e0 = 0, e1 = 0; for (ld x : z) e0 += x * x; for (ld x : D) e0 += x * x; for (ld x : of(s.getZ())) e1 += x * x; for (ld x : of(dd)) e1 += x * x; VF_CHECK("sri.residuals", dd.size() == q && fabsl(e0 - e1) < 1e-11L * (1 + e0), ds << d.str() << " residuals " << sh(of(dd)) << " norm " << (double)e1 << " not " << (double)e0); break; }
      case 8: { M C = spd(r, n); V x = rv(r, n); d << " a priori " << sh(C) << sh(x); bool ic = r.chance(0.5); if (ic) s.addAPrioriInformation(to(C), to(x)); else s.addAPriori(to(C), to(x)); M I = ic ? C : inv(C); Inf b = a; b.L = add(a.L, I); b.e = add(a.e, mul(I, x)); w = chk(s, b, 1e-11L * (1 + mx(inv(C)) * mx(C))); VF_CHECK("sri.apriori", w.empty(), ds << d.str() << w); break; }
      case 9: { if (!regular(s)) break; unsigned i = (unsigned)r.range(0, n); double q = r.chance(0.3) ? 0 : 0.1 + r.unit() * 10; d << " Q bump " << i << " by " << q; s.Qbump(i, q); Inf b = a; if (i < n) { if (q != 0) { M C = inv(a.L); V x = mul(C, a.e); C[i][i] += (ld)q * q; b.L = inv(C); b.e = mul(b.L, x); } else { ld p = a.L[i][i]; for (size_t x = 0; x < n; x++) { b.e[x] = a.e[x] - a.L[x][i] * a.e[i] / p; for (size_t y = 0; y < n; y++) b.L[x][y] = a.L[x][y] - a.L[x][i] * a.L[i][y] / p; } } } w = chk(s, b, 1e-9L); VF_CHECK("sri.qbump", w.empty(), ds << d.str() << w); break; }
      case 10: { if (n < 2 || !regular(s)) break; NS p(a.n); r.shuffle(p); p.resize(r.range(1, n - 1)); d << " split " << sh(p); SRI rest; s.split(list(p), rest); NS o; for (auto& x : a.n) if (!has(p, x)) o.push_back(x); Inf A = reorder(a, o), P = reorder(a, p), b; M X = mat(p.size(), o.size()); for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < o.size(); j++) X[i][j] = a.L[std::find(a.n.begin(), a.n.end(), p[i]) - a.n.begin()][std::find(a.n.begin(), a.n.end(), o[j]) - a.n.begin()]; M G = mul(X, inv(A.L)); b.n = p; b.L = add(P.L, mul(G, tr(X)), -1); b.e = add(P.e, mul(G, A.e), -1); ld tol = 1e-11L * (1 + mx(inv(A.L)) * mx(a.L)); w = chk(s, b, tol); VF_CHECK("sri.split", w.empty(), ds << d.str() << w); Inf l = inf(rest), y = reorder(b, l.n), tot = reorder(a, l.n); NS ln(l.n), an(a.n); std::sort(ln.begin(), ln.end()); std::sort(an.begin(), an.end()); VF_CHECK("sri.split.rest", ln == an && ut(rest, n) && dif(add(l.L, y.L), tot.L) <= tol * (1 + mx(a.L)) && dif(add(l.e, y.e), tot.e) <= tol * (1 + mx(a.e) + mx(a.L)), ds << d.str() << " the parts do not add up: rest " << sh(l.n) << sh(l.L) << sh(l.e)); break; }
      case 11: { if (!regular(s)) break; NS p(a.n), q = names(r, r.range(1, 6)); r.shuffle(p); p.resize(r.chance(0.3) ? n : r.range(0, n)); bool any = false; for (auto& x : q) if (r.chance(0.4) && !has(a.n, x)) p.push_back(x); r.shuffle(p); for (auto& x : p) any = any || has(a.n, x); if (!any) break; d << " reshape " << sh(p); s.reshape(list(p)); NS keep, o; for (auto& x : p) if (has(a.n, x)) keep.push_back(x); for (auto& x : a.n) if (!has(p, x)) o.push_back(x); Inf K = reorder(a, keep); if (o.size()) { Inf A = reorder(a, o); M X = mat(keep.size(), o.size()); for (size_t i = 0; i < keep.size(); i++) for (size_t j = 0; j < o.size(); j++) X[i][j] = a.L[std::find(a.n.begin(), a.n.end(), keep[i]) - a.n.begin()][std::find(a.n.begin(), a.n.end(), o[j]) - a.n.begin()]; M G = mul(X, inv(A.L)); K.L = add(K.L, mul(G, tr(X)), -1); K.e = add(K.e, mul(G, A.e), -1); } w = chk(s, reorder(K, p), 1e-9L); VF_CHECK("sri.reshape", w.empty(), ds << d.str() << w); break; }
      case 12: { if (!regular(s)) break; size_t i = r.range(0, n - 1); double v = (r.unit() - 0.5) * 10, sg = 0.1 + r.unit() * 5; bool back = r.chance(0.5), by = r.chance(0.5); d << " fix " << i << " at " << v << " sigma " << sg << " restore " << back; if (by) s.stateFix(a.n[i], v, sg, back); else s.stateFix((unsigned)i, v, sg, back); M C = inv(a.L); V x = mul(C, a.e); Inf b = a; ld od = 1 / C[i][i], nd = 1 / ((ld)sg * sg); b.L[i][i] += nd - od; b.e[i] += nd * v - od * x[i]; NS p(a.n); if (!back && i != n - 1) std::swap(p[i], p[n - 1]); w = chk(s, reorder(b, p), 1e-9L); VF_CHECK("sri.fix", w.empty(), ds << d.str() << w); break; }
      case 13: { if (!regular(s) || n < 2) break; size_t i = r.range(0, n - 1); SRI t(s), u(s); V x = mul(inv(a.L), a.e); bool cur = r.chance(0.5); double v = cur ? (double)x[i] : (r.unit() - 0.5) * 10; d << " fix and remove " << i << " at " << v; s.stateFixAndRemove((unsigned)i, v); Namelist nl; nl += a.n[i]; Vector<double> vv(1, v); t.stateFixAndRemove(nl, vv); NS p(a.n); p.erase(p.begin() + i); Inf g = inf(s); w = chk(t, g); VF_CHECK("sri.remove.vector", w.empty() && g.n == p && ut(s, n - 1), ds << d.str() << " vector form differs" << w); V y(0); Vector<double> st; s.getState(st); y = of(st); bool ok = y.size() == n - 1; if (ok && (cur)) { for (size_t j = 0; j + 1 < n; j++) ok = ok && fabsl(y[j] - x[j < i ? j : j + 1]) < 1e-9L * (1 + mx(x)) * (1 + mx(inv(R)) * mx(R)); } VF_CHECK("sri.remove.state", ok, ds << d.str() << " states " << sh(y) << " of " << sh(x)); { NS q(a.n); std::swap(q[i], q[n - 1]); u.permute(list(q)); u.stateFixAndRemove((unsigned)(n - 1), v); q.pop_back(); Inf b; b = reorder(a, q); for (size_t j = 0; j < q.size(); j++) { size_t aj = std::find(a.n.begin(), a.n.end(), q[j]) - a.n.begin(); b.e[j] -= a.L[aj][i] * v; } w = chk(u, b, 1e-10L); VF_CHECK("sri.remove.last", w.empty(), ds << d.str() << " as the last" << w); } SRI k(t); k.stateFixAndRemove((unsigned)(n + 3), 1.0); w = chk(k, inf(t)); VF_CHECK("sri.remove.none", w.empty(), ds << d.str() << w); break; }
      case 14: { if (n < 2) break; NS p(a.n); r.shuffle(p); p.resize(r.range(1, n)); if (r.chance(0.3)) p.push_back("absent"); r.shuffle(p); V x = rv(r, p.size()); d << " fix and remove " << sh(p) << sh(x); SRI t(s); s.stateFixAndRemove(list(p), to(x)); for (size_t j = 0; j < p.size(); j++) { int i = t.getNames().index(p[j]); if (i >= 0) { if (t.size() == 1) { t = SRI(0u); break; } t.stateFixAndRemove((unsigned)i, (double)x[j]); } } w = chk(s, inf(t)); VF_CHECK("sri.remove.several", w.empty(), ds << d.str() << w); VF_CHECK("sri.remove.length", kind([&] { SRI q(t); q.stateFixAndRemove(list(p), Vector<double>(p.size() + 1, 0.0)); }) == "VectorException", ds); break; }
      case 15: { unsigned i = (unsigned)r.range(0, n + 1); d << " zero one " << i; s.zeroOne(i); M q(R); V y(z); if (i < n) { for (auto& x : q[i]) x = 0; y[i] = 0; } VF_CHECK("sri.zeroone", dif(of(s.getR()), q) == 0 && dif(of(s.getZ()), y) == 0, ds << d.str()); break; }
      case 16: { unsigned i = (unsigned)r.range(0, n + 2); d << " zero all " << i; if (i == 0 && r.chance(0.5)) s.zeroAll(); else s.zeroAll(i); M q(R); V y(z); for (size_t j = 0; j < n; j++) if (i == 0 || j < i) { for (auto& x : q[j]) x = 0; y[j] = 0; } VF_CHECK(i == 0 || i < n ? "sri.zeroall" : "sri.zeroall.every", dif(of(s.getR()), q) == 0 && dif(of(s.getZ()), y) == 0, ds << d.str() << " leaves R " << sh(of(s.getR())) << " Z " << sh(of(s.getZ()))); break; }
      case 17: { s.zeroState(); VF_CHECK("sri.zerostate", dif(of(s.getR()), R) == 0 && mx(of(s.getZ())) == 0, ds); d << " zero state"; break; }
      case 18: { M q = rm(r, n, n); V y = rv(r, n); d << " retriangularize " << sh(q) << sh(y); if (r.chance(0.5)) s.retriangularize(to(q), to(y)); else { Matrix<double> A(n, n + 1); for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) A(i, j) = (double)q[i][j]; A(i, n) = (double)y[i]; } s.retriangularize(A); } Inf b = a; b.L = mul(tr(q), q); b.e = mul(tr(q), y); w = chk(s, b); VF_CHECK("sri.retriangularize", w.empty(), ds << d.str() << w); break; }
      case 19: { M C = spd(r, n); V x = rv(r, n); NS p = names(r, n); d << " from covariance " << sh(C) << sh(x); s.setFromCovState(to(C), to(x), list(p)); Inf b; b.n = p; b.L = inv(C); b.e = mul(b.L, x); w = chk(s, b, 1e-12L * (1 + mx(b.L) * mx(C))); VF_CHECK("sri.fromcov", w.empty(), ds << d.str() << w); break; }
      default: { size_t i = r.range(0, n); std::string nm = pool[r.range(0, 11)]; bool want = i < n && (a.n[i] == nm || !has(a.n, nm)); bool got = s.setName((unsigned)i, nm); if (want) a.n[i] = nm; VF_CHECK("sri.setname", got == want && labs(s.getNames()) == a.n && (i >= n || s.getName((unsigned)i) == a.n[i]), ds << " set name " << i << " " << nm); if (n) { std::string q = a.n[0]; VF_CHECK("sri.index", s.index(q) == 0, ds); } break; } }
      ds += d.str(); c.note(ds); c.count("op" + std::to_string(op));
      // solution
      n = s.size(); if (!n) break; M S = of(s.getR()); V y = of(s.getZ()); if (regular(s)) { Vector<double> X, X2; Matrix<double> C; double sm = -1, bg = -1; int ix = 7; s.getState(X, &ix); ld k2 = mx(inv(S)) * mx(S); V x = mul(inv(S), y); VF_CHECK("sri.state", ix == -1 && dif(of(X), x) <= 1e-13L * (1 + k2) * (1 + mx(x) + mx(inv(S)) * mx(y)), ds << " state " << sh(of(X)) << " not " << sh(x)); s.getStateAndCovariance(X2, C, &sm, &bg); M P = mul(inv(S), tr(inv(S))); ld dmn = 1e99L, dmx = 0; for (size_t i = 0; i < n; i++) { dmn = std::min(dmn, fabsl(S[i][i])); dmx = std::max(dmx, fabsl(S[i][i])); } VF_CHECK("sri.covariance", dif(of(X2), x) <= 1e-12L * (1 + k2) * (1 + mx(x) + mx(inv(S)) * mx(y)) && dif(of(C), P) <= 1e-12L * (1 + k2) * (1 + mx(P)) && sm == (double)dmn && bg == (double)dmx, ds << " state " << sh(of(X2)) << " covariance " << sh(of(C)) << " not " << sh(P) << " diagonal " << sm << " " << bg); s.getConditionNumber(sm, bg); ld tc = 0; for (auto& q : S) for (ld v : q) tc += v * v; VF_CHECK("sri.condition", sm > 0 && sm <= bg && bg * bg <= tc * (1 + 1e-9L) && bg * bg * n >= tc * (1 - 1e-9L) && fabsl(1 / (ld)sm) <= mx(inv(S)) * n * 1.01L && 1 / (ld)sm >= mx(inv(S)) * 0.99L, ds << " singular values " << sm << " to " << bg); }
      else { int last = -1; for (size_t i = 0; i < n; i++) if (S[i][i] == 0) last = (int)i; if (last >= 0) { Vector<double> X; Matrix<double> C; int ix = -9; VF_CHECK("sri.singular", kind([&] { s.getState(X, &ix); }).find("MatrixException") != std::string::npos && ix == last, ds << " singular index " << ix << " not " << last); VF_CHECK("sri.singular", kind([&] { s.getStateAndCovariance(X, C); }).find("MatrixException") != std::string::npos, ds); } } }
   { size_t n = s.size(); std::string k1 = kind([&] { SRI t(s); t.shift(Vector<double>(n + 1, 1.0)); }), k2 = kind([&] { SRI t(s); t.shiftZ(Vector<double>(n + 1, 1.0)); }), k3 = kind([&] { SRI t(s); t.transform(Matrix<double>(n + 1, n + 1, 1.0), s.getNames()); }), k4 = kind([&] { SRI t(s); t.retriangularize(Matrix<double>(n + 1, n, 1.0), Vector<double>(n, 1.0)); }), k5 = kind([&] { SRI t(s); t.addAPriori(Matrix<double>(n + 1, n + 1, 1.0), Vector<double>(n, 1.0)); }), k6 = kind([&] { SRI t(Matrix<double>(n + 1, n, 1.0), Vector<double>(n, 1.0), s.getNames()); }), k7 = kind([&] { SRI t(s); Namelist q(s.getNames()); q += std::string("absent"); t.permute(q); }), k8 = kind([&] { SRI t(s), u; Namelist q; q += std::string("absent"); t.split(q, u); }); VF_CHECK("sri.refuse", k1 == "MatrixException" && k2 == "MatrixException" && k3 == "MatrixException" && k4 == "MatrixException" && k5 == "MatrixException" && k6 == "MatrixException" && k7 == "MatrixException" && k8 == "MatrixException", ds << " " << k1 << " " << k2 << " " << k3 << " " << k4 << " " << k5 << " " << k6 << " " << k7 << " " << k8); }
   // printed form: one row per state with its label, then the values of R and Z
   if (s.size()) { std::ostringstream o; o << std::fixed << std::setprecision(6) << std::setw(14) << s; std::istringstream is(o.str()); std::string l; std::getline(is, l); bool ok = true; size_t at = 0; for (auto& x : labs(s.getNames())) { at = l.find(x, at); ok = ok && at != std::string::npos; if (ok) at += x.size(); } ok = ok && l.find("State", at) != std::string::npos; M R = of(s.getR()); V z = of(s.getZ()); size_t n = s.size(), row = 0; while (std::getline(is, l)) { if (row >= n) { ok = false; break; } std::string nm = s.getName((unsigned)row); size_t p = l.find(nm); ok = ok && p != std::string::npos; if (!ok) break; std::istringstream v(l.substr(p + nm.size())); for (size_t j = 0; j <= n; j++) { double x = 1e99; v >> x; if (fabsl(x - (j < n ? R[row][j] : z[row])) > 1.001e-6L) ok = false; } row++; } VF_CHECK("sri.print", ok && row == n, ds << " printed\n" << o.str()); }
   c.distinct(ds); c.sample(ds.substr(0, 400));
}

// ---- the filter against the covariance Kalman filter and the Rauch-Tung-Striebel smoother
static void filter(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(1, 5), ns = r.range(1, n); int K = (int)r.range(1, 6); V x0 = rv(r, n); M P0 = spd(r, n); std::ostringstream d; d << "n " << n << " noise " << ns << " steps " << K << " P0 " << sh(P0) << " x0 " << sh(x0); Namelist nl = list(names(r, n)); SRIFilter f(nl); Inf empty = inf(f); VF_CHECK("kf.empty", mx(empty.L) == 0 && f.size() == n, d.str()); f.addAPriori(to(P0), to(x0));
   V x = x0; M P = P0; ld worst = 1; struct St { M Phi, Pinv, G, Rw, Rwx, Pf, Pp; V zw, xf, xp; }; std::vector<St> h; auto comp = [&](const char* key, SRIFilter& f, const V& x, const M& P, const std::string& at) { Vector<double> X; Matrix<double> C; std::string k = kind([&] { f.getStateAndCovariance(X, C); }); worst = std::max(worst, mx(P) * mx(inv(P))); ld t = 1e-11L * worst * (1 + mx(x) + mx(P)); VF_CHECK(key, k == "accepted" && dif(of(X), x) <= t && dif(of(C), P) <= t && ut(f, n), d.str() << at << " " << k << " state " << sh(of(X)) << " covariance " << sh(of(C)) << " not " << sh(x) << " " << sh(P)); };
   comp("kf.apriori", f, x, P, " start");
   for (int k = 0; k < K; k++) { std::string at = " step " + std::to_string(k);
      if (r.chance(0.8)) { size_t m = r.range(1, 4); M H = rm(r, m, n), W = spd(r, m); V D = rv(r, m); bool wt = r.chance(0.6); if (!wt) { W = mat(m, m); for (size_t i = 0; i < m; i++) W[i][i] = 1; } d << at << " H " << sh(H) << " D " << sh(D); if (wt) d << " W " << sh(W); c.note(d.str()); Matrix<double> Hm = to(H), Wm = to(W); Vector<double> Dm = to(D), D2 = to(D); SRIFilter g(f); if (wt) f.measurementUpdate(Hm, Dm, Wm); else f.measurementUpdate(Hm, Dm); SparseMatrix<double> Hs(Hm), Ws(Wm); if (wt) g.measurementUpdate(Hs, D2, Ws); else g.measurementUpdate(Hs, D2); M Wi = inv(W), L = add(inv(P), mul(mul(tr(H), Wi), H)); V e = add(mul(inv(P), x), mul(mul(tr(H), Wi), D)); P = inv(L); x = mul(P, e); comp("kf.measure", f, x, P, at); comp("kf.sparse", g, x, P, at); VF_CHECK("kf.sparse.residuals", dif(of(Dm), of(D2)) <= 1e-10L * worst * (1 + mx(D)), d.str() << at << " residuals " << sh(of(Dm)) << " sparse " << sh(of(D2))); }
      St s; s.Phi = nons(r, n); for (auto& q : s.Phi) for (auto& v : q) v = (double)(v / (1 + mx(s.Phi)) * 2); s.Pinv = inv(s.Phi); s.G = rm(r, n, ns); s.Rw = rut(r, ns); s.xf = x; s.Pf = P; d << at << " Phi " << sh(s.Phi) << " G " << sh(s.G) << " Rw " << sh(s.Rw); c.note(d.str()); M Q = inv(mul(tr(s.Rw), s.Rw)); Matrix<double> pi = to(s.Pinv), rw = to(s.Rw), g = to(s.G), rwx(ns, n, 9.0); Vector<double> zw(ns, 0.0); f.timeUpdate(pi, rw, g, zw, rwx); x = mul(s.Phi, x); P = add(mul(mul(s.Phi, P), tr(s.Phi)), mul(mul(s.G, Q), tr(s.G))); s.xp = x; s.Pp = P; comp("kf.time", f, x, P, at); s.Rw = of(rw); s.Rwx = of(rwx); s.zw = of(zw); h.push_back(s); }
   // backwards
   V xs = x; M Ps = P; Vector<double> X; Matrix<double> C; f.getStateAndCovariance(X, C); for (int k = K; k-- > 0;) { St& s = h[k]; std::string at = " smoothing step " + std::to_string(k); Matrix<double> phi = to(s.Phi), pi = to(s.Pinv), rw = to(s.Rw), g = to(s.G), rwx = to(s.Rwx), rw2(rw), g2(g), rwx2(rwx); Vector<double> zw = to(s.zw), zw2(zw); f.smootherUpdate(phi, rw, g, zw, rwx); SRIFilter::DMsmootherUpdate(C, X, pi, rw2, g2, zw2, rwx2); M A = mul(mul(s.Pf, tr(s.Phi)), inv(s.Pp)); xs = add(s.xf, mul(A, add(xs, s.xp, -1))); Ps = add(s.Pf, mul(mul(A, add(Ps, s.Pp, -1)), tr(A))); worst = std::max(worst, mx(s.Pp) * mx(inv(s.Pp))); worst *= 1 + mx(A) * 0.5L; comp("kf.smooth", f, xs, Ps, at); ld t = 1e-11L * worst * (1 + mx(xs) + mx(Ps)); VF_CHECK("kf.smooth.covariance", dif(of(X), xs) <= t && dif(of(C), Ps) <= t, d.str() << at << " state " << sh(of(X)) << " covariance " << sh(of(C)) << " not " << sh(xs) << " " << sh(Ps)); }
   std::string ds = d.str(); c.distinct(ds); c.sample(ds.substr(0, 400)); c.maximum("condition", (double)worst);
   { Matrix<double> H(2, n + 1, 1.0), H2(2, n, 1.0), W(3, 3, 1.0), Ng(2, 2, 1.0); Vector<double> D(2, 1.0); VF_CHECK("kf.refuse", kind([&] { f.measurementUpdate(H, D); }) == "MatrixException" && kind([&] { f.measurementUpdate(H2, D, W); }) == "MatrixException" && kind([&] { Vector<double> b(3, 1.0); f.measurementUpdate(H2, b); }) == "MatrixException" && kind([&] { f.measurementUpdate(H2, D, Ng); }) == "SingularMatrixException" && kind([&] { SparseMatrix<double> s(H); f.measurementUpdate(s, D); }) == "MatrixException", ds); comp("kf.refuse.unchanged", f, xs, Ps, " after refused updates"); Matrix<double> p(n, n, 1.0), rw(ns, ns, 1.0), g(n, ns, 1.0), x1(ns, n, 0.0), x2(ns + 1, n + 1, 0.0), p1(n + 1, n - 1, 1.0); Vector<double> z(ns, 0.0), z0(ns - 1, 0.0); VF_CHECK("kf.refuse", kind([&] { f.timeUpdate(p1, rw, g, z, x1); }) == "MatrixException" && kind([&] { f.timeUpdate(p, rw, g, z0, x1); }) == "MatrixException" && kind([&] { f.smootherUpdate(p1, rw, g, z, x1); }) == "MatrixException" && kind([&] { f.smootherUpdate(p, rw, g, z0, x1); }) == "MatrixException" && kind([&] { SRIFilter::DMsmootherUpdate(p1, z, p, rw, g, z, x1); }) == "MatrixException", ds); }
   // clearing
   SRIFilter k(f), g(f); k.Reset((int)n); VF_CHECK("kf.reset.same", k.size() == n && mx(of(k.getR())) == 0 && mx(of(k.getZ())) == 0, ds << " Reset(" << n << ") leaves R " << sh(of(k.getR()))); k = f; k.Reset(); VF_CHECK("kf.reset", k.size() == n && mx(of(k.getR())) == 0 && mx(of(k.getZ())) == 0 && labs(k.getNames()) == labs(nl), ds); g.zeroAll(); VF_CHECK("kf.zeroall", g.size() == n && mx(of(g.getR())) == 0 && mx(of(g.getZ())) == 0, ds); size_t n2 = r.range(1, 7); k = f; k.Reset((int)n2); VF_CHECK("kf.reset.size", k.size() == n2 && k.getZ().size() == n2 && k.getR().cols() == n2 && mx(of(k.getR())) == 0 && mx(of(k.getZ())) == 0, ds << " Reset(" << n2 << ")"); VF_CHECK("kf.reset.names", k.getNames().size() == n2 && k.getNames().valid(), ds << " Reset(" << n2 << ") leaves names " << sh(labs(k.getNames()))); { M P1 = spd(r, n2); V x1 = rv(r, n2); k.addAPriori(to(P1), to(x1)); Vector<double> X1; Matrix<double> C1; k.getStateAndCovariance(X1, C1); VF_CHECK("kf.reset.reuse", dif(of(X1), x1) <= 1e-11L * (1 + mx(x1)) * (1 + mx(P1) * mx(inv(P1))), ds); Namelist q(k.getNames()); q.randomize(5); VF_NOTHROW("kf.reset.reuse", k.permute(q), ds << " permute after Reset"); }
   { M R = rut(r, n); V z = rv(r, n); SRIFilter e(to(R), to(z), nl); VF_CHECK("kf.explicit", dif(of(e.getR()), R) == 0 && dif(of(e.getZ()), z) == 0 && kind([&] { SRIFilter b(to(R), Vector<double>(n + 1, 0.0), nl); }) == "MatrixException" && SRIFilter((unsigned)n2).size() == n2 && SRIFilter((unsigned)n2).getNames().size() == n2, ds); }
}

// ---- least squares
static M gH; static V gC, gS; static int gMode = 0, gCalls = 0; static bool gBad = false;
// f_i(X) = sum_j H_ij X_j + c_i sin(s_j X_j) : linear when c = 0
static void model(Vector<double>& X, Vector<double>& f, Matrix<double>& P)
{
   gCalls++; size_t m = gH.size(), n = gH[0].size(); if (X.size() != n || f.size() != m || P.rows() != m || P.cols() != n) { gBad = true; return; }
   for (size_t i = 0; i < m; i++) { ld v = 0; for (size_t j = 0; j < n; j++) { P(i, j) = (double)(gMode ? gH[i][j] + gC[i] * gS[j] * cosl(gS[j] * X(j)) : gH[i][j]); v += gH[i][j] * X(j) + gC[i] * sinl(gS[j] * X(j)); } f(i) = gMode ? (double)v : 0; }
}
static void squares(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(1, 5), m = n + r.range(0, 10); gMode = 0; gBad = false; gH = rm(r, m, n, 2); for (size_t i = 0; i < n; i++) gH[i][i] = (double)(gH[i][i] + (r.chance(0.5) ? 4 : -4)); V D = rv(r, m, 10); M W = r.chance(0.4) ? spd(r, m) : mat(m, m); bool diag = W[0][0] == 0; if (diag) for (size_t i = 0; i < m; i++) W[i][i] = (double)(0.1 + r.unit() * 5); gC = V(m, 0); gS = V(n, 0); std::ostringstream d; d << "H " << sh(gH) << " D " << sh(D) << " W " << sh(W); std::string ds = d.str(); c.note(ds); c.distinct(ds); c.sample(ds.substr(0, 400)); Namelist nl = list(names(r, n)); M I = mat(m, m); for (size_t i = 0; i < m; i++) I[i][i] = 1;
   auto solve = [&](const M& H, const V& D, const M& W, V& x, M& C, const Inf* pri = nullptr) { M Wi = inv(W), L = mul(mul(tr(H), Wi), H); V e = mul(mul(tr(H), Wi), D); if (pri) { L = add(L, pri->L); e = add(e, pri->e); } C = inv(L); x = mul(C, e); return mx(L) * mx(C) * (1 + mx(W) * mx(Wi)); };
   auto same = [&](const char* key, int ret, const Vector<double>& X, const Matrix<double>& C, const V& x, const M& P, ld cond, const std::string& w) { VF_CHECK(key, ret == 0 && !gBad && dif(of(X), x) <= 1e-12L * cond * (1 + mx(x)) && dif(of(C), P) <= 1e-12L * cond * (1 + mx(P)), ds << w << " returned " << ret << " solution " << sh(of(X)) << " covariance " << sh(of(C)) << " not " << sh(x) << " " << sh(P)); };
   V x; M C; ld cond = solve(gH, D, I, x, C); if (cond > 1e6L) return;
   void* mem = malloc(sizeof(SRIleastSquares)); memset(mem, 0xa5, sizeof(SRIleastSquares)); SRIleastSquares* q = r.chance(0.5) ? new (mem) SRIleastSquares((unsigned)n) : new (mem) SRIleastSquares(nl); VF_CHECK("ls.defaults", !q->doWeight && !q->doRobust && !q->doSequential && !q->doLinearize && !q->doVerbose && q->iterationsLimit == 10 && q->convergenceLimit == 1.e-8 && q->divergenceLimit == 1.e10 && !q->isValid() && q->Iterations() == 0 && q->Convergence() == 0 && q->ConditionNumber() == 0, "a fresh least squares object");
   { SRIleastSquares l(*q); Vector<double> dd = to(D), X; Matrix<double> cv; int ret = l.dataUpdate(dd, X, cv, model); same("ls.linear", ret, X, cv, x, C, cond, " linear"); V res = add(D, mul(gH, x), -1); ld sr = 0, sd = 0; for (ld v : res) sr += v * v; for (ld v : of(dd)) sd += v * v; VF_CHECK("ls.residuals", dd.size() == m && fabsl(sr - sd) <= 1e-11L * (1 + sd) * cond, ds << " residuals " << sh(of(dd)) << " sum of squares " << (double)sd << " not " << (double)sr); VF_CHECK("ls.state", l.isValid() && l.Iterations() == 1 && dif(of(l.Solution()), of(X)) == 0 && l.ConditionNumber() >= 1, ds); l.zeroAll(); VF_CHECK("ls.zeroall", mx(of(l.getR())) == 0 && mx(of(l.getZ())) == 0 && mx(of(l.Solution())) == 0, ds); dd = to(D); ret = l.dataUpdate(dd, X, cv, model); same("ls.reuse", ret, X, cv, x, C, cond, " after zeroAll"); l.Reset((int)n); VF_CHECK("ls.reset.same", l.size() == n && mx(of(l.getR())) == 0 && mx(of(l.getZ())) == 0, ds << " Reset(" << n << ") leaves R " << sh(of(l.getR()))); SRIleastSquares e(l); e.Reset((int)n + 2); VF_CHECK("ls.reset.size", e.size() == n + 2 && e.getZ().size() == n + 2 && e.getNames().size() == n + 2, ds << " Reset(" << n + 2 << ") names " << sh(labs(e.getNames()))); }
   { SRIleastSquares l(*q); l.doWeight = true; V xw; M Cw; ld cw = solve(gH, D, W, xw, Cw); Vector<double> dd = to(D), X; Matrix<double> cv = to(W); int ret = l.dataUpdate(dd, X, cv, model); same("ls.weighted", ret, X, cv, xw, Cw, cw, " weighted"); V res = add(D, mul(gH, xw), -1); M Wi = inv(W); auto qf = [&](const V& v) { V t = mul(Wi, v); ld s = 0; for (size_t i = 0; i < v.size(); i++) s += v[i] * t[i]; return s; }; VF_CHECK("ls.weighted.residuals", fabsl(qf(res) - qf(of(dd))) <= 1e-11L * cw * (1 + qf(res)), ds << " weighted residuals " << (double)qf(of(dd)) << " not " << (double)qf(res)); }
   { SRIleastSquares l(*q); V xa = rv(r, n); M A = spd(r, n); l.addAPriori(to(A), to(xa)); Inf p = inf(l); V xw; M Cw; ld cw = solve(gH, D, I, xw, Cw, &p) * (1 + mx(A) * mx(inv(A))); Vector<double> dd = to(D), X; Matrix<double> cv; int ret = l.dataUpdate(dd, X, cv, model); same("ls.apriori", ret, X, cv, xw, Cw, cw, " with a priori " + sh(A) + sh(xa)); }
   { SRIleastSquares l(*q); l.doSequential = true; bool wt = r.chance(0.5) && diag; l.doWeight = wt; M Hall = gH; size_t at = 0; int ret = 0; Vector<double> X(n, 0.0); Matrix<double> cv; bool ok = true; while (at < m) { size_t k = at == 0 ? n + r.range(0, m - n) : r.range(1, m - at); gH = M(Hall.begin() + at, Hall.begin() + at + k); gC = V(k, 0); V part(D.begin() + at, D.begin() + at + k); Vector<double> dd = to(part); if (wt) { cv = Matrix<double>(k, k, 0.0); for (size_t i = 0; i < k; i++) cv(i, i) = (double)W[at + i][at + i]; } ret = l.dataUpdate(dd, X, cv, model); ok = ok && ret == 0; at += k; } gH = Hall; gC = V(m, 0); V xw; M Cw; ld cw = solve(gH, D, wt ? W : I, xw, Cw); same("ls.sequential", ok ? ret : 99, X, cv, xw, Cw, cw, " sequential"); }
   // nonlinear
   { gMode = 1; for (size_t j = 0; j < n; j++) gS[j] = (double)(0.3 + r.unit()); for (size_t i = 0; i < m; i++) gC[i] = (double)((r.unit() - 0.5) * 0.6); V xt = rv(r, n, 3); Vector<double> XT = to(xt), f(m); Matrix<double> P(m, n); model(XT, f, P); V DD = of(f); bool exact = r.chance(0.5); if (!exact) for (auto& v : DD) v = (double)(v + (r.unit() - 0.5) * 0.02); SRIleastSquares l(*q); l.doLinearize = true; bool wt = r.chance(0.5); l.doWeight = wt; l.iterationsLimit = 60; gCalls = 0; Vector<double> dd = to(DD), X(n); for (size_t j = 0; j < n; j++) X(j) = (double)(xt[j] + (r.unit() - 0.5) * 0.4); Matrix<double> cv; if (wt) cv = to(W); int ret = l.dataUpdate(dd, X, cv, model); std::ostringstream w; w << " nonlinear, c " << sh(gC) << " s " << sh(gS) << " true " << sh(xt) << (wt ? " weighted" : "") << " iterations " << l.Iterations() << " convergence " << l.Convergence(); if (ret == 0) { Vector<double> ff(m); model(X, ff, P); M H = of(P), Wi = wt ? inv(W) : I; V g = mul(mul(tr(H), Wi), add(DD, of(ff), -1)); M L = mul(mul(tr(H), Wi), H); M Ci = inv(L); V step = mul(Ci, g); VF_CHECK("ls.nonlinear", mx(step) <= 1e-6L * (1 + mx(X.size() ? of(X) : V())) && dif(of(cv), Ci) <= 1e-5L * mx(Ci) * (1 + mx(L) * mx(Ci) * 1e-3L) && l.isValid(), ds << w.str() << " stops at " << sh(of(X)) << " with a step of " << sh(step) << " covariance " << sh(of(cv)) << " not " << sh(Ci)); if (exact) VF_CHECK("ls.nonlinear.exact", dif(of(X), xt) <= 1e-6L, ds << w.str() << " finds " << sh(of(X))); VF_CHECK("ls.iterations", l.Iterations() >= 1 && l.Iterations() <= 60 && gCalls >= l.Iterations() && (l.Iterations() == 1 || l.Convergence() < l.convergenceLimit), ds << w.str()); c.count("nonlinear"); } else { VF_CHECK("ls.diverged", ret < 0 && ret >= -4 && !l.isValid(), ds << w.str()); c.count("notconverged"); } l.iterationsLimit = 1; l.doSequential = true; SRIleastSquares k(*q); k.doLinearize = true; k.doSequential = true; k.iterationsLimit = 1; X = to(xt); dd = to(DD); if (wt) cv = to(W); ret = k.dataUpdate(dd, X, cv, model); VF_CHECK("ls.limit", ret == -3 && !k.isValid() && mx(of(k.getR())) == 0, ds << w.str() << " stopped after one step: " << ret); gMode = 0; gC = V(m, 0); }
   // a singular problem and a robust one
   { M keep = gH; size_t z = r.range(0, n - 1); bool dup = r.chance(0.5) && n > 1; for (auto& row : gH) row[z] = dup ? row[(z + 1) % n] : 0; { if (dup) for (auto& row : gH) for (auto& v : row) v = (double)roundl(v * 4); SRIleastSquares l(*q); Vector<double> dd = to(D), X; Matrix<double> cv; int ret = 7; std::string k = kind([&] { ret = l.dataUpdate(dd, X, cv, model); }); if (dup) VF_CHECK("ls.singular.near", k == "accepted" && (ret == 0 || ret == -2), ds << " with two states observed alike: " << k << " returned " << ret); else VF_CHECK("ls.singular", k == "accepted" && ret == -2 && !l.isValid(), ds << " with state " << z << " unobserved: " << k << " returned " << ret); } gH = keep; }
   if (m >= n + 4) { SRIleastSquares l(*q); l.doRobust = true; l.iterationsLimit = 40; V xt = rv(r, n, 3), DD = mul(gH, xt); for (auto& v : DD) v = (double)(v + (r.unit() - 0.5) * 1e-2); size_t bad = r.range(0, m - 1); bool out = r.chance(0.7); if (out) DD[bad] += 500; Vector<double> dd = to(DD), X; Matrix<double> cv; int ret = l.dataUpdate(dd, X, cv, model); if (ret == 0) { M Wt = mat(m, m); bool in = dd.size() == m; for (size_t i = 0; i < m && in; i++) { in = dd(i) > 0 && dd(i) <= 1; Wt[i][i] = 1 / ((ld)dd(i) * dd(i)); } VF_CHECK("ls.robust.weights", in, ds << " weights " << sh(of(dd))); V xw; M Cw; if (in) { ld cw = solve(gH, DD, Wt, xw, Cw); VF_CHECK("ls.robust", dif(of(X), xw) <= 1e-11L * (mx(inv(mul(tr(gH), gH))) + cw * 1e-3L) * (1 + mx(xw)) * 1e3L, ds << " robust solution " << sh(of(X)) << " is not that of its weights " << sh(of(dd)) << ": " << sh(xw)); } if (out && in) c.count("robust"); } else VF_CHECK("ls.robust.return", ret == -3 || ret == -2 || ret == -4, ds << " " << ret); }
   { Vector<double> dd = to(D), X(n, 0.0), X9(n + 1, 0.0); Matrix<double> cv; SRIleastSquares l(*q), z; l.doWeight = l.doRobust = true; cv = to(W); VF_CHECK("ls.refuse", kind([&] { l.dataUpdate(dd, X, cv, model); }) == "MatrixException" && kind([&] { z.dataUpdate(dd, X, cv, model); }) == "MatrixException", ds); l = *q; l.doSequential = true; VF_CHECK("ls.refuse", kind([&] { l.dataUpdate(dd, X9, cv, model); }) == "MatrixException", ds); l = *q; l.doLinearize = true; Vector<double> few(n - 1, 1.0); VF_CHECK("ls.refuse", kind([&] { l.dataUpdate(few, X, cv, model); }) == "MatrixException", ds); M R = rut(r, n); VF_CHECK("ls.refuse", kind([&] { SRIleastSquares b(to(R), Vector<double>(n + 1, 0.0), nl); }) == "MatrixException", ds); SRIleastSquares e(to(R), to(rv(r, n)), nl); std::ostringstream o; o << std::setw(12) << std::setprecision(3) << e; bool ok = true; for (auto& s : labs(nl)) ok = ok && o.str().find(s) != std::string::npos; VF_CHECK("ls.print", ok && dif(of(e.getR()), R) == 0, ds << o.str()); }
   q->~SRIleastSquares(); free(mem);
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"lists", 3000, 60000, lists}, {"factor", 1500, 60000, factor}, {"info", 2500, 100000, info}, {"filter", 800, 30000, filter}, {"squares", 800, 30000, squares}}); }
