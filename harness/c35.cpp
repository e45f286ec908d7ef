// C35: sparse vectors and matrices against dense ones
#include "vf.hpp"
#include "SparseVector.hpp"
#include "SparseMatrix.hpp"
using namespace gpstk;
typedef long double ld;
typedef std::vector<std::vector<ld>> M;   // reference matrices
typedef std::vector<ld> V;
static M mat(size_t r, size_t c) { return M(r, V(c, 0)); }
static M mul(const M& a, const M& b) { size_t n = a.size(), k = b.size(), m = k ? b[0].size() : 0; M c = mat(n, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t t = 0; t < k; t++) c[i][j] += a[i][t] * b[t][j]; return c; }
static M tr(const M& a) { size_t n = a.size(), m = n ? a[0].size() : 0; M c = mat(m, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) c[j][i] = a[i][j]; return c; }
static V mul(const M& a, const V& b) { V c(a.size(), 0); for (size_t i = 0; i < a.size(); i++) for (size_t t = 0; t < b.size(); t++) c[i] += a[i][t] * b[t]; return c; }
static M add(M a, const M& b, ld s = 1) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) a[i][j] += s * b[i][j]; return a; }
static V add(V a, const V& b, ld s = 1) { for (size_t i = 0; i < a.size(); i++) a[i] += s * b[i]; return a; }
static M inv(M a) { size_t n = a.size(); M b = mat(n, n); for (size_t i = 0; i < n; i++) b[i][i] = 1; for (size_t c = 0; c < n; c++) { size_t p = c; for (size_t i = c; i < n; i++) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; std::swap(a[p], a[c]); std::swap(b[p], b[c]); ld d = a[c][c]; for (size_t j = 0; j < n; j++) { a[c][j] /= d; b[c][j] /= d; } for (size_t i = 0; i < n; i++) if (i != c) { ld f = a[i][c]; if (f != 0) for (size_t j = 0; j < n; j++) { a[i][j] -= f * a[c][j]; b[i][j] -= f * b[c][j]; } } } return b; }
static ld mx(const M& a) { ld m = 0; for (auto& r : a) for (ld x : r) m = std::max(m, fabsl(x)); return m; }
static ld mx(const V& a) { ld m = 0; for (ld x : a) m = std::max(m, fabsl(x)); return m; }
static ld dif(const M& a, const M& b) { if (a.size() != b.size()) return 1e99L; ld m = 0; for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return 1e99L; for (size_t j = 0; j < a[i].size(); j++) { ld d = fabsl(a[i][j] - b[i][j]); if (!(d <= m)) m = std::isfinite((double)d) ? d : 1e99L; } } return m; }
static ld dif(const V& a, const V& b) { return dif(M(1, a), M(1, b)); }
static M of(const Matrix<double>& a) { M m = mat(a.rows(), a.cols()); for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < a.cols(); j++) m[i][j] = a(i, j); return m; }
static V of(const Vector<double>& a) { V v(a.size()); for (size_t i = 0; i < a.size(); i++) v[i] = a(i); return v; }
static Matrix<double> to(const M& a) { Matrix<double> m(a.size(), a.size() ? a[0].size() : 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) m(i, j) = (double)a[i][j]; return m; }
static Vector<double> to(const V& a) { Vector<double> v(a.size()); for (size_t i = 0; i < a.size(); i++) v(i) = (double)a[i]; return v; }
static std::string sh(const M& m) { std::ostringstream o; o.precision(17); for (auto& r : m) { o << "("; for (ld x : r) o << " " << (double)x; o << ")"; } return o.str(); }
static std::string sh(const V& v) { return sh(M(1, v)); }
template <class F> static std::string kind(F f) { try { f(); return "accepted"; } catch (SingularMatrixException& e) { return "SingularMatrixException"; } catch (MatrixException& e) { return "MatrixException"; } catch (VectorException& e) { return "VectorException"; } catch (Exception& e) { return "Exception"; } catch (std::exception& e) { return std::string("std ") + e.what(); } }
static M rut(vf::Rng& r, size_t n, bool sing = false) { M a = mat(n, n); for (size_t i = 0; i < n; i++) { if (sing && r.chance(0.3)) continue; for (size_t j = i; j < n; j++) a[i][j] = i == j ? (double)((0.5 + 2 * r.unit()) * (r.chance(0.3) ? -1 : 1)) : r.chance(0.2) ? 0.0 : (double)((r.unit() - 0.5) * 2); } return a; }
typedef SparseVector<double> SV;
typedef SparseMatrix<double> SM;
// small dyadic values make sums and products exact, others are ordinary
static double val(vf::Rng& r, bool dy) { return dy ? (double)(r.range(1, 16) * (r.chance(0.5) ? -1 : 1)) / 4 : (r.unit() - 0.5) * 2 * std::pow(10.0, r.range(-3, 3)); }
static V sv(vf::Rng& r, size_t n, bool dy, double den) { V v(n, 0); for (auto& x : v) if (r.chance(den)) x = val(r, dy); return v; }
static M sm(vf::Rng& r, size_t n, size_t m, bool dy, double den) { M a = mat(n, m); for (auto& q : a) { if (r.chance(0.15)) continue; for (auto& x : q) if (r.chance(den)) x = val(r, dy); } return a; }
static V of(const SV& a) { Vector<double> d = Vector<double>(a); return of(d); }
static M of(const SM& a) { Matrix<double> d = Matrix<double>(a); return of(d); }
static SV spv(const V& v) { SV s(v.size()); for (size_t i = 0; i < v.size(); i++) if (v[i] != 0) s[i] = (double)v[i]; return s; }
static SM spm(const M& m, size_t nc) { SM s(m.size(), nc); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) if (m[i][j] != 0) s(i, j) = (double)m[i][j]; return s; }
static unsigned nz(const V& v) { unsigned n = 0; for (ld x : v) n += x != 0; return n; }
static unsigned nz(const M& m) { unsigned n = 0; for (auto& q : m) n += nz(q); return n; }
// the vector is exactly (or nearly) the dense one, and holds nothing but its non-zero elements
static bool is(const SV& s, const V& w, ld tol = 0) { if (s.size() != w.size()) return false; V g = of(s); if (s.datasize() != nz(g) || s.isEmpty() != (nz(g) == 0)) return false; for (size_t i = 0; i < w.size(); i++) { if ((ld)(double)s[i] != g[i] || s.isFilled(i) != (g[i] != 0)) return false; if (!(fabsl(g[i] - (ld)(double)w[i]) <= tol)) return false; } return true; }
static bool is(SM s, const M& w, size_t nc, ld tol = 0)
{
   if (s.rows() != w.size() || s.cols() != nc || s.size() != w.size() * nc) return false; M g = of(s); if (s.datasize() != nz(g) || s.isEmpty() != (nz(g) == 0)) return false; std::vector<unsigned> fr, fc; std::vector<double> fv; s.flatten(fr, fc, fv); size_t k = 0;
   for (size_t i = 0; i < w.size(); i++) { SV row = s.rowCopy(i); if (row.size() != nc) return false; for (size_t j = 0; j < nc; j++) { if ((ld)(double)s(i, j) != g[i][j] || s.isFilled(i, j) != (g[i][j] != 0) || (ld)(double)row[j] != g[i][j]) return false; if (!(fabsl(g[i][j] - (ld)(double)w[i][j]) <= tol)) return false; if (g[i][j] != 0) { if (k >= fv.size() || fr[k] != i || fc[k] != j || fv[k] != (double)g[i][j]) return false; k++; } } }
   return k == fr.size() && k == fc.size() && k == fv.size();
}
static std::string sx(const SV& s) { return "len " + std::to_string(s.size()) + " stored " + std::to_string(s.datasize()) + " " + sh(of(s)); }
static std::string sx(const SM& s) { return std::to_string(s.rows()) + "x" + std::to_string(s.cols()) + " stored " + std::to_string(s.datasize()) + " " + sh(of(s)); }
template <class F> static bool refused(F f) { return kind(f) == "Exception"; }

// ---- vectors: a history of operations against the dense vector
static void vectors(vf::Case& c)
{
   vf::Rng& r = c.rng; bool dy = r.chance(0.6); double den = r.pick(std::vector<double>{0, 0.2, 0.5, 0.8, 1}); size_t n = r.range(0, 9); V a = sv(r, n, dy, den); std::string ds = sh(a); c.note(ds);
   SV s = r.chance(0.5) ? SV(to(a)) : spv(a); VF_CHECK("vec.build", is(s, a), ds << " is " << sx(s)); int steps = (int)r.range(1, 8);
   for (int k = 0; k < steps; k++)
   {
      n = a.size(); V b = r.chance(0.2) ? a : sv(r, n, dy, den); ld tol = dy ? 0 : 1e-15L * (mx(a) + mx(b)); SV t = spv(b); Vector<double> d = to(b); std::string op; bool wrong = r.chance(0.1); SV tw = spv(V(n + 1, 1)); Vector<double> dw = to(V(n + 1, 1));
      switch (r.range(0, 17)) {
      case 0: op = "+="; if (wrong) VF_CHECK("vec.mismatch", refused([&] { s += tw; }) && refused([&] { s += dw; }) && refused([&] { s -= tw; }) && refused([&] { s -= dw; }) && refused([&] { s.addScaledSparseVector(2.0, tw); }), ds); else { if (r.chance(0.5)) s += t; else s += d; a = add(a, b); VF_CHECK("vec.add", is(s, a, tol), ds << " += " << sh(b) << " is " << sx(s)); } break;
      case 1: op = "-="; if (r.chance(0.5)) s -= t; else s -= d; a = add(a, b, -1); VF_CHECK("vec.subtract", is(s, a, tol), ds << " -= " << sh(b) << " is " << sx(s)); break;
      case 2: { double f = r.chance(0.15) ? 0 : val(r, dy); op = "*" + std::to_string(f); s *= f; for (auto& x : a) x = (double)x * f; VF_CHECK("vec.scale", is(s, a), ds << " *= " << f << " is " << sx(s)); break; }
      case 3: { double f = dy ? r.pick(std::vector<double>{2, 4, -2}) : val(r, dy); if (wrong) { VF_CHECK("vec.divide.zero", refused([&] { s /= 0.0; }), ds); break; } op = "/" + std::to_string(f); s /= f; for (auto& x : a) x = (double)x / f; VF_CHECK("vec.divide", is(s, a), ds << " /= " << f << " is " << sx(s)); break; }
      case 4: { double f = r.chance(0.15) ? 0 : r.chance(0.2) ? -1 : val(r, dy); op = "+" + std::to_string(f) + "*"; s.addScaledSparseVector(f, t); a = add(a, b, f); VF_CHECK("vec.axpy", is(s, a, tol * (2 + fabsl(f))), ds << " + " << f << "*" << sh(b) << " is " << sx(s)); break; }
      case 5: s = -s; op = "neg"; for (auto& x : a) x = 0 - x; VF_CHECK("vec.negate", is(s, a), ds << " is " << sx(s)); break;
      case 6: { SV u; if (wrong) { VF_CHECK("vec.mismatch", refused([&] { u = s + tw; }) && refused([&] { u = s + dw; }) && refused([&] { u = dw + s; }) && refused([&] { u = s - tw; }) && refused([&] { u = s - dw; }) && refused([&] { u = dw - s; }), ds); break; } int w = (int)r.range(0, 5); ld g = w < 3 ? 1 : -1; u = w == 0 ? s + t : w == 1 ? s + d : w == 2 ? d + s : w == 3 ? s - t : w == 4 ? s - d : d - s; V e = w == 5 ? add(b, a, -1) : add(a, b, g); VF_CHECK("vec.sum", is(u, e, tol), ds << " and " << sh(b) << " form " << w << " is " << sx(u)); VF_CHECK("vec.operands", is(s, a) && is(t, b), ds); break; }
      case 7: { if (!n) break; size_t i = r.range(0, n - 1), j = r.range(0, n - 1); double f = r.chance(0.3) ? 0 : val(r, dy); int w = (int)r.range(0, 7); switch (w) { case 0: s[i] = f; a[i] = f; break; case 1: s[i] += f; a[i] = (double)a[i] + f; break; case 2: s[i] -= f; a[i] = (double)a[i] - f; break; case 3: s[i] *= f; a[i] = (double)a[i] * f; break; case 4: s[i] = s[j]; a[i] = a[j]; break; case 5: s[i] += s[j]; a[i] = (double)a[i] + (double)a[j]; break; case 6: s[i] -= s[j]; a[i] = (double)a[i] - (double)a[j]; break; default: s[i] *= s[j]; a[i] = (double)a[i] * (double)a[j]; } op = "element"; VF_CHECK("vec.element", is(s, a), ds << " element " << i << " form " << w << " with " << f << " or element " << j << " is " << sx(s)); break; }
      case 8: { size_t m = r.range(0, 10); op = "resize " + std::to_string(m); s.resize(m); a.resize(m, 0); VF_CHECK("vec.resize", is(s, a), ds << " resized to " << m << " is " << sx(s)); break; }
      case 9: { size_t m = r.range(0, 10); op = "truncate " + std::to_string(m); s.truncate(m); for (size_t i = m; i < n; i++) a[i] = 0; VF_CHECK("vec.truncate", is(s, a), ds << " truncated at " << m << " is " << sx(s)); break; }
      case 10: { op = "zeroize"; double tl = std::fabs(val(r, dy)); s.zeroize(tl); for (auto& x : a) if (fabsl(x) <= tl) x = 0; VF_CHECK("vec.zeroize", is(s, a), ds << " zeroized by " << tl << " is " << sx(s)); SV z(s); if (n) { z[0] = 1e-15; z[n - 1] = 1.0; z.zeroize(); V e(a); e[0] = 0; e[n - 1] = 1; VF_CHECK("vec.zeroize.default", is(z, e), ds << " is " << sx(z)); } break; }
      case 11: if (r.chance(0.3)) { op = "clear"; s.clear(); a.assign(n, 0); VF_CHECK("vec.clear", is(s, a), ds << " is " << sx(s)); } break;
      case 12: { size_t i = r.range(0, n + 1), m = r.range(0, n + 1); if (i + m > n) VF_CHECK("vec.sub.range", refused([&] { SV q(s, i, m); }), ds << " sub " << i << "," << m); else { char buf[sizeof(SV)]; memset(buf, 0xa5, sizeof buf); SV* q = new (buf) SV(s, i, m); VF_CHECK("vec.sub", q->size() == m && is(*q, V(a.begin() + i, a.begin() + i + m)), ds << " sub " << i << "," << m << " has " << q->datasize() << " of " << q->size()); q->~SV(); } break; }
      case 13: { if (!n) break; ld sum = 0, sq = 0, lo = 0, hi = 0, la = 0, ha = 0; bool first = true; for (ld x : a) if (x != 0) { sum += x; sq += x * x; if (first || x < lo) lo = x; if (first || x > hi) hi = x; if (first || fabsl(x) < la) la = fabsl(x); if (first || fabsl(x) > ha) ha = fabsl(x); first = false; } VF_CHECK("vec.norm", fabsl(norm(s) - sqrtl(sq)) <= 1e-14L * sqrtl(sq), ds << " norm " << norm(s) << " not " << (double)sqrtl(sq)); VF_CHECK("vec.range", min(s) == (double)lo && max(s) == (double)hi && minabs(s) == (double)la && maxabs(s) == (double)ha, ds << " " << min(s) << " " << max(s) << " " << minabs(s) << " " << maxabs(s)); VF_CHECK("vec.total", fabsl(s.sum(s) - sum) <= 1e-14L * n * ha, ds << " sum " << s.sum(s)); VF_CHECK("vec.density", std::fabs(s.density() - (double)nz(a) / n) < 1e-15, ds << " density " << s.density()); break; }
      case 14: { ld p = 0, q = 0, na = 0, nb = 0; size_t kb = r.range(0, n), ke = r.range(0, n + 1); for (size_t i = 0; i < n; i++) { p += a[i] * b[i]; if (i >= kb && i < ke) q += a[i] * b[i]; na += a[i] * a[i]; nb += b[i] * b[i]; } ld t2 = dy ? 0 : 1e-15L * n * mx(a) * mx(b) + 1e-300L; VF_CHECK("vec.dot", fabsl(dot(s, t) - p) <= t2 && fabsl(dot(s, d) - p) <= t2 && fabsl(dot(d, s) - p) <= t2, ds << " . " << sh(b) << " is " << dot(s, t) << " " << dot(s, d) << " not " << (double)p); VF_CHECK("vec.dot.part", fabsl(dot_lim(s, t, kb, ke) - q) <= t2, ds << " . " << sh(b) << " from " << kb << " to " << ke << " is " << dot_lim(s, t, kb, ke) << " not " << (double)q); VF_CHECK("vec.dot.mismatch", refused([&] { dot(s, tw); }) && refused([&] { dot(s, dw); }) && refused([&] { dot(dw, s); }) && refused([&] { dot_lim(s, tw, 0, 1); }), ds); ld co = na > 0 && nb > 0 ? p / sqrtl(na) / sqrtl(nb) : 0; if (na > 0 && nb > 0) VF_CHECK("vec.angle", fabsl(cosVec(s, t) - co) <= 1e-13L && fabsl(cosVec(s, d) - co) <= 1e-13L && fabsl(cosVec(d, s) - co) <= 1e-13L, ds << " angle with " << sh(b) << " is " << cosVec(s, t) << " not " << (double)co); else VF_CHECK("vec.angle.zero", refused([&] { cosVec(s, t); }) && refused([&] { cosVec(s, d); }), ds); break; }
      case 15: { std::ostringstream o, w; int wd = (int)r.range(0, 12), pr = (int)r.range(1, 6); o << std::setprecision(pr) << s; w << std::setprecision(pr); for (size_t i = 0; i < n; i++) { if (i) w << ' '; if (a[i] != 0) w << (double)a[i]; else w << "0"; } VF_CHECK("vec.print", o.str() == w.str(), ds << " printed \"" << o.str() << "\""); std::ostringstream e; e << "len=" << n << ", N=" << nz(a) << std::fixed << std::setprecision(pr); if (wd > 5) e << std::scientific; for (size_t i = 0; i < n; i++) if (a[i] != 0) e << " " << i << "," << (double)a[i]; VF_CHECK("vec.dump", s.dump(pr, wd > 5) == e.str(), ds << " dumped " << s.dump(pr, wd > 5)); break; }
      case 16: { SV u(s); const SV k2(u); VF_CHECK("vec.copy", is(u, a) && is(k2, a), ds); if (n) { u[n - 1] = 77.0; VF_CHECK("vec.copy", is(s, a), ds); u = s; VF_CHECK("vec.copy", is(u, a), ds); } break; }
      default: { SV e; SV z(n); VF_CHECK("vec.empty", is(e, V()) && is(z, V(n, 0)), ds << " " << sx(e) << " " << sx(z)); } }
      if (!op.empty()) { ds += " " + op; c.note(ds); a = of(s); c.count("vec ops"); }
   }
   c.distinct(ds); c.sample(ds);
}

// ---- matrices: a history of operations against the dense matrix
static void matrices(vf::Case& c)
{
   vf::Rng& r = c.rng; bool dy = r.chance(0.6); double den = r.pick(std::vector<double>{0, 0.2, 0.5, 0.8, 1}); size_t n = r.range(1, 7), m = r.range(1, 7); M a = sm(r, n, m, dy, den); std::string ds = sh(a); c.note(ds);
   SM s = r.chance(0.5) ? SM(to(a)) : spm(a, m); VF_CHECK("mat.build", is(s, a, m), ds << " is " << sx(s)); int steps = (int)r.range(1, 8);
   for (int k = 0; k < steps; k++)
   {
      n = a.size(); m = a[0].size(); M b = r.chance(0.2) ? a : sm(r, n, m, dy, den); ld tol = dy ? 0 : 1e-15L * (mx(a) + mx(b)); SM t = spm(b, m); Matrix<double> d = to(b); std::string op; bool wrong = r.chance(0.1); SM tw = spm(M(n, V(m + 1, 1)), m + 1), tx = spm(M(n + 1, V(m, 1)), m); Matrix<double> dw = to(M(n, V(m + 1, 1))), dx = to(M(n + 1, V(m, 1)));
      switch (r.range(0, 19)) {
      case 0: op = "+="; if (wrong) VF_CHECK("mat.mismatch", refused([&] { s += tw; }) && refused([&] { s += dw; }) && refused([&] { s -= tx; }) && refused([&] { s -= dx; }) && refused([&] { s += tx; }) && refused([&] { s -= dw; }), ds); else { if (r.chance(0.5)) s += t; else s += d; a = add(a, b); VF_CHECK("mat.add", is(s, a, m, tol), ds << " += " << sh(b) << " is " << sx(s)); } break;
      case 1: op = "-="; if (r.chance(0.5)) s -= t; else s -= d; a = add(a, b, -1); VF_CHECK("mat.subtract", is(s, a, m, tol), ds << " -= " << sh(b) << " is " << sx(s)); break;
      case 2: { double f = r.chance(0.15) ? 0 : val(r, dy); op = "*" + std::to_string(f); s *= f; for (auto& q : a) for (auto& x : q) x = (double)x * f; VF_CHECK("mat.scale", is(s, a, m), ds << " *= " << f << " is " << sx(s)); break; }
      case 3: { double f = dy ? r.pick(std::vector<double>{2, 4, -2}) : val(r, dy); if (wrong) { VF_CHECK("mat.divide.zero", refused([&] { s /= 0.0; }), ds); break; } op = "/" + std::to_string(f); s /= f; for (auto& q : a) for (auto& x : q) x = (double)x / f; VF_CHECK("mat.divide", is(s, a, m), ds << " /= " << f << " is " << sx(s)); break; }
      case 4: s = -s; op = "neg"; for (auto& q : a) for (auto& x : q) x = 0 - x; VF_CHECK("mat.negate", is(s, a, m), ds << " is " << sx(s)); break;
      case 5: case 6: { SM u; if (wrong) { VF_CHECK("mat.mismatch", refused([&] { u = s + tw; }) && refused([&] { u = s + dx; }) && refused([&] { u = dw + s; }) && refused([&] { u = s - tx; }) && refused([&] { u = s - dw; }) && refused([&] { u = dx - s; }), ds); break; } int w = (int)r.range(0, 5); u = w == 0 ? s + t : w == 1 ? s + d : w == 2 ? d + s : w == 3 ? s - t : w == 4 ? s - d : d - s; M e = w == 5 ? add(b, a, -1) : add(a, b, w < 3 ? 1 : -1); VF_CHECK("mat.sum", is(u, e, m, tol), ds << " and " << sh(b) << " form " << w << " is " << sx(u)); VF_CHECK("mat.operands", is(s, a, m) && is(t, b, m), ds); break; }
      case 7: { size_t i = r.range(0, n - 1), j = r.range(0, m - 1), i2 = r.range(0, n - 1), j2 = r.range(0, m - 1); double f = r.chance(0.3) ? 0 : val(r, dy); int w = (int)r.range(0, 7); ld& x = a[i][j]; ld y = a[i2][j2]; switch (w) { case 0: s(i, j) = f; x = f; break; case 1: s(i, j) += f; x = (double)x + f; break; case 2: s(i, j) -= f; x = (double)x - f; break; case 3: s(i, j) *= f; x = (double)x * f; break; case 4: s(i, j) = s(i2, j2); x = y; break; case 5: s(i, j) += s(i2, j2); x = (double)x + (double)y; break; case 6: s(i, j) -= s(i2, j2); x = (double)x - (double)y; break; default: s(i, j) *= s(i2, j2); x = (double)x * (double)y; } op = "element"; VF_CHECK("mat.element", is(s, a, m), ds << " element " << i << "," << j << " form " << w << " with " << f << " or element " << i2 << "," << j2 << " is " << sx(s)); break; }
      case 8: { size_t p = r.range(1, 8), q = r.range(1, 8); op = "resize " + std::to_string(p) + "x" + std::to_string(q); s.resize(p, q); a.resize(p); for (auto& x : a) x.resize(q, 0); VF_CHECK("mat.resize", is(s, a, q), ds << " " << op << " is " << sx(s)); break; }
      case 9: { op = "zeroize"; double tl = std::fabs(val(r, dy)); s.zeroize(tl); for (auto& q : a) for (auto& x : q) if (fabsl(x) <= tl) x = 0; VF_CHECK("mat.zeroize", is(s, a, m), ds << " zeroized by " << tl << " is " << sx(s)); break; }
      case 10: if (r.chance(0.3)) { op = "clear"; s.clear(); a = mat(n, m); VF_CHECK("mat.clear", is(s, a, m), ds << " is " << sx(s)); } break;
      case 11: { size_t i = r.range(0, n), j = r.range(0, m), p = r.range(0, n), q = r.range(0, m); std::ostringstream w; w << i << "," << j << " " << p << "x" << q; if (!p || !q || i + p > n || j + q > m) VF_CHECK("mat.sub.range", refused([&] { SM u(s, i, j, p, q); }), ds << " sub " << w.str()); else { M e = mat(p, q); for (size_t x = 0; x < p; x++) for (size_t y = 0; y < q; y++) e[x][y] = a[i + x][j + y]; SM u(s, i, j, p, q); VF_CHECK("mat.sub", is(u, e, q), ds << " sub " << w.str() << " is " << u.dump()); } break; }
      case 12: { ld lo = 0, hi = 0, la = 0, ha = 0; bool first = true; for (auto& q : a) for (ld x : q) if (x != 0) { if (first || x < lo) lo = x; if (first || x > hi) hi = x; if (first || fabsl(x) < la) la = fabsl(x); if (first || fabsl(x) > ha) ha = fabsl(x); first = false; } VF_CHECK("mat.range", min(s) == (double)lo && max(s) == (double)hi && minabs(s) == (double)la && maxabs(s) == (double)ha, ds << " " << min(s) << " " << max(s) << " " << minabs(s) << " " << maxabs(s)); VF_CHECK("mat.density", std::fabs(s.density() - (double)nz(a) / (n * m)) < 1e-15, ds); break; }
      case 13: { SM u = transpose(s); VF_CHECK("mat.transpose", is(u, tr(a), n), ds << " transposed " << sx(u)); if (r.chance(0.5)) { s = u; a = tr(a); op = "transpose"; } break; }
      case 14: { size_t i = r.range(0, n - 1), j = r.range(0, n - 1); op = "rows " + std::to_string(i) + "<>" + std::to_string(j); if (wrong) VF_CHECK("mat.swap.range", refused([&] { s.swapRows(n, j); }) && refused([&] { s.swapCols(0, m); }), ds); s.swapRows(i, j); std::swap(a[i], a[j]); VF_CHECK("mat.swaprows", is(s, a, m), ds << " " << op << " is " << sx(s)); break; }
      case 15: { size_t i = r.range(0, m - 1), j = r.range(0, m - 1); op = "cols " + std::to_string(i) + "<>" + std::to_string(j); s.swapCols(i, j); for (auto& q : a) std::swap(q[i], q[j]); VF_CHECK("mat.swapcols", is(s, a, m), ds << " " << op << " is " << sx(s)); break; }
      case 16: { size_t i = r.range(0, n - 1), j = r.range(0, m - 1), l = std::min(n, m); V cj(n), dg(l); for (size_t x = 0; x < n; x++) cj[x] = a[x][j]; for (size_t x = 0; x < l; x++) dg[x] = a[x][x]; VF_CHECK("mat.row", is(s.rowCopy(i), a[i]), ds << " row " << i << " " << sx(s.rowCopy(i))); VF_CHECK("mat.col", is(s.colCopy(j), cj), ds << " col " << j << " " << sx(s.colCopy(j))); VF_CHECK("mat.diag", is(s.diagCopy(), dg), ds << " diagonal " << sx(s.diagCopy())); break; }
      case 17: { size_t q = r.range(1, 4); M g = sm(r, n, q, dy, den); V v = sv(r, n, dy, den); M e(a), f(a); for (size_t i = 0; i < n; i++) { e[i].insert(e[i].end(), g[i].begin(), g[i].end()); f[i].push_back(v[i]); } if (wrong) { VF_CHECK("mat.join.mismatch", refused([&] { s || tx; }) && refused([&] { s || to(V(n + 1, 1)); }), ds); break; } if (r.chance(0.5)) { SM u = s || spm(g, q); VF_CHECK("mat.join", is(u, e, m + q), ds << " || " << sh(g) << " is " << u.dump()); if (m + q < 9) { s = u; a = e; op = "join"; } } else { SM u = s || to(v); VF_CHECK("mat.join.vector", is(u, f, m + 1), ds << " || " << sh(v) << " is " << u.dump()); if (m < 8) { s = u; a = f; op = "join vector"; } } break; }
      case 18: { std::ostringstream o, w; int pr = (int)r.range(1, 6); o << std::setprecision(pr) << s; w << std::setprecision(pr); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { w << " "; if (a[i][j] != 0) w << (double)a[i][j]; else w << "0"; } std::istringstream p(o.str()), q(w.str()); std::vector<std::string> x, y; std::string z; while (p >> z) x.push_back(z); while (q >> z) y.push_back(z); std::string os = o.str(); size_t nl = std::count(os.begin(), os.end(), '\n'); VF_CHECK("mat.print", x == y && nl == n - 1, ds << " printed \"" << o.str() << "\""); std::ostringstream e; e << "dim(" << n << "," << m << "), size " << n * m << ", datasize " << nz(a) << " :" << std::fixed << std::setprecision(pr); if (!nz(a)) e << " empty"; for (size_t i = 0; i < n; i++) if (nz(a[i])) { e << "\n row " << i << ": len=" << m << ", N=" << nz(a[i]); for (size_t j = 0; j < m; j++) if (a[i][j] != 0) e << " " << j << "," << (double)a[i][j]; } VF_CHECK("mat.dump", s.dump(pr) == e.str(), ds << " dumped " << s.dump(pr) << " not " << e.str()); break; }
      default: { SM e; SM z(n, m), i1 = identSparse<double>(n), i0 = identSparse<double>(0); M id = mat(n, n); for (size_t i = 0; i < n; i++) id[i][i] = 1; VF_CHECK("mat.special", is(e, M(), 0) && is(z, mat(n, m), m) && is(i1, id, n) && is(i0, M(), 0), ds); const SM u(s); SM v(u); v(0, 0) = 99.0; VF_CHECK("mat.copy", is(u, a, m) && is(s, a, m), ds); } }
      if (!op.empty()) { ds += " " + op; c.note(ds); a = of(s); c.count("mat ops"); }
   }
   c.distinct(ds); c.sample(ds);
}

// ---- products
static void products(vf::Case& c)
{
   vf::Rng& r = c.rng; bool dy = r.chance(0.6); double den = r.pick(std::vector<double>{0.2, 0.5, 0.8, 1}); size_t n = r.range(1, 7), m = r.range(1, 7), p = r.range(1, 7); M a = sm(r, n, m, dy, den), b = sm(r, m, p, dy, den); V v = sv(r, m, dy, den), u = sv(r, n, dy, den); std::string ds = sh(a) + " * " + sh(b) + " v " + sh(v) + " u " + sh(u); c.note(ds); c.distinct(ds); c.sample(ds);
   SM A = spm(a, m), B = spm(b, p); SV sv1 = spv(v), su = spv(u); Matrix<double> da = to(a), db = to(b); Vector<double> dv = to(v), du = to(u); ld t = dy ? 0 : 1e-15L * m * mx(a) * mx(b), tv = dy ? 0 : 1e-15L * m * mx(a) * mx(v), tu = dy ? 0 : 1e-15L * n * mx(a) * mx(u); M ab = mul(a, b); V av = mul(a, v), ua = mul(tr(a), u); SM x; SV y;
   x = A * B; VF_CHECK("product", is(x, ab, p, t), ds << " is " << sx(x)); x = A * db; VF_CHECK("product.dense.right", is(x, ab, p, t), ds << " is " << sx(x)); x = da * B; VF_CHECK("product.dense.left", is(x, ab, p, t), ds << " is " << sx(x));
   y = A * sv1; VF_CHECK("apply", is(y, av, tv), ds << " is " << sx(y)); y = A * dv; VF_CHECK("apply.dense.vector", is(y, av, tv), ds << " is " << sx(y)); y = da * sv1; VF_CHECK("apply.dense.matrix", is(y, av, tv), ds << " is " << sx(y));
   y = su * A; VF_CHECK("left", is(y, ua, tu), ds << " is " << sx(y)); y = du * A; VF_CHECK("left.dense.vector", is(y, ua, tu), ds << " is " << sx(y)); y = su * da; VF_CHECK("left.dense.matrix", is(y, ua, tu), ds << " is " << sx(y));
   x = matrixTimesTranspose(A); VF_CHECK("square.rows", is(x, mul(a, tr(a)), n, dy ? 0 : 1e-15L * m * mx(a) * mx(a)), ds << " is " << sx(x));
   M s = sm(r, m, m, dy, 0.7); s = add(s, tr(s)); M pct = mul(mul(a, s), tr(a)); Vector<double> dg = transformDiag(A, to(s)); bool ok = dg.size() == n; for (size_t i = 0; ok && i < n; i++) ok = fabsl(dg(i) - pct[i][i]) <= (dy ? 0 : 1e-14L * m * m * mx(a) * mx(a) * mx(s)); VF_CHECK("transform.diagonal", ok, ds << " C " << sh(s) << " is " << sh(of(dg)));
   SM bw = spm(M(m + 1, V(p, 1)), p), sq = spm(s, m); Matrix<double> dw = to(M(m + 1, V(p, 1))), rect = to(M(m, V(m + 1, 1))); SV vw = spv(V(m + 1, 1)), uw = spv(V(n + 1, 1)); Vector<double> dvw = to(V(m + 1, 1)), duw = to(V(n + 1, 1)); VF_CHECK("product.mismatch", refused([&] { A * bw; }) && refused([&] { A * dw; }) && refused([&] { to(M(n, V(m + 2, 1))) * bw; }) && refused([&] { A * vw; }) && refused([&] { A * dvw; }) && refused([&] { da * vw; }) && refused([&] { uw * A; }) && refused([&] { duw * A; }) && refused([&] { uw * da; }) && refused([&] { transformDiag(A, rect); }), ds);
}

// ---- inverses and factorisations
static void solve(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(1, 8); std::string ds; auto thin = [&](M x) { for (auto& q : x) for (auto& y : q) y = (double)y; return x; };
   // a well conditioned sparse matrix: triangular factors with strong diagonals, rows shuffled
   M u = rut(r, n); for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (r.chance(0.5)) u[i][j] = 0; M g = thin(r.chance(0.5) ? u : mul(tr(u), rut(r, n))); if (r.chance(0.6)) r.shuffle(g); ds = sh(g); c.note(ds); M gi = inv(g); ld cn = mx(g) * mx(gi) * n; bool hard = cn > 1e5L; SM G = spm(g, n);
   if (!hard) { SM I; VF_NOTHROW("inverse.accept", I = inverse(G), ds); VF_CHECK("inverse", dif(of(I), gi) <= 1e-12L * cn * cn * mx(gi), ds << " inverse " << sx(I)); VF_CHECK("inverse.shape", I.rows() == n && I.cols() == n, ds); c.count("inverses"); }
   // a singular one: a zero row or column, or equal rows of small integers
   { M z = mat(n, n); for (auto& q : z) for (auto& x : q) x = r.chance(0.4) ? 0 : (ld)r.range(-3, 3); size_t w = r.range(0, n - 1); int how = n == 1 ? (int)r.range(0, 1) : (int)r.range(0, 2); if (how == 0) z[w] = V(n, 0); else if (how == 1) for (auto& q : z) q[w] = 0; else z[w] = z[(w + 1) % n]; SM Z = spm(z, n); if (how < 2 || n == 2) VF_CHECK("inverse.singular", kind([&] { inverse(Z); }) == "Exception", sh(z) << " inverse of a singular matrix: " << kind([&] { inverse(Z); })); }
   { SM a(n, n + 1), e; VF_CHECK("square", refused([&] { inverse(a); }) && refused([&] { lowerCholesky(a); }) && refused([&] { upperCholesky(a); }) && refused([&] { inverseLT(a); }) && refused([&] { inverse(e); }) && refused([&] { lowerCholesky(e); }) && refused([&] { inverseLT(e); }) && refused([&] { inverseViaCholesky(a); }), ds); }
   // Cholesky
   M s = thin(mul(tr(u), u)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) s[i][j] = s[j][i]; SM S = spm(s, n); ds = sh(s); c.note(ds); c.distinct(ds); c.sample(ds); ld cs = mx(s) * mx(inv(s)) * n, t = 1e-14L * n * mx(s); SM L = lowerCholesky(S), U = upperCholesky(S); M l = of(L), up = of(U); bool tri = true; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (j > i) tri = tri && l[i][j] == 0; if (i == j) tri = tri && l[i][i] > 0; } VF_CHECK("chol.lower", tri && dif(mul(l, tr(l)), s) <= t, ds << " L " << sx(L)); VF_CHECK("chol.upper", dif(up, tr(l)) == 0 && is(U, tr(l), n), ds << " U " << sx(U)); SM Ic = inverseViaCholesky(S); VF_CHECK("chol.inverse", dif(of(Ic), inv(s)) <= 1e-13L * cs * cs, ds << " inverse " << sx(Ic));
   { M q(s); size_t w = r.range(0, n - 1); if (r.chance(0.5)) q[w][w] = -(double)q[w][w]; else for (size_t i = 0; i < n; i++) q[w][i] = q[i][w] = 0; SM Q = spm(q, n); VF_CHECK("chol.refuse", refused([&] { lowerCholesky(Q); }) && refused([&] { upperCholesky(Q); }) && refused([&] { inverseViaCholesky(Q); }), sh(q) << " is not positive definite: " << kind([&] { lowerCholesky(Q); })); }
   M lt = tr(u); SM LT = spm(lt, n); double small = -7, big = -7; ld mnd = 1e99L, mxd = 0; for (size_t i = 0; i < n; i++) { mnd = std::min(mnd, fabsl(lt[i][i])); mxd = std::max(mxd, fabsl(lt[i][i])); } ld cl = mx(lt) * mx(inv(lt)) * n; int form = (int)r.range(0, 2); SM LI = form == 0 ? inverseLT(LT, &small, &big) : form == 1 ? inverseLT(LT, (double*)NULL, &big) : inverseLT(LT, &small, (double*)NULL); VF_CHECK("inverse.lower", dif(of(LI), inv(lt)) <= 1e-14L * cl * cl * 10, sh(lt) << " inverse " << sx(LI)); VF_CHECK("inverse.lower.range", (form == 1 || small == (double)mnd) && (form == 2 || big == (double)mxd), sh(lt) << " form " << form << " gives " << small << " to " << big << " not " << (double)mnd << " to " << (double)mxd);
   { M q(lt); size_t w = r.range(0, n - 1); q[w][w] = 0; SM Q = spm(q, n); VF_CHECK("inverse.lower.singular", refused([&] { inverseLT(Q); }), sh(q)); }
   // Householder
   size_t p = r.range(1, 8), k = r.range(1, 8); M h = sm(r, p, k, false, r.pick(std::vector<double>{0.3, 0.6, 1})); ld sc = mx(h); for (auto& q : h) for (auto& x : q) if (fabsl(x) < sc * 1e-6L || fabsl(x) < 1e-5L) x = 0; SM H = spm(h, k), R = SparseHouseholder(H); M rr = of(R); bool trap = R.rows() == p && R.cols() == k; size_t lim = std::min(p, k) - 1; for (size_t i = 0; trap && i < p; i++) for (size_t j = 0; j < i && j < lim; j++) trap = trap && fabsl(rr[i][j]) <= 1e-12L * sc; VF_CHECK("householder", trap && dif(mul(tr(rr), rr), mul(tr(h), h)) <= 1e-13L * p * sc * sc, sh(h) << " becomes " << sx(R));
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"vectors", 12000, 300000, vectors}, {"matrices", 9000, 220000, matrices}, {"products", 4000, 100000, products}, {"solve", 4000, 100000, solve}}); }
