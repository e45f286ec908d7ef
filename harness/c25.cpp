// C25: linear algebra: vectors, matrices, slices, decompositions, inverses
#include "vf.hpp"
#include "Matrix.hpp"
#include "Vector.hpp"
#include <valarray>
using namespace gpstk;
typedef long double ld;
typedef std::vector<std::vector<ld>> M;
typedef Matrix<double> DM;
typedef Vector<double> DV;

static double val(vf::Rng& r) { switch (r.range(0, 5)) { case 0: return (double)r.range(-5, 5); case 1: return std::fabs(r.logmag(1e-6, 1e6)) * (r.chance(0.5) ? 1 : -1); case 2: return 0; default: return (r.unit() - 0.5) * 10; } }
static DM rnd(vf::Rng& r, size_t a, size_t b) { DM m(a, b); for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) m(i, j) = val(r); return m; }
static DV rndv(vf::Rng& r, size_t n) { DV v(n); for (size_t i = 0; i < n; i++) v(i) = val(r); return v; }
static M mod(const DM& m) { M x(m.rows(), std::vector<ld>(m.cols())); for (size_t i = 0; i < m.rows(); i++) for (size_t j = 0; j < m.cols(); j++) x[i][j] = m(i, j); return x; }
template <class A> static std::string str(const A& m) { std::ostringstream o; o.precision(17); o << "[" << m.rows() << "x" << m.cols(); for (size_t i = 0; i < m.rows(); i++) { o << ";"; for (size_t j = 0; j < m.cols(); j++) o << " " << (double)m(i, j); } o << "]"; return o.str(); }
static std::string strv(const DV& v) { std::ostringstream o; o.precision(17); o << "("; for (size_t i = 0; i < v.size(); i++) o << " " << v(i); o << " )"; return o.str(); }
template <class F> static bool each(size_t a, size_t b, F f) { for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) if (!f(i, j)) return false; return true; }
template <class A, class F> static bool is(const A& m, size_t a, size_t b, F f) { return m.rows() == a && m.cols() == b && m.size() == a * b && each(a, b, [&](size_t i, size_t j) { return m(i, j) == f(i, j); }); }
static bool cl(ld a, ld b, ld scale, ld eps = 1e-14) { return fabsl(a - b) <= eps * (scale + 1e-300L); }

// ------------------------------------------------------------------ vectors
static void vectors(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(0, 9), m = r.chance(0.6) ? n : r.range(0, 9); DV a = rndv(r, n), b = rndv(r, m); double k = val(r) + (r.chance(0.5) ? 0.25 : 0); std::string ds = strv(a) + " " + strv(b); c.note(ds); c.distinct(ds); c.sample(ds); std::vector<double> A(n), B(m); for (size_t i = 0; i < n; i++) A[i] = a[i]; for (size_t i = 0; i < m; i++) B[i] = b[i];
   auto eq = [&](const DV& v, size_t s, std::function<double(size_t)> f) { if (v.size() != s) return false; for (size_t i = 0; i < s; i++) if (!(v[i] == f(i) || (std::isnan(v[i]) && std::isnan(f(i))))) return false; return true; };
   if (n == m) { VF_CHECK("v.add", eq(a + b, n, [&](size_t i) { return A[i] + B[i]; }), ds); VF_CHECK("v.sub", eq(a - b, n, [&](size_t i) { return A[i] - B[i]; }), ds); VF_CHECK("v.mul", eq(a * b, n, [&](size_t i) { return A[i] * B[i]; }), ds); DV d(b); for (size_t i = 0; i < n; i++) if (d[i] == 0) d[i] = 3; VF_CHECK("v.div", eq(a / d, n, [&](size_t i) { return A[i] / d[i]; }), ds); Vector<bool> l = a < b, e = a == b, g = a >= b, ne = a != b, le = a <= b, gt = a > b; bool ok = l.size() == n; for (size_t i = 0; i < n && ok; i++) ok = l[i] == (A[i] < B[i]) && e[i] == (A[i] == B[i]) && g[i] == (A[i] >= B[i]) && ne[i] == (A[i] != B[i]) && le[i] == (A[i] <= B[i]) && gt[i] == (A[i] > B[i]); VF_CHECK("v.compare", ok, ds); DV x(a); x += b; VF_CHECK("v.inplace", eq(x, n, [&](size_t i) { return A[i] + B[i]; }), ds); x = a; x -= b; VF_CHECK("v.inplace", eq(x, n, [&](size_t i) { return A[i] - B[i]; }), ds); x = a; x *= b; VF_CHECK("v.inplace", eq(x, n, [&](size_t i) { return A[i] * B[i]; }), ds); }
   else { VF_THROWS("v.mismatch", VectorException, (a + b), ds); VF_THROWS("v.mismatch", VectorException, (a - b), ds); VF_THROWS("v.mismatch", VectorException, (a * b), ds); VF_THROWS("v.mismatch", VectorException, (a == b), ds); }
   { bool all_eq = true, all_lt = true, all_ge = true; for (size_t i = 0; i < std::min(n, m); i++) { all_eq &= A[i] == B[i]; all_lt &= A[i] < B[i]; all_ge &= A[i] >= B[i]; } VF_CHECK("v.all", eq(a, n, [&](size_t i) { return A[i]; }) && gpstk::eq(a, b) == all_eq && gpstk::lt(a, b) == all_lt && gpstk::ge(a, b) == all_ge, ds); bool k1 = true, k2 = true; for (double x : A) { k1 &= x <= k; k2 &= k > x; } VF_CHECK("v.allscalar", gpstk::le(a, k) == k1 && gpstk::gt(k, a) == k2, ds); }
   VF_CHECK("v.scalar", eq(a + k, n, [&](size_t i) { return A[i] + k; }) && eq(k + a, n, [&](size_t i) { return k + A[i]; }) && eq(a - k, n, [&](size_t i) { return A[i] - k; }) && eq(k - a, n, [&](size_t i) { return k - A[i]; }) && eq(a * k, n, [&](size_t i) { return A[i] * k; }) && (k == 0 || eq(a / k, n, [&](size_t i) { return A[i] / k; })), ds << " k " << k); VF_CHECK("v.neg", eq(-a, n, [&](size_t i) { return -A[i]; }), ds);
   { ld s = 0, q = 0, mg = 0, dt = 0, dm = 0; for (double x : A) { s += x; q += (ld)x * x; mg += fabsl((ld)x); } for (size_t i = 0; i < std::min(n, m); i++) { dt += (ld)A[i] * B[i]; dm += fabsl((ld)A[i] * B[i]); } VF_CHECK("v.sum", cl(sum(a), s, mg), ds << " sum " << sum(a)); VF_CHECK("v.norm", cl(norm(a), sqrtl(q), sqrtl(q)) && cl(RSS(a), sqrtl(q), sqrtl(q)), ds << " norm " << norm(a)); VF_CHECK("v.dot", cl(dot(a, b), dt, dm), ds << " dot " << dot(a, b)); VF_CHECK("v.dotscalar", cl(dot(a, k), s * k, mg * fabsl((ld)k)) && cl(dot(k, a), s * k, mg * fabsl((ld)k)), ds); if (n) VF_CHECK("v.rms", cl(RMS(a), sqrtl(q / n), sqrtl(q)), ds); if (q > 0 && n) { DV u = normalize(a); bool ok = u.size() == n; for (size_t i = 0; i < n && ok; i++) ok = cl(u[i], A[i] / sqrtl(q), 1); VF_CHECK("v.normalize", ok, ds); } ld qb = 0; for (double x : B) qb += (ld)x * x; if (q > 0 && qb > 0) VF_CHECK("v.cos", cl(cosVec(a, b), dt / sqrtl(q) / sqrtl(qb), 1), ds << " " << cosVec(a, b)); }
   if (n) { double mn = A[0], mx = A[0], ma = A[0], mi = A[0]; for (double x : A) { mn = std::min(mn, x); mx = std::max(mx, x); if (std::fabs(x) > std::fabs(ma)) ma = x; if (std::fabs(x) < std::fabs(mi)) mi = x; } VF_CHECK("v.extremes", gpstk::min(a) == mn && gpstk::max(a) == mx && std::fabs(maxabs(a)) == std::fabs(ma) && std::fabs(minabs(a)) == std::fabs(mi), ds); VF_CHECK("v.front", a.front() == A[0] && ((const DV&)a).front() == A[0] && *a.begin() == A[0] && *(a.end() - 1) == A[n - 1] && (size_t)(a.end() - a.begin()) == n, ds); }
   else { VF_THROWS("v.empty", VectorException, gpstk::min(a), ds); VF_THROWS("v.empty", VectorException, gpstk::max(a), ds); VF_THROWS("v.empty", VectorException, maxabs(a), ds); VF_THROWS("v.empty", VectorException, minabs(a), ds); VF_CHECK("v.isempty", a.empty(), ds); }
   { size_t t = r.range(0, 9), q = r.range(0, 9); bool ok = t < n && t + q <= n; if (ok) { DV s(a, t, q); VF_CHECK("v.sub", eq(s, q, [&](size_t i) { return A[t + i]; }), ds << " sub " << t << " " << q); } else VF_THROWS("v.subrange", VectorException, DV(a, t, q), ds << " sub " << t << " " << q); }
   { DV x(a); x << b; VF_CHECK("v.append", eq(x, n + m, [&](size_t i) { return i < n ? A[i] : B[i - n]; }) && eq(a && b, n + m, [&](size_t i) { return i < n ? A[i] : B[i - n]; }) && eq(a && k, n + 1, [&](size_t i) { return i < n ? A[i] : k; }), ds); x = a; x << k; VF_CHECK("v.append", eq(x, n + 1, [&](size_t i) { return i < n ? A[i] : k; }), ds); x << x; VF_CHECK("v.appendself", eq(x, 2 * n + 2, [&](size_t i) { i %= n + 1; return i < n ? A[i] : k; }), ds); }
   { DV x(a); std::vector<double> w = x.toStdVector(); VF_CHECK("v.std", w == A, ds << " " << w.size() << " elements"); x = B; VF_CHECK("v.std", eq(x, m, [&](size_t i) { return B[i]; }), ds); std::valarray<double> va(A.data(), n); DV y(va); VF_CHECK("v.valarray", eq(y, n, [&](size_t i) { return A[i]; }), ds); y = k; VF_CHECK("v.fill", eq(y, n, [&](size_t) { return k; }), ds); y.resize(m, 2.5); VF_CHECK("v.resize", eq(y, m, [&](size_t) { return 2.5; }), ds); y = a; VF_CHECK("v.assign", eq(y, n, [&](size_t i) { return A[i]; }), ds); if (m < n) { y.resize(m); VF_CHECK("v.shrink", eq(y, m, [&](size_t i) { return A[i]; }), ds); } y = y; DV z(n, k); VF_CHECK("v.fillctor", eq(z, n, [&](size_t) { return k; }), ds); }
   if (n == 3 && m == 3) { DV x = cross(a, b); auto sc = [&](int i, int j) { return std::fabs(A[i] * B[j]) + std::fabs(A[j] * B[i]); }; VF_CHECK("v.cross", x.size() == 3 && cl(x[0], (ld)A[1] * B[2] - (ld)A[2] * B[1], sc(1, 2)) && cl(x[1], (ld)A[2] * B[0] - (ld)A[0] * B[2], sc(0, 2)) && cl(x[2], (ld)A[0] * B[1] - (ld)A[1] * B[0], sc(0, 1)), ds); } else VF_THROWS("v.crosssize", VectorException, cross(a, b), ds);
   if (n >= 4 && m >= 4) { ld q = (ld)A[0] * B[0] + (ld)A[1] * B[1] + (ld)A[2] * B[2] - (ld)A[3] * B[3]; VF_CHECK("v.minkowski", cl(Minkowski(a, b), q, fabsl((ld)A[0] * B[0]) + fabsl((ld)A[1] * B[1]) + fabsl((ld)A[2] * B[2]) + fabsl((ld)A[3] * B[3])), ds); } else VF_THROWS("v.minkowski4", VectorException, Minkowski(a, b), ds);
   if (n) { size_t st = r.range(0, n - 1), sd = r.range(1, 3), nu = 1 + (n - 1 - st) / sd; DV x(a); VectorSlice<double> s(x, std::slice(st, nu, sd)); bool ok = s.size() == nu; for (size_t i = 0; i < nu; i++) ok = ok && s[i] == A[st + i * sd]; s += k; s *= 2.0; for (size_t i = 0; i < n; i++) ok = ok && x[i] == ((i >= st && (i - st) % sd == 0) ? (A[i] + k) * 2 : A[i]); VF_CHECK("v.slice", ok, ds << " slice " << st << " " << nu << " " << sd); ConstVectorSlice<double> cs(a, std::slice(st, nu, sd)); ld q = 0, mg = 0; for (size_t i = 0; i < nu; i++) { q += A[st + i * sd]; mg += fabsl((ld)A[st + i * sd]); } VF_CHECK("v.constslice", cl(sum(cs), q, mg), ds); }
   { DV x(a); double t = DV::zeroTolerance; x.zeroize(); VF_CHECK("v.zeroize", eq(x, n, [&](size_t i) { return std::fabs(A[i]) < t ? 0.0 : A[i]; }), ds); DV p(n); for (size_t i = 0; i < n; i++) p[i] = std::fabs(A[i]) + 0.1; VF_CHECK("v.func", eq(gpstk::sqrt(p), n, [&](size_t i) { return std::sqrt(p[i]); }) && eq(gpstk::abs(a), n, [&](size_t i) { return std::fabs(A[i]); }) && eq(gpstk::cos(a), n, [&](size_t i) { return std::cos(A[i]); }) && eq(gpstk::log(p), n, [&](size_t i) { return std::log(p[i]); }), ds); }
   { std::ostringstream o; o << std::fixed << std::setprecision(3) << std::setw(9) << a; std::string w; char q[40]; for (size_t i = 0; i < n; i++) { snprintf(q, 40, " %9.3f", A[i]); w += q; } VF_CHECK("v.print", o.str() == w, ds << " printed <" << o.str() << ">"); }
}

// ------------------------------------------------------------------ matrices
static void matrices(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t p = r.range(1, 6), q = r.range(1, 6), s = r.range(1, 6), t = r.chance(0.5) ? q : r.range(1, 6); DM a = rnd(r, p, q), b = rnd(r, r.chance(0.6) ? q : s, t), e = rnd(r, r.chance(0.6) ? p : s, r.chance(0.6) ? q : s); DV v = rndv(r, r.chance(0.6) ? q : p), w = rndv(r, s); double k = val(r); std::string ds = str(a) + " " + str(b) + " " + str(e) + " " + strv(v); c.note(ds); c.distinct(ds); c.sample(ds); const DM& ca = a;
   if (b.rows() == q) { DM x = a * b; bool ok = x.rows() == p && x.cols() == t; for (size_t i = 0; i < p && ok; i++) for (size_t j = 0; j < t; j++) { ld z = 0, mg = 0; for (size_t n = 0; n < q; n++) { z += (ld)a(i, n) * b(n, j); mg += fabsl((ld)a(i, n) * b(n, j)); } ok = ok && cl(x(i, j), z, mg); } VF_CHECK("m.mul", ok, ds << " product " << str(x)); } else VF_THROWS("m.mulsize", MatrixException, (a * b), ds);
   if (v.size() == q) { DV x = a * v; bool ok = x.size() == p; for (size_t i = 0; i < p && ok; i++) { ld z = 0, mg = 0; for (size_t n = 0; n < q; n++) { z += (ld)a(i, n) * v(n); mg += fabsl((ld)a(i, n) * v(n)); } ok = cl(x(i), z, mg); } VF_CHECK("m.mulv", ok, ds); } else VF_THROWS("m.mulvsize", MatrixException, (a * v), ds);
   if (v.size() == p) { DV x = v * a; bool ok = x.size() == q; for (size_t j = 0; j < q && ok; j++) { ld z = 0, mg = 0; for (size_t n = 0; n < p; n++) { z += (ld)a(n, j) * v(n); mg += fabsl((ld)a(n, j) * v(n)); } ok = cl(x(j), z, mg); } VF_CHECK("m.vmul", ok, ds); } else VF_THROWS("m.vmulsize", MatrixException, (v * a), ds);
   bool same = e.rows() == p && e.cols() == q; if (same) { VF_CHECK("m.add", is(a + e, p, q, [&](size_t i, size_t j) { return a(i, j) + e(i, j); }), ds); VF_CHECK("m.sub", is(a - e, p, q, [&](size_t i, size_t j) { return a(i, j) - e(i, j); }), ds); DM x(a); x += e; x -= a; VF_CHECK("m.inplace", is(x, p, q, [&](size_t i, size_t j) { return (a(i, j) + e(i, j)) - a(i, j); }), ds); } else { VF_THROWS("m.addsize", MatrixException, (a + e), ds); VF_THROWS("m.addsize", MatrixException, (a - e), ds); }
   VF_CHECK("m.scalar", is(a * k, p, q, [&](size_t i, size_t j) { return a(i, j) * k; }) && is(k * a, p, q, [&](size_t i, size_t j) { return a(i, j) * k; }) && is(a + k, p, q, [&](size_t i, size_t j) { return a(i, j) + k; }) && is(k + a, p, q, [&](size_t i, size_t j) { return a(i, j) + k; }) && is(a - k, p, q, [&](size_t i, size_t j) { return a(i, j) - k; }) && (k == 0 || is(a / k, p, q, [&](size_t i, size_t j) { return a(i, j) / k; })), ds << " k " << k); { DM x(a); VF_CHECK("m.neg", is(-x, p, q, [&](size_t i, size_t j) { return -a(i, j); }), ds); }
   VF_CHECK("m.transpose", is(transpose(a), q, p, [&](size_t i, size_t j) { return a(j, i); }), ds);
   if (e.cols() == q) VF_CHECK("m.below", is(a && e, p + e.rows(), q, [&](size_t i, size_t j) { return i < p ? a(i, j) : e(i - p, j); }), ds); else VF_THROWS("m.belowsize", MatrixException, (a && e), ds);
   if (e.rows() == p) VF_CHECK("m.beside", is(a || e, p, q + e.cols(), [&](size_t i, size_t j) { return j < q ? a(i, j) : e(i, j - q); }), ds); else VF_THROWS("m.besidesize", MatrixException, (a || e), ds);
   if (v.size() == q) { VF_CHECK("m.belowv", is(a && v, p + 1, q, [&](size_t i, size_t j) { return i < p ? a(i, j) : v(j); }), ds); VF_CHECK("m.abovev", is(v && a, p + 1, q, [&](size_t i, size_t j) { return i ? a(i - 1, j) : v(j); }), ds); } else { VF_THROWS("m.belowvsize", MatrixException, (a && v), ds); VF_THROWS("m.belowvsize", MatrixException, (v && a), ds); }
   if (v.size() == p) { VF_CHECK("m.besidev", is(a || v, p, q + 1, [&](size_t i, size_t j) { return j < q ? a(i, j) : v(i); }), ds); VF_CHECK("m.beforev", is(v || a, p, q + 1, [&](size_t i, size_t j) { return j ? a(i, j - 1) : v(i); }), ds); } else { VF_THROWS("m.besidevsize", MatrixException, (a || v), ds); VF_THROWS("m.besidevsize", MatrixException, (v || a), ds); }
   if (v.size() == w.size()) VF_CHECK("m.vv", is(v || w, v.size(), 2, [&](size_t i, size_t j) { return j ? w(i) : v(i); }), ds); else VF_THROWS("m.vvsize", MatrixException, (v || w), ds); VF_CHECK("m.outer", is(outer(v, w), v.size(), w.size(), [&](size_t i, size_t j) { return v(i) * w(j); }), ds);
   { size_t x = r.range(0, 6), y = r.range(0, 6); if (x < p && y < q) VF_CHECK("m.minor", is(minorMatrix(a, x, y), p - 1, q - 1, [&](size_t i, size_t j) { return a(i + (i >= x), j + (j >= y)); }), ds << " minor " << x << " " << y); else VF_THROWS("m.minorrange", MatrixException, minorMatrix(a, x, y), ds << " minor " << x << " " << y); }
   { size_t x = r.range(0, 6), y = r.range(0, 6), m = r.range(0, 6), n = r.range(0, 6); if (x + m <= p && y + n <= q) VF_CHECK("m.sub", is(DM(a, x, y, m, n), m, n, [&](size_t i, size_t j) { return a(x + i, y + j); }), ds); else VF_THROWS("m.subrange", MatrixException, DM(a, x, y, m, n), ds << " sub " << x << " " << y << " " << m << " " << n);
      if (x + m <= p && y + n <= q && m && n) { DM z(a); MatrixSlice<double> sl(z, x, y, m, n); sl += k; VF_CHECK("m.slice", is(z, p, q, [&](size_t i, size_t j) { return i >= x && i < x + m && j >= y && j < y + n ? a(i, j) + k : a(i, j); }), ds); ConstMatrixSlice<double> cs(a, std::slice(x, m, 1), std::slice(y, n, 1)); VF_CHECK("m.constslice", is(transpose(cs), n, m, [&](size_t i, size_t j) { return a(x + j, y + i); }), ds); } else if (m && n) VF_THROWS("m.slicerange", MatrixException, MatrixSlice<double>(a, x, y, m, n), ds); }
   { size_t x = r.range(0, p - 1), y = r.range(0, q - 1), f = r.range(0, p - 1), g = r.range(0, q - 1); DV rc = a.rowCopy(x, g), cc = a.colCopy(y, f), dc = a.diagCopy(); bool ok = rc.size() == q - g && cc.size() == p - f && dc.size() == std::min(p, q); for (size_t i = 0; i < rc.size() && ok; i++) ok = rc(i) == a(x, g + i); for (size_t i = 0; i < cc.size() && ok; i++) ok = cc(i) == a(f + i, y); for (size_t i = 0; i < dc.size() && ok; i++) ok = dc(i) == a(i, i); VF_CHECK("m.copies", ok, ds);
      bool th = false; try { ConstMatrixRowSlice<double> R = ca.row(x, g); ConstMatrixColSlice<double> C = ca.col(y, f); ok = R.size() == q - g && C.size() == p - f; for (size_t i = 0; i < R.size() && ok; i++) ok = R(i) == a(x, g + i) && R(0, i) == a(x, g + i); for (size_t i = 0; i < C.size() && ok; i++) ok = C(i) == a(f + i, y) && C(i, 0) == a(f + i, y); } catch (MatrixException&) { th = true; } VF_CHECK("m.constrowcol", ok && !th, ds << " row " << x << " from " << g << " col " << y << " from " << f << " threw " << th);
      DM z(a); z.rowRef(x, g) += k; VF_CHECK("m.rowref", is(z, p, q, [&](size_t i, size_t j) { return i == x && j >= g ? a(i, j) + k : a(i, j); }), ds); z = a; z.colRef(y, f) *= k; VF_CHECK("m.colref", is(z, p, q, [&](size_t i, size_t j) { return j == y && i >= f ? a(i, j) * k : a(i, j); }), ds); z = a; VF_CHECK("m.index", z[x][y] == a(x, y) && ca[x][y] == a(x, y), ds); size_t x2 = r.range(0, p - 1), y2 = r.range(0, q - 1); z.swapRows(x, x2); z.swapCols(y, y2); auto sw = [](size_t i, size_t m, size_t n) { return i == m ? n : i == n ? m : i; }; VF_CHECK("m.swap", is(z, p, q, [&](size_t i, size_t j) { return a(sw(i, x, x2), sw(j, y, y2)); }), ds); VF_THROWS("m.rowrange", MatrixException, ca.row(p + r.range(0, 2)), ds); VF_THROWS("m.colrange", MatrixException, ca.col(q + r.range(0, 2)), ds); }
   { ld f = 0, nc = 0, mx = 0; for (size_t i = 0; i < p; i++) { ld z = 0; for (size_t j = 0; j < q; j++) { f += (ld)a(i, j) * a(i, j); z += fabsl((ld)a(i, j)); mx = std::max(mx, fabsl((ld)a(i, j))); } nc = std::max(nc, z); } VF_CHECK("m.norms", cl(normF(a), sqrtl(f), sqrtl(f)) && cl(normCol(a), nc, nc) && maxabs(a) == (double)mx, ds << " " << normF(a) << " " << normCol(a) << " " << maxabs(a)); }
   if (p == q) { ld tr = 0, mg = 0; for (size_t i = 0; i < p; i++) { tr += a(i, i); mg += fabsl((ld)a(i, i)); } VF_CHECK("m.trace", cl(trace(a), tr, mg), ds); VF_CHECK("m.diag", is(diag(a), p, p, [&](size_t i, size_t j) { return i == j ? a(i, j) : 0.0; }), ds); DM z(a), u(a), l(a), y(a); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < p; j++) { if (j < i) { u(i, j) = 0; y(i, j) = a(j, i); } if (j > i) l(i, j) = 0; } if (r.chance(0.5) && p > 1) { size_t i = r.range(1, p - 1), j = r.range(0, i - 1); u(i, j) = 1e-300; l(j, i) = -1; y(i, j) += std::fabs(y(i, j)) + 1; VF_CHECK("m.shape", !u.isUT() && !l.isLT() && !y.isSymmetric() && !u.isDiagonal() && !l.isDiagonal(), ds); } else VF_CHECK("m.shape", u.isUT() && l.isLT() && y.isSymmetric() && diag(a).isDiagonal() && a.isSquare(), ds); ident(z); VF_CHECK("m.ident", is(z, p, p, [&](size_t i, size_t j) { return i == j ? 1.0 : 0.0; }) && is(ident<double>(p), p, p, [&](size_t i, size_t j) { return i == j ? 1.0 : 0.0; }), ds); }
   else { VF_THROWS("m.tracesize", MatrixException, trace(a), ds); VF_THROWS("m.diagsize", MatrixException, diag(a), ds); VF_CHECK("m.shape", !a.isSquare() && !a.isUT() && !a.isLT() && !a.isSymmetric() && !a.isDiagonal(), ds); DM z(a); VF_THROWS("m.identsize", MatrixException, ident(z), ds); VF_THROWS("m.blksize", MatrixException, blkdiag(a, a), ds); }
   { DM x = rnd(r, s, s), y = rnd(r, p, p), z = rnd(r, q, q); VF_CHECK("m.blkdiag", is(blkdiag(x, y, z), s + p + q, s + p + q, [&](size_t i, size_t j) { if (i < s && j < s) return x(i, j); if (i >= s && j >= s && i < s + p && j < s + p) return y(i - s, j - s); if (i >= s + p && j >= s + p) return z(i - s - p, j - s - p); return 0.0; }), ds); }
   { std::vector<double> f(p * q); for (auto& z : f) z = val(r); DM x(p, q, f.data()), y(p, q); y = f.data(); VF_CHECK("m.fromarray", is(x, p, q, [&](size_t i, size_t j) { return f[i * q + j]; }) && is(y, p, q, [&](size_t i, size_t j) { return f[i * q + j]; }), ds); DV g(p * q); for (size_t i = 0; i < p * q; i++) g(i) = f[i]; DM z(p, q, g); VF_CHECK("m.fromvector", is(z, p, q, [&](size_t i, size_t j) { return f[i * q + j]; }), ds); z.resize(s, t, 7.5); VF_CHECK("m.resize", is(z, s, t, [&](size_t, size_t) { return 7.5; }), ds); z = a; VF_CHECK("m.assign", is(z, p, q, [&](size_t i, size_t j) { return a(i, j); }), ds); z = k; VF_CHECK("m.fill", is(z, p, q, [&](size_t, size_t) { return k; }), ds); z = a; z.zeroize(); double tz = DV::zeroTolerance; VF_CHECK("m.zeroize", is(z, p, q, [&](size_t i, size_t j) { return std::fabs(a(i, j)) < tz ? 0.0 : a(i, j); }), ds); }
   { double an = (r.unit() - 0.5) * 14; int ax = (int)r.range(-1, 5); if (ax >= 1 && ax <= 3) { DM R = rotation(an, ax); int i1 = ax - 1, i2 = (i1 + 1) % 3, i3 = (i2 + 1) % 3; DV u = rndv(r, 3), z = R * u; ld cs = cosl(an), sn = sinl(an); ld sc = fabsl((ld)u(0)) + fabsl((ld)u(1)) + fabsl((ld)u(2)); VF_CHECK("m.rotation", cl(z(i1), u(i1), sc) && cl(z(i2), cs * u(i2) + sn * u(i3), sc) && cl(z(i3), cs * u(i3) - sn * u(i2), sc), ds << " angle " << an << " axis " << ax); } else VF_THROWS("m.axis", MatrixException, rotation(an, ax), ds << " axis " << ax); }
   { std::ostringstream o; o << std::fixed << std::setprecision(2) << std::setw(8) << a; std::string wt; char z[400]; for (size_t i = 0; i < p; i++) { for (size_t j = 0; j < q; j++) { snprintf(z, 400, " %8.2f", a(i, j)); wt += z; } if (i + 1 < p) wt += "\n"; } VF_CHECK("m.print", o.str() == wt, ds << " printed <" << o.str() << ">"); }
}

// -------------------------------------------------------------- decompositions
static DM ortho(vf::Rng& r, size_t n) { DM q = ident<double>(n); for (size_t k = 0; k < 3 * n && n > 1; k++) { size_t i = r.range(0, n - 1), j = r.range(0, n - 1); if (i == j) continue; double t = (r.unit() - 0.5) * 6.3; if (r.chance(0.2)) t = r.range(0, 4) * 1.5707963267948966; double cs = std::cos(t), sn = std::sin(t); for (size_t m = 0; m < n; m++) { double x = q(i, m), y = q(j, m); q(i, m) = cs * x + sn * y; q(j, m) = cs * y - sn * x; } } return q; }
// determinant and solution by Gaussian elimination with full pivoting in extended precision
static ld det(M a) { size_t n = a.size(); ld d = 1; std::vector<size_t> c(n); for (size_t k = 0; k < n; k++) { size_t bi = k, bj = k; for (size_t i = k; i < n; i++) for (size_t j = k; j < n; j++) if (fabsl(a[i][j]) > fabsl(a[bi][bj])) { bi = i; bj = j; } if (a[bi][bj] == 0) return 0; if (bi != k) { std::swap(a[bi], a[k]); d = -d; } if (bj != k) { for (auto& x : a) std::swap(x[bj], x[k]); d = -d; } d *= a[k][k]; for (size_t i = k + 1; i < n; i++) { ld f = a[i][k] / a[k][k]; for (size_t j = k; j < n; j++) a[i][j] -= f * a[k][j]; } } return d; }
static ld hadamard(const DM& a) { ld p = 1; for (size_t i = 0; i < a.rows(); i++) { ld s = 0; for (size_t j = 0; j < a.cols(); j++) s += (ld)a(i, j) * a(i, j); p *= sqrtl(s); } return p; }
static ld resid(const DM& a, const DM& b) { ld w = 0; for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < b.cols(); j++) { ld z = i == j ? -1 : 0; for (size_t k = 0; k < a.cols(); k++) z += (ld)a(i, k) * b(k, j); w = std::max(w, fabsl(z)); } return w; }
static void square(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t n = r.range(1, 8); double lc = r.unit() * r.range(0, 6); std::vector<double> sv(n); for (size_t i = 0; i < n; i++) sv[i] = std::pow(10.0, -lc * (n > 1 ? (double)i / (n - 1) : 0)); if (r.chance(0.2) && n > 1) sv[1] = sv[0]; int kind = (int)r.range(0, 5); DM a(n, n);
   if (kind == 0) { a = DM(n, n, 0.0); std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; r.shuffle(p); for (size_t i = 0; i < n; i++) a(i, p[i]) = (double)r.range(1, 9) * (r.chance(0.5) ? 1 : -1); std::vector<double> t; for (size_t i = 0; i < n; i++) t.push_back(std::fabs(a(i, p[i]))); std::sort(t.rbegin(), t.rend()); sv = t; lc = std::log10(t[0] / t[n - 1]); }
   else { DM u = ortho(r, n), v = ortho(r, n), d(n, n, 0.0); double sc = std::fabs(r.logmag(1e-8, 1e8)); for (size_t i = 0; i < n; i++) { sv[i] *= sc; d(i, i) = sv[i]; } a = u * d * transpose(v); if (kind == 1 && n > 1) { double e = r.chance(0.5) ? 0 : sc * std::fabs(r.logmag(1e-20, 1e-9)); (void)e; a(0, 0) = e; M m = mod(a); SVD<double> s0; s0(a); s0.sort(); for (size_t i = 0; i < n; i++) sv[i] = s0.S(i); if (sv[n - 1] <= sv[0] * 1e-7) { a(0, 0) = sc; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) a(i, j) = i + j == n - 1 ? sc : 0; for (auto& z : sv) z = sc; lc = 0; } else lc = std::log10(sv[0] / sv[n - 1]); } }
   std::string ds = "kind " + std::to_string(kind) + " " + str(a); c.note(ds); c.distinct(ds); c.sample(ds); double cond = sv[0] / sv[n - 1]; ld tol = 1e-14L * n * n * cond + 1e-13L; ld hd = hadamard(a); ld dt = det(mod(a)); DV b = rndv(r, n);
   auto inv = [&](const char* key, const DM& x) { VF_CHECK(key, x.rows() == n && x.cols() == n && resid(a, x) <= tol * 3 && resid(x, a) <= tol * 3, ds << " residual " << (double)resid(a, x) << " " << (double)resid(x, a) << " cond " << cond << " inverse " << str(x)); };
   try { inv("s.inverse", inverse(a)); inv("s.inverseLUD", inverseLUD(a)); double dd = 0; inv("s.inverseLUD", inverseLUD(a, dd)); VF_CHECK("s.inversedet", cl(dd, dt, hd, 1e-13), ds << " det " << dd); if (cond < 1e7) { inv("s.inverseSVD", inverseSVD(a)); double bg, sm; inv("s.inverseSVD", inverseSVD(a, bg, sm)); VF_CHECK("s.svdends", cl(bg, sv[0], sv[0], 1e-12) && cl(sm, sv[n - 1], sv[0], 1e-12), ds << " big " << bg << " small " << sm); DV svv; inv("s.inverseSVD", inverseSVD(a, svv)); bool ok = svv.size() == n; for (size_t i = 0; i < n && ok; i++) ok = cl(svv(i), sv[i], sv[0], 1e-12); std::vector<double> t(sv); std::sort(t.rbegin(), t.rend()); if (!ok && svv.size() == n) { ok = true; for (size_t i = 0; i < n; i++) ok = ok && cl(svv(i), t[i], t[0], 1e-12); } VF_CHECK("s.svdvalues", ok, ds << " values " << strv(svv)); } } catch (Exception& e) { VF_CHECK("s.inversethrows", false, ds << " " << e.what()); }
   VF_CHECK("s.det", cl(det(a), dt, hd, 1e-13), ds << " det " << det(a) << " want " << (double)dt); if (n > 1) VF_CHECK("s.slowdet", cl(slowDet(a), dt, hd * n * n * n, 1e-13), ds << " slowDet " << slowDet(a) << " want " << (double)dt);
   { LUDecomp<double> L; L(a); DM l(n, n, 0.0), u(n, n, 0.0), pa(a); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (i == j) l(i, i) = 1; if (j < i) l(i, j) = L.LU(i, j); else u(i, j) = L.LU(i, j); } for (size_t i = 0; i < n; i++) pa.swapRows(i, L.Pivot(i)); DM z = l * u - pa; VF_CHECK("s.lu", maxabs(z) <= 1e-14 * n * n * maxabs(a), ds << " PA-LU " << maxabs(z)); bool par = (L.parity == 1 || L.parity == -1), le = true; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) le = le && std::isfinite(l(i, j)); VF_CHECK("s.luparity", par && le && cl(L.det(), dt, hd, 1e-13), ds << " det " << L.det()); DV x(b); L.backSub(x); DV y = a * x - b; ld nx = 0; for (size_t i = 0; i < n; i++) nx = std::max(nx, fabsl((ld)x(i))); ld am = maxabs(a); for (size_t i = 0; i < n; i++) VF_CHECK("s.lusolve", fabsl((ld)y(i)) <= 1e-13L * n * n * (am * nx + fabsl((ld)b(i))), ds << " b " << strv(b) << " x " << strv(x)); DV bad(n + 1, 1.0); VF_THROWS("s.lusolvesize", MatrixException, L.backSub(bad), ds); }
   // a symmetric positive definite matrix with the same singular vectors
   { DM q = ortho(r, n), d(n, n, 0.0); double sc = std::fabs(r.logmag(1e-6, 1e6)); double l2 = r.unit() * 6; for (size_t i = 0; i < n; i++) d(i, i) = sc * std::pow(10.0, -l2 * r.unit()); DM s = q * d * transpose(q); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) s(i, j) = s(j, i); std::string d2 = "spd " + str(s); ld cs = powl(10, l2);
      try { Cholesky<double> C; C(s); CholeskyCrout<double> R; R(s); ld sm = maxabs(s); VF_CHECK("s.chol", C.L.isLT() && C.U.isUT() && maxabs(C.L * transpose(C.L) - s) <= 1e-13 * n * sm && maxabs(C.U * transpose(C.U) - s) <= 1e-13 * n * sm, d2); VF_CHECK("s.crout", R.L.isLT() && maxabs(R.L * transpose(R.L) - s) <= 1e-13 * n * sm && maxabs(transpose(R.U) * R.U - s) <= 1e-13 * n * sm, d2); DV x(b); C.backSub(x); DV y = s * x - b; ld nx = 0; for (size_t i = 0; i < n; i++) nx = std::max(nx, fabsl((ld)x(i))); for (size_t i = 0; i < n; i++) VF_CHECK("s.cholsolve", fabsl((ld)y(i)) <= 1e-12L * n * n * (sm * nx + fabsl((ld)b(i))), d2 << " b " << strv(b) << " x " << strv(x)); DM I = inverseChol(s); ld tl = 1e-14L * n * n * cs * 10 + 1e-12L; VF_CHECK("s.inversechol", resid(s, I) <= tl && resid(I, s) <= tl, d2 << " residual " << (double)resid(s, I)); } catch (Exception& e) { VF_CHECK("s.cholthrows", false, d2 << " " << e.what()); }
      DM ng(s); size_t i = r.range(0, n - 1); ng(i, i) = -ng(i, i); Cholesky<double> C; CholeskyCrout<double> R; VF_THROWS("s.notpd", MatrixException, C(ng), d2 << " negative diagonal " << i); VF_THROWS("s.notpd", MatrixException, R(ng), d2 << " negative diagonal " << i); }
   // exactly singular: a zero row, or a repeated power-of-two multiple of a row
   { DM z(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) z(i, j) = (double)r.range(-4, 4); size_t i = r.range(0, n - 1); bool zr = n == 1 || r.chance(0.5); for (size_t j = 0; j < n; j++) if (zr) z(i, j) = 0; else z(j, i) = 0; std::string d3 = "singular " + str(z); LUDecomp<double> L; VF_THROWS("s.singular", SingularMatrixException, L(z), d3); VF_THROWS("s.singular", SingularMatrixException, inverse(z), d3); }
   DM rect(n, n + 1, 1.0); VF_THROWS("s.notsquare", MatrixException, inverse(rect), ds); VF_THROWS("s.notsquare", MatrixException, inverseLUD(rect), ds); VF_THROWS("s.notsquare", MatrixException, inverseSVD(rect), ds); LUDecomp<double> L; VF_THROWS("s.notsquare", MatrixException, L(rect), ds); Cholesky<double> C; VF_THROWS("s.notsquare", MatrixException, C(rect), ds); CholeskyCrout<double> R; VF_THROWS("s.notsquare", MatrixException, R(rect), ds);
}
static void rectangular(vf::Case& c)
{
   vf::Rng& r = c.rng; size_t m = r.range(1, 8), n = r.range(1, 8), k = std::min(m, n); DM u = ortho(r, m), v = ortho(r, n), d(m, n, 0.0); std::vector<double> sv(k); double sc = std::fabs(r.logmag(1e-6, 1e6)); size_t rank = r.chance(0.7) ? k : r.range(1, k); bool rep = r.chance(0.2); for (size_t i = 0; i < k; i++) { sv[i] = i < rank ? (rep ? sc : sc * std::pow(10.0, -5 * r.unit())) : 0; d(i, i) = sv[i]; } DM a = u * d * transpose(v); if (r.chance(0.15)) { a = DM(m, n, 0.0); for (size_t i = 0; i < k; i++) { sv[i] = (double)r.range(1, 5); a(i, i) = r.chance(0.5) ? sv[i] : -sv[i]; } rank = k; sc = 5; } std::sort(sv.rbegin(), sv.rend()); std::string ds = str(a); c.note(ds); c.distinct(ds); c.sample(ds); c.count(rank < k ? "rank deficient" : m == n ? "square" : "rectangular");
   SVD<double> s; try { s(a); } catch (Exception& e) { VF_CHECK("d.svdthrows", false, ds << " " << e.what()); return; }
   bool dim = s.U.rows() == m && s.U.cols() == m && s.V.rows() == n && s.V.cols() == n && s.S.size() == k; VF_CHECK("d.svdsize", dim, ds << " U " << s.U.rows() << "x" << s.U.cols() << " V " << s.V.rows() << "x" << s.V.cols() << " S " << s.S.size()); if (!dim) return;
   // columns that belong to a null singular value of a rectangular matrix are not promised (class documentation)
   auto orth = [&](const DM& q) { ld w = 0; auto in = [&](size_t i) { return m == n || rank == k || (i < k && s.S(i) > 1e-10 * sv[0]); }; for (size_t i = 0; i < q.cols(); i++) for (size_t j = 0; j < q.cols(); j++) if (in(i) && in(j)) { ld z = i == j ? -1 : 0; for (size_t t = 0; t < q.rows(); t++) z += (ld)q(t, i) * q(t, j); w = std::max(w, fabsl(z)); } return w; };
   auto good = [&](const char* key) { DM w(m, n, 0.0); bool pos = true; for (size_t i = 0; i < k; i++) { w(i, i) = s.S(i); pos = pos && s.S(i) >= 0; } DM z = s.U * w * transpose(s.V) - a; VF_CHECK(key, maxabs(z) <= 1e-13 * (m + n) * sv[0] && pos, ds << " U*S*VT-A " << maxabs(z) << " S " << strv(s.S)); VF_CHECK("d.svdortho", orth(s.U) < 1e-12L && orth(s.V) < 1e-12L, ds << " " << (double)resid(transpose(s.U), s.U) << " " << (double)resid(transpose(s.V), s.V)); }; good("d.svd");
   s.sort(true); bool ok = true; for (size_t i = 0; i < k; i++) ok = ok && cl(s.S(i), sv[i], sv[0], 1e-12) && (i == 0 || s.S(i) <= s.S(i - 1)); VF_CHECK("d.svdvalues", ok, ds << " values " << strv(s.S)); good("d.svdsorted"); { SVD<double> t(s); s.sort(false); ok = true; for (size_t i = 1; i < k; i++) ok = ok && s.S(i) >= s.S(i - 1); VF_CHECK("d.svdascending", ok, ds << " values " << strv(s.S)); good("d.svdsorted"); }
   if (m == n) { ld dt = det(mod(a)); VF_CHECK("d.svddet", cl(s.det(), dt, powl(sv[0], n), 1e-12), ds << " det " << s.det() << " want " << (double)dt); double bg = -1, sm = -1; double cn = condNum(a, bg, sm); VF_CHECK("d.cond", cl(bg, sv[0], sv[0], 1e-12) && cl(sm, sv[k - 1], sv[0], 1e-12) && (sm <= std::numeric_limits<double>::epsilon() ? cn == 0 : cn == bg / sm) && condNum(a) == cn, ds << " condition " << cn); }
   // least squares / minimum norm solution through the edited singular values
   { s.sort(true); for (size_t i = 0; i < k; i++) if (s.S(i) < 1e-9 * s.S(0)) s.S(i) = 0; DV b = rndv(r, m); DV x(b); if (m == n) { s.backSub(x); DV res = a * x - b, g = transpose(a) * res; ld nb = norm(b), nx = norm(x); for (size_t i = 0; i < n; i++) VF_CHECK("d.svdsolve", fabsl((ld)g(i)) <= 1e-11L * sv[0] * (nb + sv[0] * nx), ds << " b " << strv(b) << " x " << strv(x)); } DV bad(m + 1, 1.0); VF_THROWS("d.svdsolvesize", MatrixException, s.backSub(bad), ds); }
   // Householder triangularisation keeps the normal matrix
   { Householder<double> H; H(a); DM h = H.A; bool ut = true; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < std::min(i, n - 1); j++) ut = ut && h(i, j) == 0; VF_CHECK("d.house.ut", h.rows() == m && h.cols() == n && ut, ds << " " << str(h)); DM z = transpose(h) * h - transpose(a) * a; VF_CHECK("d.house", maxabs(z) <= 1e-13 * (m + n) * sv[0] * sv[0], ds << " " << str(h)); }
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"vectors", 6000, 200000, vectors}, {"matrices", 5000, 150000, matrices}, {"square", 3000, 100000, square}, {"rectangular", 4000, 120000, rectangular}}); }
