// C41: special functions and statistical distributions have the values of their definitions
#include "vf.hpp"
#include <cstdarg>
#include <limits>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/erf.hpp>
#include "SpecialFuncs.hpp"
#include "SpecialFunctions.hpp"
#include "GaussianDistribution.hpp"
#include "Chi2Distribution.hpp"
#include "StudentDistribution.hpp"
#include "Exception.hpp"
using namespace gpstk;
using std::string; using std::vector;
typedef long double ld;
namespace bm = boost::math;
typedef bm::policies::policy<bm::policies::overflow_error<bm::policies::ignore_error>, bm::policies::underflow_error<bm::policies::ignore_error>, bm::policies::domain_error<bm::policies::ignore_error>, bm::policies::pole_error<bm::policies::ignore_error>, bm::policies::evaluation_error<bm::policies::ignore_error>, bm::policies::promote_double<false> > Pol;
static const Pol POL;
static string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
// the library has two sets of functions of the same names
static double (*const gBeta)(const double&, const double&) = &gpstk::beta;
static double (*const gFact)(const int&) = &gpstk::factorial;
static double (*const mBeta)(double, double) = &gpstk::beta;
static double (*const mFactI)(int) = &gpstk::factorial;
static double (*const mFactD)(double) = &gpstk::factorial;
static double (*const mErf)(double) = &gpstk::erf;
static double (*const mErfc)(double) = &gpstk::erfc;
static double (*const mGamma)(double) = &gpstk::gamma;
static const ld PI_L = 3.14159265358979323846264338327950288L;
// oracle
static ld P(ld a, ld x) { return bm::gamma_p(a, x, POL); }
static ld Q(ld a, ld x) { return bm::gamma_q(a, x, POL); }
static ld I(ld a, ld b, ld x) { return bm::ibeta(a, b, x, POL); }
static ld J(ld a, ld b, ld x) { return bm::ibetac(a, b, x, POL); }
static ld lnB(ld a, ld b) { return lgammal(a) + lgammal(b) - lgammal(a + b); }
static ld phi(ld z) { return 0.5L * erfcl(-z / sqrtl(2)); }
static ld tcdf(ld t, ld n) { ld h = 0.5L * I(n / 2, 0.5L, n / (t * t + n)); return t >= 0 ? 1 - h : h; }
static ld tpdf(ld t, ld n) { return expl(-lnB(0.5L, n / 2) - (n + 1) / 2 * logl(1 + t * t / n)) / sqrtl(n); }
static ld chipdf(ld x, ld n) { ld h = n / 2; if (x == 0) return n == 2 ? 0.5L : n > 2 ? 0.0L : INFINITY; return expl(-x / 2 + (h - 1) * logl(x) - h * logl(2) - lgammal(h)); }
static ld fpdf(ld x, ld a, ld b) { if (x == 0) return a == 2 ? 1.0L : a > 2 ? 0.0L : INFINITY; return expl(-lnB(a / 2, b / 2) + a / 2 * logl(a / b) + (a / 2 - 1) * logl(x) - (a + b) / 2 * logl(1 + a * x / b)); }
static ld fcdf(ld f, ld a, ld b) { return J(b / 2, a / 2, b / (b + a * f)); }
// a value g for w: within a relative error, or an absolute one
static bool near(double g, ld w, ld rel, ld abs = 0) { if (std::isinf((double)w)) return std::isinf(g) || fabs(g) > 1e300; if (std::isnan(g)) return false; return fabsl((ld)g - w) <= rel * fabsl(w) + abs + 1e-300L; }
#define CLOSE(key, expr, want, rel, abs, desc) do { double g_ = NAN; ld w_ = (want); string e_; try { g_ = (expr); } catch (Exception& x_) { e_ = " threw " + x_.getText(0); } VF_CHECK(key, near(g_, w_, rel, abs), desc << " gave " << fmt("%.17g", g_) << e_ << " want " << fmt("%.20Lg", w_)); } while (0)
static double pos(vf::Rng& r) { double z = r.unit(); return z < 0.15 ? r.range(1, 40) / 2.0 : z < 0.6 ? r.unif(0.01, 10) : z < 0.9 ? r.unif(0.1, 100) : fabs(r.logmag(1e-3, 150)); }

// ---------------------------------------------------------------- Geomatics/SpecialFuncs
static void gfun(vf::Case& c)
{
   vf::Rng& r = c.rng;
   const ld T = 3e-9L;
   double x = r.chance(0.3) ? fabs(r.logmag(1e-8, 1e5)) : pos(r), y = pos(r);
   string what = fmt("%.17g %.17g", x, y);
   c.distinct(what); c.count("values");
   CLOSE("gfun.lngamma", lnGamma(x), lgammal(x), T, 1e-9L, what);
   if (x < 170) CLOSE("gfun.gamma", Gamma(x), tgammal(x), T, 0, what);
   CLOSE("gfun.beta", gBeta(x < 500 ? x : 500, y), expl(lnB(x < 500 ? x : 500, y)), T * 3, 0, what);
   int n = r.chance(0.5) ? r.range(0, 34) : r.range(0, 170), k = r.range(0, n);
   what = fmt("%d %d", n, k);
   CLOSE("gfun.factorial", gFact(n), tgammal(n + 1.0L), n <= 32 ? 1e-14L : T, 0, what);
   CLOSE("gfun.lnfactorial", lnFactorial(n), lgammal(n + 1.0L), T, 1e-9L, what);
   { ld w = floorl(0.5L + expl(lgammal(n + 1.0L) - lgammal(k + 1.0L) - lgammal(n - k + 1.0L))); CLOSE("gfun.binomial", binomialCoeff(n, k), w, n <= 32 ? 1e-13L : 3 * T, 0.5L * (w > 1e6L), what); if (n > 0 && k > 0 && n <= 30) { double a = binomialCoeff(n, k), b = binomialCoeff(n - 1, k - 1) + (k < n ? binomialCoeff(n - 1, k) : 0); VF_CHECK("gfun.pascal", near(a, b, 1e-13L), what); } }
   // incomplete gamma
   double a = r.chance(0.1) ? r.unif(0.01, 1) : pos(r), z = r.chance(0.05) ? 0.0 : r.chance(0.6) ? a * r.unif(0, 3) : pos(r);
   what = fmt("a %.17g x %.17g", a, z);
   CLOSE("gfun.p", incompGamma(a, z), P(a, z), 0, 1e-8L, what); CLOSE("gfun.q", compIncompGamma(a, z), Q(a, z), 0, 1e-8L, what);
   if (z < a + 1) CLOSE("gfun.series", seriesIncompGamma(a, z), P(a, z), 1e-8L, 1e-14L, what); else CLOSE("gfun.fraction", contfracIncompGamma(a, z), Q(a, z), 1e-8L, 1e-14L, what);
   // error function
   double e = r.chance(0.05) ? 0.0 : r.chance(0.5) ? r.unif(-3, 3) : r.logmag(1e-6, 20);
   what = fmt("%.17g", e);
   CLOSE("gfun.erf", errorFunc(e), erfl(e), 3e-9L, 0, what); CLOSE("gfun.erfc", compErrorFunc(e), erfcl(e), 0, 3e-9L, what);
   if (e > 0.8) CLOSE("gfun.erfc.tail", compErrorFunc(e), erfcl(e), 1e-8L, 0, what);
   // incomplete beta
   double u = pos(r), v = pos(r), q = r.chance(0.05) ? r.range(0, 1) : r.chance(0.5) ? r.unit() : std::min(1.0, std::max(0.0, u / (u + v) + r.unif(-0.1, 0.1)));
   what = fmt("x %.17g a %.17g b %.17g", q, u, v);
   CLOSE("gfun.ibeta", incompleteBeta(q, u, v), I(u, v, q), 0, 2e-8L, what);
   if (q > 0 && q < (u + 1) / (u + v + 2)) CLOSE("gfun.ibeta.tail", incompleteBeta(q, u, v), I(u, v, q), 1e-7L, 0, what);
   // refused
   double bad = r.chance(0.3) ? 0.0 : -fabs(r.logmag(1e-5, 100));
   what = fmt("%.17g", bad);
   VF_THROWS("gfun.refuse.lngamma", Exception, lnGamma(bad), what); VF_THROWS("gfun.refuse.gamma", Exception, Gamma(bad), what);
   VF_THROWS("gfun.refuse.beta", Exception, gBeta(bad, y), what); VF_THROWS("gfun.refuse.beta", Exception, gBeta(y, bad), what);
   VF_THROWS("gfun.refuse.p", Exception, incompGamma(bad, z), what); VF_THROWS("gfun.refuse.q", Exception, compIncompGamma(bad, z), what);
   if (bad < 0) { VF_THROWS("gfun.refuse.p.x", Exception, incompGamma(a, bad), what); VF_THROWS("gfun.refuse.q.x", Exception, compIncompGamma(a, bad), what); VF_THROWS("gfun.refuse.series", Exception, seriesIncompGamma(a, bad), what); VF_THROWS("gfun.refuse.fraction", Exception, contfracIncompGamma(a, bad), what); VF_THROWS("gfun.refuse.ibeta.x", Exception, incompleteBeta(bad, u, v), what); VF_THROWS("gfun.refuse.ibeta.x1", Exception, incompleteBeta(1 - bad, u, v), what); }
   VF_THROWS("gfun.refuse.ibeta.a", Exception, incompleteBeta(q, bad, v), what); VF_THROWS("gfun.refuse.ibeta.b", Exception, incompleteBeta(q, u, bad), what);
   int m = -int(r.range(1, 50));
   VF_THROWS("gfun.refuse.factorial", Exception, gFact(m), m); VF_THROWS("gfun.refuse.lnfactorial", Exception, lnFactorial(m), m);
   VF_THROWS("gfun.refuse.binomial", Exception, binomialCoeff(n, n + int(r.range(1, 9))), n); VF_THROWS("gfun.refuse.binomial", Exception, binomialCoeff(n, m), n << " " << m); VF_THROWS("gfun.refuse.binomial", Exception, binomialCoeff(m, m), m);
}
static void gdist(vf::Case& c)
{
   vf::Rng& r = c.rng;
   double mu = r.chance(0.3) ? 0 : r.unif(-50, 50), sg = r.chance(0.3) ? 1 : fabs(r.logmag(1e-2, 1e2)), x = mu + sg * (r.chance(0.1) ? 0 : r.unif(-7, 7));
   string what = fmt("x %.17g mu %.17g sigma %.17g", x, mu, sg);
   c.distinct(what); c.count("values");
   ld z = ((ld)x - mu) / sg;
   CLOSE("gdist.normal.shape", NormalPDF(x, mu, sg), expl(-z * z / 2), 1e-12L, 0, what);
   CLOSE("gdist.normal.cdf", NormalCDF(x, mu, sg), phi(z), 0, 3e-9L, what);
   int n = r.chance(0.5) ? r.range(1, 12) : r.chance(0.8) ? r.range(1, 200) : r.range(200, 900);
   double t = r.chance(0.05) ? 0 : r.chance(0.8) ? r.unif(-6, 6) : r.logmag(0.1, 100);
   what = fmt("t %.17g n %d", t, n);
   CLOSE("gdist.student.pdf", StudentsPDF(t, n), tpdf(t, n), 1e-8L, 0, what); CLOSE("gdist.student.cdf", StudentsCDF(t, n), tcdf(t, n), 0, 1e-8L, what);
   double s = r.chance(0.03) ? 0 : r.chance(0.7) ? n * r.unif(0.01, 2.5) : fabs(r.logmag(1e-3, 1500));
   what = fmt("x %.17g n %d", s, n);
   CLOSE("gdist.chisq.pdf", ChisqPDF(s, n), chipdf(s, n), 1e-8L, 0, what); CLOSE("gdist.chisq.cdf", ChisqCDF(s, n), P(n / 2.0L, s / 2.0L), 0, 1e-8L, what);
   int k = r.chance(0.6) ? r.range(1, 15) : r.range(1, 400);
   double f = r.chance(0.03) ? 0 : r.chance(0.8) ? r.unif(0.01, 5) : fabs(r.logmag(1e-3, 1e3));
   what = fmt("F %.17g n %d %d", f, n, k);
   CLOSE("gdist.f.pdf", FDistPDF(f, n, k), fpdf(f, n, k), 1e-7L, 0, what); CLOSE("gdist.f.cdf", FDistCDF(f, n, k), fcdf(f, n, k), 0, 3e-8L, what);
   // inverses: the statistic whose probability is the one given
   double p = r.chance(0.05) ? 0.5 : r.chance(0.8) ? r.unif(0.001, 0.999) : r.chance(0.5) ? fabs(r.logmag(1e-9, 1e-2)) : 1 - fabs(r.logmag(1e-9, 1e-2));
   n = r.chance(0.7) ? r.range(1, 30) : r.range(1, 150); k = r.range(1, 60);
   what = fmt("p %.17g mu %.17g sigma %.17g n %d %d", p, mu, sg, n, k);
   auto inv = [&](const char* key, double g, string e, ld back, ld more = 0) { VF_CHECK(key, e.empty() && fabsl(back - p) <= 2e-8L + more, what << " gave " << g << " of probability " << (double)back << " " << e); };
   double g = NAN; string e;
   try { g = invNormalCDF(p, mu, sg); } catch (Exception& q) { e = q.getText(0); } inv("gdist.normal.inverse", g, e, phi(((ld)g - mu) / sg)); e = "";
   try { g = invChisqCDF(p, n); } catch (Exception& q) { e = q.getText(0); } inv("gdist.chisq.inverse", g, e, P(n / 2.0L, g / 2.0L)); e = "";
   try { g = invStudentsCDF(p, n); } catch (Exception& q) { e = q.getText(0); } inv("gdist.student.inverse", g, e, tcdf(g, n), 3e-8L * sqrtl(n)); // its probability sees t*t/n beside one
   e = "";
   if (c.idx % 2 == 0) { try { g = invFDistCDF(p, n, k); } catch (Exception& q) { e = q.getText(0); } inv("gdist.f.inverse", g, e, fcdf(g, n, k)); }
   // the ends
   double tiny = r.chance(0.4) ? 0.0 : fabs(r.logmag(1e-15, 1e-12));
   CLOSE("gdist.chisq.inverse.zero", invChisqCDF(0, n), 0, 0, 0, n); CLOSE("gdist.f.inverse.zero", invFDistCDF(0, n, k), 0, 0, 0, n);
   VF_THROWS("gdist.normal.end", Exception, invNormalCDF(tiny, mu, sg), tiny); VF_THROWS("gdist.student.end", Exception, invStudentsCDF(tiny, n), tiny);
   VF_THROWS("gdist.normal.end", Exception, invNormalCDF(1 - tiny, mu, sg), tiny); VF_THROWS("gdist.student.end", Exception, invStudentsCDF(1 - tiny, n), tiny);
   VF_THROWS("gdist.chisq.end", Exception, invChisqCDF(1 - tiny, n), tiny); VF_THROWS("gdist.f.end", Exception, invFDistCDF(1 - tiny, n, k), tiny);
   // refused
   int m = -int(r.range(0, 5)); double bp = r.chance(0.5) ? -fabs(r.logmag(1e-3, 10)) : 1 + fabs(r.logmag(1e-3, 10)), neg = -fabs(r.logmag(1e-3, 10));
   VF_THROWS("gdist.refuse.sigma", Exception, NormalCDF(x, mu, m), m); VF_THROWS("gdist.refuse.sigma", Exception, invNormalCDF(0.3, mu, m), m); VF_THROWS("gdist.refuse.p", Exception, invNormalCDF(bp, mu, sg), bp);
   VF_THROWS("gdist.refuse.n", Exception, ChisqCDF(1, m), m); VF_THROWS("gdist.refuse.n", Exception, ChisqPDF(1, m), m); VF_THROWS("gdist.refuse.n", Exception, invChisqCDF(0.3, m), m); VF_THROWS("gdist.refuse.p", Exception, invChisqCDF(bp, n), bp);
   VF_THROWS("gdist.refuse.n", Exception, StudentsPDF(1, m), m); VF_THROWS("gdist.refuse.n", Exception, StudentsCDF(1, m), m); VF_THROWS("gdist.refuse.n", Exception, invStudentsCDF(0.3, m), m); VF_THROWS("gdist.refuse.p", Exception, invStudentsCDF(bp, n), bp);
   VF_THROWS("gdist.refuse.n", Exception, FDistCDF(1, m, k), m); VF_THROWS("gdist.refuse.n", Exception, FDistCDF(1, k, m), m); VF_THROWS("gdist.refuse.n", Exception, FDistPDF(1, m, k), m); VF_THROWS("gdist.refuse.n", Exception, FDistPDF(1, k, m), m); VF_THROWS("gdist.refuse.n", Exception, invFDistCDF(0.3, m, k), m); VF_THROWS("gdist.refuse.n", Exception, invFDistCDF(0.3, k, m), m); VF_THROWS("gdist.refuse.p", Exception, invFDistCDF(bp, n, k), bp);
   VF_THROWS("gdist.refuse.x", Exception, ChisqCDF(neg, n), neg); VF_THROWS("gdist.refuse.x", Exception, ChisqPDF(neg, n), neg); VF_THROWS("gdist.refuse.x", Exception, FDistCDF(neg, n, k), neg);
}
// ---------------------------------------------------------------- Math/SpecialFunctions
static void mfun(vf::Case& c)
{
   vf::Rng& r = c.rng;
   double x = r.chance(0.2) ? r.range(1, 170) : r.chance(0.2) ? fabs(r.logmag(1e-6, 1)) : r.unif(0.01, 171), y = pos(r);
   string what = fmt("%.17g %.17g", x, y);
   c.distinct(what); c.count("values");
   CLOSE("mfun.gamma", mGamma(x), tgammal(x), 1e-12L, 0, what);
   { double m = -r.unif(0, 20); if (fabs(m - rint(m)) > 1e-3) CLOSE("mfun.gamma.negative", mGamma(m), tgammal(m), 1e-9L, 0, m); VF_CHECK("mfun.gamma.pole", mGamma(-double(r.range(0, 30))) == 9e99, ""); }
   CLOSE("mfun.lngamma", lngamma(x), lgammal(x), 1e-13L, 1e-13L, what); { double b = r.unif(170, 1e6); CLOSE("mfun.lngamma.large", lngamma(b), lgammal(b), 1e-12L, 0, b); } VF_CHECK("mfun.lngamma.refuse", lngamma(r.chance(0.3) ? 0.0 : -r.unif(0, 50)) == 9e99, "");
   int n = r.range(0, 170);
   CLOSE("mfun.factorial", mFactI(n), tgammal(n + 1.0L), 1e-12L, 0, n); CLOSE("mfun.factorial.double", mFactD(n), tgammal(n + 1.0L), 1e-12L, 0, n); VF_CHECK("mfun.factorial.negative", mFactI(-int(r.range(1, 50))) == 0 && mFactD(-1.0) == 0, "");
   { double a = r.unif(0.05, 80), b = r.unif(0.05, 80); CLOSE("mfun.beta", mBeta(a, b), expl(lnB(a, b)), 1e-11L, 0, a << " " << b); a = pos(r); b = pos(r); CLOSE("mfun.lnbeta", lnbeta(a, b), lnB(a, b), 1e-12L, 1e-11L, a << " " << b); }
   double a = r.chance(0.1) ? r.unif(0.01, 1) : pos(r), z = r.chance(0.05) ? 0.0 : r.chance(0.6) ? a * r.unif(0, 3) : r.chance(0.9) ? pos(r) : r.unif(100, 3000);
   if (a > 160) a = 160;
   what = fmt("a %.17g x %.17g", a, z);
   CLOSE("mfun.p", gammaP(a, z), P(a, z), 0, 1e-11L, what); CLOSE("mfun.q", gammaQ(a, z), Q(a, z), 0, 1e-11L, what);
   CLOSE("mfun.lower", lower_gamma(a, z), P(a, z) * tgammal(a), 0, 1e-10L * tgammal(a), what); CLOSE("mfun.upper", upper_gamma(a, z), Q(a, z) * tgammal(a), 0, 1e-10L * tgammal(a), what);
   if (z < a) CLOSE("mfun.p.tail", gammaP(a, z), P(a, z), 1e-10L, 0, what);
   double e = r.chance(0.05) ? 0.0 : r.chance(0.6) ? r.unif(-7, 7) : r.logmag(1e-30, 40);
   what = fmt("%.17g", e);
   CLOSE("mfun.erf", mErf(e), erfl(e), 1e-14L, 0, what); CLOSE("mfun.erfc", mErfc(e), erfcl(e), 0, 1e-14L, what);
   VF_CHECK("mfun.erf.odd", mErf(-e) == -mErf(e), what); VF_CHECK("mfun.erf.end", mErf(INFINITY) == 1 && mErf(-INFINITY) == -1, "");
   double p = r.chance(0.5) ? r.unif(-1, 1) : (r.chance(0.5) ? 1 : -1) * (1 - fabs(r.logmag(1e-12, 0.1)));
   { double g = inverf(p); ld back = erfl(g); VF_CHECK("mfun.inverf", fabsl(back - p) <= 1e-14L + 1e-10L * expl(-(ld)g * g), fmt("%.17g", p) << " gave " << fmt("%.17g", g) << " whose erf is " << (double)back); VF_CHECK("mfun.inverf.end", inverf(1) == 9e99 && inverf(-1) == -9e99 && inverf(1.5) == 9e99 && inverf(-3) == -9e99, ""); }
   double u = r.chance(0.9) ? pos(r) : r.unif(50, 400), v = r.chance(0.9) ? pos(r) : r.unif(50, 400), q = r.chance(0.05) ? r.range(0, 1) : r.chance(0.5) ? r.unit() : std::min(1.0, std::max(0.0, u / (u + v) + r.unif(-0.1, 0.1)));
   what = fmt("x %.17g a %.17g b %.17g", q, u, v);
   CLOSE("mfun.ibeta", regIncompleteBeta(q, u, v), I(u, v, q), 0, 1e-10L, what);
   if (q < u / (u + v)) CLOSE("mfun.ibeta.tail", regIncompleteBeta(q, u, v), I(u, v, q), 1e-9L, 1e-90L, what);
   double bad = r.chance(0.3) ? 0.0 : -fabs(r.logmag(1e-5, 100)), out = r.chance(0.5) ? -fabs(r.logmag(1e-5, 10)) : 1 + fabs(r.logmag(1e-5, 10));
   VF_THROWS("mfun.refuse.a", InvalidParameter, regIncompleteBeta(q, bad, v), bad); VF_THROWS("mfun.refuse.b", InvalidParameter, regIncompleteBeta(q, u, bad), bad); VF_THROWS("mfun.refuse.x", InvalidParameter, regIncompleteBeta(out, u, v), out);
}
static void mdist(vf::Case& c)
{
   vf::Rng& r = c.rng;
   double mu = r.chance(0.3) ? 0 : r.unif(-50, 50), sg = r.chance(0.3) ? 1 : fabs(r.logmag(1e-2, 1e2));
   GaussianDistribution d = r.chance(0.5) ? GaussianDistribution(mu, sg) : GaussianDistribution();
   int how = r.range(0, 2);
   if (how == 0) d = GaussianDistribution(mu, sg); else if (how == 1) d.setParameters(mu, sg); else d.setMean(mu).setSigma(sg);
   if (r.chance(0.1)) { sg = 1; double z = -r.range(0, 3); if (r.chance(0.5)) d.setSigma(z); else if (r.chance(0.5)) d.setParameters(mu, z); else d = GaussianDistribution(mu, z); }
   double x = mu + sg * (r.chance(0.1) ? 0 : r.unif(-7, 7)); ld z = ((ld)x - mu) / sg;
   string what = fmt("x %.17g mu %.17g sigma %.17g", x, mu, sg);
   c.distinct(what); c.count("values");
   VF_CHECK("mdist.normal.parameters", d.getMean() == mu && d.getSigma() == sg, what << " are " << d.getMean() << " " << d.getSigma());
   CLOSE("mdist.normal.pdf", d.pdf(x), expl(-z * z / 2) / (sg * sqrtl(2 * PI_L)), 1e-12L, 0, what); CLOSE("mdist.normal.cdf", d.cdf(x), phi(z), 0, 1e-13L, what); CLOSE("mdist.normal.q", d.Q(x), phi(-z), 0, 1e-13L, what);
   double p = r.chance(0.7) ? r.unif(0.001, 0.999) : r.chance(0.5) ? fabs(r.logmag(1e-9, 1e-2)) : 1 - fabs(r.logmag(1e-9, 1e-2));
   { double g = d.invcdf(p); ld back = phi(((ld)g - mu) / sg); VF_CHECK("mdist.normal.inverse", fabsl(back - p) <= 1e-12L + 1e-14L * fabs(mu) / sg, what << " p " << p << " gave " << g << " of " << (double)back); }
   VF_CHECK("mdist.normal.ends", d.invcdf(0) == -9e99 && d.invcdf(1) == 9e99, ""); VF_THROWS("mdist.normal.refuse", InvalidParameter, d.invcdf(r.chance(0.5) ? -0.01 : 1.01), "");
   int n = r.chance(0.5) ? r.range(1, 12) : r.chance(0.8) ? r.range(1, 200) : r.range(200, 900), gv = r.chance(0.8) ? n : -n;
   Chi2Distribution h; StudentDistribution t;
   VF_CHECK("mdist.default", h.getNDF() == 2 && t.getNDF() == 1, "");
   double s = r.chance(0.03) ? 0 : r.chance(0.7) ? n * r.unif(0.01, 2.5) : r.chance(0.8) ? fabs(r.logmag(1e-3, 1500)) : -r.unif(0, 5), y = r.chance(0.05) ? 0 : r.chance(0.8) ? r.unif(-6, 6) : r.logmag(0.1, 100);
   int k = r.range(0, 2); ld wp, wc, wq;
   what = fmt("x %.17g n %d way %d", s, gv, k);
   if (k == 0) { h = Chi2Distribution(gv); t = StudentDistribution(gv); } else if (k == 1) { h.setNDF(gv); t.setNDF(gv); }
   if (s <= 0) wp = wc = 0, wq = 1; else wp = chipdf(s, n), wc = P(n / 2.0L, s / 2.0L), wq = Q(n / 2.0L, s / 2.0L);
   if (s != 0) CLOSE("mdist.chisq.pdf", (k == 2 ? h.pdf(s, gv) : h.pdf(s)), wp, 1e-11L, 0, what);
   if (k == 2) h.setNDF(5);
   CLOSE("mdist.chisq.cdf", (k == 2 ? h.cdf(s, gv) : h.cdf(s)), wc, 0, 1e-11L, what); if (k == 2) h.setNDF(5); CLOSE("mdist.chisq.q", (k == 2 ? h.Q(s, gv) : h.Q(s)), wq, 0, 1e-11L, what);
   what = fmt("t %.17g n %d way %d", y, gv, k);
   CLOSE("mdist.student.pdf", (k == 2 ? t.pdf(y, gv) : t.pdf(y)), tpdf(y, n), 1e-10L, 0, what); if (k == 2) t.setNDF(3);
   CLOSE("mdist.student.cdf", (k == 2 ? t.cdf(y, gv) : t.cdf(y)), tcdf(y, n), 0, 1e-11L, what); if (k == 2) t.setNDF(3); CLOSE("mdist.student.q", (k == 2 ? t.Q(y, gv) : t.Q(y)), tcdf(-y, n), 0, 1e-11L, what);
   VF_CHECK("mdist.ndf", h.getNDF() == n && t.getNDF() == n, gv); VF_THROWS("mdist.refuse.ndf", InvalidParameter, h.setNDF(0), ""); VF_THROWS("mdist.refuse.ndf", InvalidParameter, t.setNDF(0), "");
}
int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"gfun", 2500, 60000, gfun}, {"gdist", 600, 12000, gdist}, {"mfun", 2500, 60000, mfun}, {"mdist", 2000, 50000, mdist}});
}
