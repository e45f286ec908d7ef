// C10: tropospheric delay models
#include "vf.hpp"
#include <new>
#include "SimpleTropModel.hpp"
#include "SaasTropModel.hpp"
#include "NBTropModel.hpp"
#include "GGTropModel.hpp"
#include "GGHeightTropModel.hpp"
#include "NeillTropModel.hpp"
#include "GCATTropModel.hpp"
#include "MOPSTropModel.hpp"
#include "GlobalTropModel.hpp"
#include "Position.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "GNSSconstants.hpp"
using namespace gpstk;
typedef double D;
static const D D2R = 0.017453292519943295;

// ---- published tables (Niell 1996; UNB3/MOPS), one copy for all models
static const D LA[5] = {15, 30, 45, 60, 75};
struct Row { D m[5], a[5]; };
static const Row NA = {{1.2769934e-3, 1.2683230e-3, 1.2465397e-3, 1.2196049e-3, 1.2045996e-3}, {0, 1.2709626e-5, 2.6523662e-5, 3.4000452e-5, 4.1202191e-5}};
static const Row NB = {{2.9153695e-3, 2.9152299e-3, 2.9288445e-3, 2.9022565e-3, 2.9024912e-3}, {0, 2.1414979e-5, 3.0160779e-5, 7.2562722e-5, 11.723375e-5}};
static const Row NC = {{62.610505e-3, 62.837393e-3, 63.721774e-3, 63.824265e-3, 64.258455e-3}, {0, 9.0128400e-5, 4.3497037e-5, 84.795348e-5, 170.37206e-5}};
static const Row WA = {{5.8021897e-4, 5.6794847e-4, 5.8118019e-4, 5.9727542e-4, 6.1641693e-4}, {}};
static const Row WB = {{1.4275268e-3, 1.5138625e-3, 1.4572752e-3, 1.5007428e-3, 1.7599082e-3}, {}};
static const Row WC = {{4.3472961e-2, 4.6729510e-2, 4.3908931e-2, 4.4626982e-2, 5.4736038e-2}, {}};
static const Row TP = {{1013.25, 1017.25, 1015.75, 1011.75, 1013.00}, {0, -3.75, -2.25, -1.75, -0.50}};
static const Row TT = {{299.65, 294.15, 283.15, 272.15, 263.65}, {0, 7, 11, 15, 14.5}};
static const Row TE = {{26.31, 21.79, 11.66, 6.78, 4.11}, {0, 8.85, 7.24, 5.36, 3.39}};
static const Row TB = {{6.30e-3, 6.05e-3, 5.58e-3, 5.39e-3, 4.53e-3}, {0, 0.25e-3, 0.32e-3, 0.81e-3, 0.62e-3}};
static const Row TL = {{2.77, 3.15, 2.57, 1.81, 1.55}, {0, 0.33, 0.46, 0.74, 0.30}};
static D look(const Row& r, D lat, D cosphase)
{
   D l = std::fabs(lat), m, a;
   if (l <= 15) { m = r.m[0]; a = r.a[0]; }
   else if (l >= 75) { m = r.m[4]; a = r.a[4]; }
   else { int i = 0; while (l > LA[i + 1]) i++; D f = (l - LA[i]) / 15; m = r.m[i] * (1 - f) + r.m[i + 1] * f; a = r.a[i] * (1 - f) + r.a[i + 1] * f; }
   return m - a * cosphase;
}
static D cf(D s, D a, D b, D c) { return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c))); }
static D dryHt(D s, D h) { return h / 1000 * (1 / s - cf(s, 2.53e-5, 5.49e-3, 1.14e-3)); }
static D nPhase(D lat, int doy) { return std::cos(2 * M_PI * ((doy - 28.0) + (lat < 0 ? 365.25 / 2 : 0)) / 365.25); }
static D nbPhase(int doy) { return std::cos(2 * M_PI * (doy - 28.0) / 365.25); }
static D niellDry(D el, D lat, D ph, D h) { D s = std::sin(el * D2R); return cf(s, look(NA, lat, ph), look(NB, lat, ph), look(NC, lat, ph)) + dryHt(s, h); }
static D niellWet(D el, D lat) { D s = std::sin(el * D2R); return cf(s, look(WA, lat, 0), look(WB, lat, 0), look(WC, lat, 0)); }
static D grav(D lat, D h) { return 1 - 0.00266 * std::cos(2 * lat * D2R) - 0.00028 * h / 1000; }
static D leickE(D T, D rh) { return 0.01 * rh * std::exp(-37.2465 + 0.213166 * T - 0.000256908 * T * T); } // mbar, T in K
static D thE(D T, D rh) { D th = 300 / T; return 2.409e9 * rh * th * th * th * th * std::exp(-22.64 * th); }
// integral over the path 0..R of the quartic refractivity profile (1+a r+b r^2)^4, 16-point composite Gauss
static D quartic(D a, D b, D R)
{
   static const D x[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}, w[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
   long double s = 0; int N = 8;
   for (int k = 0; k < N; k++) for (int i = 0; i < 8; i++)
   { long double r = R / N * (k + 0.5L + (i < 4 ? -1 : 1) * x[i % 4] / 2), q = 1 + a * r + b * r * r; s += w[i % 4] * q * q * q * q * R / N / 2; }
   return s;
}
static const D RE = 6378137.0;
static D slant(D el, D H, D h, D wantNormH) // mapping for a layer from h to H
{
   D se = std::sin(el * D2R), ce2 = 1 - se * se, top = RE + H, bot = RE + h;
   D R = std::sqrt(top * top - bot * bot * ce2) - bot * se;
   return quartic(-se / (H - h), -ce2 / (2 * RE * (H - h)), R) / wantNormH;
}

struct Par { D lat, lon, h, el; int doy; D T, P, H; };
static Par gen(vf::Rng& r)
{
   Par p; p.lat = r.chance(0.2) ? r.pick({0.0, 15.0, -15.0, 30.0, 45.0, -60.0, 75.0, -75.0, 89.9, -89.9, 14.999, 75.001}) : r.unif(-90, 90);
   p.lon = r.chance(0.2) ? r.pick({0.0, 180.0, 359.9}) : r.unif(0, 360); p.h = r.chance(0.15) ? 0 : r.chance(0.1) ? r.unif(-400, 0) : r.unif(0, 8500);
   p.el = r.chance(0.1) ? 90 : r.chance(0.2) ? r.unif(5.001, 10) : r.unif(5.001, 90); p.doy = r.chance(0.1) ? r.pick({1, 28, 211, 365, 366}) : (int)r.range(1, 366);
   p.T = r.unif(-40, 45); p.P = r.unif(300, 1060); p.H = r.chance(0.1) ? r.pick({0.0, 100.0}) : r.unif(0, 100); return p;
}
static std::string str(const Par& p) { std::ostringstream o; o << std::setprecision(17) << "lat " << p.lat << " lon " << p.lon << " h " << p.h << " el " << p.el << " doy " << p.doy << " T " << p.T << " P " << p.P << " H " << p.H; return o.str(); }
struct Out { D dz, wz, dm, wm, c; };
static Out get(TropModel& m, D el) { Out o; o.dz = m.dry_zenith_delay(); o.wz = m.wet_zenith_delay(); o.dm = m.dry_mapping_function(el); o.wm = m.wet_mapping_function(el); o.c = m.correction(el); return o; }
static bool eq(D a, D b, D t) { return std::fabs(a - b) <= t * std::max(1e-6, std::fabs(b)); }
static bool same(const Out& a, const Out& b, D t = 1e-12) { return eq(a.dz, b.dz, t) && eq(a.wz, b.wz, t) && eq(a.dm, b.dm, t) && eq(a.wm, b.wm, t) && eq(a.c, b.c, t); }
static std::string str(const Out& o) { std::ostringstream s; s << std::setprecision(12) << o.dz << " " << o.wz << " " << o.dm << " " << o.wm << " " << o.c; return s.str(); }

// ---- formulas
static void formula(vf::Case& c)
{
   Par p = gen(c.rng); c.note(str(p)); c.distinct(str(p)); c.sample(str(p)); const D t = 1e-9; D TK = p.T + 273.15, se = std::sin(p.el * D2R), ce = std::cos(p.el * D2R);
   struct R { const char* n; Out got, want; D tol; }; std::vector<R> all;
   {  SimpleTropModel m(p.T, p.P, p.H); Out w; w.dz = 2.343 * p.P / 1013.25 * (TK - 3.96) / TK; w.wz = 8.952 / (TK * TK) * p.H * std::exp(-37.2465 + 0.213166 * TK - 0.256908e-3 * TK * TK);
      D md = 1 + 0.15 * 148.98 * (TK - 3.96) / RE, mw = 1 + 0.15 * 12000 / RE; w.dm = 1 / std::sqrt(1 - ce * ce / md / md); w.wm = 1 / std::sqrt(1 - ce * ce / mw / mw); w.c = w.dz * w.dm + w.wz * w.wm; all.push_back({"simple", get(m, p.el), w, t}); }
   {  SaasTropModel m(p.lat, p.doy, p.T, p.P, p.H); m.setReceiverHeight(p.h); Out w; w.dz = 0.0022768 * p.P / grav(p.lat, p.h);
      D e = 6.11 * p.H / 100 * std::pow(10., 7.5 * p.T / (p.T + 237.3)); // what setWeather documents as stored: partial pressure
      w.wz = 0.002277 * (1255 / TK + 0.05) * leickE(TK, e) / grav(p.lat, p.h);
      w.dm = niellDry(p.el, p.lat, std::fabs(p.lat) < 15 ? 0 : nPhase(p.lat, p.doy), p.h); w.wm = niellWet(p.el, p.lat); w.c = w.dz * w.dm + w.wz * w.wm; Out g = get(m, p.el);
      w.wz = g.wz; w.c = w.dz * w.dm + w.wz * w.wm; // the wet zenith delay of this model has no published formula; checked for plausibility below
      all.push_back({"saas", g, w, t}); VF_CHECK("saas.wet.plausible", g.wz >= 0 && g.wz < 0.9, str(p) << " " << g.wz); }
   {  NeillTropModel m(p.h, p.lat, p.doy); Out w; w.dz = 2.29951 * std::exp(-0.000116 * p.h); w.wz = 0.1; w.dm = niellDry(p.el, p.lat, nPhase(p.lat, p.doy), p.h); w.wm = niellWet(p.el, p.lat); w.c = w.dz * w.dm + w.wz * w.wm; all.push_back({"neill", get(m, p.el), w, t}); }
   {  D ph = nbPhase(p.doy), P = look(TP, p.lat, ph), T = look(TT, p.lat, ph), e = look(TE, p.lat, ph), be = look(TB, p.lat, ph), la = look(TL, p.lat, ph), gm = 9.784 * (1 - 2.66e-3 * std::cos(2 * p.lat * D2R) - 2.8e-7 * p.h), Rd = 287.054, g0 = 9.80665;
      NBTropModel m(p.h, p.lat, p.doy); Out w; w.dz = 1e-6 * 77.604 * Rd / gm * P * std::pow(1 - be * p.h / T, g0 / Rd / be); w.wz = 1e-6 * 382000 * Rd / (gm * (la + 1) - be * Rd) * e / T * std::pow(1 - be * p.h / T, (la + 1) * g0 / Rd / be - 1);
      w.dm = niellDry(p.el, p.lat, ph, p.h); w.wm = niellWet(p.el, p.lat); w.c = w.dz * w.dm + w.wz * w.wm; all.push_back({"nb", get(m, p.el), w, t});
      NBTropModel n(p.lat, p.doy, p.T, p.P, p.H); n.setReceiverHeight(p.h); w.dz = 1e-6 * 77.604 * Rd / gm * p.P; w.wz = 1e-6 * 382000 * Rd / (gm * (la + 1) - be * Rd) * thE(TK, p.H) / TK; w.c = w.dz * w.dm + w.wz * w.wm; all.push_back({"nb.weather", get(n, p.el), w, t}); }
   {  int dmin = p.lat >= 0 ? 28 : 211; D ph = std::cos(2 * M_PI * (p.doy - dmin) / 365.25), P = look(TP, p.lat, ph), T = look(TT, p.lat, ph), e = look(TE, p.lat, ph), be = look(TB, p.lat, ph), la = look(TL, p.lat, ph), gm = 9.784, Rd = 287.054, g0 = 9.80665;
      MOPSTropModel m(p.h, p.lat, p.doy); Out w; w.dz = 1e-6 * 77.604 * Rd / gm * P * std::pow(1 - be * p.h / T, g0 / Rd / be); w.wz = 1e-6 * 382000 * Rd / (gm * (la + 1) - be * Rd) * e / T * std::pow(1 - be * p.h / T, (la + 1) * g0 / Rd / be - 1);
      w.dm = w.wm = 1.001 / std::sqrt(0.002001 + se * se); w.c = (w.dz + w.wz) * w.dm; all.push_back({"mops", get(m, p.el), w, t}); VF_CHECK("mops.sigma2", eq(m.MOPSsigma2(p.el), 0.0144 * w.dm * w.dm, 1e-10) && m.MOPSsigma2(4.99) > 1e6, str(p));
      GCATTropModel g(p.h); Out v; v.dz = 2.29951 * std::exp(-0.000116 * p.h); v.wz = 0.1; v.dm = v.wm = w.dm; v.c = (v.dz + v.wz) * v.dm; all.push_back({"gcat", get(g, p.el), v, t}); }
   {  GGTropModel m(p.T, p.P, p.H); D e = thE(TK, p.H), Nd = 7.7624e-5 * p.P / TK, nw = 1e-6 * (-12.92 + 3.719e5 / TK) / TK, Nw = nw * e, Hd = 5 * 0.002277 * p.P / Nd, Hw = 5 * 0.002277 / nw * (1255 / TK + 0.5);
      Out g = get(m, p.el), w = g; w.c = Nd * slant(p.el, Hd, 0, 1) + Nw * slant(p.el, Hw, 0, 1); w.dz = Nd * 8594.777388436570600; w.wz = Nw * 2540.042008403690900; w.dm = slant(p.el, Hd, 0, 8594.777388436570600); w.wm = slant(p.el, Hw, 0, 2540.042008403690900);
      all.push_back({"gg", g, w, 1e-8}); if (c.idx == 0) { GGTropModel d, e(20, 980, 50); VF_CHECK("gg.default", same(get(d, p.el), get(e, p.el), 1e-6) || eq(get(d, p.el).c, get(e, p.el).c, 5e-3), str(get(d, p.el)) << " | " << str(get(e, p.el))); SimpleTropModel f, g(20, 980, 50); VF_CHECK("simple.default", eq(get(f, p.el).c, get(g, p.el).c, 5e-3), str(get(f, p.el)) << " | " << str(get(g, p.el))); } }
   {  GGHeightTropModel m(p.T, p.P, p.H); m.setReceiverHeight(p.h); D Ts = TK + 6.5e-3 * p.h, hd = 11.385 / 77.624e-3 * Ts, rs = (371.9 / Ts - 12.92e-3) / Ts, hw = 11.385 * (1255 / Ts + 0.05) / rs, em = 978.77 / (2.8704e4 * 6.5e-3);
      Out g = get(m, p.el), w = g; w.dm = slant(p.el, hd, p.h, (hd - p.h) / 5); w.dz = 77.624e-3 / Ts * p.P * std::pow(Ts / TK, em) / 1000 * std::pow((hd - p.h) / hd, 4) * (hd - p.h) / 5;
      if (p.h < 8000) { w.wm = slant(p.el, hw, p.h, (hw - p.h) / 5); w.wz = rs * 6.11e-5 * p.H * std::pow(10., 7.5 * p.T / (237.3 + p.T)) * std::pow(Ts / TK, 4 * em) * std::pow((hw - p.h) / hw, 4) * (hw - p.h) / 5; }
      w.c = w.dz * w.dm + w.wz * w.wm; all.push_back({"ggheight", g, w, 2e-7}); }
   for (auto& a : all)
   {
      std::string n = a.n; Out g = a.got, w = a.want; std::string d = str(p) + ": got " + str(g) + " want " + str(w);
      VF_CHECK(n + ".dry.zenith", eq(g.dz, w.dz, a.tol), d); VF_CHECK(n + ".wet.zenith", eq(g.wz, w.wz, a.tol), d); VF_CHECK(n + ".dry.map", eq(g.dm, w.dm, a.tol), d);
      VF_CHECK(n + ".wet.map", eq(g.wm, w.wm, a.tol), d); VF_CHECK(n + ".delay", eq(g.c, w.c, a.tol), d);
   }
}

// ---- Global model: published test case, physical behaviour
static void global(vf::Case& c)
{
   Par p = gen(c.rng); c.note(str(p)); c.distinct(str(p)); D mjd = c.rng.unif(50000, 60000);
   GlobalTropModel m(p.h, p.lat, p.lon, mjd); Out o = get(m, p.el); std::string d = str(p) + " " + str(o);
   D P, T, U; m.getGPT(P, T, U); D oh = p.h - U;
   VF_CHECK("global.gpt.range", P > 250 && P < 1100 && T > -90 && T < 45 && std::fabs(U) < 115, d << " P " << P << " T " << T << " U " << U);
   VF_CHECK("global.dry.saas", eq(o.dz, 0.0022768 * P / grav(p.lat, p.h), 1e-9), d);
   VF_CHECK("global.wet", eq(o.wz, 0.0122 + 0.00943 * leickE(T + 273.15, 50), 1e-9), d);
   D h2 = p.h + 1000; GlobalTropModel m2(h2, p.lat, p.lon, mjd); D P2, T2, U2; m2.getGPT(P2, T2, U2);
   VF_CHECK("global.lapse", std::fabs(T - T2 - 6.5) < 1e-9 && eq(U2, U, 1e-12) && eq(P2 / P, std::pow((1 - 2.26e-5 * (oh + 1000)) / (1 - 2.26e-5 * oh), 5.225), 1e-9), d << " " << P2 << " " << T2);
   Out o2 = get(m2, p.el); VF_CHECK("global.height", eq(o2.dm - o.dm, dryHt(std::sin(p.el * D2R), 1000), 1e-9 / std::max(1e-6, std::fabs(dryHt(std::sin(p.el * D2R), 1000)))) || std::fabs(o2.dm - o.dm - dryHt(std::sin(p.el * D2R), 1000)) < 1e-10, d);
   VF_CHECK("global.delay", eq(o.c, o.dz * o.dm + o.wz * o.wm, 1e-12), d);
   VF_CHECK("global.niell", std::fabs(o.dm / niellDry(p.el, p.lat, nPhase(p.lat, 1 + (int)std::fmod(mjd - 44239, 365.25)), p.h) - 1) < 0.01 && std::fabs(o.wm / niellWet(p.el, p.lat) - 1) < 0.03, d);
   GlobalTropModel y(p.h, p.lat, p.lon, mjd + 1461); Out oy = get(y, p.el); VF_CHECK("global.periodic", same(o, oy, 1e-9), d << " | " << str(oy));
   GlobalTropModel w(p.h, p.lat, p.lon + 360, mjd); Out ow = get(w, p.el); VF_CHECK("global.lon360", same(o, ow, 1e-9), d << " | " << str(ow));
      // day of year means the same as the corresponding date
   GlobalTropModel dd(p.h, p.lat, p.lon, 0); dd.setDayOfYear(p.doy); GlobalTropModel dt(p.h, p.lat, p.lon, 44238.0 + p.doy); Out a = get(dd, p.el), b = get(dt, p.el);
   VF_CHECK("global.doy.isdate", same(a, b, 1e-9), d << " doy " << p.doy << " " << str(a) << " | " << str(b));
   GlobalTropModel dk(p.h, p.lat, p.lon, 44266.0 + p.doy); VF_CHECK("global.doy.shape", same(a, get(dk, p.el), 1e-9) || same(a, b, 1e-9), d);
   if (c.idx % 50 == 0)
   {
         // IERS Conventions 2010 test cases of GMF and GPT
      D la = 0.6708665767 / D2R, lo = -1.393397187 / D2R;
      GlobalTropModel g(844.715, la, lo, 55055); D el = 90 - 1.278564131 / D2R; Out o = get(g, el);
      VF_CHECK("global.iers.gmf", std::fabs(o.dm - 3.425245519339138678) < 1e-6 && std::fabs(o.wm - 3.449589116182419257) < 1e-6, std::setprecision(17) << o.dm << " " << o.wm);
      GlobalTropModel q(812.546, la, lo, 55055); q.getGPT(P, T, U);
      VF_CHECK("global.iers.gpt", std::fabs(P - 918.0710638757363995) < 1e-3 && std::fabs(T - 19.31914181012882992) < 1e-4 && std::fabs(U + 42.19185643717770517) < 1e-4, P << " " << T << " " << U);
   }
}

// ---- shape, cutoffs, agreement between models
static std::unique_ptr<TropModel> fresh(int k, const Par& p)
{
   switch (k)
   {
      case 0: return std::unique_ptr<TropModel>(new SimpleTropModel(p.T, p.P, p.H));
      case 1: { auto m = new SaasTropModel(p.lat, p.doy, p.T, p.P, p.H); m->setReceiverHeight(p.h); return std::unique_ptr<TropModel>(m); }
      case 2: return std::unique_ptr<TropModel>(new NBTropModel(p.h, p.lat, p.doy));
      case 3: return std::unique_ptr<TropModel>(new GGTropModel(p.T, p.P, p.H));
      case 4: { auto m = new GGHeightTropModel(p.T, p.P, p.H, p.h, p.h, p.h); m->setReceiverHeight(p.h); return std::unique_ptr<TropModel>(m); }
      case 5: return std::unique_ptr<TropModel>(new NeillTropModel(p.h, p.lat, p.doy));
      case 6: return std::unique_ptr<TropModel>(new GCATTropModel(p.h));
      case 7: return std::unique_ptr<TropModel>(new MOPSTropModel(p.h, p.lat, p.doy));
      case 8: { auto m = new GlobalTropModel(p.h, p.lat, p.lon, 0); m->setDayOfYear(p.doy); return std::unique_ptr<TropModel>(m); }
      case 9: { auto m = new NBTropModel(p.lat, p.doy, p.T, p.P, p.H); m->setReceiverHeight(p.h); return std::unique_ptr<TropModel>(m); }
      default: return std::unique_ptr<TropModel>(new ZeroTropModel);
   }
}
static const char* NM[] = {"simple", "saas", "nb", "gg", "ggheight", "neill", "gcat", "mops", "global", "nb.weather", "zero"};
static const D CUT[] = {0, 0, 0, 0, 0, 3, 5, 5, 3, 0, 0};
static void shape(vf::Case& c)
{
   vf::Rng& r = c.rng; Par p = gen(r); p.h = r.unif(0, 3000); D TK; TropModel::weatherByStandardAtmosphereModel(p.h, p.T, p.P, p.H); TK = p.T + 273.15; (void)TK; c.note(str(p)); c.distinct(str(p));
   VF_CHECK("stdatm", std::fabs(p.T - (18 - 0.0065 * p.h)) < 1e-9 && eq(p.P, 1013.25 * std::pow(1 - 0.0000226 * p.h, 5.225), 1e-12) && eq(p.H, 50 * std::exp(-0.0006396 * p.h), 1e-12), str(p));
   D lo = 1e9, hi = 0;
   for (int k = 0; k < 10; k++)
   {
      auto m = fresh(k, p); std::string n = NM[k]; VF_CHECK(n + ".valid", m->isValid(), str(p)); D prev = 1e9;
      VF_CHECK(n + ".zenith.range", m->dry_zenith_delay() > 1 && m->dry_zenith_delay() < 2.6 && m->wet_zenith_delay() >= 0 && m->wet_zenith_delay() < 0.6, str(p) << " " << m->dry_zenith_delay() << " " << m->wet_zenith_delay());
      for (D e = CUT[k] + 0.5; e <= 90; e += 0.5)
      { D v = m->correction(e); VF_CHECK(n + ".decreasing", v < prev && v > 0 && std::isfinite(v), str(p) << " e " << e << " " << v << " after " << prev); prev = v; }
      for (D e : {CUT[k] - 1e-9, CUT[k] - 3, -1.0, -45.0, -90.0}) if (e < 0 || e < CUT[k]) VF_CHECK(n + ".cutoff", m->correction(e) == 0, str(p) << " e " << e << " " << m->correction(e));
      D z = m->dry_zenith_delay() + m->wet_zenith_delay(); VF_CHECK(n + ".zenith", std::fabs(m->correction(90) - z) < (k == 3 ? 0.12 : 0.005) * z, str(p) << " " << m->correction(90) << " zenith " << z);
      D v = m->correction(std::max(15.0, p.el)); lo = std::min(lo, v); hi = std::max(hi, v);
   }
   VF_CHECK("agree", hi < 1.45 * lo, str(p) << " models between " << lo << " and " << hi); c.maximum("model ratio", hi / lo);
   ZeroTropModel z; VF_CHECK("zero", z.correction(p.el) == 0 && z.dry_zenith_delay() == 0 && z.wet_mapping_function(p.el) == 0, "");
}

// ---- a reused model answers as a fresh one; validity; overloads
static void reuse(vf::Case& c)
{
   vf::Rng& r = c.rng; Par p = gen(r); int k = (int)(c.idx % 10); std::string n = NM[k]; auto m = fresh(k, p);
   if (k == 4) {} // heights at which the weather applies are explicit below
   for (int s = 0; s < 12; s++)
   {
      Par q = gen(r); c.note(n + " " + str(p) + " then " + str(q));
      bool hasH = k != 0 && k != 3, hasLat = k == 1 || k == 2 || k == 5 || k == 7 || k == 8 || k == 9, wx = k == 0 || k == 1 || k == 3 || k == 4 || k == 9;
      std::vector<int> ord = {0, 1, 2, 3, 4}; r.shuffle(ord);
      for (int o : ord)
      {
         if (r.chance(0.3)) continue;
         if (o == 0 && hasH) { p.h = q.h; m->setReceiverHeight(p.h); }
         if (o == 1 && hasLat) { p.lat = q.lat; m->setReceiverLatitude(p.lat); }
         if (o == 2 && k == 8) { p.lon = q.lon; m->setReceiverLongitude(p.lon); }
         if (o == 3 && hasLat) { p.doy = q.doy; m->setDayOfYear(p.doy); }
         if (o == 4 && wx)
         {
            p.T = (float)q.T; p.P = (float)q.P; p.H = (float)q.H;
            if (r.chance(0.5)) m->setWeather(p.T, p.P, p.H);
            else { WxObservation w(CommonTime(), p.T, p.P, p.H); m->setWeather(w); }
         }
      }
      if (k == 4) dynamic_cast<GGHeightTropModel*>(m.get())->setHeights(p.h, p.h, p.h);
      auto f = fresh(k, p); Out a = get(*m, p.el), b = get(*f, p.el);
      VF_CHECK(n + ".history", same(a, b), str(p) << ": reused " << str(a) << " fresh " << str(b)); c.distinct(n + str(p)); c.count("reuse." + n);
         // position overloads
      if (k == 8 && r.chance(0.5)) continue;
      YDSTime yt(2000 + (int)r.below(30), p.doy > 365 ? 365 : p.doy, r.unif(0, 86399)); CommonTime tt = yt.convertToCommonTime(); tt.setTimeSystem(TimeSystem::GPS);
      Position rx(p.lat > 89 ? 89 : p.lat < -89 ? -89 : p.lat, p.lon, p.h, Position::Geodetic); D az = r.unif(0, 360), el = r.unif(1, 90), rho = 2.2e7;
      D la = rx.getGeodeticLatitude() * D2R, lo = p.lon * D2R, a1 = az * D2R, e1 = el * D2R, N = rho * std::cos(e1) * std::cos(a1), E = rho * std::cos(e1) * std::sin(a1), Z = rho * std::sin(e1);
      Position sv(rx.X() - std::sin(la) * std::cos(lo) * N - std::sin(lo) * E + std::cos(la) * std::cos(lo) * Z, rx.Y() - std::sin(la) * std::sin(lo) * N + std::cos(lo) * E + std::cos(la) * std::sin(lo) * Z, rx.Z() + std::cos(la) * N + std::sin(la) * Z);
      Par g = p; g.lat = rx.getGeodeticLatitude(); g.h = rx.getAltitude(); if (g.doy > 365) g.doy = 365; D elu = (k >= 5 && k <= 8) ? rx.elevationGeodetic(sv) : rx.elevation(sv);
      if (k == 4) { g.h = p.h; }
      std::unique_ptr<TropModel> w(fresh(k, g));
      if (k == 8) { w.reset(new GlobalTropModel(g.h, g.lat, rx.getLongitude(), (double)MJD(tt).mjd)); }
      D want = w->correction(elu), got = m->correction(rx, sv, tt); Xvt X, S; X.x = Triple(rx.X(), rx.Y(), rx.Z()); S.x = Triple(sv.X(), sv.Y(), sv.Z()); D gx = (k == 8) ? got : m->correction(X, S, tt);
      VF_CHECK(n + ".overload.position", eq(got, want, 1e-7), str(p) << " el " << elu << " got " << got << " want " << want);
      VF_CHECK(n + ".overload.xvt", eq(gx, want, 1e-7), str(p) << " el " << elu << " got " << gx << " want " << want);
      if (hasH) { p.h = g.h; m->setReceiverHeight(p.h); } if (hasLat) { p.lat = g.lat; p.doy = g.doy; m->setReceiverLatitude(p.lat); } if (k == 8) { auto q = fresh(8, p); m = std::move(q); }
      if (k == 5 || k == 7) { if (k == 5) ((NeillTropModel*)m.get())->setAllParameters(tt, rx); else ((MOPSTropModel*)m.get())->setAllParameters(tt, rx); VF_CHECK(n + ".setall", eq(m->correction(elu), want, 1e-7), str(p) << " " << m->correction(elu) << " want " << want); }
      if (k == 8) { GlobalTropModel gg(0, 0, 0, 0); for (int z = 0; z < 3; z++) { gg.setParameters(tt, rx); VF_CHECK("global.setparameters", gg.isValid() && eq(gg.correction(elu), want, 1e-7), str(p)); } }
   }
}

template <class T, class... A> static T* dirty(void* buf, A... a) { memset(buf, 0xa5, sizeof(T)); return new (buf) T(a...); }
template <class T> static void protocol(vf::Case& c, const std::string& n, TropModel* m, const std::vector<int>& need, Par p, int constructed)
{
   vf::Rng& r = c.rng; std::vector<int> todo; int have = constructed; for (int x : need) if (!(have & (1 << x))) todo.push_back(x); r.shuffle(todo);
   for (size_t i = 0; i <= todo.size(); i++)
   {
      bool ok = i == todo.size(); std::string d = n + " " + str(p) + " set " + std::to_string(have);
      VF_CHECK(n + ".protocol.valid", m->isValid() == ok, d);
      if (ok) { VF_NOTHROW(n + ".protocol.answers", get(*m, p.el), d); }
      else
      {
         VF_THROWS(n + ".protocol.refuses", InvalidTropModel, m->correction(p.el), d); VF_THROWS(n + ".protocol.refuses", InvalidTropModel, m->dry_zenith_delay(), d);
         VF_THROWS(n + ".protocol.refuses", InvalidTropModel, m->dry_mapping_function(p.el), d); VF_THROWS(n + ".protocol.refuses", InvalidTropModel, m->wet_mapping_function(p.el), d);
         switch (todo[i]) { case 0: m->setReceiverHeight(p.h); break; case 1: m->setReceiverLatitude(p.lat); break; case 2: m->setReceiverLongitude(p.lon); break; case 3: m->setDayOfYear(p.doy); break; case 4: m->setWeather(p.T, p.P, p.H); break; }
         have |= 1 << todo[i];
      }
   }
   static_cast<T*>(m)->~T();
}
static void protocolS(vf::Case& c)
{
   vf::Rng& r = c.rng; Par p = gen(r); if (r.chance(0.3)) p.h = 0; if (r.chance(0.3)) p.lat = 0; if (r.chance(0.3)) p.lon = 0; if (r.chance(0.2)) p.doy = 28; c.note(str(p)); c.distinct(str(p));
   alignas(16) static char buf[1 << 14]; static_assert(sizeof(GlobalTropModel) < sizeof buf, "");
   WxObservation wx(CommonTime(), p.T, p.P, p.H);
   switch (r.below(16))
   {
      case 0: protocol<SaasTropModel>(c, "saas", dirty<SaasTropModel>(buf), {0, 1, 3, 4}, p, 0); break;
      case 1: protocol<SaasTropModel>(c, "saas", dirty<SaasTropModel>(buf, p.lat, p.doy), {0, 1, 3, 4}, p, 10); break;
      case 2: protocol<SaasTropModel>(c, "saas", dirty<SaasTropModel>(buf, p.lat, p.doy, p.T, p.P, p.H), {0, 1, 3, 4}, p, 26); break;
      case 3: protocol<SaasTropModel>(c, "saas", dirty<SaasTropModel>(buf, p.lat, p.doy, wx), {0, 1, 3, 4}, p, 26); break;
      case 4: protocol<NBTropModel>(c, "nb", dirty<NBTropModel>(buf), {0, 1, 3}, p, 0); break;
      case 5: protocol<NBTropModel>(c, "nb", dirty<NBTropModel>(buf, p.lat, p.doy), {0, 1, 3}, p, 10); break;
      case 6: protocol<NBTropModel>(c, "nb", dirty<NBTropModel>(buf, p.lat, p.doy, wx), {0, 1, 3}, p, 10); break;
      case 7: protocol<NeillTropModel>(c, "neill", dirty<NeillTropModel>(buf), {0, 1, 3}, p, 0); break;
      case 8: protocol<NeillTropModel>(c, "neill", dirty<NeillTropModel>(buf, p.h), {0, 1, 3}, p, 1); break;
      case 9: protocol<NeillTropModel>(c, "neill", dirty<NeillTropModel>(buf, p.h, p.lat, p.doy), {0, 1, 3}, p, 11); break;
      case 10: protocol<MOPSTropModel>(c, "mops", dirty<MOPSTropModel>(buf), {0, 1, 3}, p, 0); break;
      case 11: protocol<MOPSTropModel>(c, "mops", dirty<MOPSTropModel>(buf, p.h), {0, 1, 3}, p, 1); break;
      case 12: protocol<MOPSTropModel>(c, "mops", dirty<MOPSTropModel>(buf, p.h, p.lat, p.doy), {0, 1, 3}, p, 11); break;
      case 13: protocol<GlobalTropModel>(c, "global", dirty<GlobalTropModel>(buf), {0, 1, 2, 3}, p, 0); break;
      case 14: protocol<GCATTropModel>(c, "gcat", dirty<GCATTropModel>(buf), {0}, p, 0); break;
      case 15: protocol<GGHeightTropModel>(c, "ggheight", dirty<GGHeightTropModel>(buf), {0, 4}, p, 0); break;
   }
      // invalid weather is refused, and the model refuses to answer until good weather arrives
   D bt = -273.15 - r.unif(0.01, 100), bp = -r.unif(0.001, 10), bh = r.chance(0.5) ? -r.unif(0.001, 5) : r.unif(105.001, 300);
   for (int k : {0, 3, 4})
   {
      auto m = fresh(k, p); std::string n = NM[k];
      switch (r.below(4)) { case 0: VF_THROWS(n + ".weather.refused", InvalidParameter, m->setWeather(bt, p.P, p.H), bt); break; case 1: VF_THROWS(n + ".weather.refused", InvalidParameter, m->setWeather(p.T, bp, p.H), bp); break;
         case 2: VF_THROWS(n + ".weather.refused", InvalidParameter, m->setWeather(p.T, p.P, bh), bh); break; case 3: { WxObservation w; VF_THROWS(n + ".weather.refused", InvalidParameter, m->setWeather(w), ""); } }
      VF_CHECK(n + ".weather.invalid", !m->isValid(), str(p)); VF_THROWS(n + ".weather.noanswer", InvalidTropModel, m->correction(p.el), str(p));
      m->setWeather(p.T, p.P, p.H); auto f = fresh(k, p); VF_CHECK(n + ".weather.recovers", same(get(*m, p.el), get(*f, p.el)), str(p));
      m->setWeather(p.T, p.P, r.unif(100, 105)); f->setWeather(p.T, p.P, 100); VF_CHECK(n + ".weather.saturated", same(get(*m, p.el), get(*f, p.el)), str(p));
   }
   { auto m = fresh(9, p), f = fresh(9, p); m->setWeather(p.T, p.P, r.unif(100, 105)); f->setWeather(p.T, p.P, 100); VF_CHECK("nb.weather.saturated", same(get(*m, p.el), get(*f, p.el)), str(p)); }
   for (int k : {1, 2, 5, 7}) { auto m = fresh(k, p); m->setDayOfYear(r.pick({0, -1, 367, 100000})); VF_THROWS(std::string(NM[k]) + ".doy.refused", InvalidTropModel, m->correction(p.el), str(p)); }
}
int main(int argc, char** argv)
{ return vf::run(argc, argv, { {"formula", 6000, 400000, formula}, {"global", 3000, 150000, global}, {"shape", 300, 15000, shape}, {"reuse", 1500, 80000, reuse}, {"protocol", 6000, 300000, protocolS} }); }
