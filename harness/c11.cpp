// C11: broadcast (Klobuchar) ionospheric delay and its time-indexed store.
#include "geomodel.hpp"
#include "timemodel.hpp"
#include "IonoModel.hpp"
#include "IonoModelStore.hpp"
#include "EngAlmanac.hpp"
#include "EngNav.hpp"
#include "YDSTime.hpp"
using namespace gpstk;
using namespace tm_;
typedef long double ld;

struct K { double a[4], b[4]; };
static K genK(vf::Rng& r)
{
   K k;
   if (r.chance(0.5))      // broadcast-like
   {
      const int pa[4] = {-30, -27, -24, -24}, pb[4] = {11, 14, 16, 16};
      for (int i = 0; i < 4; i++) { k.a[i] = std::ldexp((double)r.range(-128, 127), pa[i]); k.b[i] = std::ldexp((double)r.range(-128, 127), pb[i]); }
   }
   else for (int i = 0; i < 4; i++) { k.a[i] = r.unif(-1, 1) * 1e-7; k.b[i] = r.unif(-1, 1) * 2e5; }
   if (r.chance(0.1)) { k.b[0] = r.unif(72000, 300000); k.b[1] = k.b[2] = k.b[3] = 0; }
   return k;
}

   // IS-GPS-200 20.3.3.5.2.5; near: the result is at a discontinuity of the formula
static ld klob(const K& k, ld sod, ld lat, ld lon, ld el, ld az, bool& near)
{
   const ld PIl = geo_::PIL;
   ld E = el / 180, psi = 0.0137L / (E + 0.11L) - 0.022L;
   ld phi = lat / 180 + psi * cosl(az * PIl / 180);
   if (phi > 0.416L) phi = 0.416L; if (phi < -0.416L) phi = -0.416L;
   ld lam = lon / 180 + psi * sinl(az * PIl / 180) / cosl(phi * PIl);
   ld pm = phi + 0.064L * cosl((lam - 1.617L) * PIl);
   ld t = fmodl(43200 * lam + sod, 86400); if (t < 0) t += 86400;
   ld per = 0, amp = 0, p = 1;
   for (int i = 0; i < 4; i++) { per += k.b[i] * p; amp += k.a[i] * p; p *= pm; }
   if (per < 72000) per = 72000; if (amp < 0) amp = 0;
   ld x = 2 * PIl * (t - 50400) / per, F = 1 + 16 * powl(0.53L - E, 3);
   near = fabsl(fabsl(x) - 1.57L) < 1e-7L || t < 1e-4L || t > 86400 - 1e-4L;
   return F * (fabsl(x) < 1.57L ? 5e-9L + amp * (1 - x*x/2 + x*x*x*x/24) : 5e-9L) * 299792458.0L;
}

static Position rx(vf::Rng& r, double& lat, double& lon)
{
   lat = r.chance(0.1) ? r.pick({0.0, 45.0, -45.0, 74.88, -74.88}) : r.unif(-89, 89);
   lon = r.chance(0.1) ? r.pick({0.0, 90.0, 180.0, 270.0, 359.999}) : r.unif(0, 360);
   double h = r.unif(-500, 9000);
   Position p(lat, lon, h, Position::Geodetic);
   if (r.chance(0.5)) p.transformTo(Position::Cartesian);
   return p;
}
static CommonTime when(vf::Rng& r, double& sod)
{
   long day = J_GPS + r.range(0, 20000);
   long ms = r.chance(0.2) ? r.pick({0L, 50400000L, 86399999L, 43200000L}) : r.range(0, 86399999);
   CommonTime t; t.setInternal(day, ms, 0, TimeSystem::GPS); sod = ms / 1000.0; return t;
}

static void formula(vf::Case& c)
{
   vf::Rng& r = c.rng; K k = genK(r); double lat, lon, sod;
   Position p = rx(r, lat, lon); CommonTime t = when(r, sod);
   double el = r.chance(0.1) ? r.pick({0.0, 90.0, 5.0}) : r.unif(0, 90), az = r.chance(0.1) ? r.pick({0.0, 90.0, 180.0, 270.0, 360.0}) : r.unif(0, 360);
   std::ostringstream d; d << std::setprecision(17) << "alpha " << k.a[0] << " " << k.a[1] << " " << k.a[2] << " " << k.a[3] << " beta " << k.b[0] << " " << k.b[1] << " " << k.b[2] << " " << k.b[3] << " lat " << lat << " lon " << lon << " el " << el << " az " << az << " sod " << sod;
   c.note(d.str()); c.distinct(d.str()); if (r.chance(0.001)) c.sample(d.str());
   bool near; ld w = klob(k, sod, lat, lon, el, az, near);
   double aR[4], bR[4]; for (int i = 0; i < 4; i++) { aR[i] = k.a[i] / powl(geo_::PIL, i); bR[i] = k.b[i] / powl(geo_::PIL, i); }
   IonoModel m(k.a, k.b), mr(aR, bR, false), ms; 
   VF_CHECK("valid.none", !ms.isValid(), "");
   VF_THROWS("refuse.unset", IonoModel::InvalidIonoModel, ms.getCorrection(t, p, el, az), "");
   ms.setModel(r.chance(0.5) ? bR : aR, aR, r.chance(0.5)); 
   bool semi = r.chance(0.5); if (semi) ms.setModel(k.a, k.b); else ms.setModel(aR, bR, false);
   VF_CHECK("valid.set", m.isValid() && mr.isValid() && ms.isValid(), "");
   if (near) return;
   double g1 = m.getCorrection(t, p, el, az);
   c.maximum("iono_error_m", std::fabs(g1 - (double)w));
   double tol = 1e-7 + 1e-7 * std::fabs((double)w);
   VF_CHECK("l1", std::fabs(g1 - (double)w) < tol, d.str() << " gave " << g1 << " m, expected " << (double)w);
   VF_CHECK("radians", std::fabs(mr.getCorrection(t, p, el, az) - (double)w) < tol, d.str() << " radian coefficients gave " << mr.getCorrection(t, p, el, az) << " expected " << (double)w);
   VF_CHECK("reset", std::fabs(ms.getCorrection(t, p, el, az) - (double)w) < tol, d.str() << " reset model gave " << ms.getCorrection(t, p, el, az) << " expected " << (double)w);
   ld g12 = (77.0L/60)*(77.0L/60), g15 = (154.0L/115)*(154.0L/115);
   double g2 = m.getCorrection(t, p, el, az, CarrierBand::L2), g5 = m.getCorrection(t, p, el, az, CarrierBand::L5);
   VF_CHECK("l2", std::fabs(g2 - (double)(w * g12)) < 2 * tol, d.str() << " L2 gave " << g2 << " expected " << (double)(w*g12));
   VF_CHECK("l5", std::fabs(g5 - (double)(w * g15)) < 2 * tol, d.str() << " L5 gave " << g5 << " expected " << (double)(w*g15));
   VF_THROWS("refuse.band", IonoModel::InvalidIonoModel, m.getCorrection(t, p, el, az, r.pick({CarrierBand::G1, CarrierBand::E6, CarrierBand::L1L2, CarrierBand::Unknown, CarrierBand::B1})), "");
   VF_CHECK("positive", g1 > 0 && g1 == g1, d.str() << " gave " << g1);
   if (el < 89.9) VF_CHECK("local", std::fabs(m.getCorrection(t + 86400.0, p, el, az) - g1) < 1e-6, d.str() << " next day");
   IonoModel m2(k.a, k.b); K k2 = k; int i = (int)r.below(4); (r.chance(0.5) ? k2.a : k2.b)[i] += 1e-9; IonoModel m3(k2.a, k2.b);
   VF_CHECK("equal", m == m2 && !(m != m2) && m != m3 && !(m == m3), d.str() << " changed coefficient " << i);
}

static void almanac(vf::Case& c)     // model taken from a broadcast subframe 4 page 18
{
   vf::Rng& r = c.rng; int q[8]; K k;
   for (int i = 0; i < 8; i++) q[i] = (int)r.range(-128, 127);
   const int pa[4] = {-30, -27, -24, -24}, pb[4] = {11, 14, 16, 16};
   for (int i = 0; i < 4; i++) { k.a[i] = std::ldexp((double)q[i], pa[i]); k.b[i] = std::ldexp((double)q[4+i], pb[i]); }
   uint32_t sf[10]; memset(sf, 0, sizeof sf);
   auto put = [&](int bit, int n, uint32_t v) { for (int i = 0; i < n; i++) { int b = bit - 1 + i; if ((v >> (n - 1 - i)) & 1) sf[b / 30] |= 1u << (29 - b % 30); } };
   put(1, 8, 0x8b); put(31, 17, (uint32_t)r.range(0, 100799)); put(50, 3, 4); put(61, 2, 1); put(63, 6, 56);
   const int st[8] = {69, 77, 91, 99, 107, 121, 129, 137};
   for (int i = 0; i < 8; i++) put(st[i], 8, (uint32_t)q[i] & 0xff);
   EngAlmanac e; VF_CHECK("alm.none", !IonoModel(e).isValid(), "");
   VF_NOTHROW("alm.add", e.addSubframe(sf, 1000), "");
   IonoModel m(e), w(k.a, k.b);
   VF_CHECK("alm.valid", m.isValid(), "");
   double lat, lon, sod; Position p = rx(r, lat, lon); CommonTime t = when(r, sod);
   double el = r.unif(0, 90), az = r.unif(0, 360); bool near; ld x = klob(k, sod, lat, lon, el, az, near);
   c.distinct(vf::hashStr(std::string((char*)q, sizeof q)));
   if (!near) VF_CHECK("alm.delay", std::fabs(m.getCorrection(t, p, el, az) - (double)x) < 1e-6 + 1e-7 * (double)x, "broadcast words " << q[0] << " " << q[1] << " " << q[2] << " " << q[3] << " " << q[4] << " " << q[5] << " " << q[6] << " " << q[7] << " gave " << m.getCorrection(t, p, el, az) << " expected " << (double)x);
}

static void store(vf::Case& c)
{
   vf::Rng& r = c.rng; IonoModelStore s; std::map<long, int> ref; std::vector<K> ks;
   for (int i = 0; i < 4; i++) { K k; for (int j = 0; j < 4; j++) { k.a[j] = j ? 0 : 1e-8 * (i + 1); k.b[j] = j ? 0 : 100000 + 1000 * i; } ks.push_back(k); }
   long base = J_GPS + 5000; std::ostringstream log;
   auto T = [&](long h) { CommonTime t; t.setInternal(base + h / 24, (h % 24) * 3600000L, 0, TimeSystem::GPS); return t; };
   Position p(30, 40, 100, Position::Geodetic);
   int n = (int)r.range(1, 20);
   for (int i = 0; i < n; i++)
   {
      int op = (int)r.below(10);
      if (op < 5)
      {
         long h = r.range(0, 40); int k = (int)r.below(4); log << " add@" << h << "=" << k;
         auto it = ref.upper_bound(h); bool want = it == ref.begin() || (--it)->second != k;
         bool got = s.addIonoModel(T(h), IonoModel(ks[k].a, ks[k].b));
         VF_CHECK("store.add", got == want, log.str() << " returned " << got);
         if (want) ref[h] = k;
      }
      else if (op == 5) { log << " addInvalid"; VF_CHECK("store.addinvalid", !s.addIonoModel(T(r.range(0, 40)), IonoModel()), log.str()); }
      else if (op == 6)
      {
         long a = r.range(0, 40), b = r.range(a, 41); log << " edit[" << a << "," << b << "]"; s.edit(T(a), T(b));
         for (auto it = ref.begin(); it != ref.end();) if (it->first < a || it->first > b) ref.erase(it++); else ++it;
      }
      long h = r.range(0, 41); c.distinct(log.str());
      auto it = ref.upper_bound(h); c.note(log.str());
      if (it == ref.begin()) VF_THROWS("store.none", IonoModelStore::NoIonoModelFound, s.getCorrection(T(h), p, 40, 100), log.str() << " at " << h);
      else
      {
         --it; double w = IonoModel(ks[it->second].a, ks[it->second].b).getCorrection(T(h), p, 40, 100, CarrierBand::L2), g = -1;
         VF_NOTHROW("store.ok", g = s.getCorrection(T(h), p, 40, 100, CarrierBand::L2), log.str());
         VF_CHECK("store.latest", g == w, log.str() << " at " << h << " gave " << g << " expected model " << it->second << " " << w);
      }
   }
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"formula", 60000, 3000000, formula}, {"almanac", 5000, 200000, almanac}, {"store", 5000, 200000, store}});
}
