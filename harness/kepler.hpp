// Independent long-double evaluation of the broadcast Kepler+harmonics model
// (IS-GPS-200 tables 20-IV and 30-II, BDS ICD 5.2.4.12, Galileo OS ICD 5.1.1).
#ifndef VF_KEPLER_HPP
#define VF_KEPLER_HPP
#include <cmath>
namespace kep
{
   typedef long double ld;
   static const ld PIL = 3.14159265358979323846264338327950288L;
   struct El
   {
      ld mu, om;                 // system constants
      ld toeSow, M0, dn, dndot, e, A, Adot, O0, i0, w, Od, idot, Cuc, Cus, Crc, Crs, Cic, Cis;
      bool geo;
   };
   struct V3 { ld x, y, z; };
   inline ld E(const El& k, ld M)
   {
      ld E = M, s = 0;
         // bisection on a bracketing interval, then Newton: no reliance on a start value
      ld lo = M - k.e - 1e-9L, hi = M + k.e + 1e-9L;
      for (int i = 0; i < 40; i++) { E = (lo + hi) / 2; s = E - k.e * sinl(E) - M; (s > 0 ? hi : lo) = E; }
      for (int i = 0; i < 6; i++) E -= (E - k.e * sinl(E) - M) / (1 - k.e * cosl(E));
      return E;
   }
      // position at dt seconds from toe; the mean-motion correction is that of time dtRate
   inline ld meanAnom(const El& k, ld dt, ld dtRate)
   {
      ld n = sqrtl(k.mu) / (k.A * sqrtl(k.A)), nr = n + k.dn + 0.5L * k.dndot * dtRate;
      return k.M0 + nr * dt;
   }
   inline V3 pos(const El& k, ld dt, ld dtRate)
   {
      ld M = meanAnom(k, dt, dtRate), Ea = E(k, M);
      ld nu = atan2l(sqrtl(1 - k.e * k.e) * sinl(Ea), cosl(Ea) - k.e), phi = nu + k.w;
      ld s2 = sinl(2 * phi), c2 = cosl(2 * phi);
      ld u = phi + k.Cus * s2 + k.Cuc * c2, A = k.A + k.Adot * dt;
      ld r = A * (1 - k.e * cosl(Ea)) + k.Crs * s2 + k.Crc * c2;
      ld i = k.i0 + k.idot * dt + k.Cis * s2 + k.Cic * c2;
      ld xp = r * cosl(u), yp = r * sinl(u);
      ld O = k.O0 + (k.geo ? k.Od : k.Od - k.om) * dt - k.om * k.toeSow;
      V3 p = { xp * cosl(O) - yp * cosl(i) * sinl(O), xp * sinl(O) + yp * cosl(i) * cosl(O), yp * sinl(i) };
      if (!k.geo) return p;
      ld a = -5 * PIL / 180, z = k.om * dt;
      V3 q = { p.x, cosl(a) * p.y + sinl(a) * p.z, -sinl(a) * p.y + cosl(a) * p.z };
      return V3{ cosl(z) * q.x + sinl(z) * q.y, -sinl(z) * q.x + cosl(z) * q.y, q.z };
   }
   inline V3 vel(const El& k, ld dt)
   {
      ld h = 0.25L;
      V3 a = pos(k, dt - 2 * h, dt), b = pos(k, dt - h, dt), c = pos(k, dt + h, dt), d = pos(k, dt + 2 * h, dt);
         // keep the mean anomaly linear about dt: M(dt+s) = M(dt) + nr*s holds for fixed dtRate
      return V3{ (a.x - 8 * b.x + 8 * c.x - d.x) / (12 * h), (a.y - 8 * b.y + 8 * c.y - d.y) / (12 * h), (a.z - 8 * b.z + 8 * c.z - d.z) / (12 * h) };
   }
   inline ld rel(const El& k, ld dt)
   {
      return -4.442807633e-10L * k.e * sqrtl(k.A + k.Adot * dt) * sinl(E(k, meanAnom(k, dt, dt)));
   }
}
#endif
