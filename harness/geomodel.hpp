// Independent long-double geodesy used as oracle.
#ifndef VF_GEOMODEL_HPP
#define VF_GEOMODEL_HPP
#include "vf.hpp"
#include "Position.hpp"
namespace geo_
{
   typedef long double ld;
   const ld PIL = 3.14159265358979323846264338327950288L, D2R = PIL / 180;
   struct V { ld x, y, z; };
   inline V operator-(V a, V b) { return {a.x-b.x, a.y-b.y, a.z-b.z}; }
   inline V operator+(V a, V b) { return {a.x+b.x, a.y+b.y, a.z+b.z}; }
   inline V operator*(ld k, V a) { return {k*a.x, k*a.y, k*a.z}; }
   inline ld dot(V a, V b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
   inline V cross(V a, V b) { return {a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x}; }
   inline ld mag(V a) { return sqrtl(dot(a, a)); }
   inline V fromGeodetic(ld lat, ld lon, ld h, ld a, ld e2)
   {
      ld s = sinl(lat*D2R), c = cosl(lat*D2R), N = a / sqrtl(1 - e2*s*s);
      return { (N+h)*c*cosl(lon*D2R), (N+h)*c*sinl(lon*D2R), (N*(1-e2)+h)*s };
   }
   inline V fromSpherical(ld theta, ld phi, ld r)
   { return { r*sinl(theta*D2R)*cosl(phi*D2R), r*sinl(theta*D2R)*sinl(phi*D2R), r*cosl(theta*D2R) }; }
   inline V north(ld lat, ld lon) { return { -sinl(lat*D2R)*cosl(lon*D2R), -sinl(lat*D2R)*sinl(lon*D2R), cosl(lat*D2R) }; }
   inline V east(ld lon) { return { -sinl(lon*D2R), cosl(lon*D2R), 0 }; }
   inline V up(ld lat, ld lon) { return { cosl(lat*D2R)*cosl(lon*D2R), cosl(lat*D2R)*sinl(lon*D2R), sinl(lat*D2R) }; }
   inline V vec(const gpstk::Triple& t) { return { t[0], t[1], t[2] }; }
   inline double dist(V a, V b) { return (double)mag(a - b); }
   inline double lonDiff(double a, double b)
   { double d = std::fmod(a - b, 360.0); if (d > 180) d -= 360; if (d < -180) d += 360; return std::fabs(d); }
}
#endif
