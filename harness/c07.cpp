// C07: Position coordinate systems, arithmetic and text form
#include "geomodel.hpp"
#include "WGS84Ellipsoid.hpp"
#include "PZ90Ellipsoid.hpp"
#include "GPSEllipsoid.hpp"
#include "CGCS2000Ellipsoid.hpp"
#include "GalileoEllipsoid.hpp"
#include "Xvt.hpp"
using namespace gpstk; using namespace geo_;
typedef Position P;

static WGS84Ellipsoid wgs; static PZ90Ellipsoid pz; static GPSEllipsoid gpse; static CGCS2000Ellipsoid cg; static GalileoEllipsoid ga;
static EllipsoidModel* const ELL[5] = { &wgs, &pz, &gpse, &cg, &ga };
static const P::CoordinateSystem SYS[4] = { P::Geodetic, P::Geocentric, P::Cartesian, P::Spherical };

struct Gen { double lat, lon, h; EllipsoidModel* e; };
static Gen gen(vf::Rng& r)
{
   Gen g; g.e = ELL[r.below(5)];
   switch (r.below(6))
   {
      case 0: g.lat = r.pick({0.0, 45.0, -45.0, 89.9, -89.9, 1e-9, -1e-9}); break;
      case 1: g.lat = r.logmag(1e-8, 1); break;
      case 2: g.lat = (90 - std::fabs(r.logmag(0.02, 5))) * (r.chance(0.5) ? 1 : -1); break;
      default: g.lat = std::asin(r.unif(-1, 1)) * RAD_TO_DEG; if (std::fabs(g.lat) > 89.98) g.lat = 89.5;
   }
   switch (r.below(5))
   {
      case 0: g.lon = r.pick({0.0, 90.0, 180.0, 270.0, 359.9999999, 1e-9}); break;
      case 1: g.lon = std::fabs(r.logmag(1e-9, 1)); break;
      default: g.lon = r.unif(0, 360);
   }
   switch (r.below(5))
   {
      case 0: g.h = r.pick({0.0, 8848.0, -430.0, 20200000.0, 35786000.0, 1e-4}); break;
      case 1: g.h = r.unif(-11000, 9000); break;
      case 2: g.h = r.unif(0, 2000000); break;
      case 3: g.h = r.unif(-100, 5000); break;
      default: g.h = r.unif(1e6, 4e8);
   }
   return g;
}
static std::string str(const Gen& g)
{ std::ostringstream o; o << std::setprecision(17) << "lat " << g.lat << " lon " << g.lon << " h " << g.h << " a " << g.e->a(); return o.str(); }

static void convert(vf::Case& c)
{
   vf::Rng& r = c.rng; Gen g = gen(r); std::string ctx = str(g); c.note(ctx); c.distinct(ctx);
   if (r.chance(0.0005)) c.sample(ctx);
   double a = g.e->a(), e2 = g.e->eccSquared();
   V x = fromGeodetic(g.lat, g.lon, g.h, a, e2);
   ld rad = mag(x), clat = atan2l(x.z, sqrtl(x.x*x.x + x.y*x.y)) / D2R;
   double tolm = 1e-4 + 1e-13 * (double)rad;              // metres
   double near = std::cos(g.lat * DEG_TO_RAD);              // conditioning towards the poles
   double tola = (2e-12 + 1e-15 / near) * RAD_TO_DEG + 5e-11, toll = 1e-11 + 1e-13 / near, tolh = tolm + 5e-9 / near;
   P start[4];
   start[0] = P(g.lat, g.lon, g.h, P::Geodetic, g.e);
   start[1] = P((double)clat, g.lon, (double)rad, P::Geocentric, g.e);
   start[2] = P((double)x.x, (double)x.y, (double)x.z, P::Cartesian, g.e);
   start[3] = P((double)(90 - clat), g.lon, (double)rad, P::Spherical, g.e);
   for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++)
   {
      P p(start[i]); p.transformTo(SYS[j]);
      std::string k = std::string("to.") + start[i].getSystemName() + "." + p.getSystemName();
      VF_CHECK("system", p.getCoordinateSystem() == SYS[j], ctx);
      if (i == j)
      { VF_CHECK(k, p[0] == start[i][0] && p[1] == start[i][1] && p[2] == start[i][2], ctx); continue; }
      double d = 0;
      if (j == 0)
      {
         d = std::fabs(p[0] - g.lat) * 111e3;
         VF_CHECK(k, std::fabs(p[0] - g.lat) < tola * 20 && lonDiff(p[1], g.lon) < toll && std::fabs(p[2] - g.h) < tolh + tola * DEG_TO_RAD * a, ctx << " got " << p[0] << " " << p[1] << " " << p[2]);
      }
      else if (j == 1) VF_CHECK(k, std::fabs(p[0] - (double)clat) < tola * 20 && lonDiff(p[1], g.lon) < toll && std::fabs(p[2] - (double)rad) < tolm, ctx << " got " << p[0] << " " << p[1] << " " << p[2]);
      else if (j == 2) { d = dist(vec(p), x); VF_CHECK(k, d < 2 * tolm + 1e-15 / near * (double)rad, ctx << " off by " << d); }
      else VF_CHECK(k, std::fabs(p[0] - (double)(90 - clat)) < tola * 20 && lonDiff(p[1], g.lon) < toll && std::fabs(p[2] - (double)rad) < tolm, ctx << " got " << p[0] << " " << p[1] << " " << p[2]);
      VF_CHECK("lon.range", j == 2 || (p[1] >= 0 && p[1] <= 360), ctx << " lon " << p[1]);
      c.maximum("worst_m", d);
      P b(p); b.transformTo(SYS[i]);
      P q1(b), q2(start[i]); q1.transformTo(P::Cartesian); q2.transformTo(P::Cartesian);
      d = dist(vec(q1), vec(q2)); c.maximum("roundtrip_m", d);
      VF_CHECK("roundtrip." + std::string(start[i].getSystemName()) + "." + p.getSystemName(), d < 5 * tolm + 1e-8 / near + 1e-15 / near * (double)rad, ctx << " off by " << d);
   }
   for (int i = 0; i < 4; i++)
   {
      const P& p = start[i];
      VF_CHECK("accessors", std::fabs(p.X() - (double)x.x) < 2*tolm && std::fabs(p.Y() - (double)x.y) < 2*tolm && std::fabs(p.Z() - (double)x.z) < 2*tolm
         && std::fabs(p.geodeticLatitude() - g.lat) < tola*20 && std::fabs(p.geocentricLatitude() - (double)clat) < tola*20
         && lonDiff(p.longitude(), g.lon) < toll && lonDiff(p.phi(), g.lon) < toll && std::fabs(p.theta() - (double)(90-clat)) < tola*20
         && std::fabs(p.radius() - (double)rad) < tolm && std::fabs(p.height() - g.h) < tolh + tola*a
         && p.getX() == p.X() && p.getZ() == p.Z() && p.getY() == p.Y() && p.getAltitude() == p.height() && p.getGeodeticLatitude() == p.geodeticLatitude()
         && p.getGeocentricLatitude() == p.geocentricLatitude() && p.getLongitude() == p.longitude(), ctx << " from " << start[i].asString());
      P o; 
      if (i == 0) o.setGeodetic(p[0], p[1] + 360.0 * r.range(-3, 3), p[2], g.e);
      else if (i == 1) { o = P(0, 0, 1, P::Cartesian, g.e); o.setGeocentric(p[0], p[1] + 360.0 * r.range(-3, 3), p[2]); }
      else if (i == 2) { o = P(0, 0, 1, P::Cartesian, g.e); o.setECEF(p[0], p[1], p[2]); }
      else { o = P(0, 0, 1, P::Cartesian, g.e); o.setSpherical(p[0], p[1] + 360.0 * r.range(-3, 3), p[2]); }
      VF_CHECK("setters", o.getCoordinateSystem() == SYS[i] && o[0] == p[0] && o[2] == p[2] && (i == 2 ? o[1] == p[1] : lonDiff(o[1], p[1]) < 1e-12 + 1e-12 && o[1] >= 0 && o[1] < 360), ctx << " " << o[1]);
      P ct(p[0], i == 2 ? p[1] : p[1] + 360.0 * r.range(-3, 3), p[2], SYS[i], g.e);
      VF_CHECK("ctor", ct[0] == p[0] && (i == 2 ? ct[1] == p[1] : lonDiff(ct[1], p[1]) < 1e-12 && ct[1] >= 0 && ct[1] < 360), ctx << " " << ct[1]);
      double arr[3] = { p[0], p[1], p[2] };
      P ca(arr, SYS[i], g.e); P cb(Triple(p[0], p[1], p[2]), SYS[i], g.e);
      VF_CHECK("ctor.array", ca[0] == p[0] && ca[1] == p[1] && ca[2] == p[2] && cb[0] == p[0] && cb[1] == p[1] && cb[2] == p[2], ctx);
   }
   VF_CHECK("range", std::fabs(range(start[0], start[2])) < 4 * tolm && std::fabs(range(start[1], start[3])) < 4 * tolm, ctx);
   if (rad < 1e8) VF_CHECK("equal", start[0] == start[2] && !(start[0] != start[3]), ctx);
   EllipsoidModel* oe = ELL[r.below(5)];
   if (oe->a() != a || oe->eccSquared() != e2)
   {
      P q(g.lat, g.lon, g.h, P::Geodetic, oe);
      VF_CHECK("equal.ellipsoid", start[0] != q, ctx);
      VF_THROWS("range.ellipsoid", GeometryException, range(start[0], q), ctx);
   }
   P f(start[0]); f.setReferenceFrame(ReferenceFrame::ITRF); P f2(start[0]); f2.setReferenceFrame(ReferenceFrame::PZ90);
   VF_CHECK("equal.frame", f != f2 && f.getReferenceFrame() == ReferenceFrame::ITRF, ctx);
   f.transformTo(P::Cartesian); VF_CHECK("frame.kept", f.getReferenceFrame() == ReferenceFrame::ITRF, ctx);
      // static conversions agree with transformTo
   Triple t0(g.lat, g.lon, g.h), t1, t2;
   P::convertGeodeticToCartesian(t0, t1, a, e2); P::convertCartesianToGeodetic(t1, t2, a, e2);
   VF_CHECK("static.geod", dist(vec(t1), x) < 2*tolm && std::fabs(t2[0] - g.lat) < tola*20 && std::fabs(t2[2] - g.h) < tolh + tola*a, ctx);
   P::convertGeodeticToGeocentric(t0, t1, a, e2); P::convertGeocentricToGeodetic(t1, t2, a, e2);
   VF_CHECK("static.geoc", std::fabs(t1[0] - (double)clat) < tola*20 && std::fabs(t1[2] - (double)rad) < tolm && std::fabs(t2[0] - g.lat) < tola*20 && std::fabs(t2[2] - g.h) < tolh + tola*a, ctx);
   Triple s0((double)(90-clat), g.lon, (double)rad);
   P::convertSphericalToCartesian(s0, t1); P::convertCartesianToSpherical(t1, t2);
   VF_CHECK("static.sph", dist(vec(t1), x) < 2*tolm && std::fabs(t2[0] - s0[0]) < tola*20 && lonDiff(t2[1], g.lon) < toll && std::fabs(t2[2] - s0[2]) < tolm, ctx);
   P::convertCartesianToGeocentric(t1, t2); Triple t3; P::convertGeocentricToCartesian(t2, t3);
   VF_CHECK("static.geocart", std::fabs(t2[0] - (double)clat) < tola*20 && dist(vec(t3), x) < 5*tolm + 1e-15 / near * (double)rad, ctx);
      // radius of the ellipsoid and of curvature
   V s = fromGeodetic(g.lat, 0, 0, a, e2);
   VF_CHECK("radiusEarth", vf::close(P::radiusEarth(g.lat, a, e2), (double)mag(s), 1e-5) && vf::close(start[0].radiusEarth(), (double)mag(s), 1e-5), ctx << " " << P::radiusEarth(g.lat, a, e2) << " want " << (double)mag(s));
   ld sl = sinl(g.lat*D2R), W = sqrtl(1 - e2*sl*sl);
   VF_CHECK("curvature", vf::close(start[0].getCurvMeridian(), (double)(a*(1-e2)/(W*W*W)), 1e-5) && vf::close(start[0].getCurvPrimeVertical(), (double)(a/W), 1e-5), ctx);
}

static void arith(vf::Case& c)
{
   vf::Rng& r = c.rng; Gen g = gen(r), h = gen(r); h.e = g.e; std::string ctx = str(g) + " / " + str(h); c.note(ctx); c.distinct(ctx);
   double a = g.e->a(), e2 = g.e->eccSquared();
   V x = fromGeodetic(g.lat, g.lon, g.h, a, e2), y = fromGeodetic(h.lat, h.lon, h.h, a, e2);
   P p(g.lat, g.lon, g.h, P::Geodetic, g.e), q(h.lat, h.lon, h.h, P::Geodetic, g.e);
   p.transformTo(SYS[r.below(4)]); q.transformTo(SYS[r.below(4)]);
   P p0(p), q0(q);
   double tol = 2e-4 + 1e-12 * (double)(mag(x) + mag(y));
   P d = p - q, s = p + q;
   VF_CHECK("minus", dist(vec(d), x - y) < tol && d.getCoordinateSystem() == P::Cartesian, ctx);
   VF_CHECK("plus", dist(vec(s), x + y) < tol && s.getCoordinateSystem() == P::Cartesian, ctx);
   VF_CHECK("operands", p[0] == p0[0] && p[1] == p0[1] && p[2] == p0[2] && q[0] == q0[0] && q[1] == q0[1] && q[2] == q0[2], ctx);
   VF_CHECK("range2", vf::close(range(p, q), (double)mag(x - y), tol), ctx << " " << range(p, q));
   V sum = x + y;
   if (mag(sum) > 7e6 && hypotl(sum.x, sum.y) > 1e5)
   { p += q; VF_CHECK("plus.eq", p.getCoordinateSystem() == p0.getCoordinateSystem(), ctx); P t(p); t.transformTo(P::Cartesian); VF_CHECK("plus.eq.value", dist(vec(t), sum) < 10 * tol, ctx << " " << dist(vec(t), sum)); }
   P m(p0); m.transformTo(P::Cartesian); m -= q0;
   VF_CHECK("minus.eq", dist(vec(m), x - y) < tol, ctx);
   double tl = r.pick({0.001, 1.0, 0.01});
   P near(p0); near.transformTo(P::Cartesian); P nn(near); nn.setTolerance(tl);
   double k = r.pick({0.5, 0.9, 1.1, 3.0}); near[0] += tl * k;
   if (mag(x) < 1e8) VF_CHECK("tolerance", (nn == near) == (k < 1), ctx << " k " << k);
}

static void invalid(vf::Case& c)
{
   vf::Rng& r = c.rng; double big = 90 + std::fabs(r.logmag(1e-9, 1e4)), neg = -std::fabs(r.logmag(1e-9, 1e6)), sg = r.chance(0.5) ? 1 : -1;
   c.distinct(c.idx); P p(1, 2, 3, P::Cartesian), k(p);
   auto same = [&] { return p[0] == k[0] && p[1] == k[1] && p[2] == k[2] && p.getCoordinateSystem() == k.getCoordinateSystem(); };
   VF_THROWS("bad.geod", GeometryException, P(sg * big, 0, 0, P::Geodetic), big);
   VF_THROWS("bad.geoc", GeometryException, P(sg * big, 0, 1, P::Geocentric), big);
   VF_THROWS("bad.rad", GeometryException, P(0, 0, neg, P::Geocentric), neg);
   VF_THROWS("bad.rad", GeometryException, P(0, 0, neg, P::Spherical), neg);
   VF_THROWS("bad.theta", GeometryException, P(90 + big, 0, 1, P::Spherical), big);
   VF_THROWS("bad.theta", GeometryException, P(neg, 0, 1, P::Spherical), neg);
   VF_THROWS("bad.set", GeometryException, p.setGeodetic(sg * big, 0, 0), big);
   VF_THROWS("bad.set", GeometryException, p.setGeocentric(sg * big, 0, 1), big);
   VF_THROWS("bad.set", GeometryException, p.setGeocentric(1, 0, neg), neg);
   VF_THROWS("bad.set", GeometryException, p.setSpherical(90 + big, 0, 1), big);
   VF_THROWS("bad.set", GeometryException, p.setSpherical(neg, 0, 1), big);
   VF_THROWS("bad.set", GeometryException, p.setSpherical(1, 0, neg), big);
   VF_CHECK("bad.unchanged", same(), big);
      // poles and origin are defined
   double h = r.unif(-1000, 1e6);
   for (int s = -1; s <= 1; s += 2)
   {
      P q(0, 0, s * (6356752.314245 + h), P::Cartesian), z(q); z.transformTo(P::Geodetic);
      VF_CHECK("pole.geod", z[0] == s * 90.0 && vf::close(z[2], h, 1e-4), s << " " << z[0] << " " << z[2]);
      z.transformTo(P::Cartesian); VF_CHECK("pole.back", dist(vec(z), vec(q)) < 1e-4, h);
      P w(q); w.transformTo(P::Spherical); VF_CHECK("pole.sph", vf::close(w[0], s > 0 ? 0 : 180, 1e-9), w[0]);
      P g(s * 90.0, r.unif(0, 360), h, P::Geodetic); g.transformTo(P::Geocentric);
      VF_CHECK("pole.geoc", g[0] == s * 90.0 && vf::close(g[2], 6356752.314245 + h, 1e-4), g[0] << " " << g[2]);
      g.transformTo(P::Geodetic); VF_CHECK("pole.geoc.back", g[0] == s * 90.0 && vf::close(g[2], h, 1e-4), g[0] << " " << g[2]);
   }
      // close to a pole the result stays within a few hundred metres of the truth and finite
   double lat = (90 - std::fabs(r.logmag(1e-13, 0.02))) * sg, lon = r.unif(0, 360);
   P n(lat, lon, h, P::Geodetic); V x = fromGeodetic(lat, lon, h, wgs.a(), wgs.eccSquared());
   for (int i = 0; i < 4; i++)
   {  // started from each system with the latitude as close
      P q = i == 0 ? P(lat, lon, h, P::Geodetic) : i == 1 ? P(lat, lon, 6356752.314245 + h, P::Geocentric) : i == 2 ? P(90 - lat, lon, 6356752.314245 + h, P::Spherical) : P(n);
      V y = x; if (i == 1 || i == 2) { ld R = 6356752.314245L + h; y.x = R * cosl(lat*D2R) * cosl(lon*D2R); y.y = R * cosl(lat*D2R) * sinl(lon*D2R); y.z = R * sinl(lat*D2R); }
      for (int j = 0; j < 4; j++) { P w(q); w.transformTo(SYS[j]); w.transformTo(P::Cartesian); VF_CHECK("nearpole.from", dist(vec(w), y) < 200, std::setprecision(17) << lat << " " << i << j << " " << dist(vec(w), y)); }
   }
   for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++)
   { P q(n); q.transformTo(SYS[i]); q.transformTo(SYS[j]); q.transformTo(P::Cartesian); VF_CHECK("nearpole", dist(vec(q), x) < 200, lat << " " << i << j << " " << dist(vec(q), x)); }
}

static void text(vf::Case& c)
{
   vf::Rng& r = c.rng; Gen g = gen(r); g.e = &wgs; if (std::fabs(g.h) > 3e7) g.h = 100; c.note(str(g)); c.distinct(str(g));
   P p(g.lat, g.lon, g.h, P::Geodetic); p.transformTo(SYS[r.below(4)]);
   V x = fromGeodetic(g.lat, g.lon, g.h, wgs.a(), wgs.eccSquared());
   static const char* F[] = { "%.4x %.4y %.4z", "%.7X %.7Y %.7Z", "%.10a %.10l %.4r", "%.10A %.10L %.4h", "%.10a %.10w %.7R", "%.10A %.10W %.7H",
      "%.10t %.10p %.4r", "%.12T %.12P %.7R", "%18.4x %18.4y %18.4z", "%.4x, %.4y, %.4z" };
   for (const char* f : F)
   {
      std::string s = p.printf(f), pf;
      for (const char* q = f; *q; q++) { pf += *q; if (*q == '%') while (q[1] && !isalpha(q[1])) q++; }
      P o; VF_NOTHROW("scan", o.setToString(s, pf), s << " by " << pf);
      VF_CHECK("print.scan." + std::string(f), dist({o.X(), o.Y(), o.Z()}, x) < 2e-3, str(g) << " printed " << s << " scanned " << o.asString());
   }
   std::string bad = r.pick<std::string>({"", "%x %y", "%A %L", "%t %p %h", "%a %l %h", "%x %A %L"});
   P o(p); std::string s = p.printf(bad.c_str());
   VF_THROWS("scan.incomplete", GeometryException, o.setToString(s, bad), bad);
   VF_CHECK("scan.unchanged", o[0] == p[0] && o[1] == p[1] && o[2] == p[2] && o.getCoordinateSystem() == p.getCoordinateSystem(), bad);
   std::string junk = r.str(r.below(30), "0123456789.-+eE %xyzALhnaif,"), jf = r.str(r.below(20), "%%%xyzALhlrtpRTPwW .,0128");
   try { P q; q.setToString(junk, jf); VF_CHECK("scan.hostile", q.getCoordinateSystem() != P::Unknown, junk << " | " << jf); }
   catch (gpstk::Exception&) { VF_CHECK("scan.hostile", true, ""); }
   std::string bf = r.str(r.below(20), "%%%xyzALhlrtpRTPwW .,01289-");
   try { p.printf(bf.c_str()); } catch (StringUtils::StringException&) {}
   p.asString();
}
int main(int argc, char** argv)
{ return vf::run(argc, argv, { {"convert", 20000, 1500000, convert}, {"arith", 20000, 1500000, arith}, {"invalid", 5000, 300000, invalid}, {"text", 1500, 60000, text} }); }
