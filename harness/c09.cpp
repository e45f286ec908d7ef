// C09: reference frames, Helmert transforms, ellipsoid constants
#include "geomodel.hpp"
#include "timemodel.hpp"
#include "HelmertTransform.hpp"
#include "ReferenceFrame.hpp"
#include "WGS84Ellipsoid.hpp"
#include "PZ90Ellipsoid.hpp"
#include "GPSEllipsoid.hpp"
#include "CGCS2000Ellipsoid.hpp"
#include "GalileoEllipsoid.hpp"
#include "YDSTime.hpp"
using namespace gpstk; using namespace geo_;
typedef ReferenceFrame RF;
static const std::vector<RF> FR = { RF::Unknown, RF::WGS84, RF::WGS84G730, RF::WGS84G873, RF::WGS84G1150, RF::ITRF, RF::PZ90, RF::PZ90KGS, RF::CGCS2000 };
static void names(vf::Case& c)
{
   for (RF f : FR)
   {
      c.distinct((uint64_t)f); std::string s = StringUtils::asString(f);
      VF_CHECK("frame.name", StringUtils::asReferenceFrame(s) == f, s);
   }
   VF_CHECK("frame.unknown", StringUtils::asReferenceFrame(c.rng.str(3, "WGSITRF")) == RF::Unknown, "");
   WGS84Ellipsoid w; PZ90Ellipsoid p; GPSEllipsoid g; CGCS2000Ellipsoid k; GalileoEllipsoid l;
   const EllipsoidModel* E[5] = { &w, &p, &g, &k, &l };
   for (auto e : E)
   {
      double f = e->flattening();
      VF_CHECK("ell.ecc", vf::close(e->eccSquared(), f * (2 - f), 1e-12) && vf::close(e->eccentricity() * e->eccentricity(), e->eccSquared(), 1e-12), e->a());
      VF_CHECK("ell.km", vf::close(e->a_km() * 1000, e->a(), 1e-6) && vf::close(e->c_km() * 1000, e->c(), 1e-6) && e->c() == 299792458.0 && vf::close(e->gm_km() * 1e9, e->gm(), 2e8), e->a());
      VF_CHECK("ell.earth", vf::close(e->angVelocity(), 7.2921151e-5, 1e-11) && vf::close(e->gm(), 3.986004418e14, 1e8) && vf::close(e->a(), 6378137, 1.5), e->a());
   }
   VF_CHECK("ell.gps", g.angVelocity() == 7.2921151467e-5 && g.gm() == 3.986005e14 && g.a() == w.a(), "");
   const CommonTime& t = HelmertTransform::PZ90Epoch; long D, M; double F; t.getInternal(D, M, F);
   VF_CHECK("pz90.epoch", D == tm_::jdn(2007, 9, 20) && M == 61200000 && F == 0 && t.getTimeSystem() == TimeSystem::UTC, tm_::show(t));
}
static V helm(V x, ld rx, ld ry, ld rz, V t, ld s)
{ V r = { x.x - rz*x.y + ry*x.z, rz*x.x + x.y - rx*x.z, -ry*x.x + rx*x.y + x.z }; return r + s * x + t; }
static void all(vf::Case& c, HelmertTransform h, ld rx, ld ry, ld rz, V T, ld s, const std::string& tag)
{
   vf::Rng& r = c.rng;
   double m = r.chance(0.5) ? r.unif(6.3e6, 6.4e6) : r.unif(6.3e6, 4.3e7);
   V x = (ld)m * up(std::asin(r.unif(-1, 1)) * RAD_TO_DEG, r.unif(0, 360));
   RF from = h.getFromFrame(), to = h.getToFrame();
   V want = helm(x, rx, ry, rz, T, s);
   double second = (double)((rx*rx + ry*ry + rz*rz + s*s) * 2 * m + (fabsl(rx)+fabsl(ry)+fabsl(rz)+fabsl(s)) * mag(T)) + 1e-6;
   std::ostringstream os; os << std::setprecision(15) << tag << " x " << (double)x.x << " " << (double)x.y << " " << (double)x.z; std::string ctx = os.str(); c.note(ctx); c.distinct(ctx);
   Position p((double)x.x, (double)x.y, (double)x.z, Position::Cartesian, 0, from), q, b;
   if (r.chance(0.3) && hypotl(x.x, x.y) > 1e5) p.transformTo(Position::Geodetic);
   h.transform(p, q);
   VF_CHECK(tag + ".forward", dist(vec(q), want) < 2e-4 && q.getReferenceFrame() == to && q.getCoordinateSystem() == Position::Cartesian, ctx << " off " << dist(vec(q), want));
   VF_CHECK(tag + ".const", p.getReferenceFrame() == from, ctx);
   h.transform(q, b); c.maximum("helmert_roundtrip_m", dist(vec(b), x) - second);
   VF_CHECK(tag + ".inverse", dist(vec(b), x) < second + 2e-4 && b.getReferenceFrame() == from, ctx << " off " << dist(vec(b), x) << " allowed " << second);
   bool fwd = r.chance(0.5); RF st = fwd ? from : to; V src = fwd ? x : want;
   Position ref((double)src.x, (double)src.y, (double)src.z, Position::Cartesian, 0, st), out; h.transform(ref, out);
   gpstk::Vector<double> vi(3), vo; vi(0) = src.x; vi(1) = src.y; vi(2) = src.z; h.transform(vi, st, vo);
   Triple ti((double)src.x, (double)src.y, (double)src.z), to3; h.transform(ti, st, to3);
   Xvt xi, xo; xi.x = ti; xi.v = Triple(1, 2, 3); xi.clkbias = 4; xi.frame = st; h.transform(xi, xo);
   double a1, a2, a3; h.transform((double)src.x, (double)src.y, (double)src.z, st, a1, a2, a3);
   VF_CHECK(tag + ".forms", vo.size() == 3 && vo(0) == out[0] && vo(1) == out[1] && vo(2) == out[2] && to3[0] == out[0] && to3[1] == out[1] && to3[2] == out[2]
      && xo.x[0] == out[0] && xo.x[1] == out[1] && xo.x[2] == out[2] && xo.v == xi.v && xo.clkbias == 4 && a1 == out[0] && a2 == out[1] && a3 == out[2], ctx);
   for (RF f : FR) if (f != from && f != to)
   { Position w(p), z; w.setReferenceFrame(f); VF_THROWS(tag + ".wrongframe", InvalidRequest, h.transform(w, z), ctx << " " << StringUtils::asString(f)); }
   h.asString();
}
static void standard(vf::Case& c)
{
   const ld mas = D2R / 3600000;
   int i = c.idx % HelmertTransform::stdCount; const HelmertTransform& h = HelmertTransform::stdTransforms[i];
   ld s = 0, rx = 0, ry = 0, rz = 0; V T = {0,0,0}; RF f = RF::PZ90, t = RF::ITRF;
   if (i == 0) f = RF::WGS84;
   if (i == 1 || i == 3) { rx = -19 * mas; ry = -4 * mas; rz = 353 * mas; T = {0.07L, 0, -0.77L}; s = -3e-9L; }
   if (i == 2 || i == 4) T = {-0.36L, 0.08L, 0.18L};
   if (i == 1 || i == 2) t = RF::WGS84;
   VF_CHECK("std.frames", h.getFromFrame() == f && h.getToFrame() == t, i);
   if (i == 2 || i == 4) VF_CHECK("std.epoch", h.getEpoch() == HelmertTransform::PZ90Epoch, i);
   all(c, h, rx, ry, rz, T, s, "std" + std::to_string(i));
}
static void user(vf::Case& c)
{
   vf::Rng& r = c.rng;
   double m = r.chance(0.5) ? 1e-6 : r.chance(0.5) ? 1e-3 : 0.05;   // degrees
   double rx = r.unif(-m, m), ry = r.unif(-m, m), rz = r.unif(-m, m), tx = r.unif(-10, 10), ty = r.unif(-10, 10), tz = r.unif(-10, 10), s = r.unif(-1e-6, 1e-6);
   RF a = FR[1 + r.below(8)], b = FR[1 + r.below(8)]; if (a == b) return;
   HelmertTransform h(a, b, rx, ry, rz, tx, ty, tz, s, "test", CommonTime::BEGINNING_OF_TIME);
   all(c, h, rx * D2R, ry * D2R, rz * D2R, {tx, ty, tz}, s, "user");
   VF_THROWS("user.unknown", InvalidRequest, HelmertTransform(RF::Unknown, b, 0, 0, 0, 0, 0, 0, 0, "", CommonTime::BEGINNING_OF_TIME), "");
   VF_THROWS("user.unknown", InvalidRequest, HelmertTransform(a, RF::Unknown, 0, 0, 0, 0, 0, 0, 0, "", CommonTime::BEGINNING_OF_TIME), "");
   double big = r.unif(0.0574, 10) * (r.chance(0.5) ? 1 : -1), ang[3] = {0, 0, 0}; ang[r.below(3)] = big;
   VF_THROWS("user.bigangle", InvalidRequest, HelmertTransform(a, b, ang[0], ang[1], ang[2], 0, 0, 0, 0, "", CommonTime::BEGINNING_OF_TIME), big);
}
int main(int argc, char** argv)
{ return vf::run(argc, argv, { {"names", 40, 40, names}, {"std", 20000, 1000000, standard}, {"user", 20000, 1000000, user} }); }
