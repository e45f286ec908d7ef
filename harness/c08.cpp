// C08: azimuth, elevation, range, local frames, ionospheric pierce point, vector algebra
#include "geomodel.hpp"
#include "WGS84Ellipsoid.hpp"
#include "GPSEllipsoid.hpp"
#include "Xvt.hpp"
#include "RACRotation.hpp"
#include "ENUUtil.hpp"
#include "NEDUtil.hpp"
using namespace gpstk; using namespace geo_;
typedef Position P;
static const P::CoordinateSystem SYS[4] = { P::Geodetic, P::Geocentric, P::Cartesian, P::Spherical };
static double rlat(vf::Rng& r) { return r.chance(0.2) ? r.pick({0.0, 60.0, -60.0, 89.0, -89.0}) : std::asin(r.unif(-0.9998, 0.9998)) * RAD_TO_DEG; }
static double rlon(vf::Rng& r) { return r.chance(0.2) ? r.pick({0.0, 90.0, 180.0, 270.0, 359.999}) : r.unif(0, 360); }

static void look(vf::Case& c)
{
   vf::Rng& r = c.rng; WGS84Ellipsoid w;
   double lat = rlat(r), lon = rlon(r), h = r.unif(-500, 9000);
   V R = fromGeodetic(lat, lon, h, w.a(), w.eccSquared());
   V n = north(lat, lon), e = east(lon), u = up(lat, lon);
   double az = r.chance(0.15) ? 90.0 * r.range(0, 3) : r.unif(0, 360), el = r.chance(0.1) ? r.pick({0.0, 89.9, -0.5, 5.0, 90.0}) : r.chance(0.1) ? 90 - std::fabs(r.logmag(1e-5, 1)) : r.unif(-60, 89.9), d = std::fabs(r.logmag(1, 4e7));
   ld ca = cosl(az*D2R), sa = sinl(az*D2R), ce = cosl(el*D2R), se = sinl(el*D2R);
   V S = R + d * (ce*ca*n + ce*sa*e + se*u);
   P rx(lat, lon, h, P::Geodetic), sv((double)S.x, (double)S.y, (double)S.z, P::Cartesian);
   rx.transformTo(SYS[r.below(4)]); if (hypotl(S.x, S.y) > 1e4 && mag(S) > 6e6) sv.transformTo(SYS[r.below(4)]);
   std::ostringstream os; os << std::setprecision(15) << "lat " << lat << " lon " << lon << " h " << h << " az " << az << " el " << el << " d " << d; std::string ctx = os.str(); c.note(ctx); c.distinct(ctx);
   double tol = (1e-4 / d * 180 / M_PI) * 3 + 3e-7;     // degrees; 1e-7 m-level coordinates, acos near zenith
   double ge = rx.elevationGeodetic(sv), ga = rx.azimuthGeodetic(sv);
   VF_CHECK("elevationGeodetic", vf::close(ge, el, tol + 1e-6 / std::max(0.002, (double)ce)), ctx << " got " << ge);
   VF_CHECK("azimuthGeodetic", (ce < 1e-7 || lonDiff(ga, az) < tol / ce) && ga >= 0 && ga <= 360, ctx << " got " << ga);
      // geocentric flavour: vertical along the radius
   ld glat = atan2l(R.z, sqrtl(R.x*R.x + R.y*R.y)) / D2R; V n2 = north(glat, lon), u2 = up(glat, lon); V z = S - R;
   double el2 = (double)(asinl(std::max(-1.0L, std::min(1.0L, dot(z, u2) / mag(z)))) / D2R), az2 = (double)(atan2l(dot(z, e), dot(z, n2)) / D2R);
   double c2 = std::cos(el2 * DEG_TO_RAD);
   VF_CHECK("elevation", vf::close(rx.elevation(sv), el2, tol + 1e-6 / std::max(0.002, c2)), ctx << " got " << rx.elevation(sv) << " want " << el2);
   if (c2 > 1e-7)
      VF_CHECK("azimuth", lonDiff(rx.azimuth(sv), az2) < tol / c2 && rx.azimuth(sv) >= 0 && rx.azimuth(sv) <= 360, ctx << " got " << rx.azimuth(sv) << " want " << az2);
   VF_CHECK("range", vf::close(range(rx, sv), d, 3e-4, 1e-12), ctx << " got " << range(rx, sv));
   Triple tR((double)R.x, (double)R.y, (double)R.z), tS((double)S.x, (double)S.y, (double)S.z);
   VF_CHECK("slantRange", vf::close(tR.slantRange(tS), d, 1e-7, 1e-13), ctx);
   VF_CHECK("elvAngle", vf::close(tR.elvAngle(tS), el2, tol + 1e-6 / std::max(0.002, c2)), ctx);
   if (c2 > 1e-7) VF_CHECK("azAngle", lonDiff(tR.azAngle(tS), az2) < tol / c2, ctx);
   VF_THROWS("coincident", GeometryException, rx.elevationGeodetic(rx), ctx);
   VF_THROWS("coincident", GeometryException, rx.azimuthGeodetic(rx), ctx);
   VF_THROWS("coincident", GeometryException, rx.elevation(rx), ctx);
      // ENU / NED
   ENUUtil enu(lat * DEG_TO_RAD, lon * DEG_TO_RAD); NEDUtil ned(0, 0); ned.updatePosition(lat * DEG_TO_RAD, lon * DEG_TO_RAD);
   Triple dz((double)z.x, (double)z.y, (double)z.z), E = enu.convertToENU(dz), N = ned.convertToNED(dz);
   double t2 = 1e-12 * d + 1e-8;
   VF_CHECK("enu", vf::close(E[0], (double)dot(z, e), t2) && vf::close(E[1], (double)dot(z, n), t2) && vf::close(E[2], (double)dot(z, u), t2), ctx << " " << E);
   VF_CHECK("ned", vf::close(N[0], E[1], t2) && vf::close(N[1], E[0], t2) && vf::close(N[2], -E[2], t2), ctx << " " << N);
   Xvt xv; xv.x = dz; xv.v = Triple(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1)); xv.clkbias = 3; xv.clkdrift = 4; xv.relcorr = 5;
   Xvt xe = enu.convertToENU(xv), xn = ned.convertToNED(xv);
   VF_CHECK("enu.xvt", xe.x == E && vf::close(xe.v.mag(), xv.v.mag(), 1e-12) && xe.clkbias == 3 && xe.clkdrift == 4 && xe.relcorr == 5 && xn.x == N && vf::close(xn.v[2], -xe.v[2], 1e-12) && vf::close(xn.v[0], xe.v[1], 1e-12), ctx);
   VF_THROWS("enu.size", gpstk::Exception, enu.convertToENU(gpstk::Vector<double>(r.pick({2, 4, 0}))), ctx);
   VF_THROWS("ned.size", gpstk::Exception, ned.convertToNED(gpstk::Vector<double>(r.pick({2, 4, 0}))), ctx);
}

static void ipp(vf::Case& c)
{
   vf::Rng& r = c.rng; WGS84Ellipsoid w; double A = w.a();
   double lat = rlat(r), lon = rlon(r), rad = r.unif(6356000, 6384000), el = r.unif(0, 89.5), az = r.unif(0, 360), h = r.pick({350000.0, 400000.0, 450000.0, 506700.0}) + r.unif(-1000, 1000);
   P rx(lat, lon, rad, P::Geocentric); rx.transformTo(SYS[r.below(4)]); P keep(rx);
   std::ostringstream os; os << std::setprecision(15) << lat << " " << lon << " az " << az << " el " << el << " h " << h; std::string ctx = os.str(); c.note(ctx); c.distinct(ctx);
   P q = rx.getIonosphericPiercePoint(el, az, h);
   VF_CHECK("ipp.system", q.getCoordinateSystem() == rx.getCoordinateSystem(), ctx);
   VF_CHECK("ipp.const", rx[0] == keep[0] && rx[1] == keep[1] && rx[2] == keep[2], ctx);
      // thin shell: straight line from the receiver direction at radius A
   V Rv = (ld)A * up(lat, lon); ld ce = cosl(el*D2R);
   V dir = ce*cosl(az*D2R)*north(lat, lon) + ce*sinl(az*D2R)*east(lon) + sinl(el*D2R)*up(lat, lon);
   ld b = dot(Rv, dir), cc = (ld)A*A - ((ld)A+h)*((ld)A+h), s = -b + sqrtl(b*b - cc);
   V X = Rv + s * dir;
   if (hypotl(X.x, X.y) < 2e4) return;
   double off = dist({q.X(), q.Y(), q.Z()}, X);
   VF_CHECK("ipp", off < 0.01, ctx << " off by " << off);
   VF_CHECK("ipp.shell", vf::close(q.radius(), A + h, 1e-3), ctx);
}

static void triple(vf::Case& c)
{
   vf::Rng& r = c.rng; double m = std::fabs(r.logmag(1e-3, 1e8));
   auto rv = [&] { return Triple(r.unif(-m, m), r.unif(-m, m), r.unif(-m, m)); };
   Triple a = rv(), b = rv(); V x = vec(a), y = vec(b); c.distinct(c.idx);
   std::ostringstream os; os << std::setprecision(17) << a[0] << "," << a[1] << "," << a[2] << " / " << b[0] << "," << b[1] << "," << b[2]; std::string ctx = os.str(); c.note(ctx);
   VF_CHECK("dot", vf::close(a.dot(b), (double)dot(x, y), 1e-14 * m * m * 3), ctx);
   Triple k = a.cross(b); VF_CHECK("cross", dist(vec(k), cross(x, y)) < 1e-14 * m * m * 6, ctx);
   VF_CHECK("mag", vf::close(a.mag(), (double)mag(x), 0, 1e-14), ctx);
   Triple un = a.unitVector(); VF_CHECK("unit", vf::close(un.mag(), 1, 1e-14) && dist(vec(un), (1 / mag(x)) * x) < 1e-14, ctx);
   VF_CHECK("cos", vf::close(a.cosVector(b), (double)(dot(x, y) / mag(x) / mag(y)), 1e-13) && a.cosVector(a) <= 1 && vf::close(a.cosVector(a), 1, 1e-14), ctx);
   VF_CHECK("sum", dist(vec(a + b), x + y) <= 1e-15 * m * 4 && dist(vec(a - b), x - y) <= 1e-15 * m * 4 && dist(vec(2.5 * a), 2.5L * x) <= 1e-15 * m * 8, ctx);
   double g = r.unif(-720, 720), s = (double)sinl(g*D2R), co = (double)cosl(g*D2R), t = 3e-12 * m;
   Triple r1 = a.R1(g), r2 = a.R2(g), r3 = a.R3(g);
   VF_CHECK("R1", dist(vec(r1), {a[0], co*a[1]+s*a[2], -s*a[1]+co*a[2]}) < t, ctx << " " << g);
   VF_CHECK("R2", dist(vec(r2), {co*a[0]-s*a[2], a[1], s*a[0]+co*a[2]}) < t, ctx << " " << g);
   VF_CHECK("R3", dist(vec(r3), {co*a[0]+s*a[1], -s*a[0]+co*a[1], a[2]}) < t, ctx << " " << g);
   std::vector<double> sv = a.toStdVector(); gpstk::Vector<double> gv = a.toVector();
   VF_CHECK("tovec", sv.size() == 3 && sv[0] == a[0] && sv[1] == a[1] && sv[2] == a[2] && gv.size() == 3 && gv(0) == a[0] && gv(1) == a[1] && gv(2) == a[2], ctx);
   VF_CHECK("eq", a == a && !(a == b), ctx);
   Triple z; VF_THROWS("zero", GeometryException, z.unitVector(), ctx); VF_THROWS("zero", GeometryException, z.cosVector(a), ctx); VF_THROWS("zero", GeometryException, z.azAngle(a), ctx);
   Triple pz(0, 0, m); VF_THROWS("zero", GeometryException, pz.azAngle(a), ctx);
      // radial / along / cross
   if (m > 1)
   {
      RACRotation R(a, b); V ur = (1/mag(x))*x, cr = cross(x, y); if (mag(cr) < 1e-6L * m * m) return; V uc = (1/mag(cr))*cr, ua = cross(uc, ur);
      Triple q = rv(); Triple o = R.convertToRAC(q); V qq = vec(q);
      VF_CHECK("rac", dist(vec(o), {dot(qq, ur), dot(qq, ua), dot(qq, uc)}) < 1e-9 * m, ctx);
      Triple pr = R.convertToRAC(a), vr = R.convertToRAC(b);
      VF_CHECK("rac.self", vf::close(pr[0], a.mag(), 1e-9 * m) && vf::close(pr[1], 0, 1e-9 * m) && vf::close(pr[2], 0, 1e-9 * m) && vf::close(vr[2], 0, 1e-9 * m) && vr[1] > 0, ctx);
      Xvt xv; xv.x = a; xv.v = b; xv.clkbias = 1; xv.clkdrift = 2; xv.relcorr = 3; RACRotation R2(xv); Xvt xo = R2.convertToRAC(xv);
      VF_CHECK("rac.xvt", xo.x == pr && xo.v == vr && xo.clkbias == 1 && xo.clkdrift == 2 && xo.relcorr == 3, ctx);
      VF_THROWS("rac.size", gpstk::Exception, R.convertToRAC(gpstk::Vector<double>(r.pick({2, 4}))), ctx);
   }
}

static void rho(vf::Case& c)
{
   vf::Rng& r = c.rng; GPSEllipsoid g; WGS84Ellipsoid w; const EllipsoidModel& E = r.chance(0.5) ? (const EllipsoidModel&)g : w;
   double lat = rlat(r), lon = rlon(r), h = r.unif(-100, 9000);
   V R = fromGeodetic(lat, lon, h, w.a(), w.eccSquared());
   double a = r.unif(2.0e7, 4.3e7); V S = (ld)a * up(r.unif(-89, 89), r.unif(0, 360));
   Xvt x; x.x = Triple((double)S.x, (double)S.y, (double)S.z); x.v = Triple(r.unif(-4000, 4000), r.unif(-4000, 4000), r.unif(-4000, 4000));
   x.clkbias = r.unif(-1e-3, 1e-3); x.relcorr = r.unif(-5e-8, 5e-8); double corr = r.chance(0.5) ? 0 : r.unif(-100, 100);
   std::ostringstream os; os << std::setprecision(15) << lat << " " << lon << " " << a; std::string ctx = os.str(); c.note(ctx); c.distinct(ctx);
      // light-time equation in an inertial frame, solved to convergence
   ld dt = 0.07, d = 0; for (int i = 0; i < 20; i++) { ld th = -(ld)E.angVelocity() * dt; V q = { S.x*cosl(th) - S.y*sinl(th), S.y*cosl(th) + S.x*sinl(th), S.z }; d = mag(q - R); dt = d / (ld)E.c(); }
   double want = (double)d - (x.clkbias + x.relcorr) * E.c() - corr, got = x.preciseRho(Triple((double)R.x, (double)R.y, (double)R.z), E, corr);
   c.maximum("rho_err_m", std::fabs(got - want));
   VF_CHECK("preciseRho", vf::close(got, want, 5e-3), ctx << " got " << got << " want " << want);
   double rc = x.computeRelativityCorrection(), wr = -2 * (double)(dot(S, vec(x.v)) / ((ld)299792458 * 299792458));
   VF_CHECK("relativity", vf::close(rc, wr, 1e-18, 1e-10) && x.relcorr == rc, ctx);
}
int main(int argc, char** argv)
{ return vf::run(argc, argv, { {"look", 30000, 2000000, look}, {"ipp", 30000, 2000000, ipp}, {"triple", 30000, 2000000, triple}, {"rho", 30000, 2000000, rho} }); }
