// C29: corrected ephemeris ranges, observed range deviations, receiver clock models
#include "vf.hpp"
#include "EphemerisRange.hpp"
#include "ord.hpp"
#include "ObsRngDev.hpp"
#include "ORDEpoch.hpp"
#include "EpochClockModel.hpp"
#include "LinearClockModel.hpp"
#include "ObsEpochMap.hpp"
#include "XvtStore.hpp"
#include "GPSEphemerisStore.hpp"
#include "NBTropModel.hpp"
#include "SimpleTropModel.hpp"
#include "IonoModelStore.hpp"
#include "WGS84Ellipsoid.hpp"
#include "GPSEllipsoid.hpp"
#include "GPSWeekSecond.hpp"
#include "YDSTime.hpp"
#include "Position.hpp"
using namespace gpstk;
typedef long double ld;
static const double CL = 299792458.0, OM = 7.292115e-5, D2R = 0.017453292519943295;

struct Orb { double x[3], v[3], clk, drift; };
class Store : public XvtStore<SatID>
{
public:
   std::map<SatID, Orb> o; CommonTime t0; double from = -1e18, to = 1e18; mutable size_t calls = 0;
   Xvt at(const Orb& q, const CommonTime& t) const { Xvt p; double d = t - t0; for (int i = 0; i < 3; i++) { p.x[i] = q.x[i] + q.v[i] * d; p.v[i] = q.v[i]; } p.clkbias = q.clk + q.drift * d; p.clkdrift = q.drift; p.relcorr = -2 * (p.x[0] * p.v[0] + p.x[1] * p.v[1] + p.x[2] * p.v[2]) / CL / CL; return p; }
   Xvt getXvt(const SatID& id, const CommonTime& t) const { calls++; auto i = o.find(id); if (i == o.end() || t - t0 < from || t - t0 > to) { InvalidRequest e("no ephemeris"); GPSTK_THROW(e); } return at(i->second, t); }
   Xvt computeXvt(const SatID&, const CommonTime&) const throw() { return Xvt(); }
   Xvt::HealthStatus getSVHealth(const SatID&, const CommonTime&) const throw() { return Xvt::HealthStatus::Unknown; }
   void dump(std::ostream&, short) const {}
   void edit(const CommonTime&, const CommonTime&) {}
   void clear() { o.clear(); }
   TimeSystem getTimeSystem() const { return TimeSystem::GPS; }
   CommonTime getInitialTime() const { return CommonTime::BEGINNING_OF_TIME; }
   CommonTime getFinalTime() const { return CommonTime::END_OF_TIME; }
   bool hasVelocity() const { return true; }
   bool isPresent(const SatID& id) const { return o.count(id) > 0; }
   std::set<SatID> getIndexSet() const { std::set<SatID> s; for (auto& q : o) s.insert(q.first); return s; }
};
struct Truth { double x[3], v[3], raw, clk, drift, rel, out, el, az, elg, azg; CommonTime tx; };
struct Scene { Store st; SatID sat; CommonTime t; double rx[3], lat, lon; Position P; std::string ds; };

static void angles(const double* rx, const double* s, const double* up, double& el, double& az)
{
   double d[3], n = 0; for (int i = 0; i < 3; i++) { d[i] = s[i] - rx[i]; n += d[i] * d[i]; } n = std::sqrt(n); double p = std::hypot(up[0], up[1]), e[3] = {-up[1] / p, up[0] / p, 0}, N[3] = {-up[2] * up[0] / p, -up[2] * up[1] / p, p}; double u = 0, E = 0, M = 0; for (int i = 0; i < 3; i++) { u += d[i] * up[i]; E += d[i] * e[i]; M += d[i] * N[i]; } el = std::atan2(u, std::hypot(E, M)) / D2R; az = std::atan2(E, M) / D2R; if (az < 0) az += 360;
}
// what the satellite at x (at transmission) looks like to the receiver a flight time tau later
static Truth finish(const Scene& s, const Xvt& p, double tau)
{
   Truth q; double a = OM * tau; q.x[0] = std::cos(a) * p.x[0] + std::sin(a) * p.x[1]; q.x[1] = -std::sin(a) * p.x[0] + std::cos(a) * p.x[1]; q.x[2] = p.x[2]; q.v[0] = std::cos(a) * p.v[0] + std::sin(a) * p.v[1]; q.v[1] = -std::sin(a) * p.v[0] + std::cos(a) * p.v[1]; q.v[2] = p.v[2];
   q.raw = std::sqrt((q.x[0] - s.rx[0]) * (q.x[0] - s.rx[0]) + (q.x[1] - s.rx[1]) * (q.x[1] - s.rx[1]) + (q.x[2] - s.rx[2]) * (q.x[2] - s.rx[2])); q.clk = p.clkbias * CL; q.drift = p.clkdrift * CL; q.rel = p.relcorr * CL; q.out = q.raw - q.clk - q.rel;
   double r = std::sqrt(s.rx[0] * s.rx[0] + s.rx[1] * s.rx[1] + s.rx[2] * s.rx[2]), up[3] = {s.rx[0] / r, s.rx[1] / r, s.rx[2] / r}, g[3] = {std::cos(s.lat) * std::cos(s.lon), std::cos(s.lat) * std::sin(s.lon), std::sin(s.lat)}; angles(s.rx, q.x, up, q.el, q.az); angles(s.rx, q.x, g, q.elg, q.azg); return q;
}
static double flight(const Scene& s, const Xvt& p) { double tau = 0.075; for (int k = 0; k < 8; k++) tau = finish(s, p, tau).raw / CL; return tau; }
static Truth atReceive(const Scene& s, const Orb& q) { double tau = 0.075; Xvt p; CommonTime t; for (int k = 0; k < 8; k++) { t = s.t; t -= tau; p = s.st.at(q, t); tau = finish(s, p, tau).raw / CL; } Truth z = finish(s, p, tau); z.tx = t; return z; }
static Truth atTransmit(const Scene& s, const Orb& q, double pr) { CommonTime n = s.t; n -= pr / CL; CommonTime t = n; Xvt p; for (int k = 0; k < 4; k++) { p = s.st.at(q, t); t = n; t -= p.clkbias + p.relcorr; } Truth z = finish(s, p, flight(s, p)); z.tx = n; return z; }
static Scene scene(vf::Rng& r)
{
   Scene s; s.t = GPSWeekSecond((int)r.range(1000, 2300), (double)r.range(0, 604799) + (r.chance(0.5) ? 0 : r.unit()), TimeSystem::GPS).convertToCommonTime(); s.st.t0 = s.t; s.st.t0 += (r.unit() - 0.5) * 2;
   s.lat = (r.unit() - 0.5) * 3.1; s.lon = r.unit() * 6.283; double h = r.chance(0.8) ? -100 + r.unit() * 9000 : r.unit() * 800e3, a = 6378137, e2 = 0.00669437999014, N = a / std::sqrt(1 - e2 * std::sin(s.lat) * std::sin(s.lat)); s.rx[0] = (N + h) * std::cos(s.lat) * std::cos(s.lon); s.rx[1] = (N + h) * std::cos(s.lat) * std::sin(s.lon); s.rx[2] = (N * (1 - e2) + h) * std::sin(s.lat);
   s.P = Position(s.rx[0], s.rx[1], s.rx[2]); int k = (int)r.range(0, 3); if (k == 1) s.P.transformTo(Position::Geodetic); if (k == 2) s.P.transformTo(Position::Geocentric); if (k == 3) s.P.transformTo(Position::Spherical);
   std::vector<SatelliteSystem> sy = {SatelliteSystem::GPS, SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::Glonass, SatelliteSystem::BeiDou}; s.sat = SatID((int)r.range(1, 32), r.pick(sy)); for (int i = 0; i < 4; i++) { Orb q; double z = 2 * r.unit() - 1, w = r.unit() * 6.2831853, R = r.chance(0.8) ? 25e6 + r.unit() * 3e6 : 42.2e6; double g = std::sqrt(1 - z * z); q.x[0] = R * g * std::cos(w); q.x[1] = R * g * std::sin(w); q.x[2] = R * z; for (int j = 0; j < 3; j++) q.v[j] = (r.unit() - 0.5) * 6000; q.clk = r.chance(0.1) ? 0 : (r.unit() - 0.5) * 2e-3; q.drift = (r.unit() - 0.5) * 1e-10; SatID id = i ? SatID((int)r.range(33, 60), s.sat.system) : s.sat; s.st.o[id] = q; }
   std::ostringstream o; o.precision(13); o << (int)s.sat.system << ":" << s.sat.id << " rx " << s.rx[0] << "," << s.rx[1] << "," << s.rx[2] << " given as system " << k << " t " << s.t; s.ds = o.str(); return s;
}
static bool sky(double a, double b, double el, double tol) { double d = std::fabs(a - b); d = std::min(d, 360 - d); return d * std::cos(el * D2R) < tol; }
static std::string cmp(const CorrectedEphemerisRange& c, double out, const Truth& q, const Scene& s, double tol, double vt)
{
   std::ostringstream o; o.precision(14); auto bad = [&](const char* w, double a, double b, double t) { if (!(std::fabs(a - b) <= t)) o << " " << w << " " << a << " not " << b; };
   bad("range", c.rawrange, q.raw, tol); bad("clock", c.svclkbias, q.clk, 1e-6); bad("drift", c.svclkdrift, q.drift, 1e-12); bad("relativity", c.relativity, q.rel, vt); bad("corrected", out, q.out, tol + vt); for (int i = 0; i < 3; i++) { bad("position", c.svPosVel.x[i], q.x[i], tol * 2); bad("velocity", c.svPosVel.v[i], q.v[i], vt > 1e-3 ? 0.05 : 1e-6); bad("cosine", c.cosines.theArray[i], (s.rx[i] - q.x[i]) / q.raw, 1e-9); } bad("elevation", c.elevation, q.el, 1e-6); bad("geodetic elevation", c.elevationGeodetic, q.elg, 1e-6); if (!sky(c.azimuth, q.az, q.el, 1e-6)) bad("azimuth", c.azimuth, q.az, 0); if (!sky(c.azimuthGeodetic, q.azg, q.elg, 1e-6)) bad("geodetic azimuth", c.azimuthGeodetic, q.azg, 0); bad("transmit", c.transmit - q.tx, 0, tol > 1e-2 ? 1e-5 : 1e-6); return o.str();
}
struct CER { alignas(16) char mem[sizeof(CorrectedEphemerisRange)]; CorrectedEphemerisRange& c; static CorrectedEphemerisRange& mk(void* m) { std::memset(m, 0xa5, sizeof(CorrectedEphemerisRange)); return *new (m) CorrectedEphemerisRange; } CER() : c(mk(mem)) {} ~CER() { c.~CorrectedEphemerisRange(); } };
static std::string xcmp(const Xvt& a, const Xvt& b) { std::ostringstream o; o.precision(15); for (int i = 0; i < 3; i++) { if (std::fabs(a.x[i] - b.x[i]) > 1e-5) o << " x" << i << " " << a.x[i] << " not " << b.x[i]; if (std::fabs(a.v[i] - b.v[i]) > 1e-7) o << " v" << i << " " << a.v[i] << " not " << b.v[i]; } if (std::fabs(a.clkbias - b.clkbias) > 1e-15 || std::fabs(a.clkdrift - b.clkdrift) > 1e-18) o << " clock"; return o.str(); }

static void ranges(vf::Case& c)
{
   vf::Rng& r = c.rng; Scene s = scene(r); c.note(s.ds); c.distinct(s.ds); c.sample(s.ds); const Orb& q = s.st.o[s.sat]; GPSEllipsoid ell; Xvt x; std::string e;
   { CER k; Truth z = atReceive(s, q); double o = k.c.ComputeAtReceiveTime(s.t, s.P, s.sat, s.st); e = cmp(k.c, o, z, s, 2e-3, 1e-5); VF_CHECK("cer.receive", e.empty(), s.ds << e); double w = ord::RawRange1(s.P, s.sat, s.t, s.st, x); VF_CHECK("ord.range1", std::fabs(w - k.c.rawrange) < 1e-6, s.ds << " " << w << " not " << k.c.rawrange); e = xcmp(x, k.c.svPosVel); VF_CHECK("ord.xvt1", e.empty(), s.ds << e); VF_CHECK("ord.clock", std::fabs(ord::SvClockBiasCorrection(x) + z.clk) < 1e-6, s.ds); VF_CHECK("ord.relativity", std::fabs(ord::SvRelativityCorrection(x) + z.rel) < 1e-6, s.ds); c.count("receive"); }
   double rxclk = (r.unit() - 0.5) * (r.chance(0.5) ? 2e-3 : 2e-6) * CL; Truth z0 = atReceive(s, q); double pr = z0.out + rxclk;
   { CER k; Truth z = atTransmit(s, q, pr); double o = k.c.ComputeAtTransmitTime(s.t, pr, s.P, s.sat, s.st); e = cmp(k.c, o, z, s, 2e-3, 1e-5); VF_CHECK("cer.transmit", e.empty(), s.ds << " pr " << pr << e); double w = ord::RawRange2(pr, s.P, s.sat, s.t, s.st, x); VF_CHECK("ord.range2", std::fabs(w - k.c.rawrange) < 1e-6, s.ds << " " << w << " not " << k.c.rawrange); e = xcmp(x, k.c.svPosVel); VF_CHECK("ord.xvt2", e.empty(), s.ds << e); }
   { CER k; Truth z = atReceive(s, q); z.tx = s.t; z.tx -= z.out / CL; double o = k.c.ComputeAtTransmitTime(s.t, s.P, s.sat, s.st); e = cmp(k.c, o, z, s, 2e-2, 1e-5); VF_CHECK("cer.nopr", e.empty(), s.ds << e); double w = ord::RawRange4(s.P, s.sat, s.t, s.st, x); VF_CHECK("ord.range4", std::fabs(w - k.c.rawrange) < 1e-6, s.ds << " " << w << " not " << k.c.rawrange); e = xcmp(x, k.c.svPosVel); VF_CHECK("ord.xvt4", e.empty(), s.ds << e); }
   { CER k; Xvt p = s.st.at(q, s.t); Truth z = finish(s, p, flight(s, p)); z.tx = s.t; double m = z.out + rxclk / 1000; double o = k.c.ComputeAtTransmitSvTime(s.t, m, s.P, s.sat, s.st); e = cmp(k.c, o, z, s, 5e-3, 2e-2); VF_CHECK("cer.svtime", e.empty(), s.ds << " pr " << m << e); double w = ord::RawRange3(m, s.P, s.sat, s.t, s.st, x); VF_CHECK("ord.range3", std::fabs(w - k.c.rawrange) < 1e-6, s.ds << " " << w << " not " << k.c.rawrange); e = xcmp(x, k.c.svPosVel); VF_CHECK("ord.xvt3", e.empty(), s.ds << e); }
   { Xvt p = s.st.at(q, s.t); double corr = (r.unit() - 0.5) * 100, t = finish(s, p, flight(s, p)).out - corr; double g = p.preciseRho(Triple(s.rx[0], s.rx[1], s.rx[2]), ell, corr); VF_CHECK("xvt.preciserho", std::fabs(g - t) < 5e-3, s.ds << " " << g - t); Xvt w = p; w.relcorr = 1; double y = w.computeRelativityCorrection(); VF_CHECK("xvt.relativity", y == w.relcorr && std::fabs(y - p.relcorr) < 1e-16, s.ds << " " << y << " not " << p.relcorr); VF_CHECK("ord.getsv", xcmp(ord::getSvXvt(s.sat, s.t, s.st), p).empty(), s.ds); }
   { SatID no(99, s.sat.system); CorrectedEphemerisRange k; VF_THROWS("none", InvalidRequest, k.ComputeAtReceiveTime(s.t, s.P, no, s.st), s.ds); VF_THROWS("none", InvalidRequest, k.ComputeAtTransmitTime(s.t, pr, s.P, no, s.st), s.ds); VF_THROWS("none", InvalidRequest, k.ComputeAtTransmitTime(s.t, s.P, no, s.st), s.ds); VF_THROWS("none", InvalidRequest, k.ComputeAtTransmitSvTime(s.t, pr, s.P, no, s.st), s.ds); VF_THROWS("none", InvalidRequest, ord::RawRange1(s.P, no, s.t, s.st, x), s.ds); VF_THROWS("none", InvalidRequest, ord::RawRange2(pr, s.P, no, s.t, s.st, x), s.ds); VF_THROWS("none", InvalidRequest, ord::RawRange3(pr, s.P, no, s.t, s.st, x), s.ds); VF_THROWS("none", InvalidRequest, ord::RawRange4(s.P, no, s.t, s.st, x), s.ds); }
   // dual frequency: the same range on both gives it back, and a delay proportional to 1/f^2 goes away
   { std::vector<double> f = {1e9 + r.unit() * 1e9, 1e9 + r.unit() * 1e9}, p(2); if (std::fabs(f[0] - f[1]) > 1e7) { double I = (r.unit() - 0.2) * 100; for (int i = 0; i < 2; i++) p[i] = pr + I * 1e18 / f[i] / f[i]; double g = ord::IonosphereFreeRange(f, p); VF_CHECK("ord.ionofree", std::fabs(g - pr) < 1e-4, s.ds << " " << g << " not " << pr); } p.push_back(1); VF_THROWS("ord.ionosize", Exception, ord::IonosphereFreeRange(f, p), ""); f.push_back(1); VF_THROWS("ord.ionosize", Exception, ord::IonosphereFreeRange(f, p), ""); f.resize(1); p.resize(1); VF_THROWS("ord.ionosize", Exception, ord::IonosphereFreeRange(f, p), ""); f.clear(); p.clear(); VF_THROWS("ord.ionosize", Exception, ord::IonosphereFreeRange(f, p), ""); }
}
static bool okv(const vdouble& v, double w, double tol) { return v.is_valid() && std::fabs((double)v - w) <= tol; }
static void ordcalc(vf::Case& c)
{
   vf::Rng& r = c.rng; Scene s = scene(r); const Orb& q = s.st.o[s.sat]; WGS84Ellipsoid em; bool sv = r.chance(0.4); double rc = (r.unit() - 0.5) * (sv ? 2e-6 : 2e-3) * CL; int kind = (int)r.range(0, 5); double gamma = r.chance(0.5) ? GAMMA_GPS : 1.2 + r.unit(), ion1 = r.unit() * 30; Truth z0 = atReceive(s, q); double t; Xvt p0 = s.st.at(q, s.t); t = sv ? finish(s, p0, flight(s, p0)).out : z0.out; double pr = t + rc; Truth z = sv ? finish(s, p0, flight(s, p0)) : atTransmit(s, q, pr);
   std::ostringstream o; o << s.ds << " kind " << kind << (sv ? " SV time" : " receive time") << " gamma " << gamma; c.note(o.str()); c.distinct(o.str()); c.sample(o.str()); std::string ds = o.str(); c.count("kind" + std::to_string(kind));
   double gh; { double a = 6378137, e2 = 0.00669437999014, N = a / std::sqrt(1 - e2 * std::sin(s.lat) * std::sin(s.lat)); gh = std::hypot(s.rx[0], s.rx[1]) / std::cos(s.lat) - N; } Position gx(s.rx[0], s.rx[1], s.rx[2]); gx.asGeodetic(&em);
   IonoModelStore is; { double al[4] = {1e-8, 1e-8, -5e-8, 0}, be[4] = {1e5, 1e5, -1e5, 0}; al[0] = r.unit() * 3e-8; be[0] = 8e4 + r.unit() * 6e4; CommonTime t1 = s.t; t1 -= 3600; is.addIonoModel(t1, IonoModel(al, be)); }
   CarrierBand band = r.chance(0.5) ? CarrierBand::L1 : CarrierBand::L2; NBTropModel nb(gh, s.lat / D2R, (int)YDSTime(s.t).doy); SimpleTropModel simple(10 + r.unit() * 20, 950 + r.unit() * 80, r.unit() * 90); bool nbt = kind == 0 || kind == 1 || kind == 4; ObsRngDev d; double r1 = pr + ion1, r2 = pr + ion1 * gamma; bool thrown = false; const TropModel& tm = simple;
   try {
      if (kind == 0) d = ObsRngDev(pr, s.sat, s.t, s.P, s.st, em, sv); if (kind == 1) d = ObsRngDev(pr, s.sat, s.t, s.P, s.st, em, is, band, sv); if (kind == 2) d = ObsRngDev(pr, s.sat, s.t, s.P, s.st, em, tm, sv); if (kind == 3) d = ObsRngDev(pr, s.sat, s.t, s.P, s.st, em, tm, is, band, sv); if (kind == 4) d = ObsRngDev(r1, r2, s.sat, s.t, s.P, s.st, em, sv, gamma); if (kind == 5) d = ObsRngDev(r1, r2, s.sat, s.t, s.P, s.st, em, tm, sv, gamma);
   } catch (InvalidRequest& e) { thrown = true; VF_CHECK("ord.throw", false, ds << " threw " << e.what()); }
   if (thrown) return; if (std::fabs(z.el) < 0.01 || std::fabs(z.el + 19.8) < 3 || std::fabs(std::fabs(gh)) > 44000) { c.count("edge"); return; }
   double trop = (nbt ? (TropModel&)nb : (TropModel&)simple).correction((float)z.el), rho = z.out, want = pr - rho - trop, iono = 0; bool has = true; if (kind == 1 || kind == 3) { iono = is.getCorrection(s.t, gx, z.el, z.az, band); want -= iono; } else if (kind >= 4) iono = ion1; else has = false;
   double tol = 0.03 + std::fabs(trop) * 1e-5 + (nbt ? 1e-6 * std::fabs(trop) : 0) + (z.el < 0 ? 1e-2 : 1e-4) * std::fabs(iono) + (z.el < 3 ? std::fabs(trop) * 1e-3 : 0);
   VF_CHECK("ord.value", std::fabs(d.getORD() - want) < tol, ds << " ORD " << d.getORD() << " not " << want << " trop " << trop << " iono " << iono << " el " << z.el); VF_CHECK("ord.rho", okv(d.rho, rho, 0.026), ds << " rho " << (double)d.rho - rho); VF_CHECK("ord.trop", okv(d.getTrop(), trop, tol), ds << " trop " << (double)d.getTrop() << " not " << trop); if (has) VF_CHECK("ord.iono", okv(d.getIono(), iono, 0.001 + (z.el < 0 ? 1e-2 : 1e-4) * std::fabs(iono)), ds << " iono " << d.getIono() << " not " << iono); else VF_CHECK("ord.iono", !d.getIono().is_valid(), ds); VF_CHECK("ord.angles", d.getElevation().is_valid() && std::fabs((float)d.getElevation() - z.el) < 1e-4 && sky((float)d.getAzimuth(), z.az, z.el, 1e-3), ds << " el " << d.getElevation() << " az " << d.getAzimuth()); VF_CHECK("ord.id", d.getTime() == s.t && d.getSvID() == s.sat && d.wonky == 0 && !d.getHealth().is_valid() && !d.getIODC().is_valid(), ds);
   double before = d.getORD(), off = (r.unit() - 0.5) * 1000; d.applyClockOffset(off); VF_CHECK("ord.offset", std::fabs(d.getORD() - (before - off)) < 1e-9, ds); std::ostringstream w; std::ios::fmtflags fl = w.flags(); w << d; VF_CHECK("ord.print", w.flags() == fl && w.str().find(" prn=") != std::string::npos, ds << " " << w.str());
   { Position S(z.x[0], z.x[1], z.x[2]); Xvt x = p0; for (int i = 0; i < 3; i++) x.x[i] = z.x[i]; double a = ord::TroposphereCorrection(tm, s.P, x), b = simple.correction(z.el); VF_CHECK("ord.tropcorr", std::fabs(a - b) < 1e-4 + 1e-6 * std::fabs(b), ds << " " << a << " not " << b); double e = ord::IonosphereModelCorrection(is, s.t, band, s.P, x), f = is.getCorrection(s.t, Position(s.rx[0], s.rx[1], s.rx[2]), z.el, z.az, band); VF_CHECK("ord.ionocorr", std::fabs(e + f) < 1e-6 + (z.el < 0 ? 1e-2 : 1e-4) * f, ds << " " << e << " not " << -f); }
   SatID no(99, s.sat.system); VF_THROWS("ord.none", InvalidRequest, ObsRngDev(pr, no, s.t, s.P, s.st, em, tm, sv), ds); VF_THROWS("ord.none", InvalidRequest, ObsRngDev(r1, r2, no, s.t, s.P, s.st, em, tm, sv, gamma), ds);
}
// with a GPS broadcast store the deviation carries the health and IODC of the ephemeris used
static void gps(vf::Case& c)
{
   vf::Rng& r = c.rng; GPSEphemerisStore st; int wk = (int)r.range(1100, 2300); double toe0 = 7200.0 * r.range(3, 70); SatID sat((int)r.range(1, 32), SatelliteSystem::GPS); int n = (int)r.range(1, 3); std::map<int, std::pair<int, int>> all; WGS84Ellipsoid em;
   for (int i = 0; i < n; i++) { GPSEphemeris e; e.satID = sat; e.ctToe = GPSWeekSecond(wk, toe0 + 7200.0 * i, TimeSystem::GPS); e.ctToc = e.ctToe; e.transmitTime = e.ctToe; e.transmitTime -= 7200 - r.range(0, 600) * 6; e.HOWtime = GPSWeekSecond(e.transmitTime).sow; e.A = 26560e3; e.ecc = 0.01 * r.unit(); e.i0 = 0.96; e.OMEGA0 = r.unit() * 6 - 3; e.w = r.unit() * 6 - 3; e.M0 = r.unit() * 6 - 3; e.dn = 4e-9; e.OMEGAdot = -8e-9; e.idot = 1e-10; e.Cuc = e.Cus = 1e-6; e.Crc = e.Crs = 100; e.Cic = e.Cis = 1e-7; e.af0 = (r.unit() - 0.5) * 1e-3; e.af1 = 1e-12; e.af2 = 0; e.IODC = (short)r.range(0, 1023); e.IODE = e.IODC % 256; e.health = r.chance(0.5) ? 0 : (short)r.range(1, 63); e.accuracyFlag = 2; e.Tgd = 0; e.codeflags = 1; e.L2Pdata = 0; e.fitDuration = 4; e.fitint = 0; e.beginValid = e.transmitTime; e.endValid = e.ctToe; e.endValid += 7200; e.dataLoadedFlag = true; st.addEphemeris(e); }
   CommonTime t = GPSWeekSecond(wk, toe0 - 3600 + r.unit() * 7200 * n, TimeSystem::GPS).convertToCommonTime(); Position P(6378137.0, 1000, 2000); SimpleTropModel tm; std::ostringstream o; o << sat << " " << t << " of " << n << " ephemerides"; c.note(o.str()); c.distinct(o.str()); c.sample(o.str()); const GPSEphemeris* e = 0; try { e = &st.findEphemeris(sat, t); } catch (InvalidRequest&) {}
   CommonTime tx = t; tx -= 0.08; bool near = false; try { near = e && &st.findEphemeris(sat, tx) == e; tx += 0.16; near = near && &st.findEphemeris(sat, tx) == e; } catch (InvalidRequest&) { near = false; } if (!near) { c.count("edge"); return; }
   CorrectedEphemerisRange k; double v = 0; try { v = k.ComputeAtReceiveTime(t, P, sat, st); } catch (InvalidRequest&) { return; } ObsRngDev d(v, sat, t, P, st, em, tm, false); VF_CHECK("gps.health", d.getHealth().is_valid() && (short)d.getHealth() == e->health, o.str() << " health " << d.getHealth() << " not " << e->health); VF_CHECK("gps.iodc", d.getIODC().is_valid() && (short)d.getIODC() == e->IODC, o.str() << " IODC " << d.getIODC() << " not " << e->IODC); double tr = tm.correction((float)k.elevation); VF_CHECK("gps.value", std::fabs(d.getORD() + tr) < 0.02 + 1e-4 * std::fabs(tr), o.str() << " ORD " << d.getORD() << " trop " << tr); c.count(e->health ? "unhealthy" : "healthy");
}
typedef ObsClockModel OCM;
static ORDEpoch epoch(vf::Rng& r, const CommonTime& t, double clk, double noise, std::ostringstream& o)
{
   ORDEpoch e; e.time = t; int n = (int)r.range(0, 12); for (int i = 0; i < n; i++) { ObsRngDev d; d.obstime = t; SatID id((int)r.range(1, 34), r.chance(0.85) ? SatelliteSystem::GPS : SatelliteSystem::Glonass); d.svid = id; double g = 0; for (int k = 0; k < 6; k++) g += r.unit() - 0.5; d.ord = clk + noise * g + (r.chance(0.1) ? (r.unit() - 0.5) * 40 * noise : 0); d.elevation = (float)(r.chance(0.1) ? 10 : r.unit() * 95 - 5); if (r.chance(0.7)) d.health = (short)(r.chance(0.6) ? 0 : r.range(0, 63)); d.wonky = r.chance(0.1) ? (unsigned)r.range(1, 9) : 0; e.ords[id] = d; o << " " << (int)id.system << ":" << id.id << "=" << d.ord; } return e;
}
struct Want { std::map<SatID, int> st; std::vector<ld> used; double mean = 0; bool edge = false; };
static Want select(const ORDEpoch& e, const std::map<SatID, int>& modes, double mask, bool wonky, double sig)
{
   Want w; std::vector<ld> v; for (auto& q : e.ords) { auto m = modes.find(q.first); int mode = m == modes.end() ? OCM::IGNORE : m->second, s = mode == OCM::IGNORE ? OCM::MANUAL : OCM::USED; short h = q.second.health.is_valid() ? (short)q.second.health : 0; if (mode == OCM::HEALTHY && (h & 0x20)) s = OCM::SVHEALTH; if ((float)q.second.elevation < mask) s = OCM::ELEVATION; if (q.second.wonky && !wonky) s = OCM::WONKY; w.st[q.first] = s; if (s == OCM::USED) v.push_back(q.second.ord); }
   if (v.size() > 2) { ld m = 0, q = 0; for (ld x : v) m += x; m /= v.size(); for (ld x : v) q += (x - m) * (x - m); q = sqrtl(q / (v.size() - 1)); v.clear(); for (auto& z : e.ords) if (w.st[z.first] == OCM::USED) { ld d = fabsl(z.second.ord - m); if (fabsl(d - sig * q) < 1e-9L * (fabsl(m) + 1)) w.edge = true; if (d > sig * q) w.st[z.first] = OCM::SIGMA; else v.push_back(z.second.ord); } }
   ld m = 0; for (ld x : v) m += x; w.used = v; w.mean = v.size() ? (double)(m / v.size()) : 0; return w;
}
static void clockm(vf::Case& c)
{
   vf::Rng& r = c.rng; double sig = r.chance(0.5) ? 2 : r.unit() * 3, mask = r.chance(0.4) ? 0 : r.chance(0.5) ? 10 : r.unit() * 30; OCM::SvMode md = (OCM::SvMode)r.range(0, 2); EpochClockModel m(sig, mask, md); std::map<SatID, int> modes; for (int i = 1; i <= MAX_PRN; i++) modes[SatID(i, SatelliteSystem::GPS)] = md; bool wonky = false; VF_CHECK("clock.init", !m.isOffsetValid() && m.getOffset() == 0 && m.getSigmaMultiplier() == sig && m.getElevationMask() == mask && !m.getUseWonkyData() && m.getSvStatusMap().empty(), "");
   int ne = (int)r.range(1, 5); CommonTime t = GPSWeekSecond((int)r.range(1000, 2300), (double)r.range(0, 604799), TimeSystem::GPS).convertToCommonTime(); std::ostringstream all;
   for (int k = 0; k < ne; k++)
   {
      std::ostringstream o; o << "sigma " << sig << " mask " << mask << " mode " << md; int op = (int)r.range(0, 6);
      if (op == 1) { OCM::SvModeMap mm; int z = (int)r.range(0, 5); for (int i = 0; i < z; i++) mm[SatID((int)r.range(1, 36), r.chance(0.8) ? SatelliteSystem::GPS : SatelliteSystem::Glonass)] = (OCM::SvMode)r.range(0, 2); m.setSvModeMap(mm); for (int i = 1; i <= MAX_PRN; i++) modes[SatID(i, SatelliteSystem::GPS)] = OCM::IGNORE; for (auto& q : mm) modes[q.first] = q.second; }
      if (op == 2) for (int i = 0; i < 6; i++) { SatID id((int)r.range(1, 34), r.chance(0.7) ? SatelliteSystem::GPS : SatelliteSystem::Glonass); OCM::SvMode z = (OCM::SvMode)r.range(0, 2); m.setSvMode(id, z); modes[id] = z; } if (op == 3) { OCM::SvMode z = (OCM::SvMode)r.range(0, 2); m.setSvMode(z); for (int i = 1; i <= MAX_PRN; i++) modes[SatID(i, SatelliteSystem::GPS)] = z; }
      if (op == 4) { wonky = !wonky; m.setUseWonkyData(wonky); } if (op == 5) { mask = r.unit() * 40; m.setElevationMask(mask); sig = r.unit() * 3; m.setSigmaMultiplier(sig); }
      ORDEpoch e = epoch(r, t, (r.unit() - 0.5) * 1e6, std::fabs(r.logmag(1, 1000)), o); if (r.chance(0.15) && !e.ords.empty()) { ObsRngDev d = e.ords.begin()->second; d.svid = SatID(); d.svid.id = -1; e.ords.begin()->second = d; o << " (first without its satellite)"; }
      std::string ds = o.str(); c.note(ds); all << ds << ";"; Want w = select(e, modes, mask, wonky, sig); m.addEpoch(e); if (w.edge) { c.count("edge"); t += 30; continue; } double scale = 1e-9 * 1e6;
      bool ok = m.getSvStatusMap().size() == w.st.size(); std::ostringstream b; for (auto& q : w.st) { int g = -1; try { g = m.getSvStatus(q.first); } catch (ObjectNotFound&) {} if (g != q.second) { ok = false; b << " " << (int)q.first.system << ":" << q.first.id << " status " << g << " not " << q.second; } c.count("status" + std::to_string(q.second)); } VF_CHECK("clock.status", ok, ds << b.str() << " size " << m.getSvStatusMap().size());
      VF_CHECK("clock.offset", std::fabs(m.getOffset() - w.mean) < scale, ds << " offset " << m.getOffset() << " not " << w.mean); VF_CHECK("clock.valid", m.isOffsetValid() == (w.used.size() >= 3) && m.isOffsetValid(t) == (w.used.size() >= 3) && m.getOffset(t) == m.getOffset(), ds << " used " << w.used.size()); CommonTime other = t; other += 1; VF_THROWS("clock.time", InvalidArgumentException, m.getOffset(other), ds); VF_THROWS("clock.time", InvalidArgumentException, m.isOffsetValid(other), ds); SatID no(77, SatelliteSystem::GPS); VF_THROWS("clock.nostatus", ObjectNotFound, m.getSvStatus(no), ds); VF_THROWS("clock.nomode", ObjectNotFound, m.getSvMode(no), ds);
      { Stats<double> st = m.simpleOrdClock(e); VF_CHECK("clock.simple", st.N() == w.used.size() && (st.N() == 0 || std::fabs(st.Average() - w.mean) < scale), ds << " N " << st.N() << " not " << w.used.size()); } for (auto& q : modes) { int g = -1; try { g = m.getSvMode(q.first); } catch (ObjectNotFound&) {} if (g != q.second) { VF_CHECK("clock.mode", false, ds << " mode of " << q.first.id << " " << g << " not " << q.second); break; } }
      // apply it to the epoch
      ORDEpoch f = e; f.applyClockModel(m); bool on = w.used.size() >= 3; ok = f.clockOffset.is_valid() == on && f.ords.size() == e.ords.size(); for (auto& q : e.ords) { double g = f.ords[q.first].ord, want = q.second.ord - (on ? m.getOffset() : 0); if (std::fabs(g - want) > 1e-9) ok = false; } VF_CHECK("epoch.apply", ok, ds << " offset valid " << on); ORDEpoch g = e; g.time += 30; bool threw = false; try { g.applyClockModel(m); } catch (InvalidArgumentException&) { threw = true; } VF_CHECK("epoch.othertime", threw, ds << " no exception for a model of another time"); ok = !g.clockOffset.is_valid(); for (auto& q : e.ords) if (g.ords[q.first].ord != q.second.ord) ok = false; VF_CHECK("epoch.othertime", ok, ds);
      if (!e.ords.empty()) { ORDEpoch h = e; SatID id = e.ords.begin()->first; h.removeORD(no); ok = h.ords.size() == e.ords.size(); h.removeORD(id); VF_CHECK("epoch.remove", ok && h.ords.size() + 1 == e.ords.size() && !h.ords.count(id), ds); h = e; h.removeOffset(5); ok = true; for (auto& q : e.ords) if (std::fabs(h.ords[q.first].ord - q.second.ord + 5) > 1e-9) ok = false; VF_CHECK("epoch.removeoffset", ok && !h.clockOffset.is_valid(), ds); } std::ostringstream pr; pr << e << m; t += r.range(1, 900);
   }
   c.distinct(all.str()); c.sample(all.str());
}
// the linear model: the least squares line through the last half hour of what was used
static void linear(vf::Case& c)
{
   vf::Rng& r = c.rng; LinearClockModel m(r.chance(0.5) ? 2 : 3, 5, OCM::ALWAYS); double sig = m.getSigmaMultiplier(); std::map<SatID, int> modes; for (int i = 1; i <= MAX_PRN; i++) modes[SatID(i, SatelliteSystem::GPS)] = OCM::ALWAYS; CommonTime t = GPSWeekSecond((int)r.range(1000, 2300), (double)r.range(0, 604799), TimeSystem::GPS).convertToCommonTime(); double clk = (r.unit() - 0.5) * 1e4, rate = (r.unit() - 0.5) * 0.1, step = r.chance(0.5) ? 30 : r.range(1, 400); int ne = (int)r.range(1, 40); std::ostringstream all; all << "step " << step << " rate " << rate << " epochs " << ne; std::string ds = all.str(); c.note(ds); c.distinct(ds); c.sample(ds);
   std::streambuf* cb = std::cout.rdbuf(); std::ostringstream sink; std::multimap<ld, ld> obs; CommonTime base, start, end; int toss = 0; bool edge = false; struct Restore { std::streambuf* b; ~Restore() { std::cout.rdbuf(b); } } rest{cb}; auto fit = [&](ld& a, ld& b, ld& span) { ld mx = 0, my = 0, n = obs.size(), xx = 0, xy = 0; for (auto& q : obs) { mx += q.first; my += q.second; } mx /= n; my /= n; for (auto& q : obs) { xx += (q.first - mx) * (q.first - mx); xy += (q.first - mx) * (q.second - my); } span = sqrtl(xx / n); b = xx > 0 ? xy / xx : 0; a = my - b * mx; };
   { std::ostringstream w; m.dump(w, 1); m.dump(w, 0); VF_CHECK("linear.empty", !m.isOffsetValid(t) && m.getOffset(t) == 0, ds); }
   for (int k = 0; k < ne; k++)
   {
      std::ostringstream o; if (r.chance(0.04)) clk += 300; if (r.chance(0.05)) { t += 1900; clk += 1900 * rate; } ORDEpoch e = epoch(r, t, clk, 1 + r.unit(), o); Want w = select(e, modes, 5, false, sig); if (w.edge) edge = true; std::cout.rdbuf(sink.rdbuf()); m.addEpoch(e); std::cout.rdbuf(cb); sink.str("");
      if (obs.empty()) { start = end = base = t; toss = 0; } ld dt = t - base; if (t < start) start = t; if (t > end) end = t; ld a, b, sp; ld mean = w.mean; if (obs.size() > 24) { fit(a, b, sp); mean = a + b * dt; } ld d = fabsl(w.mean - mean); if (fabsl(d - 20) < 1e-4L) edge = true; bool reset = false; if (d > 20) { c.count("tossed"); if (++toss > 5) { obs.clear(); toss = 0; reset = true; c.count("reset"); } } else { toss = 0; for (ld x : w.used) obs.insert(std::make_pair(dt, x)); }
      if (reset) { start = CommonTime::END_OF_TIME; end = CommonTime::BEGINNING_OF_TIME; } else while (!obs.empty() && dt - obs.begin()->first > 1800) obs.erase(obs.begin()); if (edge) { c.count("edge"); return; }
      std::ostringstream q; m.dump(q, 1); q << m; bool val = !reset && obs.size() > 1; VF_CHECK("linear.valid", m.isOffsetValid(t) == val, ds << " epoch " << k << " valid " << m.isOffsetValid(t) << " with " << obs.size()); if (val) { fit(a, b, sp); if (sp > 0.5) { double g = m.getOffset(t); ld want = a + b * dt; c.maximum("linear_error", (double)fabsl(g - want)); VF_CHECK("linear.offset", fabsl(g - want) < 1e-3, ds << " epoch " << k << " offset " << g << " not " << (double)want << " from " << obs.size()); CommonTime mid = start; mid += (end - start) / 2; VF_CHECK("linear.mid", fabsl(m.getOffset(mid) - (a + b * (mid - base))) < 1e-3, ds); } } CommonTime z = t; z += 1; VF_CHECK("linear.beyond", !m.isOffsetValid(z) && m.getOffset(z) == 0, ds); if (!reset) { z = start; z -= 1; VF_CHECK("linear.beyond", !m.isOffsetValid(z) && m.getOffset(z) == 0, ds); }
      t += step; clk += step * rate; if (r.chance(0.02)) { m.reset(); obs.clear(); start = CommonTime::END_OF_TIME; end = CommonTime::BEGINNING_OF_TIME; toss = 0; VF_CHECK("linear.reset", !m.isOffsetValid(t), ds); std::ostringstream y; m.dump(y, 1); }
   }
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"range", 3000, 60000, ranges}, {"ordcalc", 3000, 60000, ordcalc}, {"gps", 1500, 20000, gps}, {"clock", 2500, 40000, clockm}, {"linear", 800, 15000, linear}}); }
