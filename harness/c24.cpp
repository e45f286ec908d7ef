// C24: almanacs - files, broadcast pages, orbits and stores
#include "vf.hpp"
#include "kepler.hpp"
#include "OrbAlmGen.hpp"
#include "OrbAlmStore.hpp"
#include "OrbAlmFactory.hpp"
#include "GPSAlmanacStore.hpp"
#include "YumaAlmanacStore.hpp"
#include "SEMAlmanacStore.hpp"
#include "YumaStream.hpp"
#include "SEMStream.hpp"
#include "GPSWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
using namespace gpstk;
static const long W = 604800;
static const double DPI = 3.14159265358979;
static CommonTime at(double s) { CommonTime z = GPSWeekSecond(0, 0.0, TimeSystem::GPS); long d = (long)std::floor(s / 86400); z.addDays(d); z += s - 86400.0 * d; return z; }
static double since(const CommonTime& t) { CommonTime z = GPSWeekSecond(0, 0.0, TimeSystem::GPS); z.setTimeSystem(t.getTimeSystem()); return t - z; }
struct A { int prn, week, health; long toa; double ecc, di, Od, ah, O0, w, M0, af0, af1; };
static A gen(vf::Rng& r)
{
   A a; a.prn = (int)r.range(1, 32); a.week = (int)r.range(1, 2500); a.health = r.chance(0.3) ? (int)r.range(1, 255) : 0; a.toa = 4096 * r.range(0, 147); a.ecc = r.chance(0.05) ? 0 : r.unit() * 0.03; a.di = (r.unit() - 0.5) * 0.1; a.Od = -r.unit() * 1e-8; a.ah = r.chance(0.5) ? 5153 + r.unit() * 2 : r.unif(4000, 8190);
   auto ang = [&] { return r.chance(0.05) ? 0.0 : (r.unit() - 0.5) * 2 * DPI; }; a.O0 = ang(); a.w = ang(); a.M0 = ang(); a.af0 = (r.unit() - 0.5) * 2e-3; a.af1 = r.chance(0.2) ? 0 : (r.unit() - 0.5) * 1e-10; return a;
}
static std::string show(const A& a) { std::ostringstream o; o.precision(12); o << "PRN " << a.prn << " week " << a.week << " toa " << a.toa << " h " << a.health << " e " << a.ecc << " di " << a.di << " Od " << a.Od << " ah " << a.ah << " O0 " << a.O0 << " w " << a.w << " M0 " << a.M0 << " af0 " << a.af0 << " af1 " << a.af1; return o.str(); }
static OrbAlmGen alm(const A& a, int xmit, double begin, double end)
{
   OrbAlmGen o; o.AHalf = a.ah; o.A = a.ah * a.ah; o.af0 = a.af0; o.af1 = a.af1; o.OMEGA0 = a.O0; o.ecc = a.ecc; o.deltai = a.di; o.i0 = 0.3 * DPI + a.di; o.OMEGAdot = a.Od; o.w = a.w; o.M0 = a.M0; o.toa = a.toa; o.health = a.health; o.subjectSV = SatID(a.prn, SatelliteSystem::GPS); o.satID = SatID(xmit, SatelliteSystem::GPS);
   o.ctToe = at(a.week * (double)W + a.toa); o.beginValid = at(begin); o.endValid = at(end); o.dataLoadedFlag = true; o.setHealthy(a.health == 0); o.obsID = ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA); return o;
}
static kep::El el(const A& a, double i0) { kep::El k; k.mu = 3.986005e14L; k.om = 7.2921151467e-5L; k.toeSow = a.toa; k.M0 = a.M0; k.dn = k.dndot = k.Adot = k.idot = k.Cuc = k.Cus = k.Crc = k.Crs = k.Cic = k.Cis = 0; k.e = a.ecc; k.A = (long double)a.ah * a.ah; k.O0 = a.O0; k.i0 = i0; k.w = a.w; k.Od = a.Od; k.geo = false; return k; }
// position, velocity, clock and relativity of an almanac object against an independent evaluation
static void orbit(vf::Case& c, const std::string& who, const A& a, const OrbAlmGen& o, double dt, double tolp)
{
   kep::El k = el(a, 0.3L * kep::PIL + a.di); CommonTime t = o.ctToe; t += dt; dt = t - o.ctToe; Xvt x = o.svXvt(t); kep::V3 p = kep::pos(k, dt, dt), v = kep::vel(k, dt);
   double dp = std::sqrt((double)((x.x[0] - p.x) * (x.x[0] - p.x) + (x.x[1] - p.y) * (x.x[1] - p.y) + (x.x[2] - p.z) * (x.x[2] - p.z))), dv = std::sqrt((double)((x.v[0] - v.x) * (x.v[0] - v.x) + (x.v[1] - v.y) * (x.v[1] - v.y) + (x.v[2] - v.z) * (x.v[2] - v.z)));
   c.maximum("pos_err_m:" + who, dp); VF_CHECK("pos." + who, dp < tolp, show(a) << " dt " << dt << " got " << x.x << " off by " << dp); VF_CHECK("vel." + who, dv < tolp * 5e-3, show(a) << " dt " << dt << " got " << x.v << " off by " << dv);
   double b = a.af0 + a.af1 * dt, rl = (double)kep::rel(k, dt); VF_CHECK("clock." + who, vf::close(o.svClockBias(t), b, 1e-16, 1e-12) && x.clkbias == o.svClockBias(t) && vf::close(x.clkdrift, a.af1, 1e-25, 1e-12) && o.svClockDrift(t) == x.clkdrift && vf::close(o.svClockBiasM(t), b * 299792458.0, 1e-7, 1e-12), show(a) << " " << x.clkbias << " want " << b);
   VF_CHECK("rel." + who, std::fabs(x.relcorr - rl) < 1e-16 + tolp * 1e-13 && x.relcorr == o.svRelativity(t), show(a) << " " << x.relcorr << " want " << rl); VF_CHECK("health." + who, (x.health == Xvt::Healthy) == (a.health == 0) && o.isHealthy() == (a.health == 0), show(a));
}
static void same(const std::string& key, const A& a, const OrbAlmGen& o, const std::string& ds, double tol)
{
   auto ck = [&](const char* n, double got, double want, double abs) { VF_CHECK(key + "." + n, std::fabs(got - want) <= abs + tol * std::fabs(want), ds << " " << n << " " << got << " want " << want); };
   ck("ecc", o.ecc, a.ecc, 0); ck("deltai", o.deltai, a.di, 1e-9 * (tol > 0)); ck("i0", o.i0, 0.3 * DPI + a.di, 1e-9 * (tol > 0) + 1e-13); ck("OMEGAdot", o.OMEGAdot, a.Od, 0); ck("AHalf", o.AHalf, a.ah, 6e-7 * (tol > 0)); ck("A", o.A, a.ah * a.ah, 1e-2 * (tol > 0) + 1e-7); ck("OMEGA0", o.OMEGA0, a.O0, 0); ck("w", o.w, a.w, 6e-10 * (tol > 0)); ck("M0", o.M0, a.M0, 0); ck("af0", o.af0, a.af0, 0); ck("af1", o.af1, a.af1, 0);
   VF_CHECK(key + ".id", o.subjectSV == SatID(a.prn, SatelliteSystem::GPS) && o.toa == (unsigned long)a.toa && o.health == a.health && o.isHealthy() == (a.health == 0) && o.dataLoaded(), ds);
}
static std::string g(double v, int digits, bool fixed = false) { char b[60]; snprintf(b, 60, fixed ? "%.*f" : "%.*E", digits, v); return b; }
static long fullweek(long near, long file) { long w = file % 1024 + 1024 * (near / 1024); while (near - w > 512) w += 1024; while (w - near > 512) w -= 1024; return w; }
static bool mid(long near, long file) { long d = std::labs((near - file) % 1024); return d == 512; }
static std::string yumatext(vf::Rng& r, const A& a, int week)
{
   std::ostringstream o; char b[100]; bool alt = r.chance(0.3); snprintf(b, 100, "******** Week%5d almanac for PRN-%02d ********\n", a.week % 1024, a.prn); o << b; auto L = [&](const char* k, const std::string& v) { snprintf(b, 100, "%-27s%s%s\n", k, alt ? " " : "", v.c_str()); o << b; };
   snprintf(b, 50, "%02d", a.prn); L("ID:", b); snprintf(b, 50, "%03d", a.health); L("Health:", b); L("Eccentricity:", g(a.ecc, 10)); L("Time of Applicability(s):", g((double)a.toa, 4, true)); L("Orbital Inclination(rad):", g(0.3 * DPI + a.di, 10, true)); L("Rate of Right Ascen(r/s):", g(a.Od, 10)); L(alt ? "SQRT(A)(m^1/2):" : "SQRT(A)  (m 1/2):", g(a.ah, 6, true)); L("Right Ascen at Week(rad):", g(a.O0, 10)); L("Argument of Perigee(rad):", g(a.w, 9, true)); L("Mean Anom(rad):", g(a.M0, 10)); L("Af0(s):", g(a.af0, 10)); L("Af1(s/s):", g(a.af1, 10)); snprintf(b, 50, "%4d", week); L("week:", b); o << "\n"; return o.str();
}
static std::string semtext(const std::vector<A>& v, int week, long toa)
{
   std::ostringstream o; char b[100]; snprintf(b, 100, "%-2d CURRENT.ALM\n%4d %ld\n", (int)v.size(), week, toa); o << b; for (auto& a : v) { o << "\n" << a.prn << "\n" << 40 + a.prn << "\n0\n" << g(a.ecc, 14) << " " << g(a.di / DPI, 14) << "  " << g(a.Od / DPI, 14) << "\n" << g(a.ah, 14) << " " << g(a.O0 / DPI, 14) << " " << g(a.w / DPI, 14) << "\n" << g(a.M0 / DPI, 14) << "  " << g(a.af0, 14) << " " << g(a.af1, 14) << "\n" << a.health << "\n9\n"; } return o.str();
}
static void almorbit(const std::string& key, const A& a, const AlmOrbit& q, int week, const std::string& ds)
{ VF_CHECK(key, q.getPRN() == a.prn && q.getToaSOW() == a.toa && q.getToaWeek() == week && q.getSVHealth() == a.health && vf::close(q.getecc(), a.ecc, 1e-15, 1e-9) && vf::close(q.geti_offset(), a.di, 1e-9, 1e-9) && vf::close(q.getOMEGAdot(), a.Od, 1e-30, 1e-9) && vf::close(q.getAhalf(), a.ah, 1e-6, 1e-12) && vf::close(q.getOMEGA0(), a.O0, 1e-15, 1e-9) && vf::close(q.getw(), a.w, 1e-9, 1e-9) && vf::close(q.getM0(), a.M0, 1e-15, 1e-9) && vf::close(q.getAF0(), a.af0, 1e-20, 1e-9) && vf::close(q.getAF1(), a.af1, 1e-30, 1e-9), ds << " AlmOrbit " << q); }

static void yuma(vf::Case& c)
{
   vf::Rng& r = c.rng; int n = (int)r.range(1, 6), near = r.chance(0.5) ? (int)r.range(512, 3000) : 0; bool mod = r.chance(0.5); std::vector<A> v; std::string text; for (int i = 0; i < n; i++) { A a = gen(r); v.push_back(a); text += yumatext(r, a, mod ? a.week % 1024 : a.week); }
   std::ostringstream ds; ds << n << " near " << near << (mod ? " 10-bit " : " full ") << show(v[0]); c.note(ds.str()); c.distinct(ds.str()); c.sample(ds.str()); std::string fn = vf::scratch() + "/c24.yuma", out = vf::scratch() + "/c24.out"; vf::spit(fn, text); YumaData::nearFullWeek = near; std::vector<YumaData> got;
   { YumaStream s(fn.c_str()); YumaData d; while (s >> d) got.push_back(d); } YumaData::nearFullWeek = 0; VF_CHECK("yuma.count", got.size() == v.size(), ds.str() << " read " << got.size()); if (got.size() != v.size()) return;
   for (int i = 0; i < n; i++)
   {
      const A& a = v[i]; YumaData& d = got[i]; long fw = mod ? a.week % 1024 : a.week, want = near ? fullweek(near, fw) : fw; if (!near || !mid(near, fw)) VF_CHECK("yuma.week", d.week == want, ds.str() << " record " << i << " file week " << fw << " read " << d.week << " want " << want); else VF_CHECK("yuma.week", std::labs(d.week - near) == 512, d.week);
      A b = a; b.week = d.week; OrbAlmGen o = d; same("yuma", b, o, show(a), 1e-9); VF_CHECK("yuma.toe", std::fabs(since(o.ctToe) - (d.week * (double)W + a.toa)) < 1e-6 && std::fabs((o.endValid - o.beginValid) - 144 * 3600) < 1e-6 && std::fabs((o.ctToe - o.beginValid) - 70 * 3600) < 1e-6, show(a)); almorbit("yuma.almorbit", b, AlmOrbit(d), d.week, show(a)); VF_CHECK("yuma.incl", std::fabs(d.i_total - (0.3 * DPI + a.di)) < 1e-9 && std::fabs(d.i_offset - a.di) < 1e-9, show(a));
      std::ostringstream dump, before; d.dump(dump); VF_CHECK("yuma.dump", dump.str().find("PRN = " + std::to_string(a.prn)) != std::string::npos && dump.str().find("Toa = " + std::to_string(a.toa)) != std::string::npos, "dump wrote " << dump.str().size() << " characters to the stream given");
   }
   { YumaStream s(out.c_str(), std::ios::out); for (auto& d : got) s << d; } std::vector<YumaData> again; { YumaStream s(out.c_str()); YumaData d; while (s >> d) again.push_back(d); }
   VF_CHECK("yuma.rewrite.count", again.size() == got.size(), ds.str()); if (again.size() == got.size()) for (int i = 0; i < n; i++) { const YumaData &x = got[i], &y = again[i]; VF_CHECK("yuma.rewrite", x.PRN == y.PRN && x.week == y.week && x.SV_health == y.SV_health && x.Toa == y.Toa && vf::close(x.ecc, y.ecc, 0, 1e-10) && vf::close(x.i_total, y.i_total, 0, 1e-10) && vf::close(x.OMEGAdot, y.OMEGAdot, 0, 1e-10) && std::fabs(x.Ahalf - y.Ahalf) < 1e-6 && vf::close(x.OMEGA0, y.OMEGA0, 0, 1e-10) && std::fabs(x.w - y.w) < 1e-9 && vf::close(x.M0, y.M0, 0, 1e-10) && vf::close(x.AF0, y.AF0, 0, 1e-10) && vf::close(x.AF1, y.AF1, 0, 1e-10), ds.str() << " record " << i); }
   std::string once = vf::slurp(out); { std::istringstream ls(once); std::string l; size_t k = 0; while (std::getline(ls, l)) { if (l.substr(0, 8) == "********" || k >= got.size()) { char w[80]; if (k < got.size()) { snprintf(w, sizeof w, "******** Week%5d almanac for PRN-%02d ********", (int)(got[k].week % 1024), (int)got[k].PRN); VF_CHECK("yuma.text", l.substr(0, strlen(w)) == w, l); } continue; } char w[80]; if (l.substr(0, 3) == "ID:") { snprintf(w, sizeof w, "%-27s   %02d", "ID:", (int)got[k].PRN); VF_CHECK("yuma.text", l == w, l); } else if (l.substr(0, 7) == "Health:") { snprintf(w, sizeof w, "%-27s   %03d", "Health:", (int)got[k].SV_health); VF_CHECK("yuma.text", l == w, l); } else if (l.substr(0, 5) == "week:") k++; } VF_CHECK("yuma.text.count", k == got.size(), k); }
   { YumaStream s(fn.c_str(), std::ios::out); for (auto& d : again) s << d; } VF_CHECK("yuma.stable", vf::slurp(fn) == once, ds.str());
   // the store
   YumaAlmanacStore st(near ? at(near * (double)W + 1000) : CommonTime::BEGINNING_OF_TIME); vf::spit(fn, text); st.loadFile(fn); std::set<SatID> ids; for (auto& a : v) ids.insert(SatID(a.prn, SatelliteSystem::GPS)); VF_CHECK("yuma.store.index", st.getIndexSet() == ids && st.nfiles() == 1, ds.str()); VF_CHECK("yuma.store.size", (int)st.OrbAlmStore::size(1) == n, ds.str() << " " << st.OrbAlmStore::size(1));
   for (auto& a : v) { long fw = mod ? a.week % 1024 : a.week, want = near && fw < 1024 ? fullweek(near, fw) : fw; if (near && fw < 1024 && (mid(near, fw) || want != fw % 1024 + 1024 * ((near - fw % 1024 + 512) / 1024))) continue; CommonTime toe = at(want * (double)W + a.toa); int cnt = 0; for (auto& b : v) if (b.prn == a.prn) cnt++; if (cnt > 1) continue; const OrbAlm* p = st.find(SatID(a.prn, SatelliteSystem::GPS), toe, false); VF_CHECK("yuma.store.week", p->ctToe == toe, ds.str() << " " << p->ctToe << " want " << toe); A b = a; b.week = (int)want; Xvt x = st.getXvt(SatID(a.prn, SatelliteSystem::GPS), toe + 100.0); kep::V3 q = kep::pos(el(a, 0.3L * kep::PIL + a.di), 100, 100); VF_CHECK("yuma.store.pos", std::fabs((double)(x.x[0] - q.x)) + std::fabs((double)(x.x[1] - q.y)) + std::fabs((double)(x.x[2] - q.z)) < 5, show(a) << " " << x.x); }
   VF_THROWS("yuma.store.missing", FileMissingException, st.loadFile(vf::scratch() + "/nosuch"), "");
}
static void sem(vf::Case& c)
{
   vf::Rng& r = c.rng; int n = (int)r.range(1, 6), near = r.chance(0.5) ? (int)r.range(512, 3000) : 0, week = r.chance(0.5) ? (int)r.range(0, 1023) : (int)r.range(0, 2500); long toa = 4096 * r.range(0, 147); std::vector<A> v; for (int i = 0; i < n; i++) { A a = gen(r); a.week = week; a.toa = toa; a.health &= 63; v.push_back(a); } std::string text = semtext(v, week, toa);
   std::ostringstream ds; ds << n << " near " << near << " " << show(v[0]); c.note(ds.str()); c.distinct(ds.str()); c.sample(ds.str()); std::string fn = vf::scratch() + "/c24.sem", out = vf::scratch() + "/c24.out"; vf::spit(fn, text); SEMHeader::nearFullWeek = near; SEMHeader h; std::vector<SEMData> got; { SEMStream s(fn.c_str()); s >> h; SEMData d; while (s >> d) got.push_back(d); } SEMHeader::nearFullWeek = 0;
   VF_CHECK("sem.count", got.size() == v.size() && h.numRecords == n && h.Toa == toa, ds.str() << " read " << got.size() << " of " << h.numRecords); if (got.size() != v.size()) return; long want = near ? fullweek(near, week) : week; if (!near || !mid(near, week)) VF_CHECK("sem.week", h.week == want, ds.str() << " read " << h.week << " want " << want);
   std::ostringstream hd; h.dump(hd); VF_CHECK("sem.header.dump", hd.str().find("Toa = " + std::to_string(toa)) != std::string::npos, "dump wrote " << hd.str().size() << " characters to the stream given");
   for (int i = 0; i < n; i++) { A a = v[i]; SEMData& d = got[i]; a.week = h.week; OrbAlmGen o = d; same("sem", a, o, show(a), 1e-12); VF_CHECK("sem.toe", std::fabs(since(o.ctToe) - (h.week * (double)W + toa)) < 1e-6 && d.SVNnum == 40 + a.prn && d.satConfig == 9 && d.URAnum == 0, show(a)); almorbit("sem.almorbit", a, AlmOrbit(d), h.week, show(a)); VF_CHECK("sem.incl", std::fabs(d.i_total - (0.3 * DPI + a.di)) < 1e-12, show(a) << " total inclination " << d.i_total); orbit(c, "sem", a, o, (double)r.range(-90000, 90000), 0.05); }
   { SEMStream s(out.c_str(), std::ios::out); s << h; for (auto& d : got) s << d; } std::vector<SEMData> again; SEMHeader h2; { SEMStream s(out.c_str()); s >> h2; SEMData d; while (s >> d) again.push_back(d); } VF_CHECK("sem.rewrite.count", again.size() == got.size() && h2.week == h.week && h2.Toa == h.Toa && h2.numRecords == h.numRecords, ds.str());
   if (again.size() == got.size()) for (int i = 0; i < n; i++) { OrbAlmGen x = got[i], y = again[i]; VF_CHECK("sem.rewrite", x.subjectSV == y.subjectSV && x.health == y.health && vf::close(x.ecc, y.ecc, 0, 1e-13) && vf::close(x.i0, y.i0, 0, 1e-13) && vf::close(x.OMEGAdot, y.OMEGAdot, 0, 1e-13) && vf::close(x.AHalf, y.AHalf, 0, 1e-13) && vf::close(x.OMEGA0, y.OMEGA0, 0, 1e-13) && vf::close(x.w, y.w, 0, 1e-13) && vf::close(x.M0, y.M0, 0, 1e-13) && vf::close(x.af0, y.af0, 0, 1e-13) && vf::close(x.af1, y.af1, 0, 1e-13), ds.str() << " record " << i); }
   SEMAlmanacStore st(near ? at(near * (double)W + 1000) : CommonTime::BEGINNING_OF_TIME); st.loadFile(fn); std::set<SatID> ids; for (auto& a : v) ids.insert(SatID(a.prn, SatelliteSystem::GPS)); VF_CHECK("sem.store.index", st.getIndexSet() == ids && st.nfiles() == 1, ds.str()); long sw = near && week < 1024 ? fullweek(near, week) : week;
   if (!(near && week < 1024 && (mid(near, week) || sw != week + 1024 * ((near - week + 512) / 1024)))) for (auto& a : v) { CommonTime toe = at(sw * (double)W + toa); const OrbAlm* p = st.find(SatID(a.prn, SatelliteSystem::GPS), toe, false); VF_CHECK("sem.store.week", p->ctToe == toe, ds.str() << " " << p->ctToe << " want " << toe); }
}
// bits of a broadcast page
struct Page { std::vector<bool> b; Page(int n) : b(n) {} void put(int at, int n, long v) { for (int i = 0; i < n; i++) b[at + i] = (v >> (n - 1 - i)) & 1; } PackedNavBits pack(const SatID& s, const ObsID& o, const CommonTime& t) const { PackedNavBits p(s, o, t); for (bool x : b) p.addUnsignedLong(x, 1, 1); p.trimsize(); return p; } };
static void pages(vf::Case& c)
{
   vf::Rng& r = c.rng; int kind = (int)r.below(3); int xmit = (int)r.range(1, 32); double tx = r.range(1100, 2400) * (double)W + 6.0 * r.range(0, 100799), ref = tx + r.range(-3, 3) * 86400.0; A a; a.prn = (int)r.range(1, 32); long toa8 = r.range(0, 147); a.toa = 4096 * toa8; auto sc = [](long v, int e) { return std::ldexp((double)v, e); }; auto sg = [&](int n) { return r.chance(0.1) ? -(1L << (n - 1)) : r.chance(0.1) ? (1L << (n - 1)) - 1 : r.range(-(1L << (n - 1)), (1L << (n - 1)) - 1); };
   SatID sx(xmit, SatelliteSystem::GPS); std::ostringstream ds; ds.precision(12); OrbAlmGen o;
   if (kind == 0)
   {
      Page p(300); long e = r.range(0, 65535), di = sg(16), od = sg(16), ah = r.range(8000000, (1 << 24) - 1), o0 = sg(24), w = sg(24), m = sg(24), f0 = sg(11), f1 = sg(11), h = r.chance(0.5) ? 0 : r.range(1, 255); for (int i = 0; i < 300; i++) p.b[i] = r.chance(0.5); p.put(0, 8, 0x8b); p.put(49, 3, r.chance(0.5) ? 4 : 5); p.put(60, 2, 1); p.put(62, 6, a.prn); p.put(68, 16, e); p.put(90, 8, toa8); p.put(98, 16, di); p.put(120, 16, od); p.put(136, 8, h); p.put(150, 24, ah); p.put(180, 24, o0); p.put(210, 24, w); p.put(240, 24, m); p.put(270, 8, f0 >> 3); p.put(289, 3, f0 & 7); p.put(278, 11, f1);
      a.ecc = sc(e, -21); a.di = sc(di, -19) * DPI; a.Od = sc(od, -38) * DPI; a.ah = sc(ah, -11); a.O0 = sc(o0, -23) * DPI; a.w = sc(w, -23) * DPI; a.M0 = sc(m, -23) * DPI; a.af0 = sc(f0, -20); a.af1 = sc(f1, -38); a.health = (int)h;
      if (r.chance(0.5)) OrbAlmGen::loadWeekNumber((unsigned)std::floor(ref / W), std::fmod(ref, W)); else OrbAlmGen::loadWeekNumber(at(ref)); long wk = (long)std::floor(ref / W); double d = a.toa - std::fmod(ref, W); if (d < -302400) wk++; if (d > 302400) wk--; a.week = (int)wk; bool edge = std::fabs(std::fabs(d) - 302400) < 1;
      ds << "LNAV page from " << xmit << " reference " << ref << " " << show(a); c.note(ds.str()); c.distinct(ds.str()); c.sample(ds.str()); PackedNavBits pn = p.pack(sx, ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA), at(tx)); o.loadData(pn); same("lnav", a, o, ds.str(), 1e-14); if (!edge) VF_CHECK("lnav.week", std::fabs(since(o.ctToe) - (wk * (double)W + a.toa)) < 1e-6, ds.str() << " toe " << since(o.ctToe)); VF_CHECK("lnav.times", std::fabs(since(o.beginValid) - tx) < 1e-6 && o.satID == sx && std::fabs((o.endValid - o.ctToe) - 266400) < 1e-6, ds.str());
      OrbAlmFactory f; OrbAlm* q = f.convert(pn); VF_CHECK("lnav.factory", q && q->isSameData(&o), ds.str()); delete q; Page bad = p; bad.put(49, 3, r.range(1, 3)); PackedNavBits pb = bad.pack(sx, pn.getobsID(), at(tx)); OrbAlmGen u; VF_THROWS("lnav.subframe", InvalidParameter, u.loadData(pb), ds.str()); VF_CHECK("lnav.factory.other", f.convert(pb) == 0, ds.str()); bad = p; bad.put(62, 6, r.chance(0.3) ? 0 : r.range(33, 63)); PackedNavBits pc = bad.pack(sx, pn.getobsID(), at(tx)); VF_THROWS("lnav.svid", InvalidParameter, u.loadData(pc), ds.str()); VF_CHECK("lnav.refused", !u.dataLoaded(), ds.str());
      // subframe 5 page 25 sets the reference for the pages that follow
      double t2 = tx + r.range(-100, 100) * (double)W, wna = std::floor(t2 / W) + r.range(-1, 1), ta = 4096.0 * r.range(0, 147); Page z(300); z.put(49, 3, 5); z.put(60, 2, 1); z.put(62, 6, 51); z.put(68, 8, (long)(ta / 4096)); z.put(76, 8, (long)wna % 256); VF_CHECK("lnav.page25", f.convert(z.pack(sx, pn.getobsID(), at(t2))) == 0, ds.str()); OrbAlmGen n; n.loadData(pn); long w2 = (long)wna; double d2 = a.toa - ta; if (d2 < -302400) w2++; if (d2 > 302400) w2--; if (std::fabs(std::fabs(d2) - 302400) > 1) VF_CHECK("lnav.page25.week", std::fabs(since(n.ctToe) - (w2 * (double)W + a.toa)) < 1e-6, ds.str() << " week " << since(n.ctToe) / W << " want " << w2);
   }
   else
   {
      bool l5 = kind == 2; Page p(300); for (int i = 0; i < 300; i++) p.b[i] = r.chance(0.5); long e = r.range(0, 2047), di = sg(11), od = sg(11), ah = r.chance(0.5) ? (long)((5153 + r.unit() * 2) * 16) : r.range(60000, (1 << 17) - 1), o0 = sg(16), w = sg(16), m = sg(16), f0 = sg(11), f1 = sg(10), h = r.range(0, 7), wk = r.range(1000, 3000); p.put(0, 8, 0x8b); p.put(8, 6, xmit); p.put(14, 6, 37); p.put(127, 13, wk); p.put(140, 8, toa8); p.put(148, 6, a.prn); p.put(154, 3, h); p.put(157, 11, e); p.put(168, 11, di); p.put(179, 11, od); p.put(190, 17, ah); p.put(207, 16, o0); p.put(223, 16, w); p.put(239, 16, m); p.put(255, 11, f0); p.put(266, 10, f1);
      a.week = (int)wk; a.ecc = sc(e, -16); a.di = sc(di, -14) * DPI; a.Od = sc(od, -33) * DPI; a.ah = sc(ah, -4); a.O0 = sc(o0, -15) * DPI; a.w = sc(w, -15) * DPI; a.M0 = sc(m, -15) * DPI; a.af0 = sc(f0, -20); a.af1 = sc(f1, -37); a.health = (int)h;
      ds << (l5 ? "L5" : "L2") << " CNAV 37 from " << xmit << " " << show(a); c.note(ds.str()); c.distinct(ds.str()); c.sample(ds.str()); PackedNavBits pn = p.pack(sx, ObsID(ObservationType::NavMsg, l5 ? CarrierBand::L5 : CarrierBand::L2, l5 ? TrackingCode::L5I : TrackingCode::L2CM), at(tx)); o.loadData(pn); bool up = !(h & (l5 ? 1 : 2)); VF_CHECK("cnav.health", o.isHealthy() == up && o.health == h, ds.str() << " healthy " << o.isHealthy());
      A b = a; b.health = up ? 0 : 1; o.health = b.health; same("cnav", b, o, ds.str(), 1e-14); o.health = (unsigned short)h; a = b; VF_CHECK("cnav.toe", std::fabs(since(o.ctToe) - (wk * (double)W + a.toa)) < 1e-6 && std::fabs(since(o.beginValid) - tx) < 1e-6 && o.satID == sx, ds.str()); o.health = b.health; Page bad = p; bad.put(14, 6, r.range(1, 36)); OrbAlmGen u; PackedNavBits pb = bad.pack(sx, pn.getobsID(), at(tx)); VF_THROWS("cnav.type", InvalidParameter, u.loadData(pb), ds.str());
   }
   if (o.ecc < 0.5) orbit(c, "page", a, o, r.chance(0.1) ? 0.0 : r.chance(0.3) ? (double)r.range(-600000, 600000) : r.unif(-90000, 90000), 2e-4);
   OrbAlmGen e; VF_THROWS("unloaded", InvalidRequest, e.svXvt(at(tx)), ""); VF_THROWS("unloaded", InvalidRequest, e.svClockBias(at(tx)), ""); VF_THROWS("unloaded", InvalidRequest, e.svRelativity(at(tx)), "");
   // the comparison sees each field
   OrbAlmGen q = o; q.satID = SatID(xmit % 32 + 1, SatelliteSystem::GPS); q.beginValid = at(tx + 30); VF_CHECK("same.equal", o.isSameData(&q) && q.isSameData(&o) && o.listDifferences(&q).empty(), ds.str() << o.listDifferences(&q)); int f = (int)r.below(13);
   switch (f) { case 0: q.ecc += 1e-9; break; case 1: q.deltai += 1e-9; break; case 2: q.OMEGAdot += 1e-15; break; case 3: q.AHalf += 1e-6; break; case 4: q.OMEGA0 += 1e-9; break; case 5: q.w += 1e-9; break; case 6: q.M0 += 1e-9; break; case 7: q.af0 += 1e-9; break; case 8: q.af1 += 1e-15; break; case 9: q.health ^= 1; break; case 10: q.ctToe += 1; break; case 11: q.subjectSV.id = q.subjectSV.id % 32 + 1; break; default: q.setHealthy(!q.isHealthy()); } VF_CHECK("same.field", !o.isSameData(&q) && !q.isSameData(&o) && !o.listDifferences(&q).empty(), ds.str() << " field " << f);
}
// the store of almanacs by subject and by transmitter
struct Ent { OrbAlmGen o; double b, e; };
static bool eq(const Ent& x, const Ent& y) { return x.o.isSameData(&y.o); }
static bool insert(std::vector<Ent>& v, const Ent& n) { for (size_t i = 0; i < v.size(); i++) if (eq(v[i], n)) { if (v[i].b <= n.b) return false; v.erase(v.begin() + i); break; } size_t k = 0; while (k < v.size() && v[k].b <= n.b) k++; v.insert(v.begin() + k, n); return true; }
static const Ent* lookup(const std::vector<Ent>& v, double t, bool eff) { const Ent* p = 0; for (auto& x : v) if (x.b < t || !p) p = &x; if (p && eff && !(p->b < t && t <= p->e)) p = 0; return p; }
static void store(vf::Case& c)
{
   vf::Rng& r = c.rng; OrbAlmStore st; std::map<int, std::vector<Ent> > subj; std::map<int, std::map<int, std::vector<Ent> > > xm; double t0 = r.range(1100, 2400) * (double)W; int nsat = (int)r.range(1, 4), nx = (int)r.range(1, 3), steps = (int)r.range(5, 40); std::vector<A> pool; for (int i = 0; i < 6; i++) { A a = gen(r); a.prn = (int)r.range(1, nsat); a.week = (int)(t0 / W); pool.push_back(a); } double lo = 1e18, hi = -1e18; bool edited = false;
   std::ostringstream ds; ds << steps << " steps " << nsat << " subjects " << nx << " transmitters " << show(pool[0]); c.note(ds.str()); c.distinct(ds.str()); c.sample(ds.str()); auto SV = [](int n) { return SatID(n, SatelliteSystem::GPS); };
   for (int k = 0; k < steps; k++)
   {
      int op = (int)r.below(20);
      if (op < 12)
      {
         const A& a = r.pick(pool); Ent n; n.b = t0 + 30.0 * r.range(0, 60); n.e = n.b + 30.0 * r.range(1, 40); int x = r.chance(0.15) ? 0 : (int)r.range(1, nx); n.o = alm(a, x, n.b, n.e); bool hx = !r.chance(0.2); bool s1 = hx && insert(subj[a.prn], n), s2 = x > 0 && insert(xm[x][a.prn], n); unsigned short want = (s1 ? OrbAlmStore::ADD_SUBJ : 0) | (s2 ? OrbAlmStore::ADD_XMIT : 0), got = st.addOrbAlm(&n.o, hx); VF_CHECK("store.add", got == want, ds.str() << " step " << k << " returned " << got << " want " << want); if (want) { lo = std::min(lo, n.b); hi = std::max(hi, n.e); } c.count(want ? "kept" : "known");
      }
      else if (op == 12 && r.chance(0.4)) { double a = t0 + 30.0 * r.range(0, 30), b = a + 30.0 * r.range(0, 40); st.edit(at(a), at(b)); auto cut = [&](std::vector<Ent>& v) { std::vector<Ent> w; for (auto& x : v) if (x.b >= a && x.b <= b) w.push_back(x); v = w; }; for (auto& s : subj) cut(s.second); for (auto& x : xm) for (auto& s : x.second) cut(s.second); edited = true; c.count("edit"); }
      else if (op == 13 && r.chance(0.3)) { st.clear(); subj.clear(); xm.clear(); lo = 1e18; hi = -1e18; edited = false; VF_CHECK("store.clear", st.size() == 0 && st.getIndexSet().empty(), ""); VF_CHECK("store.clear.span", st.getInitialTime() == CommonTime::END_OF_TIME && st.getFinalTime() == CommonTime::BEGINNING_OF_TIME, "after clear the store spans " << st.getInitialTime() << " to " << st.getFinalTime()); c.count("clear"); }
      unsigned n1 = 0, n2 = 0; for (auto& s : subj) n1 += (unsigned)s.second.size(); for (auto& x : xm) for (auto& s : x.second) n2 += (unsigned)s.second.size(); VF_CHECK("store.size", st.size(1) == n1 && st.size(2) == n2 && st.size() == n1 + n2, ds.str() << " step " << k << " sizes " << st.size(1) << " " << st.size(2) << " want " << n1 << " " << n2);
      if (lo < hi && !edited) VF_CHECK("store.span", st.getInitialTime() == at(lo) && st.getFinalTime() == at(hi), ds.str() << " " << st.getInitialTime() << " " << st.getFinalTime());
      int s = (int)r.range(1, nsat), x = (int)r.range(1, nx); double t = t0 + (r.chance(0.5) ? 30.0 * r.range(-2, 110) : r.unif(-100, 3300)); bool eff = r.chance(0.5), byx = r.chance(0.4); const Ent* w = byx ? (xm.count(x) && xm[x].count(s) ? lookup(xm[x][s], t, eff) : 0) : (subj.count(s) ? lookup(subj[s], t, eff) : 0); const OrbAlm* got = 0; try { got = byx ? st.find(SV(s), at(t), eff, SV(x)) : st.find(SV(s), at(t), eff); } catch (InvalidRequest&) {}
      VF_CHECK("store.find", (got != 0) == (w != 0), ds.str() << " step " << k << " subject " << s << " at " << t - t0 << (eff ? " effective" : "") << (got ? " found" : " refused")); if (got && w) VF_CHECK("store.find.which", got->beginValid == at(w->b) && got->isSameData(&w->o), ds.str() << " step " << k << " subject " << s << " at " << t - t0 << " found one sent " << since(got->beginValid) - t0 << " want " << w->b - t0); c.count(w ? "found" : "none");
      const Ent* v = subj.count(s) ? lookup(subj[s], t, false) : 0; Xvt cx = st.computeXvt(SV(s), at(t)); Xvt::HealthStatus hs = st.getSVHealth(SV(s), at(t)), wh = !v ? Xvt::Unavailable : v->o.isHealthy() ? Xvt::Healthy : Xvt::Unhealthy; VF_CHECK("store.health", cx.health == wh && hs == wh, ds.str() << " step " << k << " " << (int)hs << " want " << (int)wh);
      bool ok = false; Xvt gx; try { gx = st.getXvt(SV(s), at(t)); ok = true; } catch (InvalidRequest&) {} VF_CHECK("store.xvt", ok == (v != 0), ds.str()); if (v && ok) { Xvt e = v->o.svXvt(at(t)); VF_CHECK("store.xvt.value", e.x[0] == gx.x[0] && e.v[2] == gx.v[2] && e.clkbias == gx.clkbias && cx.x[1] == e.x[1], ds.str()); }
      const Ent* ve = subj.count(s) ? lookup(subj[s], t, true) : 0; ok = false; try { st.getXvt_WithinValidity(SV(s), at(t)); ok = true; } catch (InvalidRequest&) {} VF_CHECK("store.within", ok == (ve != 0), ds.str()); ok = false; bool hb = false; try { hb = st.isHealthy(SV(s), at(t)); ok = true; } catch (InvalidRequest&) {} VF_CHECK("store.ishealthy", ok == (ve != 0) && (!ve || hb == ve->o.isHealthy()), ds.str());
      if (v) { std::multiset<int> wb; double last = -1; bool any = false, ever = false; for (auto& X : xm) if (X.second.count(s)) { auto& m = X.second[s]; for (size_t i = 0; i < m.size(); i++) if (eq(m[i], *v)) { any = true; wb.insert(X.first); if (i + 1 < m.size()) last = std::max(last, m[i + 1].b); else ever = true; } } std::multiset<int> gb; for (auto& i : st.xmitBySVs(&v->o)) gb.insert(i.id); VF_CHECK("store.xmitby", gb == wb, ds.str()); ok = false; CommonTime lt; try { lt = st.deriveLastXmit(&v->o); ok = true; } catch (InvalidRequest&) {} VF_CHECK("store.lastxmit", ok == any && (!any || (ever ? lt == CommonTime::END_OF_TIME : lt == at(last))), ds.str() << " " << lt); }
   }
   for (auto& s : subj) if (!s.second.empty()) VF_CHECK("store.present", st.isPresent(SV(s.first)) && st.getIndexSet().count(SV(s.first)), s.first); VF_CHECK("store.absent", !st.isPresent(SV(30)), ""); std::ostringstream o1; st.dump(o1, (short)r.range(0, 3));
}
// the older store, by time of applicability
static void gpsalm(vf::Case& c)
{
   vf::Rng& r = c.rng; GPSAlmanacStore st; std::map<int, std::map<double, A> > m; int n = (int)r.range(0, 12), ns = (int)r.range(1, 4); double t0 = r.range(1100, 2400) * (double)W, lo = 1e18, hi = -1e18; std::map<int, std::map<double, double> > xt; std::ostringstream ds; ds << n << " almanacs " << ns << " satellites t0 " << t0;
   for (int i = 0; i < n; i++) { A a = gen(r); a.prn = r.chance(0.05) ? r.pick({0, 33, 40}) : (int)r.range(1, ns); double toa = t0 + 4096.0 * r.range(0, 500); a.week = (int)(toa / W); a.toa = (long)std::fmod(toa, W); double x = toa - 3600.0 * r.range(10, 70); long xs = (long)std::fmod(x, W); bool ok = st.addAlmanac(AlmOrbit((short)a.prn, a.ecc, a.di, a.Od, a.ah, a.O0, a.w, a.M0, a.af0, a.af1, a.toa, xs, (short)a.week, (short)a.health)); VF_CHECK("old.add", ok == (a.prn >= 1 && a.prn <= 32), a.prn); if (ok) { m[a.prn][toa] = a; xt[a.prn][toa] = x; lo = std::min(lo, toa - W / 2); hi = std::max(hi, toa + W / 2); } ds << " " << a.prn << ":" << toa - t0; }
   c.note(ds.str()); c.distinct(ds.str()); auto SV = [](int k) { return SatID(k, SatelliteSystem::GPS); }; if (lo < hi) VF_CHECK("old.span", st.getInitialTime() == at(lo) && st.getFinalTime() == at(hi), ds.str());
   for (int k = 0; k < 12; k++)
   {
      int s = (int)r.range(1, ns); double t = t0 + (m.count(s) && r.chance(0.3) ? r.pick(std::vector<double>{m[s].begin()->first, m[s].rbegin()->first}) - t0 : r.unif(-4e5, 2.5e6)); VF_CHECK("old.present", st.isPresent(SV(s)) == (m.count(s) > 0), s);
      if (!m.count(s)) { VF_THROWS("old.absent", InvalidRequest, st.getXvt(SV(s), at(t)), ds.str()); VF_THROWS("old.absent", InvalidRequest, st.getSatHealth(SV(s), at(t)), ds.str()); continue; }
      double best = 1e18; for (auto& x : m[s]) best = std::min(best, std::fabs(x.first - t)); AlmOrbit f = st.findAlmanac(SV(s), at(t)); VF_CHECK("old.closest", std::fabs(std::fabs(since(f.getToaTime()) - t) - best) < 1e-6, ds.str() << " at " << t - t0 << " used toa " << since(f.getToaTime()) - t0 << ", one is " << best << " away"); const A* a = 0; for (auto& x : m[s]) if (std::fabs(x.first - since(f.getToaTime())) < 1e-6) a = &x.second; if (!a) continue; VF_CHECK("old.content", f.getecc() == a->ecc && f.getM0() == a->M0 && st.getSatHealth(SV(s), at(t)) == a->health, ds.str());
      kep::V3 p = kep::pos(el(*a, 0.3L * kep::PIL + a->di), t - since(f.getToaTime()), 0); Xvt x = st.getXvt(SV(s), at(t)); double d = std::fabs((double)(x.x[0] - p.x)) + std::fabs((double)(x.x[1] - p.y)) + std::fabs((double)(x.x[2] - p.z)); VF_CHECK("old.pos", d < 1e-2, ds.str() << " off by " << d);
      double want = 0; bool first = true; for (auto& x : xt[s]) if (first || x.second < t) { want = x.first; first = false; } else break; AlmOrbit q = st.findMostRecentAlmanac(SV(s), at(t)); bool mono = true; double px = -1; for (auto& x : xt[s]) { if (x.second <= px) mono = false; px = x.second; } if (mono) VF_CHECK("old.recent", std::fabs(since(q.getToaTime()) - want) < 1e-6, ds.str() << " at " << t - t0 << " used toa " << since(q.getToaTime()) - t0 << " want " << want - t0); VF_CHECK("old.xmit", std::fabs(since(q.getTransmitTime()) - xt[s][since(q.getToaTime())]) < 1e-6 || !xt[s].count(since(q.getToaTime())), ds.str());
   }
   VF_CHECK("old.all", st.findAlmanacs(at(t0)).size() == m.size(), ds.str()); st.clear(); VF_CHECK("old.clear", !st.isPresent(SV(1)), "");
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"yuma", 1500, 30000, yuma}, {"sem", 1500, 30000, sem}, {"pages", 6000, 120000, pages}, {"store", 1500, 30000, store}, {"gpsalm", 2000, 40000, gpsalm}}); }
