// C30: SP3 and RINEX clock files survive writing and reading
#include "vf.hpp"
#include <cstdarg>
#include "SP3Stream.hpp"
#include "SP3Header.hpp"
#include "SP3Data.hpp"
#include "RinexClockStream.hpp"
#include "RinexClockHeader.hpp"
#include "RinexClockData.hpp"
#include "Rinex3ClockStream.hpp"
#include "Rinex3ClockHeader.hpp"
#include "Rinex3ClockData.hpp"
#include "CivilTime.hpp"
#include "MJD.hpp"
#include "TimeString.hpp"
using namespace gpstk;
typedef std::vector<std::string> Lines;

static std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string rtrim(std::string s) { size_t n = s.find_last_not_of(" \r"); return n == std::string::npos ? "" : s.substr(0, n + 1); }
static std::string trim(std::string s) { s = rtrim(s); size_t n = s.find_first_not_of(' '); return n == std::string::npos ? "" : s.substr(n); }
static std::string pad(const std::string& s, size_t n) { return (s + std::string(n, ' ')).substr(0, n); }
static std::string rj(const std::string& s, size_t n) { return s.size() >= n ? s.substr(0, n) : std::string(n - s.size(), ' ') + s; }
static Lines split(const std::string& t) { Lines v; std::istringstream i(t); std::string l; while (std::getline(i, l)) v.push_back(rtrim(l)); return v; }
static std::string join(const Lines& v) { std::string s; for (auto& l : v) s += l + "\n"; return s; }
static void same(const char* key, const Lines& a, const Lines& b) // a: expected
{
   for (size_t i = 0; i < a.size() || i < b.size(); i++) { std::string x = i < a.size() ? rtrim(a[i]) : "<end>", y = i < b.size() ? rtrim(b[i]) : "<end>"; if (x != y) { VF_CHECK(key, false, "line " << i + 1 << " expected /" << x << "/ but is /" << y << "/"); return; } }
   VF_CHECK(key, true, "");
}
struct Cal { int y, mo, d, h, mi; double s; };
// civil time rounded to 10^-dec seconds with carry (own calendar)
static Cal cal(long mjd, double sod, int dec)
{
   double q = std::pow(10.0, dec); long long u = llround(sod * q), day = 86400LL * (long long)q; if (u >= day) { u -= day; mjd++; } long j = mjd + 2400001; long a = j + 32044, b = (4 * a + 3) / 146097, c = a - 146097 * b / 4, d = (4 * c + 3) / 1461, e = c - 1461 * d / 4, m = (5 * e + 2) / 153; Cal r; r.d = e - (153 * m + 2) / 5 + 1; r.mo = m + 3 - 12 * (m / 10); r.y = 100 * b + d - 4800 + m / 10; long long sec = u / (long long)q; r.h = sec / 3600; r.mi = sec / 60 % 60; r.s = (double)(u - (sec - sec % 60) * (long long)q) / q; return r;
}
struct Tm { long mjd; double sod; };
static CommonTime ct(const Tm& t, TimeSystem s) { return MJD((long double)t.mjd, s).convertToCommonTime() + t.sod; }
static Tm rndTime(vf::Rng& r, int dec)
{
   Tm t; t.mjd = r.range(44244, 88000); int k = r.below(6); double q = std::pow(10.0, dec); t.sod = k == 0 ? 0 : k == 1 ? r.range(0, 95) * 900.0 : k == 2 ? r.range(0, 86399) : k == 3 ? r.range(0, 86399) + r.range(0, (long)q - 1) / q : k == 4 ? r.range(1, 1439) * 60.0 - 0.3 / q : r.range(0, 86399) + 0.5; return t;
}
static double secs(const CommonTime& a, const Tm& b) { CommonTime z = ct(b, a.getTimeSystem()); return a - z; }

// ------------------------------------------------------------------ SP3
struct Rec { char type; SatID sat; double x[3], clk; int sig[4]; bool f[4], ev, corr; unsigned sd[4]; int co[6]; Tm t; };
struct Sp3 { char ver; bool vel; Tm t; double dt; int n; std::string used, cs, orb, ag; char sys; TimeSystem ts; double bp, bc; std::vector<std::pair<SatID, int>> sats; Lines com; std::vector<Rec> recs; bool ev; };
static const char* SYS = "GRELCJ";
static SatelliteSystem sysOf(char c) { return c == 'G' ? SatelliteSystem::GPS : c == 'R' ? SatelliteSystem::Glonass : c == 'E' ? SatelliteSystem::Galileo : c == 'L' ? SatelliteSystem::LEO : c == 'C' ? SatelliteSystem::BeiDou : c == 'J' ? SatelliteSystem::QZSS : SatelliteSystem::Mixed; }
static char chOf(SatelliteSystem s) { for (const char* p = "GRELCJM"; *p; p++) if (sysOf(*p) == s) return *p; return '?'; }
static std::string satStr(const SatID& s, bool a) { return a ? rj(fmt("%d", s.id), 3) : fmt("%c%02d", chOf(s.system), s.system == SatelliteSystem::QZSS ? s.id - 192 : s.id); }
static std::string tsName(TimeSystem t) { return StringUtils::asString(t); }
static double q6(vf::Rng& r, double mx) { double v = r.chance(0.06) ? 0 : llround(r.unif(-mx, mx) * 1e6) / 1e6; return v == 0 ? 0.0 : v; }
static Sp3 makeSp3(vf::Rng& r)
{
   Sp3 h; h.ver = "abccddd"[r.below(7)]; bool C = h.ver >= 'c'; h.vel = r.chance(0.4); h.t = rndTime(r, 8); h.dt = r.pick(std::vector<double>{900, 300, 30, 0.5, 86400, 12.34567891}); h.n = r.chance(0.1) ? 9999999 : r.range(0, 3000); h.used = r.pick(std::vector<std::string>{"ORBIT", "u+U", "__u+U", "d", "mixed"}); h.cs = r.pick(std::vector<std::string>{"IGS08", "WGS84", "ITR05", "ITRF"}); h.orb = r.pick(std::vector<std::string>{"HLM", "FIT", "BHN"}); h.ag = r.pick(std::vector<std::string>{"IGS", "NGA", "CODE", "ESOC"});
   h.sys = h.ver == 'a' ? 'G' : r.chance(0.4) ? 'M' : SYS[r.below(6)]; h.ts = h.ver == 'a' ? TimeSystem::Any : h.ver == 'b' ? (r.chance(0.5) ? TimeSystem::GPS : TimeSystem::UTC) : r.pick(std::vector<TimeSystem>{TimeSystem::GPS, TimeSystem::GPS, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::TAI, TimeSystem::UTC, TimeSystem::QZS}); h.bp = C ? r.pick(std::vector<double>{1.25, 0, 1.5, 1.0250001, 10.1234567}) : 0; h.bc = C ? r.pick(std::vector<double>{1.025, 0, 1.000000001, 11.123456789}) : 0; h.ev = h.ver == 'a' && r.chance(0.5);
   std::set<SP3SatID> ids; size_t lim = h.ver == 'd' ? r.pick(std::vector<int>{1, 17, 18, 34, 85, 86, 102, 103, 150}) : r.pick(std::vector<int>{1, 5, 16, 17, 18, 34, 60, 84, 85}); while (ids.size() < lim) { char c = h.ver == 'a' ? 'G' : SYS[r.below(6)]; int id = r.range(1, c == 'J' ? 9 : 99); ids.insert(SP3SatID(c == 'J' ? id + 192 : id, sysOf(c))); } for (auto& s : ids) h.sats.push_back({(SatID)s, r.chance(0.2) ? 0 : r.range(1, 99)});
   size_t nc = h.ver == 'd' ? r.range(4, 9) : 4; size_t w = h.ver == 'd' ? 77 : 57; for (size_t i = 0; i < nc; i++) { std::string s = r.chance(0.2) ? r.str(w, "ABCxyz 019/*") : r.str(r.range(1, w), "ABCxyz 019/*"); s[s.size() - 1] = 'z'; h.com.push_back(s); }
   int ne = r.range(1, 4); double e = h.t.sod; long mj = h.t.mjd; for (int k = 0; k < ne; k++) { Rec z; memset((void*)&z.x, 0, sizeof z.x); z.type = '*'; z.t = Tm{mj, e}; z.clk = 0; z.corr = z.ev = false; h.recs.push_back(z); Tm now = z.t; int ns = r.range(1, std::min<int>(4, h.sats.size())); for (int i = 0; i < ns; i++) for (int v = 0; v < (h.vel ? 2 : 1); v++) { Rec p; p.type = v ? 'V' : 'P'; p.t = now; p.sat = h.sats[r.below(h.sats.size())].first; for (int j = 0; j < 3; j++) p.x[j] = q6(r, v ? 99999 : 999999); p.clk = r.chance(0.1) ? 999999.999999 : q6(r, 99999); for (int j = 0; j < 4; j++) { p.sig[j] = !C ? 0 : r.chance(0.3) ? -1 : r.range(0, j == 3 ? 999 : 99); p.f[j] = C && !v && r.chance(0.3); p.sd[j] = 0; } p.ev = h.ev && !v && r.chance(0.4); p.corr = C && r.chance(0.3); if (p.corr) for (int j = 0; j < 4; j++) p.sd[j] = r.range(0, j == 3 ? 9999999 : 9999); for (int j = 0; j < 6; j++) p.co[j] = p.corr ? r.range(-9999999, 99999999) : 0; h.recs.push_back(p); }
      e += h.dt; while (e >= 86400) { e -= 86400; mj++; } }
   return h;
}
static std::string tmStr(const Tm& t) { Cal c = cal(t.mjd, t.sod, 8); return fmt("%4d %2d %2d %2d %2d %11.8f", c.y, c.mo, c.d, c.h, c.mi, c.s); }
static Lines sp3Head(const Sp3& h)
{
   Lines L; bool a = h.ver == 'a', C = h.ver >= 'c'; L.push_back(fmt("#%c%c", h.ver, h.vel ? 'V' : 'P') + tmStr(h.t) + fmt(" %7d ", h.n) + rj(h.used, 5) + " " + rj(h.cs, 5) + " " + rj(h.orb, 3) + " " + rj(h.ag, 4));
   long long u = llround(h.t.sod * 1e8); long mj = h.t.mjd; if (u >= 8640000000000LL) { u -= 8640000000000LL; mj++; } long wk = (mj - 44244) / 7; double sow = (mj - 44244) % 7 * 86400.0 + u / 1e8; L.push_back(fmt("## %4ld %15.8f %14.8f %5ld %15.13f", wk, sow, h.dt, mj, u / 1e8 / 86400.0));
   size_t nl = std::max<size_t>(5, (h.sats.size() + 16) / 17); for (int acc = 0; acc < 2; acc++) for (size_t l = 0; l < nl; l++) { std::string s = acc ? "++       " : l == 0 ? "+   " + fmt(h.ver == 'd' ? "%2zu" : "%2zu", h.sats.size()) + "   " : "+        "; if (!acc && l == 0 && h.sats.size() > 99) s = "+  " + fmt("%3zu", h.sats.size()) + "   "; for (size_t k = l * 17; k < l * 17 + 17; k++) s += k >= h.sats.size() ? "  0" : acc ? fmt("%3d", h.sats[k].second) : satStr(h.sats[k].first, a); L.push_back(s); }
   L.push_back(std::string("%c ") + (a ? "cc" : std::string(1, h.sys) + " ") + " cc " + (a ? "ccc" : tsName(h.ts)) + " ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"); L.push_back("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"); L.push_back("%f " + (C ? fmt("%10.7f %12.9f", h.bp, h.bc) : std::string(" 0.0000000  0.000000000")) + "  0.00000000000  0.000000000000000"); L.push_back("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000"); for (int i = 0; i < 2; i++) L.push_back("%i    0    0    0    0      0      0      0      0         0"); for (auto& s : h.com) L.push_back("/* " + s); return L;
}
static Lines sp3Rec(const Sp3& h, const Rec& p)
{
   Lines L; bool C = h.ver >= 'c'; if (p.type == '*') { L.push_back("*  " + tmStr(p.t)); return L; }
   std::string s = p.type + satStr(p.sat, h.ver == 'a') + fmt("%14.6f%14.6f%14.6f%14.6f", p.x[0], p.x[1], p.x[2], p.clk); if (C) { for (int j = 0; j < 4; j++) { size_t w = j == 3 ? 3 : 2; s += " " + (p.sig[j] < 0 ? std::string(w, ' ') : fmt("%*d", (int)w, p.sig[j])); } if (p.type == 'P') s += std::string(" ") + (p.f[0] ? "E" : " ") + (p.f[1] ? "P" : " ") + "  " + (p.f[2] ? "M" : " ") + (p.f[3] ? "P" : " "); } else if (p.ev) s = pad(s, 74) + "E"; L.push_back(s);
   if (p.corr) L.push_back(fmt("E%c  %4u %4u %4u %7u %8d %8d %8d %8d %8d %8d", p.type, p.sd[0], p.sd[1], p.sd[2], p.sd[3], p.co[0], p.co[1], p.co[2], p.co[3], p.co[4], p.co[5])); return L;
}
static Lines sp3Text(const Sp3& h) { Lines L = sp3Head(h); for (auto& p : h.recs) for (auto& s : sp3Rec(h, p)) L.push_back(s); L.push_back("EOF"); return L; }
static SP3Header toHead(const Sp3& h)
{
   SP3Header H; H.version = h.ver == 'a' ? SP3Header::SP3a : h.ver == 'b' ? SP3Header::SP3b : h.ver == 'c' ? SP3Header::SP3c : SP3Header::SP3d; H.containsVelocity = h.vel; H.allowSP3aEvents = h.ev; H.time = ct(h.t, TimeSystem::GPS); H.epochInterval = h.dt; H.numberOfEpochs = h.n; H.dataUsed = h.used; H.coordSystem = h.cs; H.orbitType = h.orb; H.agency = h.ag; H.system = SP3SatID(1, sysOf(h.sys)); H.timeSystem = h.ts; H.basePV = h.bp; H.baseClk = h.bc; for (auto& s : h.sats) H.satList[SP3SatID(s.first)] = s.second; H.comments = h.com; return H;
}
static SP3Data toData(const Sp3& h, const Rec& p) { SP3Data d; d.RecType = p.type; d.sat = p.sat; d.time = ct(p.t, h.ts); for (int i = 0; i < 3; i++) d.x[i] = p.x[i]; d.clk = p.clk; if (p.type != '*') { for (int i = 0; i < 4; i++) { d.sig[i] = p.sig[i]; d.sdev[i] = p.sd[i]; } for (int i = 0; i < 6; i++) d.correlation[i] = p.co[i]; d.clockEventFlag = p.f[0]; d.clockPredFlag = p.f[1]; d.orbitManeuverFlag = p.f[2]; d.orbitPredFlag = p.f[3]; d.correlationFlag = p.corr; d.eventFlag = p.ev; } return d; }
static void cmpHead(const Sp3& h, const SP3Header& H)
{
   std::string v = fmt("SP3%c", h.ver); VF_CHECK("sp3.head.version", H.versionString() == v && H.versionChar() == h.ver && H.containsVelocity == h.vel, v << " " << H.versionString()); VF_CHECK("sp3.head.time", std::fabs(secs(H.time, h.t)) < 8e-9, "header epoch " << h.t.mjd << " " << fmt("%.10f", h.t.sod) << " off by " << secs(H.time, h.t)); VF_CHECK("sp3.head.interval", H.epochInterval == h.dt && H.numberOfEpochs == h.n, H.epochInterval << " " << H.numberOfEpochs); VF_CHECK("sp3.head.text", trim(H.dataUsed) == h.used && trim(H.coordSystem) == h.cs && trim(H.orbitType) == h.orb && trim(H.agency) == h.ag, H.dataUsed << "/" << H.coordSystem << "/" << H.orbitType << "/" << H.agency);
   if (h.ver != 'a') VF_CHECK("sp3.head.filesys", H.system.systemChar() == h.sys, h.sys << " read as " << H.system.systemChar()); VF_CHECK("sp3.head.timesys", H.timeSystem == h.ts, tsName(h.ts) << " read as " << tsName(H.timeSystem)); VF_CHECK("sp3.head.base", H.basePV == h.bp && H.baseClk == h.bc, h.bp << " " << h.bc << " read as " << H.basePV << " " << H.baseClk);
   VF_CHECK("sp3.head.nsats", H.satList.size() == h.sats.size(), h.sats.size() << " satellites read as " << H.satList.size()); for (auto& s : h.sats) { auto i = H.satList.find(SP3SatID(s.first)); VF_CHECK("sp3.head.sat", i != H.satList.end() && i->second == s.second, "satellite " << satStr(s.first, false) << " accuracy " << s.second << " read as " << (i == H.satList.end() ? -999 : (int)i->second)); } bool ok = H.comments.size() == h.com.size(); for (size_t i = 0; ok && i < h.com.size(); i++) ok = rtrim(H.comments[i]) == h.com[i]; VF_CHECK("sp3.head.comments", ok, H.comments.size() << " comments");
}
static void cmpRec(const Sp3& h, const Rec& p, const SP3Data& d)
{
   VF_CHECK("sp3.rec.type", d.RecType == p.type, p.type << " read as " << d.RecType); VF_CHECK("sp3.rec.time", std::fabs(secs(d.time, p.t)) < 8e-9 && d.time.getTimeSystem() == h.ts, "epoch " << p.t.mjd << " " << fmt("%.10f", p.t.sod) << " off by " << secs(d.time, p.t) << " in " << tsName(d.time.getTimeSystem())); if (p.type == '*') return;
   VF_CHECK("sp3.rec.sat", d.sat == p.sat, satStr(p.sat, false) << " read as " << d.sat); VF_CHECK("sp3.rec.value", d.x[0] == p.x[0] && d.x[1] == p.x[1] && d.x[2] == p.x[2] && d.clk == p.clk, fmt("%.9f %.9f %.9f %.9f", d.x[0], d.x[1], d.x[2], d.clk));
   bool C = h.ver >= 'c'; if (C) for (int i = 0; i < 4; i++) VF_CHECK(p.sig[i] < 0 ? "sp3.rec.sigma.blank" : "sp3.rec.sigma", d.sig[i] == p.sig[i], "sigma " << i << " " << p.sig[i] << " read as " << d.sig[i]); VF_CHECK("sp3.rec.flags", d.clockEventFlag == p.f[0] && d.clockPredFlag == p.f[1] && d.orbitManeuverFlag == p.f[2] && d.orbitPredFlag == p.f[3] && d.eventFlag == p.ev, p.type << " flags " << p.f[0] << p.f[1] << p.f[2] << p.f[3] << p.ev << " read as " << d.clockEventFlag << d.clockPredFlag << d.orbitManeuverFlag << d.orbitPredFlag << d.eventFlag);
   bool ok = d.correlationFlag == p.corr; for (int i = 0; i < 4; i++) ok = ok && d.sdev[i] == p.sd[i]; for (int i = 0; i < 6; i++) ok = ok && d.correlation[i] == p.co[i]; VF_CHECK("sp3.rec.correlation", ok, p.type << " record, correlation " << p.corr << " read as " << d.correlationFlag);
}
static void sp3(vf::Case& c)
{
   vf::Rng& r = c.rng; SP3Header H; SP3Data d; SP3Stream in, out; bool reuse = r.chance(0.6); std::string f = vf::scratch() + "/a.sp3", g = vf::scratch() + "/b.sp3"; int nf = r.range(1, 3);
   for (int k = 0; k < nf; k++) { Sp3 h = makeSp3(r); c.note(fmt("version %c, %zu satellites, %zu records, file %d", h.ver, h.sats.size(), h.recs.size(), k)); c.distinct(fmt("%c|%zu|%d|%d", h.ver, h.sats.size(), h.vel, k)); c.count("sp3.files"); c.count(fmt("sp3.version.%c", h.ver).c_str()); Lines T = sp3Text(h); c.count("sp3.lines", T.size());
      // an EOF record may be missing, with or without the last newline
      int eof = r.below(4); Lines U = T; if (eof >= 2) U.pop_back(); std::string txt = join(U); if (eof == 3) txt.erase(txt.size() - 1); vf::spit(f, txt); c.count(eof >= 2 ? "sp3.noeof" : "sp3.eof"); if (!reuse) { H = SP3Header(); d = SP3Data(); }
      std::vector<SP3Data> got; VF_NOTHROW("sp3.read", { in.close(); in.clear(); in.open(f.c_str(), std::ios::in); in.exceptions(std::ios::goodbit); in >> H; while (in >> d) { got.push_back(d); if (got.size() > h.recs.size() + 50) break; } }, "reading");
      cmpHead(h, H); VF_CHECK(eof >= 2 ? "sp3.count.noeof" : "sp3.count", got.size() == h.recs.size(), h.recs.size() << " records read as " << got.size()); if (got.size() == h.recs.size()) for (size_t i = 0; i < got.size(); i++) cmpRec(h, h.recs[i], got[i]); VF_CHECK("sp3.warnings", in.warnings.empty() || eof >= 2, in.warnings.size() << " warnings");
      if (r.chance(0.5)) { VF_NOTHROW("sp3.rewrite", { out.close(); out.clear(); out.open(g.c_str(), std::ios::out); SP3Header W = H; W.allowSP3aEvents = h.ev; out << W; for (auto& p : got) out << p; VF_CHECK("sp3.linecount", out.lineNumber == T.size() - 1, "counted " << out.lineNumber << " of " << T.size() - 1 << " lines"); out.close(); }, "writing"); same("sp3.rewrite.text", T, split(vf::slurp(g))); }
      else { VF_NOTHROW("sp3.write", { out.close(); out.clear(); out.open(g.c_str(), std::ios::out); out << toHead(h); for (auto& p : h.recs) out << toData(h, p); VF_CHECK("sp3.linecount", out.lineNumber == T.size() - 1, "counted " << out.lineNumber << " of " << T.size() - 1 << " lines"); out.close(); }, "writing"); same("sp3.write.text", T, split(vf::slurp(g))); }
   }
}
// what the format cannot hold is refused, and damaged files are errors rather than data
static void sp3bad(vf::Case& c)
{
   vf::Rng& r = c.rng; Sp3 h = makeSp3(r); std::string f = vf::scratch() + "/a.sp3", g = vf::scratch() + "/b.sp3"; int k = r.below(8); c.note(fmt("kind %d version %c", k, h.ver)); c.distinct(fmt("%d%c", k, h.ver)); c.count(fmt("sp3.bad.%d", k).c_str()); SP3Stream out(g.c_str(), std::ios::out); out.exceptions(std::ios::failbit);
   if (k == 0) { h.ver = "abc"[r.below(3)]; h.ts = TimeSystem::GPS; h.sats.clear(); for (int i = 1; i <= 86 + r.range(0, 10); i++) h.sats.push_back({SatID(i, SatelliteSystem::GPS), 1}); VF_THROWS("sp3.refuse.toomany", Exception, out << toHead(h), h.sats.size() << " satellites in version " << h.ver); return; }
   if (k == 1) { h.ver = "bcd"[r.below(3)]; h.ts = h.ver == 'b' ? r.pick(std::vector<TimeSystem>{TimeSystem::GLO, TimeSystem::TAI, TimeSystem::Any}) : r.pick(std::vector<TimeSystem>{TimeSystem::Any, TimeSystem::Unknown, TimeSystem::BDT, TimeSystem::IRN}); while (h.sats.size() > 85) h.sats.pop_back(); VF_THROWS("sp3.refuse.timesystem", Exception, out << toHead(h), "time system " << tsName(h.ts)); return; }
   if (k == 2) { Sp3 a = h; a.ver = 'a'; a.sats.assign(1, {SatID(1, SatelliteSystem::GPS), 1}); VF_NOTHROW("sp3.write", out << toHead(a), "writing"); Rec p; for (auto& q : h.recs) if (q.type == 'P') p = q; p.sat = SatID(3, SatelliteSystem::Glonass); VF_THROWS("sp3.refuse.nongps", Exception, out << toData(a, p), "GLONASS in version a"); return; }
   Lines T = sp3Text(h); size_t hl = sp3Head(h).size(); bool inhead = k >= 5; size_t at = 0;
   if (k == 3) { do at = r.range(hl, T.size() - 2); while (T[at][0] == 'E'); T[at] = T[at].substr(0, T[at][0] == '*' ? r.range(5, 20) : r.range(5, 50)); } else if (k == 4) { at = r.range(hl, T.size() - 2); T[at][0] = "QXZ#7"[r.below(5)]; } else if (k == 5) { T[0][1] = "efgZ "[r.below(5)]; } else if (k == 6) { T[r.below(2)][0] = '!'; } else { size_t i; for (i = 0; i < T.size() && T[i].substr(0, 2) != "++"; i++); T.erase(T.begin() + i, T.end()); }
   vf::spit(f, join(T)); SP3Stream in(f.c_str()); in.exceptions(std::ios::failbit); SP3Header H; SP3Data d; size_t n = 0;
   if (inhead) VF_THROWS("sp3.damaged.header", Exception, in >> H, "header damaged in way " << k); else { bool threw = false; try { in >> H; while (n < h.recs.size() + 5) { in >> d; n++; if (in.eof()) break; } } catch (Exception&) { threw = true; } VF_CHECK("sp3.damaged.record", threw && n <= at - hl, "damaged line " << at - hl << " of the data accepted; " << n << " records read"); }
}

// ------------------------------------------------------------------ RINEX clock
static double val12(vf::Rng& r) { if (r.chance(0.1)) return 0; return atof(fmt("%.11e", std::fabs(r.logmag(1e-16, 1e3)) * (r.chance(0.5) ? 1 : -1)).c_str()); }
static std::string e19(double v) // 0.dddddddddddd E+xx with 12 digits, right justified in 19
{
   if (v == 0) return rj("0.000000000000E+00", 19); std::string s = fmt("%.11e", std::fabs(v)); std::string m = s.substr(0, 1) + s.substr(2, 11); int ex = atoi(s.substr(s.find('e') + 1).c_str()) + 1; return rj(std::string(v < 0 ? "-" : "") + "0." + m + fmt("E%c%02d", ex < 0 ? '-' : '+', std::abs(ex)), 19);
}
static std::string clkTime(const Tm& t) { Cal c = cal(t.mjd, t.sod, 6); return fmt("%4d %2d %2d %2d %2d %9.6f", c.y, c.mo, c.d, c.h, c.mi, c.s); }
static std::string clkTime0(const Tm& t) { Cal c = cal(t.mjd, t.sod, 6); return fmt("%4d %02d %02d %02d %02d %9.6f", c.y, c.mo, c.d, c.h, c.mi, c.s); }
struct Sta { std::string name, num; long long x[3]; };
struct Clk { double ver; std::string prog, run, fsys, trf, ac, acn; Lines com, types; int leap; bool hasLeap, hasTs, hasObs; TimeSystem ts; std::map<std::string, std::vector<std::string>> obs; std::map<std::string, std::pair<std::string, std::string>> dcb, pcv; std::vector<Sta> sta; std::vector<std::string> sats; };
struct CRec { std::string type, name; Tm t; int n; double v[6]; };
static std::string word(vf::Rng& r, int a, int b) { std::string s = r.str(r.range(a, b), "ABCDEFxyz019"); return s; }
static Clk makeClk(vf::Rng& r, bool v3)
{
   Clk h; h.ver = v3 ? r.pick(std::vector<double>{3.0, 3.01, 3.02}) : r.pick(std::vector<double>{2.0, 2.1}); h.prog = word(r, 1, 20); h.run = word(r, 1, 20); h.fsys = r.pick(std::vector<std::string>{"G", "R", "M", "E", "C"}); h.trf = word(r, 1, 50); h.ac = v3 ? word(r, 1, 3) : word(r, 3, 3); h.acn = word(r, 1, 55); int nc = r.below(4); for (int i = 0; i < nc; i++) h.com.push_back(r.chance(0.2) ? word(r, 60, 60) : word(r, 1, 60)); h.hasLeap = r.chance(0.6); h.leap = r.range(0, 40); h.hasTs = v3 && r.chance(0.7); h.ts = r.pick(std::vector<TimeSystem>{TimeSystem::GPS, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::UTC, TimeSystem::TAI, TimeSystem::QZS, TimeSystem::BDT}); h.types = r.chance(0.5) ? Lines{"AR", "AS"} : r.chance(0.5) ? Lines{"AS"} : Lines{"AS", "AR", "CR", "DR", "MS"};
   h.hasObs = false; if (v3 && r.chance(0.6)) { h.hasObs = true; const std::vector<std::string> G = {"C1C", "L1C", "D1C", "S1C", "C1W", "L1W", "C2W", "L2W", "S2W", "D2W", "C5Q", "L5Q", "S5Q", "D5Q", "C2L", "L2L", "S2L", "C5I", "L5I", "S5I", "D5I", "C5X", "L5X", "S5X", "D5X", "C1X", "L1X"}; int ns = r.range(1, 3); for (int i = 0; i < ns; i++) { std::string s(1, "GRE"[i]); if (s == "R") h.obs[s] = {"C1C", "L1C", "C2P"}; else if (s == "E") h.obs[s] = {"C1X", "L1X", "C5X", "L5X"}; else { int n = r.pick(std::vector<int>{1, 4, 12, 13, 14, 25, 26, 27}); h.obs[s] = std::vector<std::string>(G.begin(), G.begin() + n); } } }
   if (v3 && r.chance(0.5)) { for (const char* s : {"G", "R"}) if (r.chance(0.7)) h.dcb[s] = {r.chance(0.3) ? word(r, 17, 17) : word(r, 1, 17), r.chance(0.3) ? word(r, 40, 40) : word(r, 1, 40)}; for (const char* s : {"G", "E"}) if (r.chance(0.7)) h.pcv[s] = {r.chance(0.3) ? word(r, 17, 17) : word(r, 1, 17), word(r, 1, 40)}; }
   std::set<std::string> nm; int ns = r.pick(std::vector<int>{1, 2, 5, 20}); while ((int)nm.size() < ns) nm.insert(r.str(r.chance(0.15) ? r.range(2, 3) : 4, "ABCDEFGHIJKLMNOP0123456789")); for (auto& n : nm) { Sta s; s.name = n; s.num = r.chance(0.3) ? word(r, 20, 20) : word(r, 1, 20); for (int i = 0; i < 3; i++) s.x[i] = r.range(-6400000000L, 6400000000L); h.sta.push_back(s); }
   int np = r.pick(std::vector<int>{1, 14, 15, 16, 29, 30, 31, 45, 60}); std::set<std::string> ss; while ((int)ss.size() < np) { char y = v3 ? "GREC"[r.below(4)] : "GR"[r.below(2)]; ss.insert(fmt("%c%02d", y, (int)r.range(1, 36))); } h.sats.assign(ss.begin(), ss.end()); return h;
}
static std::string lab(const std::string& s, const char* l) { return pad(s, 60) + l; }
static Lines clkHead(const Clk& h, bool v3)
{
   Lines L; L.push_back(lab(fmt("%9.2f", h.ver) + std::string(11, ' ') + (v3 ? "CLOCK" + std::string(15, ' ') + h.fsys : "CLOCK"), "RINEX VERSION / TYPE")); L.push_back(lab(pad(h.prog, 20) + pad(h.run, 20), "PGM / RUN BY / DATE"));
   if (h.hasObs) for (auto& s : h.obs) { std::string l = s.first + fmt("  %3zu", s.second.size()); for (size_t i = 0; i < s.second.size(); i++) { if (i && i % 13 == 0) { L.push_back(lab(l, "SYS / # / OBS TYPES")); l = "      "; } l += " " + s.second[i]; } L.push_back(lab(l, "SYS / # / OBS TYPES")); }
   if (h.hasTs) L.push_back(lab("   " + tsName(h.ts), "TIME SYSTEM ID")); for (auto& s : h.com) L.push_back(lab(s, "COMMENT")); if (h.hasLeap) L.push_back(lab(fmt("%6d", h.leap), "LEAP SECONDS")); for (auto& s : h.dcb) L.push_back(lab(s.first + " " + pad(s.second.first, 17) + " " + s.second.second, "SYS / DCBS APPLIED")); for (auto& s : h.pcv) L.push_back(lab(s.first + " " + pad(s.second.first, 17) + " " + s.second.second, "SYS / PCVS APPLIED"));
   std::string l = fmt("%6zu", h.types.size()); for (auto& t : h.types) l += "    " + t; L.push_back(lab(l, "# / TYPES OF DATA")); L.push_back(lab(pad(h.ac, 3) + "  " + h.acn, "ANALYSIS CENTER")); return L;
}
static void clkTail(const Clk& h, Lines& L)
{
   L.push_back(lab(fmt("%6zu", h.sta.size()) + "    " + h.trf, "# OF SOLN STA / TRF")); for (auto& s : h.sta) L.push_back(lab(pad(s.name, 4) + " " + pad(s.num, 20) + fmt("%11lld %11lld %11lld", s.x[0], s.x[1], s.x[2]), "SOLN STA NAME / NUM")); L.push_back(lab(fmt("%6zu", h.sats.size()), "# OF SOLN SATS")); std::string l; for (size_t i = 0; i < h.sats.size(); i++) { l += h.sats[i] + " "; if (i % 15 == 14 || i + 1 == h.sats.size()) { L.push_back(lab(l, "PRN LIST")); l = ""; } } L.push_back(lab("", "END OF HEADER"));
}
static CRec makeRec(vf::Rng& r, const Clk& h, bool v3)
{
   CRec p; p.type = v3 ? (r.chance(0.5) ? "AS" : "AR") : h.types[r.below(h.types.size())]; p.name = p.type == "AS" ? r.pick(h.sats) : r.pick(h.sta).name; p.t = rndTime(r, 6); p.n = v3 ? r.range(2, 6) : r.range(1, 6); for (int i = 0; i < 6; i++) p.v[i] = i < p.n ? val12(r) : 0; if (v3 && p.n > 2 && p.v[p.n - 1] == 0) p.v[p.n - 1] = 1.25e-12; return p;
}
static Lines clkRec(const CRec& p, bool zero)
{
   Lines L; std::string s = p.type + " " + pad(p.name, 4) + " " + (zero ? clkTime0(p.t) : clkTime(p.t)) + fmt("%3d   ", p.n) + e19(p.v[0]); if (p.n > 1) s += " " + e19(p.v[1]); L.push_back(s); if (p.n > 2) { s = ""; for (int i = 2; i < p.n; i++) s += e19(p.v[i]) + " "; L.push_back(rtrim(s)); } return L;
}
static Lines maskDate(Lines v) { for (auto& l : v) if (l.size() > 60 && l.substr(60) == "PGM / RUN BY / DATE") l = l.substr(0, 40) + std::string(20, ' ') + l.substr(60); return v; }
static void clk3(vf::Case& c)
{
   vf::Rng& r = c.rng; Rinex3ClockHeader H; Rinex3ClockData d; bool reuse = r.chance(0.6); std::string f = vf::scratch() + "/a.clk", g = vf::scratch() + "/b.clk"; int nf = r.range(1, 3);
   for (int k = 0; k < nf; k++) { Clk h = makeClk(r, true); std::vector<CRec> recs; int n = r.range(1, 12); for (int i = 0; i < n; i++) recs.push_back(makeRec(r, h, true)); c.note(fmt("file %d: %zu stations %zu satellites %zu systems %d records", k, h.sta.size(), h.sats.size(), h.obs.size(), n)); c.distinct(fmt("%zu|%zu|%zu|%d|%d", h.sta.size(), h.sats.size(), h.obs.size(), h.hasTs, k)); c.count("clk3.files"); c.count("clk3.records", n);
      Lines T = clkHead(h, true); clkTail(h, T); size_t nh = T.size(); for (auto& p : recs) for (auto& l : clkRec(p, true)) T.push_back(l); Lines F = T; F[1] = pad(F[1].substr(0, 40) + "2011/05/06 01:02:03", 60) + F[1].substr(60); if (!reuse) { H = Rinex3ClockHeader(); d = Rinex3ClockData(); } if (r.chance(0.3)) { F[1] += "\n" + lab("A NOTE", "COMMENT"); h.com.insert(h.com.begin(), "A NOTE"); T = clkHead(h, true); clkTail(h, T); nh = T.size(); for (auto& p : recs) for (auto& l : clkRec(p, true)) T.push_back(l); } vf::spit(f, join(F));
      std::vector<Rinex3ClockData> got; VF_NOTHROW("clk3.read", { Rinex3ClockStream in(f.c_str()); in.exceptions(std::ios::failbit); in >> H; in.exceptions(std::ios::goodbit); while (in >> d) got.push_back(d); }, "reading");
      VF_CHECK("clk3.head.version", H.version == h.ver && H.program == h.prog && H.runby == h.run && H.fileSys == h.fsys, H.version << " " << H.program << " " << H.runby << " " << H.fileSys); VF_CHECK("clk3.head.comments", H.commentList == h.com, H.commentList.size() << " comments of " << h.com.size()); VF_CHECK("clk3.head.types", H.dataTypes == h.types, H.dataTypes.size() << " types of " << h.types.size()); VF_CHECK("clk3.head.leap", H.leapSeconds == (h.hasLeap ? h.leap : 0) && !(H.valid & Rinex3ClockHeader::leapSecondsValid) == !h.hasLeap, H.leapSeconds); VF_CHECK("clk3.head.timesystem", H.timeSystem == (h.hasTs ? h.ts : TimeSystem::Any), tsName(H.timeSystem)); VF_CHECK("clk3.head.center", H.analCenterDesignator == h.ac && H.analysisCenter == h.acn && H.terrRefFrame == h.trf, H.analCenterDesignator << "/" << H.analysisCenter << "/" << H.terrRefFrame);
      VF_CHECK("clk3.head.obsnum", H.sysObsTypes.size() == h.obs.size(), H.sysObsTypes.size() << " systems with observation types, of " << h.obs.size()); for (auto& s : h.obs) { auto& v = H.sysObsTypes[s.first]; bool ok = v.size() == s.second.size(); for (size_t i = 0; ok && i < v.size(); i++) ok = v[i].asString() == s.second[i]; std::string all; for (auto& o : v) all += o.asString() + " "; VF_CHECK("clk3.head.obs", ok, s.first << ": " << all << " for " << s.second.size() << " types"); }
      bool ok = H.dcbsMap.size() == h.dcb.size() && H.pcvsMap.size() == h.pcv.size(); for (auto& s : h.dcb) ok = ok && H.dcbsMap[s.first] == s.second; for (auto& s : h.pcv) ok = ok && H.pcvsMap[s.first] == s.second; VF_CHECK("clk3.head.corrections", ok, "DCBs or PCVs applied differ"); ok = H.numSolnStations == (int)h.sta.size() && H.stationID.size() == h.sta.size(); for (auto& s : h.sta) ok = ok && H.stationID[s.name] == s.num && H.stationX[s.name] == fmt("%lld", s.x[0]) && H.stationY[s.name] == fmt("%lld", s.x[1]) && H.stationZ[s.name] == fmt("%lld", s.x[2]); VF_CHECK("clk3.head.stations", ok, H.stationID.size() << " stations"); ok = H.numSolnSatellites == (int)h.sats.size() && H.satList.size() == h.sats.size(); for (size_t i = 0; ok && i < h.sats.size(); i++) ok = H.satList[i] == RinexSatID(h.sats[i]); VF_CHECK("clk3.head.satlist", ok, H.satList.size() << " satellites of " << h.sats.size());
      VF_CHECK("clk3.count", got.size() == recs.size(), got.size() << " records of " << recs.size()); for (size_t i = 0; i < got.size() && i < recs.size(); i++) { const CRec& p = recs[i]; const Rinex3ClockData& q = got[i]; VF_CHECK("clk3.rec.id", q.datatype == p.type && (p.type == "AS" ? q.sat == RinexSatID(p.name) && trim(q.site).empty() : trim(q.site) == p.name), q.datatype << " " << q.sat << " " << q.site << " for " << p.type << " " << p.name); VF_CHECK("clk3.rec.time", std::fabs(secs(q.time, p.t)) < 6e-7, "epoch off by " << secs(q.time, p.t)); double w[6] = {q.bias, q.sig_bias, q.drift, q.sig_drift, q.accel, q.sig_accel}; for (int j = 0; j < 6; j++) VF_CHECK("clk3.rec.value", w[j] == p.v[j], "value " << j << " " << p.v[j] << " read as " << w[j]); }
      std::vector<Rinex3ClockData> mine; for (auto& p : recs) { Rinex3ClockData q; q.datatype = p.type; if (p.type == "AS") q.sat = RinexSatID(p.name); else q.site = p.name; q.time = ct(p.t, TimeSystem::GPS); q.bias.val = p.v[0]; q.sig_bias.val = p.v[1]; q.drift.val = p.v[2]; q.sig_drift.val = p.v[3]; q.accel.val = p.v[4]; q.sig_accel.val = p.v[5]; mine.push_back(q); } bool own = r.chance(0.5); VF_NOTHROW("clk3.write", { Rinex3ClockStream out(g.c_str(), std::ios::out); out.exceptions(std::ios::failbit); out << H; VF_CHECK("clk3.linecount", out.lineNumber == nh, "counted " << out.lineNumber << " of " << nh); for (auto& q : own ? mine : got) out << q; VF_CHECK("clk3.linecount", out.lineNumber == T.size(), "counted " << out.lineNumber << " of " << T.size()); }, "writing"); Lines W = maskDate(split(vf::slurp(g))); same("clk3.text", T, W);
   }
}
struct Ref { Tm a, b; bool dated; std::vector<std::tuple<std::string, std::string, double>> c; };
static void clk2(vf::Case& c)
{
   vf::Rng& r = c.rng; RinexClockHeader H; RinexClockData d; bool reuse = r.chance(0.6); std::string f = vf::scratch() + "/a.clk", g = vf::scratch() + "/b.clk"; int nf = r.range(1, 3);
   for (int k = 0; k < nf; k++) { Clk h = makeClk(r, false); std::vector<CRec> recs; int n = r.range(1, 12); for (int i = 0; i < n; i++) recs.push_back(makeRec(r, h, false)); bool name = r.chance(0.4), cal_ = name && r.chance(0.6); Sta st = r.pick(h.sta); std::string cref = word(r, 1, 60); std::vector<Ref> refs; int nr = r.range(1, 3); for (int i = 0; i < nr; i++) { Ref q; q.dated = nr > 1 || r.chance(0.5); q.a = rndTime(r, 6); q.b = q.a; q.b.mjd += r.range(1, 3); int m = r.range(1, 4); for (int j = 0; j < m; j++) q.c.push_back({r.pick(h.sta).name, r.chance(0.3) ? word(r, 20, 20) : word(r, 1, 20), r.chance(0.4) ? 0 : 1.25e-9 * r.range(1, 999)}); refs.push_back(q); }
      bool soln = !reuse || r.chance(0.7); // files without the analysis part
      c.note(fmt("file %d: %zu stations %zu satellites %d records", k, h.sta.size(), h.sats.size(), n)); c.distinct(fmt("%zu|%zu|%d|%d|%d", h.sta.size(), h.sats.size(), nr, name, k)); c.count("clk2.files"); c.count("clk2.records", n);
      Lines T = clkHead(h, false); std::string acl = T.back(); T.pop_back(); if (name) T.push_back(lab(pad(st.name, 4) + " " + st.num, "STATION NAME / NUM")); if (cal_) T.push_back(lab(cref, "STATION CLK REF")); T.push_back(acl); for (auto& q : refs) { T.push_back(lab(fmt("%6zu ", q.c.size()) + (q.dated ? clkTime(q.a) + " " + clkTime(q.b) : ""), "# OF CLK REF")); for (auto& e : q.c) T.push_back(lab(pad(std::get<0>(e), 4) + " " + pad(std::get<1>(e), 20) + std::string(15, ' ') + (std::get<2>(e) == 0 ? "" : e19(std::get<2>(e))), "ANALYSIS CLK REF")); } if (soln) clkTail(h, T); else T.push_back(lab("", "END OF HEADER")); size_t nh = T.size(); for (auto& p : recs) for (auto& l : clkRec(p, false)) T.push_back(l); Lines F = T; F[1] = pad(F[1].substr(0, 40) + "2011/05/06 01:02:03", 60) + F[1].substr(60); vf::spit(f, join(F)); if (!reuse) { H = RinexClockHeader(); d = RinexClockData(); }
      std::vector<RinexClockData> got; VF_NOTHROW("clk2.read", { RinexClockStream in(f.c_str()); in.exceptions(std::ios::failbit); in >> H; in.exceptions(std::ios::goodbit); while (in >> d) got.push_back(d); }, "reading");
      VF_CHECK("clk2.head.version", H.version == h.ver && H.fileProgram == h.prog && H.fileAgency == h.run && H.date == "2011/05/06 01:02:03" && H.fileType[0] == 'C', H.version << " " << H.fileProgram << " " << H.fileAgency << " " << H.date); Lines cm; for (auto& s : H.commentList) cm.push_back(rtrim(s)); VF_CHECK("clk2.head.comments", cm == h.com, cm.size() << " comments of " << h.com.size()); Lines ty; for (auto& s : H.dataTypeList) ty.push_back(s.type); VF_CHECK("clk2.head.types", ty == h.types && H.numType == (int)h.types.size(), ty.size() << " types of " << h.types.size()); VF_CHECK("clk2.head.leap", H.leapSeconds == (h.hasLeap ? h.leap : 0) && !(H.valid & RinexClockHeader::leapSecondsValid) == !h.hasLeap, H.leapSeconds); VF_CHECK("clk2.head.station", trim(H.stationName) == (name ? st.name : "") && H.stationNumber == (name ? st.num : "") && H.stationClkRef == (cal_ ? cref : ""), H.stationName << "/" << H.stationNumber << "/" << H.stationClkRef); VF_CHECK("clk2.head.center", H.ac == h.ac && H.acName == h.acn, H.ac << "/" << H.acName);
      VF_CHECK("clk2.head.refs", H.refClkList.size() == refs.size(), H.refClkList.size() << " reference groups of " << refs.size()); auto it = H.refClkList.begin(); for (size_t i = 0; i < refs.size() && it != H.refClkList.end(); i++, ++it) { bool ok = it->numClkRef == (int)refs[i].c.size() && it->clocks.size() == refs[i].c.size(); size_t j = 0; for (auto& q : it->clocks) { if (ok) ok = trim(q.name) == std::get<0>(refs[i].c[j]) && q.number == std::get<1>(refs[i].c[j]) && std::fabs((double)q.clkConstraint - std::get<2>(refs[i].c[j])) <= 1e-12 * std::get<2>(refs[i].c[j]); j++; } VF_CHECK("clk2.head.ref", ok, "clock references of group " << i); CommonTime a = it->startEpoch, b = it->stopEpoch; VF_CHECK("clk2.head.refdates", refs[i].dated ? std::fabs(secs(a, refs[i].a)) < 6e-7 && std::fabs(secs(b, refs[i].b)) < 6e-7 : a == CommonTime::BEGINNING_OF_TIME && b == CommonTime::BEGINNING_OF_TIME, "dates of group " << i); }
      bool ok = H.solnStaList.size() == (soln ? h.sta.size() : 0) && H.numSta == (int)H.solnStaList.size() && H.trf == (soln ? h.trf : ""); size_t j = 0; for (auto& s : H.solnStaList) { if (ok) ok = trim(s.name) == h.sta[j].name && s.number == h.sta[j].num && s.posX == h.sta[j].x[0] && s.posY == h.sta[j].x[1] && s.posZ == h.sta[j].x[2]; j++; } VF_CHECK("clk2.head.stations", ok, H.solnStaList.size() << " stations"); ok = H.prnList.size() == (soln ? h.sats.size() : 0) && H.numSats == (int)H.prnList.size(); j = 0; for (auto& s : H.prnList) { if (ok) ok = s == (SatID)RinexSatID(h.sats[j]); j++; } VF_CHECK("clk2.head.satlist", ok, H.prnList.size() << " satellites");
      VF_CHECK("clk2.count", got.size() == recs.size(), got.size() << " records of " << recs.size()); for (size_t i = 0; i < got.size() && i < recs.size(); i++) { const CRec& p = recs[i]; const RinexClockData& q = got[i]; VF_CHECK("clk2.rec.id", q.type.type == p.type && trim(q.name) == p.name && q.dvCount == p.n, q.type.type << " " << q.name << " " << q.dvCount); CommonTime t = q.epochTime; VF_CHECK("clk2.rec.time", std::fabs(secs(t, p.t)) < 6e-7, "epoch off by " << secs(t, p.t)); for (int l = 0; l < 6; l++) VF_CHECK("clk2.rec.value", (double)q.clockData[l] == p.v[l], "value " << l << " " << p.v[l] << " read as " << (double)q.clockData[l]); }
      std::vector<RinexClockData> mine; for (auto& p : recs) { RinexClockData q; q.type = RinexClockBase::RinexClkType(p.type, ""); q.name = p.name; q.epochTime = CivilTime(ct(p.t, TimeSystem::GPS)); q.dvCount = p.n; for (int l = 0; l < 6; l++) q.clockData[l].val = p.v[l]; mine.push_back(q); } bool own = r.chance(0.5); VF_NOTHROW("clk2.write", { RinexClockStream out(g.c_str(), std::ios::out); out.exceptions(std::ios::failbit); out << H; VF_CHECK("clk2.linecount", out.lineNumber == nh, "counted " << out.lineNumber << " of " << nh); for (auto& q : own ? mine : got) out << q; VF_CHECK("clk2.linecount", out.lineNumber == T.size(), "counted " << out.lineNumber << " of " << T.size()); }, "writing"); same("clk2.text", maskDate(T), maskDate(split(vf::slurp(g))));
   }
}
// headers made by the user, not read: nothing uninitialised is written, stations may lack coordinates, and dumping works
static void made(vf::Case& c)
{
   vf::Rng& r = c.rng; std::string g = vf::scratch() + "/b.clk"; c.count("made"); unsigned char buf[sizeof(Rinex3ClockHeader)], b2[sizeof(SP3Header)], b3[sizeof(RinexClockHeader)]; memset(buf, 0xa5, sizeof buf); memset(b2, 0xa5, sizeof b2); memset(b3, 0xa5, sizeof b3); Rinex3ClockHeader& H = *new (buf) Rinex3ClockHeader; SP3Header& S = *new (b2) SP3Header; RinexClockHeader& K = *new (b3) RinexClockHeader; VF_CHECK("made.valid", H.valid == 0 && K.valid == 0 && !S.containsVelocity && S.numberOfEpochs == 0 && S.getVersion() == SP3Header::undefined && !S.allowSP3aEvents, "valid bits " << H.valid);
   { Rinex3ClockStream out(g.c_str(), std::ios::out); out.exceptions(std::ios::failbit); VF_THROWS("made.invalid", Exception, out << H, "a header without valid bits was written"); RinexClockStream o2(g.c_str(), std::ios::out); o2.exceptions(std::ios::failbit); VF_THROWS("made.invalid2", Exception, o2 << K, "a header without data types was written"); }
   int n = r.range(1, 5); for (int i = 0; i < n; i++) { std::string s = word(r, 2, 4); H.stationID[s] = "id"; for (int k = 0; k < 3; k++) if (r.chance(0.6)) (k == 0 ? H.stationX : k == 1 ? H.stationY : H.stationZ)[s] = "12345"; } H.valid = Rinex3ClockHeader::allRequiredValid; H.satList.push_back(RinexSatID(5, SatelliteSystem::GPS)); H.dataTypes.push_back("AS"); c.distinct(fmt("%d %d", n, c.idx)); { Rinex3ClockStream out(g.c_str(), std::ios::out); VF_NOTHROW("made.write", out << H, "writing"); } Lines L = split(vf::slurp(g)); bool ok = L.size() > 5; for (auto& l : L) ok = ok && l.size() > 60 && l.size() <= 80; VF_CHECK("made.columns", ok && L.back() == lab("", "END OF HEADER"), L.size() << " lines, some not 61-80 characters"); std::ostringstream o; VF_NOTHROW("made.dump", H.dump(o, 2); S.dump(o); K.dump(o), "dumping"); VF_CHECK("made.dump.text", o.str().size() > 200, o.str().size()); S.~SP3Header(); H.~Rinex3ClockHeader(); K.~RinexClockHeader();
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"sp3", 500, 6000, sp3}, {"sp3bad", 400, 4000, sp3bad}, {"clk3", 500, 6000, clk3}, {"clk2", 500, 6000, clk2}, {"made", 200, 1000, made}}); }
