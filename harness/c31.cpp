// C31: antenna calibrations are read, kept, selected and applied as written
#include "vf.hpp"
#include <cstdarg>
#include <new>
#include "AntexStream.hpp"
#include "AntexHeader.hpp"
#include "AntexData.hpp"
#include "AntennaStore.hpp"
#include "CivilTime.hpp"
#include "MJD.hpp"
using namespace gpstk;
typedef std::vector<std::string> Lines;
static std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string rtrim(std::string s) { size_t n = s.find_last_not_of(" \r\n"); return n == std::string::npos ? "" : s.substr(0, n + 1); }
static std::string trim(std::string s) { s = rtrim(s); size_t n = s.find_first_not_of(' '); return n == std::string::npos ? "" : s.substr(n); }
static std::string pad(const std::string& s, size_t n) { return (s + std::string(n, ' ')).substr(0, n); }
static Lines split(const std::string& t) { Lines v; std::istringstream i(t); std::string l; while (std::getline(i, l)) v.push_back(rtrim(l)); return v; }
static std::string join(const Lines& v) { std::string s; for (auto& l : v) s += l + "\n"; return s; }
static void same(const char* key, const Lines& a, const Lines& b)
{
   for (size_t i = 0; i < a.size() || i < b.size(); i++) { std::string x = i < a.size() ? rtrim(a[i]) : "<end>", y = i < b.size() ? rtrim(b[i]) : "<end>"; if (x != y) { VF_CHECK(key, false, "line " << i + 1 << " expected /" << x << "/ but is /" << y << "/"); return; } }
   VF_CHECK(key, true, "");
}
static void civ(long mjd, int& y, int& m, int& d) { long a = mjd + 2400001 + 32044, b = (4 * a + 3) / 146097, c = a - 146097 * b / 4, e = (4 * c + 3) / 1461, f = c - 1461 * e / 4, g = (5 * f + 2) / 153; d = f - (153 * g + 2) / 5 + 1; m = g + 3 - 12 * (g / 10); y = 100 * b + e - 4800 + g / 10; }

struct Frq { std::string name; double pco[3], rms[3]; bool hasRms; std::map<double, std::vector<double>> val, rmsv; };
struct Ant { bool rx; std::string type, serial, code, cospar, meth, agency, date, sinex; int ncal, prn, svn; char sys; double daz, z0, z1, dz; int nz; bool hasFrom, hasUntil, blankUntil; long from, until; double fsod, usod; Lines com; std::vector<Frq> f; };
struct Hdr { double ver; char sys, pcv; std::string ref, refsn; Lines com; };
static const char* SATT[] = {"BLOCK I", "BLOCK IIA", "BLOCK IIR-B", "BLOCK IIF", "BLOCK IIIA", "GLONASS", "GLONASS-M", "GLONASS-K1", "GALILEO-1", "GALILEO-2", "BEIDOU-2M", "BEIDOU-3M-CAST", "BEIDOU-2G", "QZSS", "IRNSS-1GEO"};
static double v2(vf::Rng& r, double m) { double v = llround(r.unif(-m, m) * 100) / 100.0; return v == 0 ? 0.0 : v; }
static Ant makeAnt(vf::Rng& r, int rx = -1)
{
   Ant a; a.rx = rx < 0 ? r.chance(0.5) : rx; a.prn = a.svn = -1; a.sys = ' ';
   if (a.rx) { a.type = pad(r.pick(std::vector<std::string>{"ASH701945D_M", "TRM59800.00", "LEIAT504GG", "NAVAN2004T", "JAVRINGANT_DM"}), 16) + r.pick(std::vector<std::string>{"NONE", "SCIS", "SNOW"}); if (r.chance(0.3)) a.type[3 + r.below(5)] = 'A' + r.below(26); a.serial = r.chance(0.5) ? "" : r.str(r.range(1, 20), "0123456789AB-"); a.code = a.cospar = ""; }
   else { std::string t = SATT[r.below(15)]; a.type = t; a.sys = t[0] == 'B' && t[1] == 'L' ? 'G' : t[0] == 'B' ? 'C' : t[0] == 'Q' ? 'J' : t[0] == 'I' ? 'I' : t[1] == 'A' ? 'E' : 'R'; a.prn = r.range(1, 36); if (r.chance(0.1)) a.prn = r.range(37, 99); a.serial = fmt("%c%02d", a.sys, a.prn); if (r.chance(0.85)) { a.svn = r.range(1, 999); a.code = fmt("%c%03d", a.sys, a.svn); } a.cospar = r.chance(0.8) ? fmt("%04ld-%03ld%c", r.range(1978, 2020), r.range(1, 120), 'A' + (int)r.below(5)) : ""; }
   a.meth = r.pick(std::vector<std::string>{"ROBOT", "CHAMBER", "CONVERTED", "COPIED"}); a.agency = r.pick(std::vector<std::string>{"Geo++ GmbH", "TUM", "NGS", "GFZ/TUM of the world"}); a.ncal = r.pick(std::vector<int>{0, 1, 5, 37, 123456}); a.date = fmt("%02ld-%s-%02ld", r.range(1, 28), r.pick(std::vector<std::string>{"JAN", "MAY", "OCT"}).c_str(), r.range(0, 99));
   a.daz = r.chance(0.5) ? 0.0 : r.pick(std::vector<double>{5, 10, 30, 45, 60, 90, 120, 22.5, 7.5}); a.dz = r.pick(std::vector<double>{1, 5, 5, 10, 0.5, 2.5}); a.z0 = r.chance(0.8) ? 0 : a.dz * r.range(1, 2); a.nz = r.range(1, a.rx ? 19 : 15); a.z1 = a.z0 + (a.nz - 1) * a.dz; if (a.z1 > 90) { a.z0 = 0; a.dz = 5; a.nz = 19; a.z1 = 90; } if (a.nz < 2) { a.nz = 2; a.z1 = a.z0 + a.dz; }
   a.hasFrom = a.rx ? r.chance(0.15) : r.chance(0.9); a.from = r.range(48000, 58000); a.fsod = r.chance(0.8) ? 0 : r.range(0, 86399); a.hasUntil = a.hasFrom && r.chance(0.6); a.blankUntil = a.hasUntil && r.chance(0.1); a.until = a.from + r.range(1, 3000); a.usod = r.chance(0.6) ? 86399.9999999 : r.range(0, 86399); a.sinex = r.chance(0.6) ? "IGS14_" + fmt("%04ld", r.range(1900, 2200)) : r.chance(0.3) ? "IGS08" : "";
   for (int n = r.below(4); n-- > 0;) { std::string s = r.str(r.range(1, 60), "abcXYZ 0123*#"); s[s.size() - 1] = 'q'; a.com.push_back(s); }
   std::vector<std::string> fs; char s = a.rx ? 'G' : a.sys; fs = {fmt("%c01", s), fmt("%c02", s), fmt("%c05", s), fmt("%c06", s)}; int nf = r.range(1, 4); if (a.rx && nf > 2) fs[2] = "R01", fs[3] = "R02"; bool anyr = r.chance(0.25); for (int i = 0; i < nf; i++) { Frq f; f.name = fs[i]; f.hasRms = anyr && (i == 0 || r.chance(0.7)); for (int j = 0; j < 3; j++) { f.pco[j] = v2(r, a.rx ? 200 : 3000); f.rms[j] = f.hasRms ? std::fabs(v2(r, 20)) : 0; } std::vector<double> az(1, -1.0); if (a.daz > 0) { bool open = r.chance(0.15); for (double z = 0; z <= (open ? 359.9 : 360.01); z += a.daz) az.push_back(z); } for (double z : az) for (int k = 0; k < a.nz; k++) { f.val[z].push_back(v2(r, r.chance(0.2) ? 600 : 15)); if (f.hasRms) f.rmsv[z].push_back(std::fabs(v2(r, 5))); } a.f.push_back(f); }
   return a;
}
static std::string lab(const std::string& s, const char* l) { return pad(s, 60) + l; }
static std::string tstr(long mjd, double sod) { int y, m, d; civ(mjd, y, m, d); long t = (long)std::floor(sod / 60); return fmt("%6d%6d%6d%6ld%6ld%13.7f", y, m, d, t / 60, t % 60, sod - t * 60.0); }
static std::string rowStr(double az, const std::vector<double>& v) { std::string s = az < 0 ? "   NOAZI" : fmt("%8.1f", az); for (double x : v) s += fmt("%8.2f", x); return s; }
static Lines antText(const Ant& a)
{
   Lines L; L.push_back(lab("", "START OF ANTENNA")); L.push_back(lab(pad(a.type, 20) + pad(a.serial, 20) + pad(a.code, 10) + pad(a.cospar, 10), "TYPE / SERIAL NO")); L.push_back(lab(pad(a.meth, 20) + pad(a.agency, 20) + fmt("%6d", a.ncal) + "    " + pad(a.date, 10), "METH / BY / # / DATE")); L.push_back(lab(fmt("  %6.1f", a.daz), "DAZI")); L.push_back(lab(fmt("  %6.1f%6.1f%6.1f", a.z0, a.z1, a.dz), "ZEN1 / ZEN2 / DZEN")); L.push_back(lab(fmt("%6zu", a.f.size()), "# OF FREQUENCIES"));
   if (a.hasFrom) L.push_back(lab(tstr(a.from, a.fsod), "VALID FROM")); if (a.hasUntil) L.push_back(lab(a.blankUntil ? "" : tstr(a.until, a.usod), "VALID UNTIL")); if (!a.sinex.empty()) L.push_back(lab(a.sinex, "SINEX CODE")); for (auto& s : a.com) L.push_back(lab(s, "COMMENT"));
   for (auto& f : a.f) { L.push_back(lab("   " + f.name, "START OF FREQUENCY")); L.push_back(lab(fmt("%10.2f%10.2f%10.2f", f.pco[0], f.pco[1], f.pco[2]), "NORTH / EAST / UP")); for (auto& v : f.val) L.push_back(rowStr(v.first, v.second)); L.push_back(lab("   " + f.name, "END OF FREQUENCY")); }
   for (auto& f : a.f) if (f.hasRms) { L.push_back(lab("   " + f.name, "START OF FREQ RMS")); L.push_back(lab(fmt("%10.2f%10.2f%10.2f", f.rms[0], f.rms[1], f.rms[2]), "NORTH / EAST / UP")); for (auto& v : f.rmsv) L.push_back(rowStr(v.first, v.second)); L.push_back(lab("   " + f.name, "END OF FREQ RMS")); }
   L.push_back(lab("", "END OF ANTENNA")); return L;
}
static Hdr makeHdr(vf::Rng& r) { Hdr h; h.ver = r.chance(0.5) ? 1.3 : 1.4; h.sys = " GRECJSIM"[r.below(9)]; h.pcv = r.chance(0.7) ? 'A' : 'R'; h.ref = r.chance(0.5) ? "" : "AOAD/M_T        NONE"; h.refsn = r.chance(0.6) ? "" : "SN 17"; for (int n = r.below(4); n-- > 0;) h.com.push_back("x" + r.str(r.range(0, 58), "abc XYZ") + "y"); return h; }
static Lines hdrText(const Hdr& h) { Lines L; L.push_back(lab(fmt("%8.1f            %c", h.ver, h.sys), "ANTEX VERSION / SYST")); L.push_back(lab(pad(std::string(1, h.pcv), 20) + pad(h.ref, 20) + pad(h.refsn, 20), "PCV TYPE / REFANT")); for (auto& s : h.com) L.push_back(lab(s, "COMMENT")); L.push_back(lab("", "END OF HEADER")); return L; }
static CommonTime ct(long mjd, double sod, TimeSystem ts = TimeSystem::Any) { return MJD((long double)mjd, ts).convertToCommonTime() + sod; }
static AntexHeader toHdr(const Hdr& h) { AntexHeader H; H.version = h.ver; H.system = h.sys; H.pcvType = h.pcv; H.refAntType = h.ref; H.refAntSerNum = h.refsn; H.commentList = h.com; H.valid = AntexHeader::allValid13; if (!h.com.empty()) H.valid |= AntexHeader::commentValid; return H; }
static AntexData toAnt(const Ant& a, bool abs)
{
   AntexData d; d.absolute = abs; d.isRxAntenna = a.rx; d.PRN = a.prn; d.SVN = a.svn; d.systemChar = a.sys; d.nFreq = a.f.size(); d.azimDelta = a.daz; d.zenRange[0] = a.z0; d.zenRange[1] = a.z1; d.zenRange[2] = a.dz; d.type = a.type; d.serialNo = a.serial; d.satCode = a.code; d.cospar = a.cospar; d.method = a.meth; d.agency = a.agency; d.noAntCalibrated = a.ncal; d.date = a.date; d.commentList = a.com; d.valid = AntexData::allValid13;
   if (a.hasFrom) { d.validFrom = ct(a.from, a.fsod); d.valid |= AntexData::validFromValid; } if (a.hasUntil) { d.valid |= AntexData::validUntilValid; if (!a.blankUntil) d.validUntil = ct(a.until, a.usod); } if (!a.sinex.empty()) { d.sinexCode = a.sinex; d.valid |= AntexData::sinexCodeValid; } if (!a.com.empty()) d.valid |= AntexData::dataCommentValid;
   for (auto& f : a.f) { auto& p = d.freqPCVmap[f.name]; p.hasAzimuth = a.daz > 0; for (int j = 0; j < 3; j++) { p.PCOvalue[j] = f.pco[j]; p.PCOrms[j] = f.rms[j]; } for (auto& v : f.val) for (int k = 0; k < a.nz; k++) p.PCVvalue[v.first][a.z0 + k * a.dz] = v.second[k]; for (auto& v : f.rmsv) for (int k = 0; k < a.nz; k++) p.PCVrms[v.first][a.z0 + k * a.dz] = v.second[k]; if (f.hasRms) d.valid |= AntexData::startFreqRMSValid | AntexData::neuFreqRMSValid | AntexData::endOfFreqRMSValid; }
   return d;
}
static bool grid(const AntexData::azimZenMap& m, const std::map<double, std::vector<double>>& v, const Ant& a) { if (m.size() != v.size()) return false; for (auto& x : v) { auto i = m.find(x.first); if (i == m.end() || i->second.size() != x.second.size()) return false; int k = 0; for (auto& z : i->second) { if (std::fabs(z.first - (a.z0 + k * a.dz)) > 1e-9 || z.second != x.second[k]) return false; k++; } } return true; }
static bool sameT(const CommonTime& x, long mjd, double sod) { CommonTime y = x; y.setTimeSystem(TimeSystem::Any); return std::fabs(y - ct(mjd, sod)) < 1e-7; }
static void cmpAnt(const Ant& a, const AntexData& d, bool abs)
{
   VF_CHECK("antex.valid", d.isValid() && d.isData(), "antenna " << a.type << " not valid"); VF_CHECK("antex.kind", d.isRxAntenna == a.rx && d.absolute == abs, a.type << " receiver " << d.isRxAntenna << " absolute " << d.absolute << " expected " << a.rx << " " << abs); VF_CHECK("antex.text", d.type == trim(a.type) && d.serialNo == trim(a.serial) && d.satCode == a.code && d.cospar == a.cospar && d.method == a.meth && d.agency == rtrim(a.agency.substr(0, 20)) && d.noAntCalibrated == a.ncal && d.date == a.date && d.sinexCode == a.sinex, d.type << "/" << d.serialNo << "/" << d.satCode << "/" << d.cospar << "/" << d.method << "/" << d.agency << "/" << d.noAntCalibrated << "/" << d.date << "/" << d.sinexCode); if (!a.rx) VF_CHECK("antex.satellite", d.PRN == a.prn && d.SVN == a.svn && d.systemChar == a.sys, a.serial << " " << a.code << " read as " << d.systemChar << d.PRN << " " << d.SVN);
   VF_CHECK("antex.grid", d.azimDelta == a.daz && d.zenRange[0] == a.z0 && d.zenRange[1] == a.z1 && d.zenRange[2] == a.dz && d.nFreq == a.f.size() && d.freqPCVmap.size() == a.f.size(), d.azimDelta << " " << d.zenRange[0] << " " << d.zenRange[1] << " " << d.zenRange[2] << " " << d.nFreq << " " << d.freqPCVmap.size()); VF_CHECK("antex.comments", d.commentList == a.com, d.commentList.size() << " comments of " << a.com.size());
   if (a.hasFrom) VF_CHECK("antex.from", sameT(d.validFrom, a.from, a.fsod), "valid from " << a.from << " " << a.fsod << " read as " << d.validFrom); else VF_CHECK("antex.from", d.validFrom == CommonTime::BEGINNING_OF_TIME, d.validFrom); if (a.hasUntil && !a.blankUntil) VF_CHECK("antex.until", sameT(d.validUntil, a.until, a.usod), "valid until " << a.until << " " << a.usod << " read as " << d.validUntil); else VF_CHECK("antex.until", d.validUntil == CommonTime::END_OF_TIME, d.validUntil);
   for (auto& f : a.f) { auto i = d.freqPCVmap.find(f.name); VF_CHECK("antex.freq", i != d.freqPCVmap.end(), "frequency " << f.name << " missing"); if (i == d.freqPCVmap.end()) continue; auto& p = i->second; VF_CHECK("antex.pco", p.PCOvalue[0] == f.pco[0] && p.PCOvalue[1] == f.pco[1] && p.PCOvalue[2] == f.pco[2], f.name << " " << p.PCOvalue[0] << " " << p.PCOvalue[1] << " " << p.PCOvalue[2]); VF_CHECK("antex.pcv", grid(p.PCVvalue, f.val, a) && p.hasAzimuth == (a.daz > 0), f.name << " variations differ, azimuths " << p.hasAzimuth); if (f.hasRms) VF_CHECK("antex.rms", p.PCOrms[0] == f.rms[0] && p.PCOrms[1] == f.rms[1] && p.PCOrms[2] == f.rms[2], f.name << " RMS " << p.PCOrms[0] << " " << p.PCOrms[1] << " " << p.PCOrms[2]); VF_CHECK("antex.rmsgrid", grid(p.PCVrms, f.rmsv, a), f.name << " RMS of variations differ"); }
}
static void cmpHdr(const Hdr& h, const AntexHeader& H) { VF_CHECK("antex.header", H.isValid() && H.version == h.ver && H.system == h.sys && H.pcvType == h.pcv && trim(H.refAntType) == h.ref && trim(H.refAntSerNum) == h.refsn, H.version << " /" << H.system << "/ " << H.pcvType << " " << H.refAntType << " " << H.refAntSerNum); VF_CHECK("antex.header.comments", H.commentList == h.com, H.commentList.size() << " comments of " << h.com.size()); }

static void file(vf::Case& c)
{
   vf::Rng& r = c.rng; std::string f = vf::scratch() + "/a.atx", g = vf::scratch() + "/b.atx"; AntexHeader H; AntexData d; bool reuse = r.chance(0.6); AntexStream in, out;
   for (int k = r.range(1, 2); k-- > 0;) { Hdr h = makeHdr(r); std::vector<Ant> A; for (int n = r.range(0, 4); n-- >= 0;) A.push_back(makeAnt(r)); Lines T = hdrText(h); for (auto& a : A) for (auto& s : antText(a)) T.push_back(s); vf::spit(f, join(T)); c.count("antex.files"); c.count("antex.antennas", A.size()); for (auto& a : A) c.distinct(fmt("%d|%g|%g|%d|%zu", a.rx, a.daz, a.dz, a.nz, a.f.size())); if (!reuse) { H = AntexHeader(); d = AntexData(); }
      std::vector<AntexData> got; VF_NOTHROW("antex.read", { in.close(); in.clear(); in.open(f.c_str(), std::ios::in); in.exceptions(std::ios::goodbit); in >> H; while (in >> d) { got.push_back(d); if (got.size() > A.size() + 5) break; } }, "reading"); cmpHdr(h, H); VF_CHECK("antex.count", got.size() == A.size(), A.size() << " antennas read as " << got.size()); if (got.size() != A.size()) return; for (size_t i = 0; i < A.size(); i++) cmpAnt(A[i], got[i], h.pcv == 'A');
      VF_NOTHROW("antex.dump", { std::ostringstream s; H.dump(s); for (auto& x : got) { x.dump(s, r.below(4)); (void)x.name(); } VF_CHECK("antex.dump.text", s.str().size() > 50, "nothing dumped"); }, "dump");
      bool made = r.chance(0.5); VF_NOTHROW("antex.write", { out.exceptions(std::ios::goodbit); out.close(); out.clear(); out.open(g.c_str(), std::ios::out); out.exceptions(std::ios::failbit); out << (made ? toHdr(h) : H); for (size_t i = 0; i < A.size(); i++) out << (made ? toAnt(A[i], h.pcv == 'A') : got[i]); VF_CHECK("antex.linecount", out.lineNumber == T.size(), "counted " << out.lineNumber << " of " << T.size() << " lines"); out.close(); }, "writing");
      // 24:00:00 times written from the number rather than from the text may be carried over to the next day
      Lines W = split(vf::slurp(g)); if (made) { bool lim = false; for (auto& a : A) lim = lim || (a.hasUntil && a.usod > 86399.5); if (lim && W.size() == T.size()) for (size_t i = 0; i < T.size(); i++) if (T[i].size() > 70 && T[i].substr(60) == "VALID UNTIL" && W[i] != T[i]) { bool ok = W[i].size() == T[i].size(); VF_CHECK("antex.until.text", ok, W[i]); T[i] = W[i]; } }
      same(made ? "antex.write.text" : "antex.rewrite.text", T, W);
   }
}
// -------------------------------------------------------------- interpolation
static double zenI(const Ant& a, const std::vector<double>& v, double z) { double x = (z - a.z0) / a.dz; if (x <= 0) return v[0]; if (x >= a.nz - 1) return v[a.nz - 1]; int i = (int)std::floor(x); return v[i] + (v[i + 1] - v[i]) * (x - i); }
static double pcvO(const Ant& a, const Frq& f, double az, double ang)
{
   double z = a.rx ? 90 - ang : ang; if (a.daz == 0) return zenI(a, f.val.at(-1.0), z); double w = std::fmod(az, 360.0); if (w < 0) w += 360; std::vector<double> k; for (auto& v : f.val) if (v.first >= 0) k.push_back(v.first); int n = std::lround(360 / a.daz); double x = w / a.daz; int i = (int)std::floor(x); if (i >= n) i = n - 1; double lo = i * a.daz, hi = (i + 1) * a.daz; auto ph = f.val.find(hi); const std::vector<double>& H = ph == f.val.end() ? f.val.at(0.0) : ph->second; double L = zenI(a, f.val.at(lo), z), U = zenI(a, H, z); return L + (U - L) * (w - lo) / (hi - lo);
}
static void pcv(vf::Case& c)
{
   vf::Rng& r = c.rng; Ant a = makeAnt(r); AntexData d; if (r.chance(0.5)) d = toAnt(a, true); else { vf::spit(vf::scratch() + "/p.atx", join(hdrText(makeHdr(r))) + join(antText(a))); AntexStream in((vf::scratch() + "/p.atx").c_str()); in.exceptions(std::ios::failbit); VF_NOTHROW("antex.read", in >> d, "reading"); }
   c.distinct(fmt("%d|%g|%g|%d", a.rx, a.daz, a.dz, a.nz)); const double D = 3.14159265358979323846 / 180;
   for (int i = 0; i < 40; i++) { const Frq& f = a.f[r.below(a.f.size())]; int q = r.below(8); double az = q == 0 ? r.range(0, 8) * 45.0 : q == 1 ? 360 - r.unit() * 1e-9 : q == 2 ? r.unif(-1e5, 1e5) : q == 3 && a.daz > 0 ? a.daz * r.range(0, 40) : q == 4 ? -r.unit() * 359 : q == 5 && r.chance(0.3) ? (double)r.range(-1000000000L, 1000000000L) * 1e6 : r.unif(0, 360); double an = q == 6 ? r.pick(std::vector<double>{0, 90, 45, 5, 14}) : r.chance(0.3) ? a.dz * r.range(0, (long)(90 / a.dz)) : r.unif(0, a.rx ? 90 : 17); if (a.rx && r.chance(0.3)) an = 90 - an; if (an < 0 || an > 90) an = 30; c.count(a.daz > 0 ? "antex.pcv.azimuth" : "antex.pcv.noazimuth");
      double got = 0, tot = 0; Triple p; VF_NOTHROW("antex.eval", { got = d.getPhaseCenterVariation(f.name, az, an); p = d.getPhaseCenterOffset(f.name); tot = d.getTotalPhaseCenterOffset(f.name, az, an); }, "evaluating " << f.name); double exp = pcvO(a, f, az, an); VF_CHECK("antex.interp", std::fabs(got - exp) < 1e-6, fmt("%s azimuth %.9g angle %.9g gives %.9g not %.9g (grid %g, %g to %g by %g)", f.name.c_str(), az, an, got, exp, a.daz, a.z0, a.z1, a.dz));
      VF_CHECK("antex.offset", p[0] == f.pco[0] && p[1] == f.pco[1] && p[2] == f.pco[2], p); double n = (a.rx ? 90 - an : an) * D, A = az * D, e = f.pco[0] * std::sin(n) * std::cos(A) + f.pco[1] * std::sin(n) * std::sin(A) + f.pco[2] * std::cos(n) - exp; if (std::fabs(az) < 1e6) VF_CHECK("antex.total", std::fabs(tot - e) < 1e-6, fmt("%s azimuth %.9g angle %.9g gives %.9g not %.9g", f.name.c_str(), az, an, tot, e)); }
   std::string bad = a.f[0].name == "G07" ? "G08" : "G07"; VF_THROWS("antex.refuse.freq", Exception, d.getPhaseCenterVariation(bad, 0, 45), "unknown frequency"); VF_THROWS("antex.refuse.freq", Exception, d.getPhaseCenterOffset(bad), "unknown frequency"); VF_THROWS("antex.refuse.angle", Exception, d.getPhaseCenterVariation(a.f[0].name, 0, r.chance(0.5) ? 90.5 : -0.5), "angle out of range"); AntexData none; VF_THROWS("antex.refuse.invalid", Exception, none.getPhaseCenterOffset("G01"), "empty object"); VF_THROWS("antex.refuse.invalid", Exception, none.getTotalPhaseCenterOffset("G01", 0, 5), "empty object");
   // validity in time, in any time system
   TimeSystem ts = r.pick(std::vector<TimeSystem>{TimeSystem::Any, TimeSystem::GPS, TimeSystem::UTC, TimeSystem::Unknown}); for (int i = 0; i < 6; i++) { bool edge = r.chance(0.3); bool u = r.chance(0.5); double off = edge ? (r.chance(0.5) ? 1 : -1) * r.pick(std::vector<double>{1e-3, 10, 0.25}) : r.unif(-4000, 4000) * 86400; CommonTime t = ct(u ? a.until : a.from, u ? a.usod : a.fsod, ts) + off; CommonTime z = t; z.setTimeSystem(TimeSystem::Any); bool e = !(a.hasFrom && z < ct(a.from, a.fsod)) && !(a.hasUntil && !a.blankUntil && z > ct(a.until, a.usod)); VF_CHECK("antex.validity", d.isValid(t) == e, t << " for " << (a.hasFrom ? "from " : "") << a.from << (a.hasUntil ? " until " : " ") << a.until << " blank " << a.blankUntil << " valid " << !e); c.count("antex.validity"); } CommonTime B = CommonTime::BEGINNING_OF_TIME, E = CommonTime::END_OF_TIME; VF_CHECK("antex.validity.ends", d.isValid(B) && d.isValid(E), "not valid at the ends of time: " << d.isValid(B) << d.isValid(E));
}
// -------------------------------------------------------------- the store
static void store(vf::Case& c)
{
   vf::Rng& r = c.rng; std::vector<Ant> A; std::set<std::string> names; Hdr h = makeHdr(r); for (int n = r.range(3, 9); n-- > 0;) { Ant a = makeAnt(r); if (a.daz > 0 && a.daz < 30) a.daz = 0, a.f = makeAnt(r).f, a = makeAnt(r, a.rx); A.push_back(a); }
   // several antennas for the same satellite, one after the other
   { Ant b = makeAnt(r, 0); b.hasFrom = b.hasUntil = true; b.blankUntil = false; int n = r.range(2, 4); long t = b.from; for (int i = 0; i < n; i++) { Ant x = b; x.from = t; x.fsod = 0; x.until = t + r.range(1, 1500); if (r.chance(0.2)) x.until = t + 1; x.usod = 86399.9999999; t = x.until + 1; if (i == n - 1 && r.chance(0.5)) x.hasUntil = false; x.f[0].pco[0] += i; A.push_back(x); } }
   auto key = [](const Ant& a) { return a.rx ? a.type : a.type + "/" + a.serial + "/" + (a.hasFrom ? fmt("%.2f", a.from + a.fsod / 86400) : "-"); }; std::vector<Ant> B; for (auto& a : A) if (names.insert(key(a)).second) B.push_back(a); A = B; for (size_t i = A.size(); i-- > 1;) std::swap(A[i], A[r.below(i + 1)]); std::string f = vf::scratch() + "/s.atx"; Lines T = hdrText(h); for (auto& a : A) for (auto& s : antText(a)) T.push_back(s); vf::spit(f, join(T));
   AntennaStore S; int mode = r.below(3); if (mode == 2) S.includeAllSatellites(); else if (mode == 1) S.includeGPSSatellites(); else if (r.chance(0.3)) { S.includeAllSatellites(); S.excludeAllSatellites(); } std::vector<std::string> inc; bool lim = r.chance(0.4); if (lim) { for (auto& a : A) if (a.rx && r.chance(0.5)) inc.push_back(a.type); inc.push_back("NOSUCH"); S.includeReceivers(inc); } bool timed = r.chance(0.7); const Ant& pivot = A[r.below(A.size())]; double off = r.chance(0.5) ? r.unif(-4, 4) * 86400 : r.unif(-1500, 1500) * 86400; CommonTime t = ct(pivot.hasUntil && r.chance(0.5) ? pivot.until : pivot.from, 0, TimeSystem::GPS) + off; c.note(fmt("%zu antennas, mode %d, receivers limited %d, timed %d", A.size(), mode, lim, timed)); c.distinct(fmt("%zu|%d|%d|%d", A.size(), mode, lim, timed));
   CommonTime z = t; z.setTimeSystem(TimeSystem::Any); auto overlaps = [&](const Ant& a) { if (!timed) return true; if (a.hasFrom && ct(a.from, a.fsod) > z + 172800.0) return false; if (a.hasUntil && !a.blankUntil && ct(a.until, a.usod) < z - 172800.0) return false; return true; }; std::vector<const Ant*> E; for (auto& a : A) { bool k = a.rx ? (lim ? std::count(inc.begin(), inc.end(), a.type) > 0 : overlaps(a)) : (mode == 2 || (mode == 1 && a.sys == 'G')) && overlaps(a); if (k) E.push_back(&a); }
   int n = -1; VF_NOTHROW("store.load", n = timed ? S.addANTEXfile(f, t) : S.addANTEXfile(f), "loading"); c.count("store.loads"); VF_CHECK("store.count", n == (int)E.size() && S.size() == E.size(), "added " << n << " size " << S.size() << " of " << E.size() << " expected of " << A.size()); if (n != (int)E.size()) return;
   std::vector<std::string> all, rx; S.getNames(all); S.getReceiverNames(rx); size_t nrx = 0; for (auto a : E) nrx += a->rx; VF_CHECK("store.names", all.size() == E.size() && rx.size() == nrx, all.size() << " names, " << rx.size() << " receivers of " << nrx);
   for (auto& a : A) { bool in = std::count(E.begin(), E.end(), &a) > 0; AntexData d; std::string nm; if (a.rx) { bool ok = S.getAntenna(a.type, d); VF_CHECK("store.receiver", ok == in, a.type << " found " << ok); if (ok) cmpAnt(a, d, h.pcv == 'A'); continue; }
      bool byPrn = r.chance(0.6); int q = byPrn ? a.prn : a.svn; std::vector<const Ant*> cand; for (auto e : E) if (!e->rx && e->sys == a.sys && (byPrn ? e->prn : e->svn) == q) cand.push_back(e); if (q < 0) continue; char sy = a.sys == 'G' && r.chance(0.3) ? ' ' : a.sys; bool ok = S.getSatelliteAntenna(sy, q, nm, d, byPrn); VF_CHECK(sy == ' ' ? "store.satellite.blank" : "store.satellite", ok == !cand.empty(), "satellite /" << sy << "/ " << q << (byPrn ? " PRN" : " SVN") << " found " << ok); if (!ok) continue; c.count("store.satellites"); const Ant* m = 0; for (auto e : cand) if (e->type == d.type && e->hasFrom == !!(d.valid & AntexData::validFromValid) && (!e->hasFrom || sameT(d.validFrom, e->from, e->fsod))) m = e; VF_CHECK("store.satellite.one", m != 0, nm << " is none of the antennas of the satellite"); if (m) cmpAnt(*m, d, h.pcv == 'A'); AntexData d2; VF_CHECK("store.byname", S.getAntenna(nm, d2) && d2.type == d.type && d2.PRN == d.PRN, nm); }
   AntexData none; std::string nm; VF_CHECK("store.absent", !S.getAntenna("NOSUCH", none) && !S.getSatelliteAntenna('G', 100, nm, none), "absent antenna found"); VF_THROWS("store.refuse", Exception, S.addAntenna("x", none), "invalid antenna added"); VF_THROWS("store.nofile", Exception, S.addANTEXfile(vf::scratch() + "/none"), "no such file"); VF_NOTHROW("store.dump", { std::ostringstream s; S.dump(s, r.below(3)); }, "dump");
   // replace, and restrict to a list of receivers afterwards
   if (nrx && r.chance(0.5)) { std::vector<std::string> keep; for (auto& s : rx) if (r.chance(0.5)) keep.push_back(s); S.includeReceivers(keep); std::vector<std::string> now; S.getReceiverNames(now); VF_CHECK("store.restrict", now == keep && S.size() == E.size() - nrx + keep.size(), now.size() << " receivers kept of " << keep.size()); }
   Ant y = makeAnt(r, 1); AntexData dy = toAnt(y, true); unsigned before = S.size(); S.addAntenna("my", dy); y.meth = "COPIED"; y.ncal = 77; dy = toAnt(y, true); S.addAntenna("my", dy); AntexData g; VF_CHECK("store.replace", S.size() == before + 1 && S.getAntenna("my", g) && g.noAntCalibrated == 77, S.size() << " " << before); S.clear(); VF_CHECK("store.clear", S.size() == 0, S.size());
}
// -------------------------------------------------------------- centre of mass to phase centre
static void body(vf::Case& c)
{
   vf::Rng& r = c.rng; AntennaStore S; Ant a = makeAnt(r, 0); char sy = "GREC"[r.below(4)]; a.sys = sy; a.type = sy == 'G' ? "BLOCK IIF" : sy == 'R' ? "GLONASS-M" : sy == 'E' ? "GALILEO-2" : "BEIDOU-3M-CAST"; a.prn = r.range(1, 30); a.svn = a.prn + r.range(1, 400); std::string f1 = fmt("%c%02d", sy, sy == 'C' ? 6 : 1), f2 = fmt("%c%02d", sy, sy == 'E' ? 5 : 2); Frq x = a.f[0], y = x; x.name = f1; y.name = f2; bool diff = r.chance(0.7); for (int j = 0; j < 3; j++) { x.pco[j] = v2(r, j == 2 ? 3000 : 500); y.pco[j] = diff ? v2(r, j == 2 ? 3000 : 500) : x.pco[j]; } a.f = {x, y}; AntexData d = toAnt(a, true); S.addAntenna("the", d);
   // another satellite whose PRN is this one's SVN
   Ant o = a; o.prn = a.svn; o.svn = a.prn; for (int j = 0; j < 3; j++) o.f[0].pco[j] = o.f[1].pco[j] = 9000; AntexData od = toAnt(o, true); S.addAntenna("aaa", od);
   double R = r.pick(std::vector<double>{26.56e6, 25.5e6, 29.6e6, 42.16e6}), la = r.unif(-1, 1), lo = r.unif(-3.14, 3.14); double s[3] = {R * std::cos(la) * std::cos(lo), R * std::cos(la) * std::sin(lo), R * std::sin(la)}; double mjd = r.unif(48000, 62000); CommonTime t = ct((long)mjd, (mjd - (long)mjd) * 86400, TimeSystem::UTC); const double D = 3.14159265358979323846 / 180; double n = mjd - 51544.5, g = (357.528 + 0.9856003 * n) * D, L = (280.460 + 0.9856474 * n + 1.915 * std::sin(g) + 0.020 * std::sin(2 * g)) * D, ob = (23.439 - 4e-7 * n) * D, au = (1.00014 - 0.01671 * std::cos(g) - 0.00014 * std::cos(2 * g)) * 1.495978707e11, ei[3] = {std::cos(L), std::cos(ob) * std::sin(L), std::sin(ob) * std::sin(L)}, th = std::fmod(280.46061837 + 360.98564736629 * n, 360.0) * D; double u[3] = {ei[0] * std::cos(th) + ei[1] * std::sin(th), -ei[0] * std::sin(th) + ei[1] * std::cos(th), ei[2]};
   double Z[3], T[3], Y[3], X[3], m = 0; for (int j = 0; j < 3; j++) { Z[j] = -s[j] / R; T[j] = u[j] * au - s[j]; m += T[j] * T[j]; } for (int j = 0; j < 3; j++) T[j] /= std::sqrt(m); for (int j = 0; j < 3; j++) Y[j] = Z[(j + 1) % 3] * T[(j + 2) % 3] - Z[(j + 2) % 3] * T[(j + 1) % 3]; m = std::sqrt(Y[0] * Y[0] + Y[1] * Y[1] + Y[2] * Y[2]); if (m < 0.15) return; for (int j = 0; j < 3; j++) Y[j] /= m; for (int j = 0; j < 3; j++) X[j] = Y[(j + 1) % 3] * Z[(j + 2) % 3] - Y[(j + 2) % 3] * Z[(j + 1) % 3];
   double k1 = sy == 'G' ? 154.0 * 154 / (154.0 * 154 - 120.0 * 120) : sy == 'R' ? 81.0 / 32 : sy == 'E' ? 154.0 * 154 / (154.0 * 154 - 115.0 * 115) : 1, k2 = 1 - k1; double e[3]; for (int j = 0; j < 3; j++) { double b[3]; for (int k = 0; k < 3; k++) b[k] = (k1 * x.pco[k] + k2 * y.pco[k]) / 1000; e[j] = X[j] * b[0] + Y[j] * b[1] + Z[j] * b[2]; }
   int how = r.below(3); Triple v; Triple sv(s[0], s[1], s[2]); VF_NOTHROW("body.compute", v = how == 0 ? S.ComToPcVector(sy, a.prn, t, sv) : how == 1 ? S.ComToPcVector(sy, a.svn, t, sv, false) : S.ComToPcVector(SatID(a.prn, sy == 'G' ? SatelliteSystem::GPS : sy == 'R' ? SatelliteSystem::Glonass : sy == 'E' ? SatelliteSystem::Galileo : SatelliteSystem::BeiDou), t, sv), "satellite " << sy << a.prn); double er = std::sqrt((v[0] - e[0]) * (v[0] - e[0]) + (v[1] - e[1]) * (v[1] - e[1]) + (v[2] - e[2]) * (v[2] - e[2])); c.count("body.vectors"); c.distinct(fmt("%c%d%d%d", sy, how, diff, a.prn)); c.maximum("body.error", er); VF_CHECK(how == 1 ? "body.bysvn" : fmt("body.%c", sy).c_str(), er < 3e-3, fmt("%c%02d (way %d) off by %.6f m: %.4f %.4f %.4f, expected %.4f %.4f %.4f", sy, a.prn, how, er, v[0], v[1], v[2], e[0], e[1], e[2]));
   VF_THROWS("body.absent", InvalidRequest, S.ComToPcVector(sy, 777, t, sv), "absent satellite"); VF_THROWS("body.system", InvalidRequest, S.ComToPcVector(SatID(5, SatelliteSystem::LEO), t, sv), "unsupported system");
}
// -------------------------------------------------------------- damaged files and what cannot be written
static void bad(vf::Case& c)
{
   vf::Rng& r = c.rng; std::string f = vf::scratch() + "/d.atx"; Hdr h = makeHdr(r); Ant a = makeAnt(r); Lines H = hdrText(h), T = antText(a); int k = r.below(11); c.note(fmt("kind %d", k)); c.distinct(fmt("%d|%d", k, a.rx)); c.count(fmt("antex.bad.%d", k).c_str()); bool head = k < 4; size_t row = 0; for (size_t i = 0; i < T.size(); i++) if (T[i].find("NORTH") != std::string::npos) { row = i + 1; break; }
   if (k == 0) H[0].replace(5, 3, r.pick(std::vector<std::string>{"1.2", "2.0", "9.9"})); else if (k == 1) H[0][20] = "XQ7"[r.below(3)]; else if (k == 2) H[1][0] = "XB "[r.below(3)]; else if (k == 3) { if (r.chance(0.5)) H.erase(H.begin() + r.below(2)); else H[r.below(2)].replace(60, 5, "WRONG"); } else if (k == 4) { size_t i = r.below(5) + 1; T.erase(T.begin() + i); } else if (k == 5) T[row] = T[row].substr(0, T[row].size() - 8); else if (k == 6) T[row] += "    1.00"; else if (k == 7) T.pop_back(); else if (k == 8) std::swap(T[1], T[2 + r.below(3)]); else if (k == 9) { for (auto& s : T) if (s.substr(0, 6) == "   " + a.f[0].name && s.find("END OF FREQ") != std::string::npos) { s[5] = 'X'; break; } } else { if (!a.hasFrom) return; for (auto& s : T) if (s.find("VALID FROM") != std::string::npos) { s[7] = '5'; } }
   if (k == 3 && r.chance(0.2)) H.pop_back(); Lines U = H; for (auto& s : T) U.push_back(s); vf::spit(f, join(U)); AntexStream in(f.c_str()); in.exceptions(std::ios::failbit); AntexHeader X; AntexData d; if (head) VF_THROWS("antex.damaged.header", Exception, in >> X, "header damaged in way " << k); else { bool good = false; try { in >> X; in >> d; good = !in.eof() && d.isValid(); } catch (Exception&) {} VF_CHECK("antex.damaged.data", !good, "antenna damaged in way " << k << " accepted"); }
   AntexStream out((vf::scratch() + "/w.atx").c_str(), std::ios::out); out.exceptions(std::ios::failbit); AntexData none; AntexHeader hn; VF_THROWS("antex.refuse.write", Exception, out << hn, "empty header written"); out.clear(); VF_THROWS("antex.refuse.write", Exception, out << none, "invalid antenna written"); out.clear(); AntexHeader hv = toHdr(h); hv.version = 2.5; VF_THROWS("antex.refuse.version", Exception, out << hv, "unknown version written");
   // nothing but the documented defaults in fresh objects, whatever the memory held before
   alignas(16) static char mem[sizeof(AntexHeader) + sizeof(AntexData) + 64]; memset(mem, 0xa5, sizeof mem); AntexHeader* p = new (mem) AntexHeader; VF_CHECK("antex.fresh", !p->isValid() && p->valid == 0 && (p->system == ' ' || p->system == 'M' || p->system == 0 || p->system == 'G') && (unsigned char)p->pcvType != 0xa5, "system " << (int)p->system << " type " << (int)p->pcvType); p->~AntexHeader(); memset(mem, 0xa5, sizeof mem); auto* q = new (mem) AntexData::antennaPCOandPCVData; unsigned char b; memcpy(&b, &q->hasAzimuth, 1); double z = q->PCOrms[0]; VF_CHECK("antex.fresh", b == 0 && z == 0 && q->PCOvalue[2] == 0, "azimuth flag " << (int)b << " RMS " << z); q->~antennaPCOandPCVData();
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"file", 300, 3000, file}, {"pcv", 600, 6000, pcv}, {"store", 300, 3000, store}, {"body", 3000, 30000, body}, {"bad", 500, 5000, bad}}); }
