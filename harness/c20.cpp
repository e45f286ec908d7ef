// C20: RINEX navigation files (versions 2 and 3): round trip and conversion to ephemerides
#include "vf.hpp"
#include "Rinex3NavStream.hpp"
#include "Rinex3NavHeader.hpp"
#include "Rinex3NavData.hpp"
#include "RinexNavStream.hpp"
#include "RinexNavHeader.hpp"
#include "RinexNavData.hpp"
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "GloEphemeris.hpp"
#include "EngEphemeris.hpp"
#include "CivilTime.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;

static const long W = 604800;
struct N
{
   char sys; int prn; long toc, toe, xmit;   // seconds since the GPS week 0 start (in the system's own time)
   double d[32]; int health, flags, l2p, iode, iodc, src, freq; long mf; double acc, fit, age, iodn; long tocms;
};
enum { AF0, AF1, AF2, CRS, DN, M0, CUC, ECC, CUS, AHALF, CIC, OM0, CIS, I0, CRC, OMG, OMD, IDOT, TGD, TGD2, PX, VX, AX, PY, VY, AY, PZ, VZ, AZ, TAUN, GAMN, ND };
static const char* nm[] = {"af0", "af1", "af2", "Crs", "dn", "M0", "Cuc", "ecc", "Cus", "Ahalf", "Cic", "OMEGA0", "Cis", "i0", "Crc", "w", "OMEGAdot", "idot", "Tgd", "Tgd2", "px", "vx", "ax", "py", "vy", "ay", "pz", "vz", "az", "TauN", "GammaN"};
static CommonTime at(long s, const TimeSystem& ts) { CommonTime z = CivilTime(1980, 1, 6, 0, 0, 0, ts); CommonTime t = z; t.addDays(s / 86400); t += (double)(s % 86400); return t; }
static TimeSystem tsys(char s) { return s == 'G' || s == 'S' ? TimeSystem::GPS : s == 'R' ? TimeSystem::GLO : s == 'E' ? TimeSystem::GAL : s == 'C' ? TimeSystem::BDT : TimeSystem::QZS; }
static SatelliteSystem ssys(char s) { return s == 'G' ? SatelliteSystem::GPS : s == 'S' ? SatelliteSystem::Geosync : s == 'R' ? SatelliteSystem::Glonass : s == 'E' ? SatelliteSystem::Galileo : s == 'C' ? SatelliteSystem::BeiDou : SatelliteSystem::QZSS; }
static long week(const N& n, long abs) { return abs / W - (n.sys == 'C' ? 1356 : 0); }
static double mag(vf::Rng& r, double lo, double hi) { if (r.chance(0.06)) return 0; double m = std::exp(std::log(lo) + r.unit() * (std::log(hi) - std::log(lo))); if (r.chance(0.05)) m = std::pow(10.0, std::floor(std::log10(m))); if (r.chance(0.03)) m = 9.9999999999996 * std::pow(10.0, std::floor(std::log10(m))); return r.chance(0.5) ? m : -m; }
static N random(vf::Rng& r, char sys)
{
   N n; n.sys = sys; n.prn = sys == 'G' ? (int)r.range(1, 32) : sys == 'R' ? (int)r.range(1, 24) : sys == 'E' ? (int)r.range(1, 36) : sys == 'C' ? (int)r.range(1, 63) : sys == 'J' ? (int)r.range(1, 5) : (int)r.range(20, 58);
   long w = sys == 'C' ? r.range(1400, 2800) : sys == 'E' ? r.range(1100, 2800) : r.range(800, 2800), step = sys == 'G' || sys == 'J' ? 7200 : sys == 'E' ? 600 : sys == 'C' ? 3600 : 900; if (sys == 'R') step = 900;
   n.toe = w * W + step * (r.chance(0.35) ? r.pick(std::vector<long>{0, 1, W / step - 1, -1, 2}) : r.range(0, W / step - 1)); n.toc = n.toe; if (sys == 'G' && r.chance(0.25)) n.toc = n.toe = n.toe - 16 * r.range(1, 3); if ((sys == 'E' || sys == 'C' || sys == 'G') && r.chance(0.15)) n.toc = n.toe + (sys == 'G' ? 16 * r.range(-3, 3) : 600 * r.range(-6, 6));
   n.fit = sys == 'G' ? r.pick(std::vector<double>{4, 4, 4, 6, 0, 1}) : (double)r.range(0, 1); n.iode = (int)r.range(0, 239); n.iodc = n.iode + 256 * (int)r.range(0, 3); if (sys == 'E') n.iode = (int)r.range(0, 1023); if (sys == 'C') { n.iode = (int)r.range(0, 255); n.iodc = (int)r.range(0, 255); }
   n.xmit = n.toe - (sys == 'G' ? 7200 : 0) + 30 * (sys == 'G' ? r.range(0, 240) : sys == 'E' ? r.range(-20, 100) : r.range(-60, 60)); if (n.xmit < W) n.xmit = W;
   for (int i = 0; i < ND; i++) n.d[i] = mag(r, 1e-13, 9e7); n.d[AF0] = mag(r, 1e-9, 1e-3); n.d[AF1] = mag(r, 1e-14, 1e-9); n.d[AHALF] = 5150 + r.unit() * 1400; n.d[ECC] = r.unit() * 0.03; n.d[M0] = (r.unit() - 0.5) * 6.28; n.d[I0] = 0.9 + r.unit() * 0.1;
   n.health = (int)r.range(0, sys == 'G' ? 63 : sys == 'E' ? 511 : 1); n.flags = (int)r.range(0, 3); n.l2p = (int)r.range(0, 1); n.src = r.pick(std::vector<int>{513, 517, 258, 516}); n.freq = (int)r.range(-7, 13); n.mf = n.toe % W + 30 * r.range(0, 20); if (sys == 'R') n.mf = n.toe % W / 86400 * 86400 + 30 * r.range(0, 2879); n.acc = r.pick(std::vector<double>{2.0, 2.8, 4, 5.7, 8, 11.3, 3.12}); if (sys == 'E' && r.chance(0.1)) n.acc = -1; n.age = (double)r.range(0, 5); n.iodn = (double)r.range(0, 255);
   return n;
}
static RNDouble* fields(Rinex3NavData& q, int i)
{
   RNDouble* p[] = {&q.af0, &q.af1, &q.af2, &q.Crs, &q.dn, &q.M0, &q.Cuc, &q.ecc, &q.Cus, &q.Ahalf, &q.Cic, &q.OMEGA0, &q.Cis, &q.i0, &q.Crc, &q.w, &q.OMEGAdot, &q.idot, &q.Tgd, &q.Tgd2, &q.px, &q.vx, &q.ax, &q.py, &q.vy, &q.ay, &q.pz, &q.vz, &q.az, &q.TauN, &q.GammaN}; return p[i];
}
static bool used(const N& n, int i) { bool rs = n.sys == 'R' || n.sys == 'S'; if (i >= PX) return rs; if (rs) return false; if (i == TGD2) return n.sys == 'E' || n.sys == 'C'; return true; }
static Rinex3NavData make(const N& n)
{
   Rinex3NavData q; q.time = at(n.toc, tsys(n.sys)); q.satSys = std::string(1, n.sys); q.PRNID = (short)n.prn; char id[8]; snprintf(id, 8, "%c%02d", n.sys, n.prn); q.sat.fromString(id); q.xmitTime = n.xmit % W; q.weeknum = (short)week(n, n.xmit); q.accuracy = n.acc; q.health = (short)n.health; q.codeflgs = (short)n.flags; q.L2Pdata = (short)n.l2p; q.IODC = n.iodc; q.IODE = n.iode; q.MFTraw = (double)n.mf; q.MFtime = n.mf; q.freqNum = (short)n.freq; q.ageOfInfo = n.age; q.datasources = (short)n.src; q.IODnav = n.iode; q.accCode = n.acc; q.IODN = n.iodn; q.Toc = (double)(n.toc % W); q.Toe = (double)(n.toe % W); q.fitint = n.fit;
   for (int i = 0; i < ND; i++) *fields(q, i) = n.d[i]; return q;
}
static bool near(double a, double b) { if (b == 0) return a == 0; return std::fabs(a - b) <= 0.51e-12 * std::pow(10.0, std::floor(std::log10(std::fabs(b))) + 1); }
// the value written: 12 significant digits
static bool f19(const std::string& line, size_t col, double want) { if (line.size() < col + 19) return false; std::string s = line.substr(col, 19); size_t d = s.find_first_of("Dd"); if (d == std::string::npos) return false; s[d] = 'E'; char* e; double v = strtod(s.c_str(), &e); if (*e && *e != ' ') return false; return near(v, want); }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::istringstream i(t); std::string l; while (std::getline(i, l)) { if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1); v.push_back(l); } return v; }
static void civil(long abs, int& y, int& m, int& d, long& s) { long day = abs / 86400 + 3657; s = abs % 86400; long z = day + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y = (int)(yoe + era * 400 + (m <= 2)); }
static std::string desc(const N& n) { std::ostringstream o; o.precision(15); o << n.sys << n.prn << " toc " << n.toc / W << ":" << n.toc % W << " toe " << n.toe / W << ":" << n.toe % W << " xmit " << n.xmit / W << ":" << n.xmit % W << " fit " << n.fit << " iodc " << n.iodc; return o.str(); }

// the text of one record against the format description
static void text(const N& n, const std::vector<std::string>& L, size_t at0, bool v3, const std::string& ds)
{
   int y, m, d; long s; civil(n.toc, y, m, d, s); char e[40]; if (v3) snprintf(e, 40, "%c%02d %04d %02d %02d %02ld %02ld %02ld", n.sys, n.prn, y, m, d, s / 3600, s / 60 % 60, s % 60); else snprintf(e, 40, "%2d %02d %2d %2d %2ld %2ld%5.1f", n.prn, y % 100, m, d, s / 3600, s / 60 % 60, (double)(s % 60));
   size_t k = v3 ? 23 : 22, b = v3 ? 4 : 3; bool rs = n.sys == 'R' || n.sys == 'S'; const std::string& l0 = L[at0]; VF_CHECK("text.epoch", l0.substr(0, k) == e, ds << " wrote <" << l0.substr(0, k) << "> want <" << e << ">"); VF_CHECK("text.length", l0.size() <= 80, ds);
   if (rs) VF_CHECK("text.clock", f19(l0, k, n.d[TAUN]) && f19(l0, k + 19, n.d[GAMN]) && f19(l0, k + 38, (double)(!v3 && n.sys == 'R' ? n.mf % 86400 : n.mf)), ds << " " << l0); else VF_CHECK("text.clock", f19(l0, k, n.d[AF0]) && f19(l0, k + 19, n.d[AF1]) && f19(l0, k + 38, n.d[AF2]), ds << " " << l0);
   auto row = [&](int i, double a, double bb, double c, double dd, const char* what) { const std::string& l = L[at0 + i]; VF_CHECK(std::string("text.") + what, l.substr(0, b) == std::string(b, ' ') && f19(l, b, a) && f19(l, b + 19, bb) && f19(l, b + 38, c) && f19(l, b + 57, dd) && l.size() <= 80, ds << " line " << i << " " << l); };
   if (rs) { row(1, n.d[PX], n.d[VX], n.d[AX], n.health, "glo1"); row(2, n.d[PY], n.d[VY], n.d[AY], n.sys == 'R' ? n.freq : n.acc, "glo2"); row(3, n.d[PZ], n.d[VZ], n.d[AZ], n.sys == 'R' ? n.age : n.iodn, "glo3"); return; }
   row(1, n.iode, n.d[CRS], n.d[DN], n.d[M0], "orbit1"); row(2, n.d[CUC], n.d[ECC], n.d[CUS], n.d[AHALF], "orbit2"); row(3, n.toe % W, n.d[CIC], n.d[OM0], n.d[CIS], "orbit3"); row(4, n.d[I0], n.d[CRC], n.d[OMG], n.d[OMD], "orbit4"); double wk = (double)week(n, n.toe);
   row(5, n.d[IDOT], n.sys == 'E' ? n.src : n.sys == 'C' ? 0 : n.flags, wk, n.sys == 'G' || n.sys == 'J' ? n.l2p : 0, "orbit5"); row(6, n.acc, n.health, n.d[TGD], n.sys == 'G' || n.sys == 'J' ? n.iodc : n.d[TGD2], "orbit6"); double tx = (double)(n.xmit - n.toe / W * W); const std::string& l = L[at0 + 7]; VF_CHECK("text.orbit7", f19(l, b, tx) && (n.sys == 'E' || f19(l, b + 19, n.sys == 'C' ? n.iodc : n.fit)), ds << " xmit want " << tx << " " << l);
}
static void compare(const N& n, const Rinex3NavData& q0, const std::string& ds, const char* tag)
{
   Rinex3NavData q(q0); std::string t(tag); bool rs = n.sys == 'R' || n.sys == 'S'; VF_CHECK(t + ".id", q.satSys == std::string(1, n.sys) && q.PRNID == n.prn && q.sat.system == ssys(n.sys) && q.sat.id == (n.sys == 'S' ? n.prn + 100 : n.sys == 'J' ? n.prn + 192 : n.prn), ds << " got " << q.satSys << q.PRNID << " " << q.sat);
   VF_CHECK(t + ".time", q.time == at(n.toc, tsys(n.sys)), ds << " time " << q.time << " want " << at(n.toc, tsys(n.sys))); for (int i = 0; i < ND; i++) if (used(n, i)) VF_CHECK(t + "." + nm[i], near(*fields(q, i), n.d[i]), ds << " " << nm[i] << " " << (double)*fields(q, i) << " want " << n.d[i]);
   VF_CHECK(t + ".health", q.health == n.health, ds << " health " << q.health << " want " << n.health); if (rs) { VF_CHECK(t + ".mf", q.MFtime == n.mf, ds << " MFtime " << q.MFtime << " want " << n.mf); if (n.sys == 'R') VF_CHECK(t + ".freq", q.freqNum == n.freq && q.ageOfInfo == n.age, ds); else VF_CHECK(t + ".geo", near(q.accCode, n.acc) && q.IODN == n.iodn, ds); return; }
   VF_CHECK(t + ".toc", q.Toc == (double)(n.toc % W) && q.Toe == (double)(n.toe % W), ds << " Toc " << q.Toc << " Toe " << (double)q.Toe); long wx = (q.weeknum + (n.sys == 'C' ? 1356 : 0)) * W + q.xmitTime; VF_CHECK(t + ".xmit", wx == n.xmit, ds << " weeknum " << q.weeknum << " xmit " << q.xmitTime); VF_CHECK(t + ".acc", near(q.accuracy, n.acc), ds);
   if (n.sys == 'E') VF_CHECK(t + ".gal", q.IODnav == n.iode && q.datasources == n.src, ds); else VF_CHECK(t + ".iod", q.IODE == n.iode && q.IODC == n.iodc, ds << " IODE " << (double)q.IODE << " IODC " << (double)q.IODC); if (n.sys == 'G' || n.sys == 'J') VF_CHECK(t + ".flags", q.codeflgs == n.flags && q.L2Pdata == n.l2p && q.fitint == n.fit, ds << " fit " << (double)q.fitint);
}
template <class S> static void rewrite(const std::string& in, const std::string& out, bool append = false) { (void)in; (void)out; (void)append; }

static IonoCorr ion(vf::Rng& r, const char* t) { IonoCorr c(t); for (int i = 0; i < 4; i++) c.param[i] = (std::string(t) == "GAL" && i == 3) ? 0 : std::floor(r.unit() * 9000 + 1000) * std::pow(10.0, (double)r.range(-12, 1)) * (r.chance(0.5) ? 1 : -1); return c; }
static bool near4(double a, double b) { return b == 0 ? a == 0 : std::fabs(a - b) <= 0.51e-4 * std::pow(10.0, std::floor(std::log10(std::fabs(b))) + 1); }
static Rinex3NavHeader header(vf::Rng& r, bool v3, char sys)
{
   Rinex3NavHeader h; h.version = v3 ? r.pick(std::vector<double>{3.0, 3.01, 3.02, 3.04}) : r.pick(std::vector<double>{2.0, 2.10, 2.11}); h.setFileSystem(std::string(1, sys)); h.fileProgram = "prog v1"; h.fileAgency = "agency"; h.date = "x"; h.valid = Rinex3NavHeader::validVersion | Rinex3NavHeader::validRunBy | Rinex3NavHeader::validEoH;
   int nc = (int)r.range(0, 3); for (int i = 0; i < nc; i++) h.commentList.push_back("comment " + std::to_string(r.range(0, 99999)) + (r.chance(0.3) ? "  with  inner   blanks" : "")); if (nc) h.valid |= Rinex3NavHeader::validComment;
   if (r.chance(0.5) && (v3 || sys == 'G')) { h.mapIonoCorr["GPSA"] = ion(r, "GPSA"); h.mapIonoCorr["GPSB"] = ion(r, "GPSB"); h.valid |= Rinex3NavHeader::validIonoCorrGPS; } if (v3 && r.chance(0.4)) { h.mapIonoCorr["GAL"] = ion(r, "GAL"); h.valid |= Rinex3NavHeader::validIonoCorrGal; }
   std::vector<std::string> ty; if (v3) { for (const char* t : {"GPUT", "GAUT", "BDUT", "GLUT", "GLGP", "GPGA", "QZGP", "QZUT", "SBUT"}) if (r.chance(0.3)) ty.push_back(t); } else if (r.chance(0.6)) ty.push_back(sys == 'G' ? "GPUT" : sys == 'R' ? "GLUT" : "SBUT");
   for (auto& t : ty) { TimeSystemCorrection c(t); c.A0 = (r.unit() - 0.5) * 1e-6; c.A1 = v3 || t != "GLUT" ? std::floor((r.unit() - 0.5) * 1e6) * 1e-18 : 0; c.refWeek = r.range(900, 2300); c.refSOW = 4096 * r.range(0, 147); if (t == "GLUT" && !v3) { c.refSOW = 86400 * r.range(0, 6); } int y, m, d; long s; civil(c.refWeek * W + c.refSOW, y, m, d, s); c.refYr = y; c.refMon = m; c.refDay = d; c.geoProvider = t == "SBUT" ? "EGNOS" : ""; c.geoUTCid = (int)r.range(0, 8); if (t == "GLUT" && !v3) c.geoUTCid = 3; if (t == "GPUT" && !v3) c.geoUTCid = 0; h.mapTimeCorr[t] = c; } if (!ty.empty()) h.valid |= Rinex3NavHeader::validTimeSysCorr;
   if (r.chance(0.5)) { h.leapSeconds = r.range(8, 19); if (v3) { h.leapDelta = r.range(0, 18); h.leapWeek = r.range(0, 2300); h.leapDay = r.range(1, 7); } h.valid |= Rinex3NavHeader::validLeapSeconds; } return h;
}
static void cmpHeader(const Rinex3NavHeader& h, const Rinex3NavHeader& g, bool v3, const std::string& ds)
{
   VF_CHECK("head.version", std::fabs(g.version - h.version) < 0.005 && g.valid == h.valid, ds << " version " << g.version << " valid " << std::hex << g.valid << " want " << h.valid); VF_CHECK("head.sys", g.fileSysSat.system == h.fileSysSat.system && g.fileType == h.fileType && g.fileSys == h.fileSys, ds << " got " << g.fileType << "|" << g.fileSys << " want " << h.fileType << "|" << h.fileSys); VF_CHECK("head.by", g.fileProgram == h.fileProgram && g.fileAgency == h.fileAgency, ds); VF_CHECK("head.comment", g.commentList == h.commentList, ds);
   bool io = g.mapIonoCorr.size() == h.mapIonoCorr.size(); for (auto& k : h.mapIonoCorr) { auto j = g.mapIonoCorr.find(k.first); if (j == g.mapIonoCorr.end()) { io = false; continue; } for (int i = 0; i < 4; i++) io = io && j->second.type == k.second.type && near4(j->second.param[i], k.second.param[i]); } VF_CHECK("head.iono", io, ds << " " << g.mapIonoCorr.size() << " of " << h.mapIonoCorr.size() << " iono");
   bool tc = g.mapTimeCorr.size() == h.mapTimeCorr.size(); std::string why; for (auto& k : h.mapTimeCorr) { auto j = g.mapTimeCorr.find(k.first); const TimeSystemCorrection& a = k.second; if (j == g.mapTimeCorr.end()) { tc = false; why += " lost " + k.first; continue; } const TimeSystemCorrection& b = j->second; bool ok = b.type == a.type && std::fabs(b.A0 - a.A0) <= 1e-10 * 1e-6 * 10 && std::fabs(b.A1 - a.A1) <= 1e-9 * 1e-12 * 10 && b.refWeek == a.refWeek && b.refSOW == a.refSOW && b.geoUTCid == a.geoUTCid && StringUtils::strip(std::string(b.geoProvider)) == a.geoProvider; if (a.type != TimeSystemCorrection::BDUT && a.type != TimeSystemCorrection::GAUT && a.type != TimeSystemCorrection::SBUT && !(a.type == TimeSystemCorrection::GPUT && !v3)) ok = ok && b.refYr == a.refYr && b.refMon == a.refMon && b.refDay == a.refDay; if (!ok) { std::ostringstream o; o.precision(15); o << " " << k.first << " A0 " << b.A0 << "/" << a.A0 << " A1 " << b.A1 << "/" << a.A1 << " ref " << b.refWeek << ":" << b.refSOW << "/" << a.refWeek << ":" << a.refSOW << " " << b.refYr << "-" << b.refMon << "-" << b.refDay << " id " << b.geoUTCid << " prov <" << b.geoProvider << ">"; why += o.str(); tc = false; } } VF_CHECK("head.timecorr", tc, ds << why);
   VF_CHECK("head.leap", g.leapSeconds == h.leapSeconds && g.leapDelta == h.leapDelta && g.leapWeek == h.leapWeek && g.leapDay == h.leapDay, ds << " leap " << g.leapSeconds << " " << g.leapDelta << " " << g.leapWeek << " " << g.leapDay);
}
static bool isEOH(const std::string& l) { return l.size() > 60 && l.substr(60, 13) == "END OF HEADER"; }

static void file(vf::Case& c)
{
   vf::Rng& r = c.rng; bool v3 = r.chance(0.65); char fs = v3 ? r.pick(std::vector<char>{'M', 'M', 'M', 'G', 'E', 'C', 'R', 'J', 'S'}) : r.pick(std::vector<char>{'G', 'G', 'R', 'S'}); Rinex3NavHeader h = header(r, v3, fs); std::vector<N> recs; int n = (int)r.range(1, 5); std::ostringstream o; o << "version " << h.version << " system " << fs;
   for (int i = 0; i < n; i++) { char s = fs == 'M' ? r.pick(std::vector<char>{'G', 'R', 'E', 'C', 'J', 'S'}) : fs; N q = random(r, s); if (!v3 && s == 'S') q.mf = q.mf; recs.push_back(q); o << " [" << desc(q) << "]"; } std::string ds = o.str(); c.note(ds); c.distinct(ds); c.sample(ds);
   std::string f1 = vf::scratch() + "/c20a.n", f2 = vf::scratch() + "/c20b.n";
   { Rinex3NavStream os(f1.c_str(), std::ios::out); os.exceptions(std::ios::failbit); VF_NOTHROW("write", os << h, ds); for (auto& q : recs) VF_NOTHROW("write", os << make(q), ds); os.close(); }
   std::vector<std::string> L = lines(vf::slurp(f1)); size_t e = 0; while (e < L.size() && !isEOH(L[e])) e++; bool lay = e < L.size(); for (size_t i = 0; i <= e && lay; i++) if (L[i].size() < 61 || L[i].size() > 80) lay = false; VF_CHECK("head.layout", lay, ds << " header line lengths"); if (e >= L.size()) return; size_t want = e + 1; for (auto& q : recs) want += q.sys == 'R' || q.sys == 'S' ? 4 : 8; VF_CHECK("text.lines", L.size() == want, ds << " " << L.size() << " lines want " << want); if (L.size() != want) return; size_t p = e + 1; for (auto& q : recs) { text(q, L, p, v3, ds); p += q.sys == 'R' || q.sys == 'S' ? 4 : 8; }
   if (r.chance(0.6)) // other writers give the transmission time of the message modulo the week
   {
      std::vector<std::string> K = L; size_t at0 = e + 1; bool any = false; for (auto& q : recs) { bool rs = q.sys == 'R' || q.sys == 'S'; if (!rs) { long tx = q.xmit - q.toe / W * W, m = ((tx % W) + W) % W; if (m != tx) { char b[40]; snprintf(b, 40, "%19.12E", (double)m); K[at0 + 7].replace(v3 ? 4 : 3, 19, b); any = true; } } at0 += rs ? 4 : 8; }
      if (any) { c.count("transmit times reduced modulo the week"); std::string all; for (auto& l : K) all += l + "\n"; vf::spit(f1, all); }
   }
   std::vector<Rinex3NavData> got; Rinex3NavHeader g; { Rinex3NavStream is(f1.c_str()); is.exceptions(std::ios::failbit); VF_NOTHROW("read", is >> g, ds); Rinex3NavData q; is.exceptions(std::ios::goodbit); while (is >> q) { got.push_back(q); if (got.size() > recs.size()) break; } }
   cmpHeader(h, g, v3, ds); VF_CHECK("read.count", got.size() == recs.size(), ds << " read " << got.size()); if (got.size() != recs.size()) return; for (size_t i = 0; i < n; i++) compare(recs[i], got[i], ds, "read");
   { Rinex3NavStream os(f2.c_str(), std::ios::out); os << g; for (auto& q : got) os << q; os.close(); } std::vector<std::string> M = lines(vf::slurp(f2)); bool same = M.size() == L.size(); std::string diff; for (size_t i = 0; same && i < L.size(); i++) if (M[i] != L[i] && L[i].find("PGM / RUN BY") == std::string::npos) { same = false; diff = L[i] + " / " + M[i]; } VF_CHECK("rewrite", same, ds << " " << diff);
   std::vector<std::string> df; g.date = h.date; VF_CHECK("head.compare", h.compare(g, df, std::vector<std::string>()), ds << (df.empty() ? "" : df[0]));
   ::unlink(f1.c_str()); ::unlink(f2.c_str());
}

template <class E> static void kepler(const N& n, const E& e, const std::string& ds, const char* tag)
{
   std::string t(tag); const double* d = n.d; VF_CHECK(t + ".elements", e.af0 == d[AF0] && e.af1 == d[AF1] && e.af2 == d[AF2] && e.Crs == d[CRS] && e.dn == d[DN] && e.M0 == d[M0] && e.Cuc == d[CUC] && e.ecc == d[ECC] && e.Cus == d[CUS] && std::fabs(e.A - d[AHALF] * d[AHALF]) < 1e-8 * e.A && e.Cic == d[CIC] && e.OMEGA0 == d[OM0] && e.Cis == d[CIS] && e.i0 == d[I0] && e.Crc == d[CRC] && e.w == d[OMG] && e.OMEGAdot == d[OMD] && e.idot == d[IDOT] && e.dndot == 0 && e.Adot == 0, ds);
   VF_CHECK(t + ".ctToc", e.ctToc == at(n.toc, tsys(n.sys)), ds << " ctToc " << e.ctToc); VF_CHECK(t + ".ctToe", e.ctToe == at(n.toe, tsys(n.sys)), ds << " ctToe " << e.ctToe << " want " << at(n.toe, tsys(n.sys))); VF_CHECK(t + ".sat", e.satID == SatID(n.prn + (n.sys == 'J' ? 192 : 0), ssys(n.sys)) && e.dataLoaded(), ds << " sat " << e.satID);
}
static void convert(vf::Case& c)
{
   vf::Rng& r = c.rng; char s = r.pick(std::vector<char>{'G', 'G', 'E', 'C', 'J', 'R'}); N n = random(r, s); std::string ds = desc(n); c.note(ds); c.distinct(ds); c.sample(ds); Rinex3NavData q = make(n); bool other = r.chance(0.3);
   if (s == 'G')
   {
      double fit = n.fit == 0 ? 4 : n.fit == 1 ? 6 : n.fit; GPSEphemeris e = q; kepler(n, e, ds, "gps"); VF_CHECK("gps.own", e.IODC == n.iodc && e.IODE == n.iode && e.health == n.health && e.Tgd == n.d[TGD] && e.codeflags == n.flags && e.L2Pdata == n.l2p && e.fitint == fit, ds); VF_CHECK("gps.fit", e.fitDuration == fit, ds << " fitDuration " << e.fitDuration);
      long x = n.toc % 3600 == 0 ? n.toc - (long)fit * 1800 : n.xmit; VF_CHECK("gps.xmit", e.transmitTime == at(x, TimeSystem::GPS) && e.HOWtime == (x % W + 6), ds << " transmit " << e.transmitTime << " want " << at(x, TimeSystem::GPS) << " HOW " << e.HOWtime); long bv = n.toc % 7200 == 0 ? n.toc - (long)fit * 1800 : (x + 6) / 30 * 30, ev = (n.toe + 3599) / 3600 * 3600 + (long)fit * 1800; VF_CHECK("gps.valid", e.beginValid == at(bv, TimeSystem::GPS) && e.endValid == at(ev, TimeSystem::GPS), ds << " valid " << e.beginValid << " .. " << e.endValid << " want " << at(bv, TimeSystem::GPS) << " .. " << at(ev, TimeSystem::GPS));
      Rinex3NavData b(e); N m = n; m.xmit = x; m.fit = fit; m.acc = (short)n.acc; if (std::fabs(m.acc) == n.acc) compare(m, b, ds, "gps.back"); else { m.acc = b.accuracy; compare(m, b, ds, "gps.back"); }
      if (!other) { EngEphemeris g = q; const double* d = n.d; VF_CHECK("eng.elements", g.getAf0() == d[AF0] && g.getAf1() == d[AF1] && g.getCrs() == d[CRS] && g.getDn() == d[DN] && g.getM0() == d[M0] && g.getCuc() == d[CUC] && g.getEcc() == d[ECC] && g.getCus() == d[CUS] && g.getAhalf() == d[AHALF] && g.getCic() == d[CIC] && g.getOmega0() == d[OM0] && g.getCis() == d[CIS] && g.getI0() == d[I0] && g.getCrc() == d[CRC] && g.getW() == d[OMG] && g.getOmegaDot() == d[OMD] && g.getIDot() == d[IDOT] && g.getTgd() == d[TGD], ds); VF_CHECK("eng.own", g.getPRNID() == n.prn && g.getIODC() == n.iodc && g.getIODE() == n.iode && g.getHealth() == n.health && g.getCodeFlags() == n.flags && g.getL2Pdata() == n.l2p && g.getHOWTime(1) == n.xmit % W + 6, ds << " HOW " << g.getHOWTime(1)); VF_CHECK("eng.epochs", g.getEphemerisEpoch() == at(n.toe, TimeSystem::GPS) && g.getEpochTime() == at(n.toc, TimeSystem::GPS) && g.getToe() == (double)(n.toe % W) && g.getToc() == (double)(n.toc % W), ds << " toe " << g.getEphemerisEpoch() << " toc " << g.getEpochTime()); double eh = n.fit > 4 ? 6 : 4; CommonTime mid = at(n.toe, TimeSystem::GPS); VF_CHECK("eng.fit", g.getOrbit().getBeginningOfFitInterval() == mid - eh * 1800 && g.getOrbit().getEndOfFitInterval() == mid + eh * 1800, ds << " fit " << g.getOrbit().getBeginningOfFitInterval() << " .. " << g.getOrbit().getEndOfFitInterval()); Rinex3NavData back(g); N k = n; k.xmit = (n.xmit + 6) / 30 * 30; k.fit = eh == 6 ? 1 : 0; k.acc = back.accuracy; k.fit = back.fitint; if (n.xmit % W + 6 < W) compare(k, back, ds, "eng.back"); }
   }
   else if (s == 'E') { GalEphemeris e = q; kepler(n, e, ds, "gal"); VF_CHECK("gal.own", e.IODnav == n.iode && e.accuracy == n.acc && e.Tgda == n.d[TGD] && e.Tgdb == n.d[TGD2] && e.datasources == n.src, ds); VF_CHECK("gal.xmit", e.transmitTime == at(n.xmit, TimeSystem::GAL) && e.beginValid == e.transmitTime && e.endValid == at(n.toe + 14400, TimeSystem::GAL), ds << " transmit " << e.transmitTime << " want " << at(n.xmit, TimeSystem::GAL) << " end " << e.endValid); int sh = n.src & 1 ? 0 : n.src & 4 ? 6 : 3; int dvs = n.health >> sh & 1, hs = n.health >> (sh + 1) & 3; bool bad = hs == 1 || hs == 3, ok = hs == 0 && dvs == 0 && n.acc != -1; VF_CHECK("gal.health", e.isHealthy() == ok, ds << " health bits " << n.health << " sources " << n.src << " healthy " << e.isHealthy()); (void)bad; Rinex3NavData b(e); N k = n; k.health = b.health; compare(k, b, ds, "gal.back"); }
   else if (s == 'C') { BDSEphemeris e = q; kepler(n, e, ds, "bds"); VF_CHECK("bds.own", e.IODC == n.iodc && e.IODE == n.iode && e.health == n.health && e.accuracy == n.acc && e.Tgd13 == n.d[TGD] && e.Tgd23 == n.d[TGD2], ds); VF_CHECK("bds.xmit", e.transmitTime == at(n.xmit, TimeSystem::BDT) && e.beginValid == at(std::max(n.toe, n.xmit), TimeSystem::BDT) && e.endValid == at(n.toe + W, TimeSystem::BDT), ds << " transmit " << e.transmitTime << " want " << at(n.xmit, TimeSystem::BDT)); Rinex3NavData b(e); compare(n, b, ds, "bds.back"); }
   else if (s == 'J') { QZSEphemeris e = q; kepler(n, e, ds, "qzs"); VF_CHECK("qzs.own", e.IODC == n.iodc && e.IODE == n.iode && e.health == n.health && e.accuracy == n.acc && e.Tgd == n.d[TGD] && e.codeflags == n.flags && e.L2Pdata == n.l2p && e.fitint == n.fit && e.fitDuration == (n.fit == 0 ? 2 : 4), ds); VF_CHECK("qzs.xmit", e.transmitTime == at(n.xmit, TimeSystem::QZS) && e.beginValid == e.transmitTime && e.endValid == at(n.toe + 1800 * e.fitDuration, TimeSystem::QZS), ds << " transmit " << e.transmitTime << " want " << at(n.xmit, TimeSystem::QZS)); Rinex3NavData b(e); compare(n, b, ds, "qzs.back"); char id[8]; snprintf(id, 8, "J%02d", n.prn); VF_CHECK("qzs.id", b.sat.toString() == id, ds << " " << b.sat.toString()); }
   else { GloEphemeris e = q; VF_CHECK("glo.own", e.getPRNID() == n.prn && e.getEphemerisEpoch() == at(n.toc, TimeSystem::GLO) && e.getTauN() == n.d[TAUN] && e.getGammaN() == n.d[GAMN] && e.getMFtime() == n.mf && e.getHealth() == n.health && e.getfreqNum() == n.freq && e.getAgeOfInfo() == n.age && e.x[0] == n.d[PX] && e.x[1] == n.d[PY] && e.x[2] == n.d[PZ] && e.v[0] == n.d[VX] && e.v[1] == n.d[VY] && e.v[2] == n.d[VZ] && e.getAcc()[0] == n.d[AX] && e.getAcc()[1] == n.d[AY] && e.getAcc()[2] == n.d[AZ], ds); compare(n, Rinex3NavData(e), ds, "glo.back"); }
   if (other) { if (s != 'G') { GPSEphemeris x = q; VF_CHECK("other", !x.dataLoaded(), ds); } if (s != 'E') { GalEphemeris x = q; VF_CHECK("other", !x.dataLoaded(), ds); } if (s != 'C') { BDSEphemeris x = q; VF_CHECK("other", !x.dataLoaded(), ds); } if (s != 'J') { QZSEphemeris x = q; VF_CHECK("other", !x.dataLoaded(), ds); } }
   { N a = n, b = random(r, r.pick(std::vector<char>{'G', 'E', 'R'})); if (r.chance(0.5)) b.toc = a.toc; Rinex3NavData x = make(a), y = make(b); bool lt = a.toc != b.toc ? a.toc < b.toc : x.sat < y.sat; VF_CHECK("order", (x < y) == lt, ds << " | " << desc(b)); }
}

// version 2 classes, GPS only
static RinexNavData make2(const N& n, long sf1, long toeWeek)
{
   RinexNavData q; q.time = at(n.toc, TimeSystem::GPS); q.PRNID = (short)n.prn; q.sf1XmitTime = sf1; q.toeWeek = (short)toeWeek; q.codeflgs = (short)n.flags; q.accuracy = n.acc; q.health = (short)n.health; q.L2Pdata = (short)n.l2p; q.IODC = n.iodc; q.IODE = n.iode; const double* d = n.d; q.af0 = d[AF0]; q.af1 = d[AF1]; q.af2 = d[AF2]; q.Tgd = d[TGD]; q.Cuc = d[CUC]; q.Cus = d[CUS]; q.Crc = d[CRC]; q.Crs = d[CRS]; q.Cic = d[CIC]; q.Cis = d[CIS]; q.Toe = (double)(n.toe % W); q.M0 = d[M0]; q.dn = d[DN]; q.ecc = d[ECC]; q.Ahalf = d[AHALF]; q.OMEGA0 = d[OM0]; q.i0 = d[I0]; q.w = d[OMG]; q.OMEGAdot = d[OMD]; q.idot = d[IDOT]; q.fitint = n.fit; return q;
}
static void cmp2(const N& n, const RinexNavData& q, const std::string& ds, const char* tag, double ver)
{
   std::string t(tag); const double* d = n.d; VF_CHECK(t + ".time", q.time == at(n.toc, TimeSystem::GPS) && q.PRNID == n.prn && q.getToeTime() == at(n.toe, TimeSystem::GPS) && q.getTocTime() == q.time, ds << " toe " << q.getToeTime() << " toc " << q.time);
   VF_CHECK(t + ".fields", near(q.af0, d[AF0]) && near(q.af1, d[AF1]) && near(q.af2, d[AF2]) && near(q.Tgd, d[TGD]) && near(q.Cuc, d[CUC]) && near(q.Cus, d[CUS]) && near(q.Crc, d[CRC]) && near(q.Crs, d[CRS]) && near(q.Cic, d[CIC]) && near(q.Cis, d[CIS]) && near(q.M0, d[M0]) && near(q.dn, d[DN]) && near(q.ecc, d[ECC]) && near(q.Ahalf, d[AHALF]) && near(q.OMEGA0, d[OM0]) && near(q.i0, d[I0]) && near(q.w, d[OMG]) && near(q.OMEGAdot, d[OMD]) && near(q.idot, d[IDOT]), ds); VF_CHECK(t + ".ints", q.codeflgs == n.flags && near(q.accuracy, n.acc) && q.health == n.health && q.L2Pdata == n.l2p && q.IODC == n.iodc && q.IODE == n.iode && (ver < 2.1 || q.fitint == n.fit), ds);
   long x = n.xmit / 30 * 30; VF_CHECK(t + ".xmit", q.getXmitTime() == at(x, TimeSystem::GPS) && q.getHOWTime() == at(x + 6, TimeSystem::GPS), ds << " xmit " << q.getXmitTime() << " want " << at(x, TimeSystem::GPS));
}
static void v2(vf::Case& c)
{
   vf::Rng& r = c.rng; std::vector<N> recs; int n = (int)r.range(1, 4); double ver = r.pick(std::vector<double>{2.0, 2.1, 2.11}); std::ostringstream o; o << "version " << ver; for (int i = 0; i < n; i++) { recs.push_back(random(r, 'G')); o << " [" << desc(recs[i]) << "]"; } std::string ds = o.str(); c.note(ds); c.distinct(ds); c.sample(ds);
   RinexNavHeader h; h.version = ver; h.fileType = "NAVIGATION"; h.fileProgram = "pgm"; h.fileAgency = "me"; h.valid = RinexNavHeader::versionValid | RinexNavHeader::runByValid | RinexNavHeader::endValid; if (r.chance(0.5)) { h.commentList.push_back("a comment"); h.valid |= RinexNavHeader::commentValid; } IonoCorr a = ion(r, "GPSA"), b = ion(r, "GPSB"); if (r.chance(0.5)) { for (int i = 0; i < 4; i++) { h.ionAlpha[i] = a.param[i]; h.ionBeta[i] = b.param[i]; } h.valid |= RinexNavHeader::ionAlphaValid | RinexNavHeader::ionBetaValid; } if (r.chance(0.5)) { h.A0 = (r.unit() - 0.5) * 1e-6; h.A1 = (r.unit() - 0.5) * 1e-12; h.UTCRefTime = 4096 * r.range(0, 147); h.UTCRefWeek = r.range(900, 2300); h.valid |= RinexNavHeader::deltaUTCValid; } if (r.chance(0.5)) { h.leapSeconds = r.range(8, 18); h.valid |= RinexNavHeader::leapSecondsValid; }
   std::string f1 = vf::scratch() + "/c20c.n", f2 = vf::scratch() + "/c20d.n"; std::vector<RinexNavData> in; for (auto& q : recs) { long sf = q.xmit - q.toe / W * W; switch (r.below(3)) { case 0: sf = (sf % W + W) % W; break; case 1: if (sf < 0 && r.chance(0.5)) break; sf = (sf % W + W) % W; break; default: break; } if (sf >= 0 && sf < W) {} if (sf >= W || (sf < 0 && sf < -W / 2)) sf = (sf % W + W) % W; in.push_back(make2(q, sf, q.toe / W)); }
   { RinexNavStream os(f1.c_str(), std::ios::out); os.exceptions(std::ios::failbit); VF_NOTHROW("v2.write", os << h, ds); for (auto& q : in) VF_NOTHROW("v2.write", os << q, ds); os.close(); }
   std::vector<std::string> L = lines(vf::slurp(f1)); size_t e = 0; while (e < L.size() && !isEOH(L[e])) e++; VF_CHECK("v2.lines", L.size() == e + 1 + 8 * n, ds << " " << L.size()); for (size_t i = 0; i < recs.size() && e + 8 + 8 * i < L.size(); i++) { int y, m, d; long s; civil(recs[i].toc, y, m, d, s); char ep[40]; snprintf(ep, 40, "%2d %02d %2d %2d %2ld %2ld%5.1f", recs[i].prn, y % 100, m, d, s / 3600, s / 60 % 60, (double)(s % 60)); VF_CHECK("v2.text", L[e + 1 + 8 * i].substr(0, 22) == ep && f19(L[e + 1 + 8 * i], 22, recs[i].d[AF0]) && f19(L[e + 3 + 8 * i], 60, recs[i].d[AHALF]) && f19(L[e + 6 + 8 * i], 41, (double)(recs[i].toe / W)) && f19(L[e + 7 + 8 * i], 60, recs[i].iodc), ds << " " << L[e + 1 + 8 * i]); }
   RinexNavHeader g; std::vector<RinexNavData> got; { RinexNavStream is(f1.c_str()); is.exceptions(std::ios::failbit); VF_NOTHROW("v2.read", is >> g, ds); is.exceptions(std::ios::goodbit); RinexNavData q; while (is >> q) { got.push_back(q); if (got.size() > recs.size()) break; } } VF_CHECK("v2.count", got.size() == recs.size(), ds << " read " << got.size()); if (got.size() != recs.size()) return; for (int i = 0; i < n; i++) cmp2(recs[i], got[i], ds, "v2", ver);
   bool ok = g.valid == h.valid && g.fileProgram == h.fileProgram && g.commentList == h.commentList && g.leapSeconds == h.leapSeconds && near(g.A0, h.A0) && near(g.A1, h.A1) && g.UTCRefTime == h.UTCRefTime && g.UTCRefWeek == h.UTCRefWeek && std::fabs(g.version - h.version) < 0.001; for (int i = 0; i < 4; i++) ok = ok && near4(g.ionAlpha[i], h.ionAlpha[i]) && near4(g.ionBeta[i], h.ionBeta[i]); VF_CHECK("v2.header", ok, ds);
   { RinexNavStream os(f2.c_str(), std::ios::out); os << g; for (auto& q : got) os << q; os.close(); } std::vector<std::string> M = lines(vf::slurp(f2)); bool same = M.size() == L.size(); for (size_t i = 0; same && i < L.size(); i++) if (M[i] != L[i] && L[i].find("PGM / RUN BY") == std::string::npos) same = false; VF_CHECK("v2.rewrite", same, ds); ::unlink(f1.c_str()); ::unlink(f2.c_str());
   for (int i = 0; i < n; i++)
   {
      N q = recs[i]; std::string d1 = desc(q) + " sf1 " + std::to_string(in[i].sf1XmitTime); N k = q; k.xmit = q.xmit / 30 * 30; Rinex3NavData t3(in[i]); k.toc = q.toc; compare(k, t3, d1, "v2to3"); GPSEphemeris e = in[i]; kepler(q, e, d1, "v2gps"); double fit = q.fit; if (fit == 4 || fit == 6) { VF_CHECK("v2gps.fit", e.fitDuration == fit, d1 << " fitDuration " << e.fitDuration); VF_CHECK("v2gps.xmit", e.transmitTime == at(k.xmit, TimeSystem::GPS), d1 << " transmit " << e.transmitTime); long ev = (q.toe + 3599) / 3600 * 3600 + (long)fit * 1800; VF_CHECK("v2gps.valid", e.endValid == at(ev, TimeSystem::GPS), d1 << " end " << e.endValid); }
      EngEphemeris g2 = in[i]; const double* d = q.d; VF_CHECK("v2eng", g2.getPRNID() == q.prn && g2.getAf0() == d[AF0] && g2.getM0() == d[M0] && g2.getCis() == d[CIS] && g2.getOmegaDot() == d[OMD] && g2.getIODC() == q.iodc && g2.getHOWTime(1) == (k.xmit + 6) % W && g2.getEphemerisEpoch() == at(q.toe, TimeSystem::GPS) && g2.getEpochTime() == at(q.toc, TimeSystem::GPS), d1 << " toe " << g2.getEphemerisEpoch() << " toc " << g2.getEpochTime() << " HOW " << g2.getHOWTime(1));
      RinexNavData b2(g2); N k2 = k; k2.fit = b2.fitint; k2.acc = b2.accuracy; cmp2(k2, b2, d1, "v2eng.back", 2.11);
   }
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"file", 1500, 40000, file}, {"convert", 4000, 150000, convert}, {"v2", 1200, 30000, v2}}); }
