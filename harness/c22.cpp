// C22: RINEX observation files (versions 2 and 3): headers, epochs, observations and events survive writing and reading
#include "vf.hpp"
#include "Rinex3ObsStream.hpp"
#include "Rinex3ObsHeader.hpp"
#include "Rinex3ObsData.hpp"
#include "RinexObsID.hpp"
#include "CivilTime.hpp"
using namespace gpstk;
typedef Rinex3ObsHeader H;

static std::string word(vf::Rng& r, size_t w) { if (r.chance(0.1)) return ""; size_t n = r.chance(0.2) ? w : (size_t)r.range(1, (int)w); std::string s; for (size_t i = 0; i < n; i++) { char c = "ABCDEFabcdef0123456789./-_ +#"[r.below(29)]; if (c == ' ' && (i == 0 || i + 1 == n)) c = 'x'; s += c; } return s; }
static double grid(vf::Rng& r, double m, int dec) { double p = std::pow(10.0, dec); return std::floor((r.unit() * 2 - 1) * m * p) / p; }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::istringstream i(t); std::string l; while (std::getline(i, l)) { if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1); v.push_back(l); } return v; }
static double num(const std::string& s) { std::string t = s; t.erase(0, t.find_first_not_of(' ') == std::string::npos ? t.size() : t.find_first_not_of(' ')); if (t.empty()) return 0; return strtod(t.c_str(), 0); }
static const std::string SYS3 = "GRESCJI";
static std::vector<std::string> codes(vf::Rng& r, char s, double version, int want)
{
   std::vector<std::string> all; for (auto& b : RinexObsID::validRinexTrackingCodes[s]) for (char t : std::string("CLDS")) for (char a : b.second) { if (a == ' ' || a == '*') continue; if (s == 'G' && a == 'N' && t == 'C') continue; std::string q = std::string(1, t) + b.first + a; try { RinexObsID id(s + q, version); if (id.asString(version) == q) all.push_back(q); } catch (Exception&) {} }
   std::vector<std::string> o; r.shuffle(all); for (auto& q : all) if ((int)o.size() < want && std::find(o.begin(), o.end(), q) == o.end()) o.push_back(q); return o;
}
static TimeSystem tsOf(char s) { return s == 'R' ? TimeSystem::GLO : s == 'E' ? TimeSystem::GAL : s == 'C' ? TimeSystem::BDT : s == 'J' ? TimeSystem::QZS : s == 'I' ? TimeSystem::IRN : TimeSystem::GPS; }
static SatelliteSystem ssOf(char s) { return s == 'G' ? SatelliteSystem::GPS : s == 'R' ? SatelliteSystem::Glonass : s == 'E' ? SatelliteSystem::Galileo : s == 'S' ? SatelliteSystem::Geosync : s == 'C' ? SatelliteSystem::BeiDou : s == 'J' ? SatelliteSystem::QZSS : SatelliteSystem::IRNSS; }
struct Truth { std::string systems; std::map<char, std::vector<std::string> > obs; };
static RinexSatID satOf(vf::Rng& r, char s) { char b[8]; snprintf(b, 8, "%c%02d", s, (int)r.range(1, s == 'R' ? 24 : s == 'J' ? 7 : s == 'I' ? 9 : 32) + (s == 'S' ? 19 : 0)); RinexSatID q; q.fromString(b); return q; }
static CivilTime civil(vf::Rng& r, const TimeSystem& ts) { return CivilTime((int)r.range(1990, 2030), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.range(0, 23), (int)r.range(0, 59), r.chance(0.5) ? (double)r.range(0, 59) : r.chance(0.2) ? 59.9999999 : std::floor(r.unit() * 59e7) / 1e7, ts); }

static H header(vf::Rng& r, double ver, Truth& t)
{
   H h; bool v3 = ver >= 3; h.version = ver; h.preserveDate = true; h.date = "20200101 000000 UTC"; h.fileProgram = word(r, 20); h.fileAgency = word(r, 20); h.markerName = word(r, 60); h.observer = word(r, 20); h.agency = word(r, 40); h.recNo = word(r, 20); h.recType = word(r, 20); h.recVers = word(r, 20); h.antNo = word(r, 20); h.antType = word(r, 20);
   for (int i = 0; i < 3; i++) { h.antennaPosition[i] = grid(r, 6.4e6, 4); h.antennaDeltaHEN[i] = grid(r, 5, 4); h.antennaDeltaXYZ[i] = grid(r, 100, 4); h.antennaPhaseCtr[i] = grid(r, 0.5, 4); h.antennaBsightXYZ[i] = grid(r, 1, 4); h.antennaZeroDirXYZ[i] = grid(r, 1, 4); h.centerOfMass[i] = grid(r, 10, 4); } h.antennaZeroDirAzi = grid(r, 180, 4) + 180;
   for (H::Field f : {H::validVersion, H::validRunBy, H::validMarkerName, H::validObserver, H::validReceiver, H::validAntennaType, H::validAntennaPosition, H::validAntennaDeltaHEN, H::validFirstTime}) h.valid |= f;
   std::string cand = v3 ? (ver >= 3.02 ? SYS3 : std::string("GRESC")) : std::string("GRES"); if (ver < 3.03 && v3) { size_t p = cand.find('I'); if (p != std::string::npos) cand.erase(p, 1); } while (cand.size() > 1 && r.chance(0.45)) cand.erase(r.below(cand.size()), 1); t.systems = cand; h.fileSysSat = cand.size() > 1 ? SatID(-1, SatelliteSystem::Mixed) : SatID(-1, ssOf(cand[0])); h.fileSys = cand.size() > 1 ? "M" : cand.substr(0, 1);
   TimeSystem ts = cand.size() > 1 ? (r.chance(0.7) ? TimeSystem::GPS : r.chance(0.5) ? TimeSystem::GLO : TimeSystem::GAL) : tsOf(cand[0]); h.firstObs = civil(r, ts);
   int nc = r.chance(0.5) ? (int)r.range(1, 4) : 0; for (int i = 0; i < nc; i++) h.commentList.push_back(word(r, 60)); if (nc) h.valid |= H::validComment;
   if (r.chance(0.5)) { h.markerNumber = word(r, 20); h.valid |= H::validMarkerNumber; } if (r.chance(0.4)) { h.interval = grid(r, 15, 3) + 15; h.valid |= H::validInterval; } if (r.chance(0.4)) { h.lastObs = civil(r, ts); h.valid |= H::validLastTime; } if (r.chance(0.4)) { h.receiverOffset = (int)r.below(2); h.valid |= H::validReceiverOffset; } if (r.chance(0.5)) { h.leapSeconds = (int)r.range(5, 18); h.valid |= H::validLeapSeconds; }
   if (v3)
   {
      h.valid |= H::validSystemNumObs; for (char s : cand) { int n = r.chance(0.3) ? r.pick(std::vector<int>{1, 12, 13, 14, 26, 27}) : (int)r.range(1, 20); std::vector<std::string> c = codes(r, s, ver, n); t.obs[s] = c; for (auto& q : c) h.mapObsTypes[std::string(1, s)].push_back(RinexObsID(s + q, ver)); }
      if (r.chance(0.5)) { h.markerType = word(r, 20); h.valid |= H::validMarkerType; } if (r.chance(0.3)) h.valid |= H::validAntennaDeltaXYZ; if (r.chance(0.3)) { h.valid |= H::validAntennaPhaseCtr; h.antennaSatSys = cand.substr(0, 1); h.antennaObsCode = t.obs[cand[0]][0]; } if (r.chance(0.3)) h.valid |= H::validAntennaBsightXYZ; if (r.chance(0.3)) h.valid |= H::validAntennaZeroDirAzi; if (r.chance(0.3)) h.valid |= H::validAntennaZeroDirXYZ; if (r.chance(0.3)) h.valid |= H::validCenterOfMass; if (r.chance(0.3)) { h.sigStrengthUnit = "DBHZ"; h.valid |= H::validSigStrengthUnit; }
      for (int w = 0; w < 2; w++) if (r.chance(0.3)) { int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) { H::Rinex3CorrInfo q; q.satSys = std::string(1, cand[r.below(cand.size())]); q.name = word(r, 17); q.source = word(r, 40); (w ? h.infoPCVS : h.infoDCBS).push_back(q); } h.valid |= w ? H::validSystemPCVSapplied : H::validSystemDCBSapplied; }
      if (r.chance(0.4)) { for (char s : cand) if (r.chance(0.6)) { double p = r.unit(); for (auto& q : t.obs[s]) { if (r.chance(p)) h.sysSfacMap[std::string(1, s)][RinexObsID(s + q, ver)] = r.chance(0.5) ? 10 : r.pick(std::vector<int>{1, 100, 1000}); } if (r.chance(0.3)) for (auto& q : t.obs[s]) h.sysSfacMap[std::string(1, s)][RinexObsID(s + q, ver)] = 10; } if (!h.sysSfacMap.empty()) h.valid |= H::validSystemScaleFac; }
      if (ver >= 3.01)
      {
         h.valid |= H::validSystemPhaseShift; for (char s : cand) { std::string S(1, s); h.sysPhaseShift[S]; for (auto& q : t.obs[s]) if (q[0] == 'L' && r.chance(0.5)) { RinexObsID id(s + q, ver); double v = grid(r, 0.5, 5); if (r.chance(0.5)) { RinexSatID z; z.fromString(S); h.sysPhaseShift[S][id][z] = v; } else { int n = r.chance(0.4) ? r.pick(std::vector<int>{10, 11, 20, 21}) : (int)r.range(1, 12); bool two = r.chance(0.4); for (int i = 0; i < n; i++) h.sysPhaseShift[S][id][satOf(r, s)] = two && r.chance(0.4) ? v + 0.25 : v; } } }
         if (cand.find('R') != std::string::npos || r.chance(0.2)) { h.valid |= H::validGlonassSlotFreqNo; int n = r.chance(0.3) ? r.pick(std::vector<int>{8, 16, 24}) : (int)r.range(1, 24); for (int i = 1; i <= n; i++) { char b[8]; snprintf(b, 8, "R%02d", i); RinexSatID q; q.fromString(b); h.glonassFreqNo[q] = (int)r.range(-7, 13); } }
         if (ver >= 3.02 && (cand.find('R') != std::string::npos || r.chance(0.2))) { h.valid |= H::validGlonassCodPhsBias; for (const char* q : {"C1C", "C1P", "C2C", "C2P"}) h.glonassCodPhsBias[RinexObsID(std::string("R") + q, ver)] = grid(r, 90, 3); }
      }
   }
   else
   {
      h.valid |= H::validNumObs; std::vector<std::string> all = {"C1", "P1", "L1", "D1", "S1", "C2", "P2", "L2", "D2", "S2", "C5", "L5", "D5", "S5"}; r.shuffle(all); int n = r.chance(0.3) ? r.pick(std::vector<int>{9, 10, 5, 6}) : (int)r.range(1, 14); all.resize(n); h.R2ObsTypes = all;
      if (r.chance(0.6)) { h.valid |= H::validWaveFact; h.wavelengthFactor[0] = (short)r.range(1, 2); h.wavelengthFactor[1] = (short)r.range(0, 2); int m = r.chance(0.4) ? (int)r.range(1, 3) : 0; for (int i = 0; i < m; i++) { H::ExtraWaveFact e; e.setWavelengthFactor((short)r.range(1, 2), (short)r.range(0, 2)); int k = (int)r.range(1, 7); for (int j = 0; j < k; j++) e.satList.push_back(satOf(r, cand[r.below(cand.size())])); h.extraWaveFactList.push_back(e); } }
   }
   if (v3 && r.chance(0.4)) { h.valid |= H::validPrnObs; h.valid |= H::validNumSats; int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) { char s = cand[r.below(cand.size())]; std::vector<int> v; for (size_t j = 0; j < t.obs[s].size(); j++) v.push_back((int)r.range(0, 99999)); h.numObsForSat[satOf(r, s)] = v; } h.numSVs = (short)h.numObsForSat.size(); }
   h.validEoH = true; return h;
}
static bool tri(const Triple& a, const Triple& b) { for (int i = 0; i < 3; i++) if (std::fabs(a[i] - b[i]) > 5.1e-5) return false; return true; }
static bool when(const CivilTime& a, const CivilTime& b) { return a.year == b.year && a.month == b.month && a.day == b.day && a.hour == b.hour && a.minute == b.minute && std::fabs(a.second - b.second) < 1e-7 && a.getTimeSystem() == b.getTimeSystem(); }
static void same(const H& a, const H& b, const std::string& ds)     // a wanted, b read
{
   VF_CHECK("head.valid", a.valid == b.valid, ds << " valid " << b.valid << " want " << a.valid); VF_CHECK("head.version", std::fabs(a.version - b.version) < 1e-9 && b.fileSysSat.system == a.fileSysSat.system, ds << " " << b.version << " " << b.fileSys);
   VF_CHECK("head.text", a.fileProgram == b.fileProgram && a.fileAgency == b.fileAgency && a.date == b.date && a.markerName == b.markerName && a.observer == b.observer && a.agency == b.agency && a.recNo == b.recNo && a.recType == b.recType && a.recVers == b.recVers && a.antNo == b.antNo && a.antType == b.antType, ds); VF_CHECK("head.comments", a.commentList == b.commentList, ds << " comments " << b.commentList.size() << " want " << a.commentList.size());
   VF_CHECK("head.position", tri(a.antennaPosition, b.antennaPosition) && tri(a.antennaDeltaHEN, b.antennaDeltaHEN), ds); VF_CHECK("head.first", when(a.firstObs, b.firstObs), ds << " first " << b.firstObs << " want " << a.firstObs);
   auto on = [&](H::Field f) { return a.valid.isSet(f); };
   if (on(H::validMarkerNumber)) VF_CHECK("head.markernumber", a.markerNumber == b.markerNumber, ds); if (on(H::validInterval)) VF_CHECK("head.interval", std::fabs(a.interval - b.interval) < 5.1e-4, ds); if (on(H::validLastTime)) VF_CHECK("head.last", when(a.lastObs, b.lastObs), ds << " last " << b.lastObs << " want " << a.lastObs); if (on(H::validReceiverOffset)) VF_CHECK("head.clockapplied", a.receiverOffset == b.receiverOffset, ds); if (on(H::validLeapSeconds)) VF_CHECK("head.leap", a.leapSeconds == b.leapSeconds, ds);
   if (a.version < 3) { VF_CHECK("head.obs2", a.R2ObsTypes == b.R2ObsTypes, ds << " types " << b.R2ObsTypes.size() << " want " << a.R2ObsTypes.size()); if (on(H::validWaveFact)) { bool ok = a.wavelengthFactor[0] == b.wavelengthFactor[0] && a.wavelengthFactor[1] == b.wavelengthFactor[1] && a.extraWaveFactList.size() == b.extraWaveFactList.size(); for (size_t i = 0; ok && i < a.extraWaveFactList.size(); i++) ok = a.extraWaveFactList[i].satList == b.extraWaveFactList[i].satList && a.extraWaveFactList[i].wavelengthFactor[0] == b.extraWaveFactList[i].wavelengthFactor[0] && a.extraWaveFactList[i].wavelengthFactor[1] == b.extraWaveFactList[i].wavelengthFactor[1]; VF_CHECK("head.wave", ok, ds); } return; }
   VF_CHECK("head.obs", a.mapObsTypes == b.mapObsTypes, ds); if (on(H::validMarkerType)) VF_CHECK("head.markertype", a.markerType == b.markerType, ds); if (on(H::validAntennaDeltaXYZ)) VF_CHECK("head.deltaxyz", tri(a.antennaDeltaXYZ, b.antennaDeltaXYZ), ds); if (on(H::validAntennaPhaseCtr)) VF_CHECK("head.phasectr", tri(a.antennaPhaseCtr, b.antennaPhaseCtr) && a.antennaSatSys == b.antennaSatSys && a.antennaObsCode == b.antennaObsCode, ds); if (on(H::validAntennaBsightXYZ)) VF_CHECK("head.bsight", tri(a.antennaBsightXYZ, b.antennaBsightXYZ), ds); if (on(H::validAntennaZeroDirAzi)) VF_CHECK("head.zeroazi", std::fabs(a.antennaZeroDirAzi - b.antennaZeroDirAzi) < 5.1e-5, ds); if (on(H::validAntennaZeroDirXYZ)) VF_CHECK("head.zeroxyz", tri(a.antennaZeroDirXYZ, b.antennaZeroDirXYZ), ds); if (on(H::validCenterOfMass)) VF_CHECK("head.com", tri(a.centerOfMass, b.centerOfMass), ds); if (on(H::validSigStrengthUnit)) VF_CHECK("head.sigunit", a.sigStrengthUnit == b.sigStrengthUnit, ds);
   auto ci = [](const H::CorrVec& x, const H::CorrVec& y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (x[i].satSys != y[i].satSys || x[i].name != y[i].name || x[i].source != y[i].source) return false; return true; }; VF_CHECK("head.dcbs", ci(a.infoDCBS, b.infoDCBS) && ci(a.infoPCVS, b.infoPCVS), ds);
   VF_CHECK("head.scale", a.sysSfacMap == b.sysSfacMap, ds); if (on(H::validSystemPhaseShift)) { bool ok = a.sysPhaseShift.size() == b.sysPhaseShift.size(); std::ostringstream w; for (auto& s : a.sysPhaseShift) { auto it = b.sysPhaseShift.find(s.first); if (it == b.sysPhaseShift.end() || it->second.size() != s.second.size()) { ok = false; w << s.first << " "; continue; } for (auto& o : s.second) { auto jt = it->second.find(o.first); if (jt == it->second.end() || jt->second.size() != o.second.size()) { ok = false; w << s.first << o.first << " " << (jt == it->second.end() ? 0 : jt->second.size()) << " of " << o.second.size() << " "; continue; } for (auto& x : o.second) { auto kt = jt->second.find(x.first); if (kt == jt->second.end() || std::fabs(kt->second - x.second) > 5.1e-6) { ok = false; w << s.first << o.first << x.first << " "; } } } } VF_CHECK("head.phaseshift", ok, ds << " phase shifts differ at " << w.str()); }
   if (on(H::validGlonassSlotFreqNo)) VF_CHECK("head.glofreq", a.glonassFreqNo == b.glonassFreqNo, ds << " " << b.glonassFreqNo.size() << " want " << a.glonassFreqNo.size()); if (on(H::validGlonassCodPhsBias)) { bool ok = a.glonassCodPhsBias.size() == b.glonassCodPhsBias.size(); for (auto& q : a.glonassCodPhsBias) { auto it = b.glonassCodPhsBias.find(q.first); ok = ok && it != b.glonassCodPhsBias.end() && std::fabs(it->second - q.second) < 5.1e-4; } VF_CHECK("head.globias", ok, ds); }
   if (on(H::validPrnObs)) VF_CHECK("head.prnobs", a.numObsForSat == b.numObsForSat && a.numSVs == b.numSVs, ds);
}
static std::string summary(const H& h, const Truth& t) { std::ostringstream o; o << "v" << h.version << " " << t.systems; for (auto& q : t.obs) o << " " << q.first << q.second.size(); o << " first " << h.firstObs << " valid " << h.valid; if (h.version < 3) o << " types " << h.R2ObsTypes.size(); return o.str(); }

static void heads(vf::Case& c)
{
   vf::Rng& r = c.rng; double ver = r.pick(std::vector<double>{3.0, 3.01, 3.02, 3.03, 3.04, 3.03, 2.10, 2.11, 2.0}); Truth t; H h = header(r, ver, t), back, used; std::string ds = summary(h, t); c.note(ds); c.distinct(ds); c.sample(ds); std::string fn = vf::scratch() + "/h.obs", f2 = vf::scratch() + "/h2.obs";
   bool ok = true; VF_NOTHROW("head.write", { Rinex3ObsStream o(fn.c_str(), std::ios::out); o.exceptions(std::ios::failbit); o << h; }, ds); std::string text = vf::slurp(fn); std::vector<std::string> L = lines(text); bool end = false; for (auto& l : L) { bool w = l.size() > 60 && l.size() <= 80; if (w) { std::string lab = l.substr(60); while (!lab.empty() && lab.back() == ' ') lab.pop_back(); bool known = lab == H::hsEoH; for (int f = H::validFirst; f < H::validLast; f++) known = known || H::asString((H::Field)f) == lab; w = known; end = lab == H::hsEoH; } ok = ok && w; if (!w) { VF_CHECK("head.columns", false, ds << " line <" << l << ">"); break; } } VF_CHECK("head.end", end, ds);
   if (!ok) return; VF_CHECK("head.count", h.numberHeaderRecordsToBeWritten() == (int)L.size(), ds << " announced " << h.numberHeaderRecordsToBeWritten() << " wrote " << L.size());
   VF_NOTHROW("head.read", { Rinex3ObsStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); in >> back; VF_CHECK("head.timesystem", in.timesystem == h.firstObs.getTimeSystem(), ds << " stream " << StringUtils::asString(in.timesystem)); }, ds); same(h, back, ds); back.preserveDate = true;
   VF_NOTHROW("head.rewrite", { Rinex3ObsStream o(f2.c_str(), std::ios::out); o.exceptions(std::ios::failbit); o << back; }, ds); std::vector<std::string> M = lines(vf::slurp(f2)); size_t d = 0; while (d < L.size() && d < M.size() && L[d] == M[d]) d++; VF_CHECK("head.stable", L == M, ds << " line " << d << " <" << (d < L.size() ? L[d] : "") << "> became <" << (d < M.size() ? M[d] : "") << ">");
   // a header object that has been used for another file
   Truth t2; H h2 = header(r, r.pick(std::vector<double>{3.0, 3.02, 2.11}), t2); VF_NOTHROW("head.reuse", { { Rinex3ObsStream o(f2.c_str(), std::ios::out); o << h2; } { Rinex3ObsStream in(f2.c_str(), std::ios::in); in >> used; } { Rinex3ObsStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); in >> used; } }, ds);
   VF_CHECK("head.reused", used.R2ObsTypes == back.R2ObsTypes && used.mapObsTypes == back.mapObsTypes && used.valid == back.valid && used.sysSfacMap == back.sysSfacMap && used.commentList == back.commentList && used.numObsForSat == back.numObsForSat, ds << " after " << summary(h2, t2) << " types " << used.R2ObsTypes.size() << " want " << back.R2ObsTypes.size());
   std::vector<std::string> df; VF_CHECK("head.compare", back.compare(back, df, std::vector<std::string>()) && df.empty(), ds);
}
struct Ob { double v; int lli, ssi; bool db, lb, sb; };
struct Ep { CommonTime t; bool timed; int flag; double clk; std::map<RinexSatID, std::vector<Ob> > o; std::vector<std::string> aux; H auxh; };
static Ob ob(vf::Rng& r) { Ob q; q.db = r.chance(0.12); q.lb = q.db || r.chance(0.4); q.sb = q.db || r.chance(0.4); q.v = q.db ? 0 : r.chance(0.05) ? 0 : r.chance(0.03) ? 9999999999.999 : r.chance(0.03) ? -999999999.999 : grid(r, r.pick(std::vector<double>{50, 5000, 3e7, 2e8}), 3); q.lli = q.lb ? 0 : (int)r.range(0, 7); q.ssi = q.sb ? 0 : (int)r.range(0, 9); return q; }
static std::string field(const Ob& q) { char b[40]; std::string s; if (q.db) s = std::string(14, ' '); else { snprintf(b, 40, "%14.3f", q.v); s = b; } s += q.lb ? std::string(" ") : std::to_string(q.lli); s += q.sb ? std::string(" ") : std::to_string(q.ssi); return s; }
static void sameEpoch(const Ep& e, const Rinex3ObsData& d, const std::string& ds)
{
   VF_CHECK("data.flag", d.epochFlag == e.flag, ds << " flag " << d.epochFlag << " want " << e.flag); if (e.timed) VF_CHECK("data.time", d.time.getTimeSystem() == e.t.getTimeSystem() && std::fabs(d.time - e.t) < 1e-7, ds << " time " << d.time << " want " << e.t);
   if (e.flag >= 2 && e.flag <= 5) { VF_CHECK("data.event.comments", d.auxHeader.commentList == e.auxh.commentList, ds << " " << d.auxHeader.commentList.size() << " want " << e.auxh.commentList.size()); VF_CHECK("data.event.valid", d.auxHeader.valid == e.auxh.valid, ds << " " << d.auxHeader.valid << " want " << e.auxh.valid); VF_CHECK("data.event.marker", d.auxHeader.markerName == e.auxh.markerName && d.auxHeader.antNo == e.auxh.antNo, ds); return; }
   VF_CHECK("data.clock", std::fabs(d.clockOffset - e.clk) < 1e-9 * 0.51, ds << " clock " << d.clockOffset << " want " << e.clk); VF_CHECK("data.sats", d.numSVs == (int)e.o.size() && d.obs.size() == e.o.size(), ds << " sats " << d.obs.size() << " want " << e.o.size());
   for (auto& s : e.o) { auto it = d.obs.find(s.first); if (it == d.obs.end() || it->second.size() != s.second.size()) { VF_CHECK("data.obs.missing", false, ds << " " << s.first << " has " << (it == d.obs.end() ? 0 : it->second.size()) << " want " << s.second.size()); continue; } for (size_t i = 0; i < s.second.size(); i++) { const Ob& w = s.second[i]; const RinexDatum& g = it->second[i]; VF_CHECK("data.obs", std::fabs(g.data - w.v) < 5.1e-4 && g.lli == w.lli && g.ssi == w.ssi && g.dataBlank == w.db && g.lliBlank == w.lb && g.ssiBlank == w.sb, ds << " " << s.first << " obs " << i << " <" << g.asString() << "> want <" << field(w) << ">"); } }
}
static void data(vf::Case& c)
{
   vf::Rng& r = c.rng; double ver = r.pick(std::vector<double>{3.0, 3.01, 3.02, 3.03, 3.04, 2.10, 2.11}); bool v3 = ver >= 3; Truth t; H h = header(r, ver, t); TimeSystem ts = h.firstObs.getTimeSystem(); if (r.chance(0.15)) h.firstObs = CivilTime(1999, 12, 31, 23, (int)r.range(50, 59), 0.0, ts); std::string ds = summary(h, t), fn = vf::scratch() + "/d.obs", f2 = vf::scratch() + "/d2.obs"; std::map<char, std::vector<int> > pos; std::map<char, int> nobs;
   H hb; VF_NOTHROW("data.header", { { Rinex3ObsStream o(fn.c_str(), std::ios::out); o << h; } Rinex3ObsStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); in >> hb; }, ds);
   for (char s : t.systems) nobs[s] = (int)hb.mapObsTypes[std::string(1, s)].size(); std::string use; for (char s : t.systems) if (nobs[s]) use += s; if (use.empty()) return;
   std::vector<Ep> eps; int ne = (int)r.range(1, 8); CommonTime tm = h.firstObs.convertToCommonTime();
   for (int k = 0; k < ne; k++)
   {
      Ep e; e.t = tm; tm += r.chance(0.5) ? 30.0 : std::floor(r.unit() * 1e9) / 1e7; { CommonTime q = e.t; CivilTime cc(q); if (r.chance(0.5)) cc.second = std::floor(cc.second * 1e7) / 1e7; e.t = cc.convertToCommonTime(); } e.timed = true; e.flag = r.chance(0.75) ? 0 : r.pick(std::vector<int>{1, 2, 3, 4, 5, 6}); e.clk = r.chance(0.3) ? grid(r, 0.1, v3 ? 12 : 9) : 0;
      if (e.flag >= 2 && e.flag <= 5) { if (e.flag != 5 && r.chance(0.4)) e.timed = false; e.auxh.valid.clear(); int n = (int)r.range(0, 4); for (int i = 0; i < n; i++) e.auxh.commentList.push_back(word(r, 60)); if (n) e.auxh.valid |= H::validComment; if (r.chance(0.5) || !n) { e.auxh.markerName = word(r, 60); e.auxh.valid |= H::validMarkerName; } if (r.chance(0.3)) { e.auxh.antNo = word(r, 20); e.auxh.antType = "X"; e.auxh.valid |= H::validAntennaType; } }
      else { int n = r.chance(0.2) ? r.pick(std::vector<int>{12, 13, 24, 25, 36}) : (int)r.range(1, 20); for (int i = 0; i < n * 3 && (int)e.o.size() < n; i++) { char s = use[r.below(use.size())]; RinexSatID q = satOf(r, s); if (e.o.count(q)) continue; for (int j = 0; j < nobs[s]; j++) e.o[q].push_back(ob(r)); } }
      eps.push_back(e);
   }
   { std::ostringstream o; o << ds << " epochs"; for (auto& e : eps) o << " " << e.flag << (e.timed ? "" : "u") << "/" << e.o.size(); ds = o.str(); } c.note(ds); c.distinct(ds); c.sample(ds);
   auto build = [&](const Ep& e) { Rinex3ObsData d; d.time = e.timed ? e.t : CommonTime::BEGINNING_OF_TIME; d.epochFlag = (short)e.flag; d.clockOffset = e.clk; if (e.flag >= 2 && e.flag <= 5) { d.auxHeader = e.auxh; d.auxHeader.version = ver; d.numSVs = (short)d.auxHeader.numberHeaderRecordsToBeWritten(); } else { d.numSVs = (short)e.o.size(); for (auto& s : e.o) for (auto& q : s.second) { RinexDatum x; x.data = q.v; x.lli = (short)q.lli; x.ssi = (short)q.ssi; x.dataBlank = q.db; x.lliBlank = q.lb; x.ssiBlank = q.sb; d.obs[s.first].push_back(x); } } return d; };
   H hw = v3 ? h : hb; hw.preserveDate = true; VF_NOTHROW("data.write", { Rinex3ObsStream o(fn.c_str(), std::ios::out); o.exceptions(std::ios::failbit); o << hw; for (auto& e : eps) { Rinex3ObsData d = build(e); o << d; } }, ds);
   std::string text = vf::slurp(fn); std::vector<std::string> L = lines(text); size_t at = 0; while (at < L.size() && L[at].find("END OF HEADER") == std::string::npos) at++; at++;
   // the columns
   size_t p = at; bool bad = false;
   for (auto& e : eps)
   {
      if (bad || p >= L.size()) { VF_CHECK("text.short", bad, ds); break; } char b[80]; CivilTime cc(e.t); std::string l = L[p++];
      bool ev = e.flag >= 2 && e.flag <= 5; int cnt = ev ? build(e).numSVs : (int)e.o.size();
      size_t fc = v3 ? 31 : 28; bool ok = l.size() >= fc + 4; if (ok) { snprintf(b, 80, "%d%3d", e.flag, cnt); ok = l.substr(fc, 4) == b; } if (e.timed) { if (v3) { snprintf(b, 80, "> %04d %02d %02d %02d %02d", cc.year, cc.month, cc.day, cc.hour, cc.minute); ok = ok && (l.substr(0, 18) == b || cc.second > 59.99999994) && (std::fabs(num(l.substr(18, 11)) - cc.second) < 5.1e-8 + 1e-9); } else { snprintf(b, 80, " %02d %2d %2d %2d %2d", cc.year % 100, cc.month, cc.day, cc.hour, cc.minute); ok = ok && l.substr(0, 15) == b && std::fabs(num(l.substr(15, 11)) - cc.second) < 5.1e-8 + 1e-9; } } VF_CHECK("text.epoch", ok, ds << " epoch " << e.t << " line <" << l << ">"); if (!ok) { bad = true; break; }
      if (ev) { p += cnt; continue; }
      if (e.clk != 0 && std::fabs(e.clk) > 1e-9) VF_CHECK("text.clock", std::fabs(num(v3 ? l.substr(41, 15) : l.size() > 68 ? l.substr(68, 12) : "") - e.clk) < (v3 ? 5.1e-13 : 5.1e-10), ds << " clock " << e.clk << " <" << l << ">");
      if (v3) { std::set<std::string> seen; for (size_t i = 0; i < e.o.size() && p < L.size(); i++, p++) { RinexSatID q; std::string id = L[p].substr(0, 3); q.fromString(id); seen.insert(id); auto it = e.o.find(q); if (it == e.o.end()) { VF_CHECK("text.sat", false, ds << " line <" << L[p] << ">"); bad = true; break; } std::string w = id; for (auto& x : it->second) w += field(x); std::string g = L[p]; g.resize(std::max(g.size(), w.size()), ' '); VF_CHECK("text.obs", g == w, ds << " <" << g << "> want <" << w << ">"); } VF_CHECK("text.sats", seen.size() == e.o.size(), ds); }
      else
      {
         std::vector<std::string> ids; size_t col = 32; for (size_t i = 0; i < e.o.size(); i++) { if (i && i % 12 == 0) { l = p < L.size() ? L[p++] : ""; col = 32; VF_CHECK("text.v2.cont", l.size() > 32 && l.substr(0, 32) == std::string(32, ' '), ds << " <" << l << ">"); } ids.push_back(l.size() >= col + 3 ? l.substr(col, 3) : "???"); col += 3; }
         for (auto& id : ids) { RinexSatID q; try { q.fromString(id); } catch (Exception&) {} auto it = e.o.find(q); if (it == e.o.end()) { VF_CHECK("text.v2.sat", false, ds << " sat <" << id << ">"); bad = true; break; } size_t used = 0; for (size_t i = 0; i < hw.R2ObsTypes.size(); i++) { if (i % 5 == 0) { l = p < L.size() ? L[p++] : ""; VF_CHECK("text.v2.width", l.size() <= 80, ds); l.resize(80, ' '); } RinexObsID oid = hw.mapSysR2toR3ObsID[std::string(1, id[0])][hw.R2ObsTypes[i]]; std::string want = std::string(16, ' '), got = l.substr(i % 5 * 16, 16); bool has = oid.asString(ver) != "   "; if (has && used < it->second.size()) want = field(it->second[used++]); if (!has) { VF_CHECK("text.v2.absent", num(got.substr(0, 14)) == 0, ds << " " << id << " " << hw.R2ObsTypes[i] << " <" << got << ">"); continue; } VF_CHECK("text.v2.obs", got == want, ds << " " << id << " " << hw.R2ObsTypes[i] << " <" << got << "> want <" << want << ">"); } }
      }
   }
   std::vector<Rinex3ObsData> got; VF_NOTHROW("data.read", { Rinex3ObsStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); H x; in >> x; in.exceptions(std::ios::goodbit); Rinex3ObsData d; while (got.size() < eps.size() + 2 && in >> d) got.push_back(d); bool eof = in.eof(); VF_CHECK("data.eof", eof || got.size() > eps.size(), ds << " reading stopped after " << got.size() << " of " << eps.size() << " epochs"); }, ds); VF_CHECK("data.count", got.size() == eps.size(), ds << " epochs read " << got.size() << " want " << eps.size());
   for (size_t i = 0; i < got.size() && i < eps.size(); i++) sameEpoch(eps[i], got[i], ds + " epoch " + std::to_string(i));
   if (got.size() == eps.size()) { VF_NOTHROW("data.rewrite", { Rinex3ObsStream o(f2.c_str(), std::ios::out); o.exceptions(std::ios::failbit); o << hw; for (size_t i = 0; i < got.size(); i++) { if (!eps[i].timed) got[i].time = CommonTime::BEGINNING_OF_TIME; o << got[i]; } }, ds); std::string w = vf::slurp(f2); if (w != text) { std::vector<std::string> M = lines(w); size_t d = 0; while (d < L.size() && d < M.size() && L[d] == M[d]) d++; bool round = false; for (auto& e : eps) if (CivilTime(e.t).second > 59.99999994) round = true; VF_CHECK("data.stable", round, ds << " line " << d << " <" << (d < L.size() ? L[d] : "") << "> became <" << (d < M.size() ? M[d] : "") << ">"); } }
   // by-name access
   if (v3) for (size_t i = 0; i < got.size() && i < eps.size(); i++) for (auto& s : eps[i].o) { char sc = s.first.systemChar(); if (got[i].obs.count(s.first) == 0) continue; size_t j = r.below(t.obs[sc].size()); double v = got[i].getObs(s.first, j).data; VF_CHECK("get.index", std::fabs(v - s.second[j].v) < 5.1e-4, ds); VF_CHECK("get.id", got[i].getObs(s.first, RinexObsID(sc + t.obs[sc][j], ver), h).data == v, ds << " " << s.first << " " << t.obs[sc][j]); VF_CHECK("get.name", got[i].getObs(s.first, sc + t.obs[sc][j], h).data == v, ds << " " << s.first << " " << t.obs[sc][j]); VF_CHECK("get.name3", got[i].getObs(s.first, t.obs[sc][j], h).data == v, ds << " " << s.first << " " << t.obs[sc][j]); VF_THROWS("get.beyond", InvalidRequest, got[i].getObs(s.first, t.obs[sc].size()), ds); break; }
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"heads", 900, 20000, heads}, {"data", 900, 20000, data}}); }
