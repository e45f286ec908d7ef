// C21: the mixed-system broadcast store answers each satellite as its own system's store would, in any time system
#include "vf.hpp"
#include "Rinex3EphemerisStore.hpp"
#include "Rinex3NavStream.hpp"
#include "OrbitEphStore.hpp"
#include "GloEphemerisStore.hpp"
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "GPSWeekSecond.hpp"
#include "CivilTime.hpp"
using namespace gpstk;

static const long W = 604800, D = 86400;
static const std::string SYS = "GERCJ";
static TimeSystem tsys(char s) { return s == 'G' ? TimeSystem::GPS : s == 'R' ? TimeSystem::GLO : s == 'E' ? TimeSystem::GAL : s == 'C' ? TimeSystem::BDT : TimeSystem::QZS; }
static SatelliteSystem ssys(char s) { return s == 'G' ? SatelliteSystem::GPS : s == 'R' ? SatelliteSystem::Glonass : s == 'E' ? SatelliteSystem::Galileo : s == 'C' ? SatelliteSystem::BeiDou : SatelliteSystem::QZSS; }
static SatID sid(char s, int n) { return SatID(n, ssys(s)); }
// seconds since 1980-01-06 of the given system's own clock
static CommonTime at(double s, const TimeSystem& ts) { CommonTime z = CivilTime(1980, 1, 6, 0, 0, 0, ts); long d = (long)std::floor(s / D); z.addDays(d); z += s - (double)d * D; return z; }
// leap seconds in force from the instants below (days since 1980-01-06)
static int leap(double utc)
{
   static const struct { int y, m; } t[] = {{1981,7},{1982,7},{1983,7},{1985,7},{1988,1},{1990,1},{1991,1},{1992,7},{1993,7},{1994,7},{1996,1},{1997,7},{1999,1},{2006,1},{2009,1},{2012,7},{2015,7},{2017,1}};
   int n = 19; for (auto& x : t) { CommonTime c = CivilTime(x.y, x.m, 1, 0, 0, 0, TimeSystem::UTC), z = CivilTime(1980, 1, 6, 0, 0, 0, TimeSystem::UTC); if (utc >= c - z) n++; } return n;
}
// TAI minus the system
static double offset(const TimeSystem& s, double t) { if (s == TimeSystem::UTC || s == TimeSystem::GLO) return leap(t); if (s == TimeSystem::BDT) return 33; if (s == TimeSystem::TAI) return 0; return 19; }
struct Rec { char sys; int prn; double toe, xmit; Rinex3NavData d; };
static Rec record(vf::Rng& r, char sys, int prn, double toe)
{
   Rec q; q.sys = sys; q.prn = prn; q.toe = toe; q.xmit = toe - (sys == 'G' ? 7200 - 30 * (double)r.range(0, 60) : sys == 'J' ? 30.0 * r.range(0, 30) : -30.0 * r.range(0, 20)); Rinex3NavData& d = q.d;
   char id[8]; snprintf(id, 8, "%c%02d", sys, prn); d.sat.fromString(id); d.satSys = std::string(1, sys); d.PRNID = (short)prn; d.time = at(toe, tsys(sys)); long w = (long)std::floor(toe / W), wx = (long)std::floor(q.xmit / W); int bw = sys == 'C' ? 1356 : 0;
   d.Toc = toe - w * W; d.Toe = toe - w * W; d.xmitTime = (long)(q.xmit - (double)wx * W);  d.weeknum = (short)(wx - bw); d.accuracy = 2; d.accCode = 1; d.health = r.chance(0.2) ? (sys == 'G' || sys == 'J' ? 2 : 1) : 0; if (sys == 'J' && r.chance(0.05)) d.health = 1;
   d.codeflgs = 1; d.L2Pdata = 0; d.IODC = (double)r.range(0, 239); d.IODE = (double)d.IODC; d.IODnav = (double)r.range(0, 900); d.fitint = sys == 'G' ? 4 : 0; d.datasources = 513;
   d.af0 = (r.unit() - 0.5) * 1e-4; d.af1 = (r.unit() - 0.5) * 1e-11; d.af2 = 0.0; d.Tgd = (r.unit() - 0.5) * 1e-8; d.Tgd2 = d.Tgd;
   bool geo = sys == 'C' && prn <= 5; d.Ahalf = sys == 'G' ? 5153.6 : sys == 'E' ? 5440.6 : geo ? 6493.4 : sys == 'C' ? 5282.6 : 6493.4; d.Ahalf += r.unit(); d.ecc = r.unit() * 0.02; d.M0 = (r.unit() - 0.5) * 6; d.i0 = geo ? 0.05 : 0.96; d.OMEGA0 = (r.unit() - 0.5) * 6; d.w = (r.unit() - 0.5) * 6; d.OMEGAdot = -8e-9; d.idot = 1e-10; d.dn = 4e-9;
   d.Crs = r.unit() * 80; d.Crc = r.unit() * 200; d.Cuc = d.Cus = d.Cic = d.Cis = r.unit() * 1e-6;
   if (sys == 'R') { double R = 25508, a = r.unit() * 6.28, i = 1.13, v = 3.953, ca = std::cos(a), sa = std::sin(a); d.px = R * ca; d.py = R * sa * std::cos(i); d.pz = R * sa * std::sin(i); d.vx = -v * sa; d.vy = v * ca * std::cos(i); d.vz = v * ca * std::sin(i); d.ax = 1e-9; d.ay = -1e-9; d.az = 0.0; d.TauN = (r.unit() - 0.5) * 1e-4; d.GammaN = 1e-12; d.MFtime = (long)std::fmod(q.xmit, W); d.freqNum = (short)r.range(-7, 6); d.ageOfInfo = 0.0; }
   return q;
}
struct Corr { std::string n; TimeSystem f, t; double a0, a1, ref; bool lin; };
static double corr(const std::map<std::string, Corr>& m, const TimeSystem& f, const TimeSystem& t, double s) { for (auto& k : m) { const Corr& c = k.second; bool fw = c.f == f && c.t == t, bw = c.f == t && c.t == f; if (fw || bw) return (fw ? -1 : 1) * (c.a0 + (c.lin ? c.a1 * (s - c.ref) : 0)); } return 0; }
static CommonTime convert(const std::map<std::string, Corr>& m, const TimeSystem& f, const TimeSystem& t, double s) { if (f == t) return at(s, t); double d = std::floor(s / D) * D; CommonTime c = at(s + offset(f, d) - offset(t, d), t); c += corr(m, f, t, s); return c; }
static bool same(const Xvt& a, const Xvt& b) { for (int i = 0; i < 3; i++) if (std::fabs(a.x[i] - b.x[i]) > 1e-3 || std::fabs(a.v[i] - b.v[i]) > 1e-6) return false; return std::fabs(a.clkbias - b.clkbias) < 1e-15 && std::fabs(a.clkdrift - b.clkdrift) < 1e-18 && a.health == b.health; }

static std::map<std::string, Corr> corrections(vf::Rng& r, double t0)
{
   static const struct { const char* n; TimeSystem f, t; } K[] = {{"GPUT",TimeSystem::GPS,TimeSystem::UTC},{"GAUT",TimeSystem::GAL,TimeSystem::UTC},{"BDUT",TimeSystem::BDT,TimeSystem::UTC},{"QZUT",TimeSystem::QZS,TimeSystem::UTC}};
   std::map<std::string, Corr> m; for (auto& k : K) if (r.chance(0.4)) { Corr c; c.n = k.n; c.f = k.f; c.t = k.t; c.a0 = std::floor((r.unit() - 0.5) * 2e6) * 1e-14; c.a1 = std::floor((r.unit() - 0.5) * 2e6) * 1e-21; if (r.chance(0.5)) c.a0 *= 1e4; c.ref = std::floor(t0 / W) * W + 4096 * r.range(0, 147); c.lin = true; m[c.n] = c; } return m;
}
static TimeSystemCorrection lib(const Corr& c) { TimeSystemCorrection t(c.n); t.A0 = c.a0; t.A1 = c.a1; t.refWeek = (long)(c.ref / W); t.refSOW = (long)(c.ref - t.refWeek * W); t.refYr = t.refMon = t.refDay = 0; t.geoProvider = "    "; t.geoUTCid = 0; return t; }

static void answers(vf::Case& c)
{
   vf::Rng& r = c.rng; double t0 = 3600.0 * 24 * (r.chance(0.2) ? r.pick(std::vector<long>{13145, 12873, 13509, 10587}) : r.range(10000, 16000)) + 3600 * r.range(0, 23); std::map<std::string, Corr> cm = corrections(r, t0); bool file = r.chance(0.4), healthy = r.chance(0.3), nearest = r.chance(0.3);
   std::vector<Rec> recs; std::map<SatID, std::vector<Rec> > by; std::vector<std::pair<char, int> > sats; int ns = (int)r.range(1, 8); std::string syss = SYS; while (syss.size() > 1 && r.chance(0.4)) syss.erase(r.below(syss.size()), 1);
   for (int i = 0; i < ns; i++) { char s = syss[r.below(syss.size())]; int prn = s == 'R' ? (int)r.range(1, 24) : s == 'J' ? (int)r.range(1, 4) : (int)r.range(1, 30); SatID sat = record(r, s, prn, t0).d.sat; if (by.count(sat)) continue; sats.push_back({s, sat.id}); double step = s == 'R' ? 1800 : s == 'E' ? 3600 : s == 'G' ? 7200 : 3600; int n = (int)r.range(1, 5); double t = std::floor(t0 / step) * step - step * r.range(0, 3) + (s == 'R' ? 900 : 0); for (int k = 0; k < n; k++, t += step * (r.chance(0.2) ? r.range(2, 4) : 1)) { Rec q = record(r, s, prn, t); by[sat].push_back(q); recs.push_back(q); } }
   r.shuffle(recs); if (file) std::stable_sort(recs.begin(), recs.end(), [](const Rec& a, const Rec& b) { return a.toe < b.toe; });
   std::ostringstream ds; ds.precision(12); ds << ns << " sats " << recs.size() << " records t0 " << t0 << " corr " << cm.size() << (file ? " file" : " direct") << (healthy ? " healthy-only" : "") << (nearest ? " nearest" : ""); c.note(ds.str()); c.distinct(ds.str()); c.sample(ds.str());
   Rinex3EphemerisStore st; st.setOnlyHealthyFlag(healthy); st.setGLOStep(1); if (nearest) st.SearchNear(); else st.SearchUser(); std::vector<Rinex3NavData> fed;
   if (file)
   {
      Rinex3NavHeader h; h.version = 3.03; h.setFileSystem("M"); h.fileProgram = "p"; h.fileAgency = "a"; h.date = "d"; h.valid = Rinex3NavHeader::validVersion | Rinex3NavHeader::validRunBy | Rinex3NavHeader::validEoH; for (auto& k : cm) h.mapTimeCorr[k.first] = lib(k.second); if (!cm.empty()) h.valid |= Rinex3NavHeader::validTimeSysCorr;
      std::string fn = vf::scratch() + "/c21.nav"; { Rinex3NavStream o(fn.c_str(), std::ios::out); o << h; for (auto& q : recs) o << q.d; } { Rinex3NavStream in(fn.c_str(), std::ios::in); Rinex3NavHeader hh; in >> hh; Rinex3NavData x; while (in >> x) fed.push_back(x); }
      int n = st.loadFile(fn); VF_CHECK("load.count", n == (int)recs.size() && fed.size() == recs.size(), ds.str() << " read " << n << " of " << recs.size() << " " << st.what); VF_THROWS("load.twice", InvalidRequest, st.loadFile(fn), ds.str()); VF_CHECK("load.missing", st.loadFile(vf::scratch() + "/nosuch") == -1 && !st.what.empty(), "");
      VF_CHECK("load.corr", st.mapTimeCorr.size() == cm.size(), ds.str() << " " << st.mapTimeCorr.size()); for (auto& k : cm) VF_CHECK("load.corr.value", st.mapTimeCorr.count(k.first) && vf::close(st.mapTimeCorr[k.first].A0, k.second.a0, 1e-15, 1e-9) && vf::close(st.mapTimeCorr[k.first].A1, k.second.a1, 1e-24, 1e-8) && st.mapTimeCorr[k.first].refWeek * W + st.mapTimeCorr[k.first].refSOW == (long)k.second.ref, k.first << " " << st.mapTimeCorr[k.first].A0 << " want " << k.second.a0);
      for (auto& k : cm) { k.second.a0 = st.mapTimeCorr[k.first].A0; k.second.a1 = st.mapTimeCorr[k.first].A1; }
   }
   else for (auto& k : cm) { VF_CHECK("corr.add", !st.addTimeCorr(lib(k.second)), k.first); }
   // the reference: one store per satellite
   std::map<SatID, OrbitEphStore> orb; std::map<SatID, GloEphemerisStore> glo; int kept = 0;
   if (!file) for (auto& q : recs) fed.push_back(q.d);
   for (auto& q : fed)
   {
      bool want = false; char s = q.satSys[0]; if (s == 'R') { GloEphemerisStore& g = glo[q.sat]; g.setCheckHealthFlag(healthy); want = g.addEphemeris(GloEphemeris(q)); }
      else { OrbitEphStore& o = orb[q.sat]; o.setOnlyHealthyFlag(healthy); if (nearest) o.SearchNear(); else o.SearchUser(); if (s == 'G') { GPSEphemeris e(q); want = o.addEphemeris(&e) != 0; } else if (s == 'E') { GalEphemeris e(q); want = o.addEphemeris(&e) != 0; } else if (s == 'C') { BDSEphemeris e(q); want = o.addEphemeris(&e) != 0; } else { QZSEphemeris e(q); want = o.addEphemeris(&e) != 0; } }
      kept += want; if (!file) { Rinex3NavData in(q); if (r.chance(0.15) && s != 'R') { } bool got = st.addEphemeris(in); VF_CHECK("add.kept", got == want, ds.str() << " " << q.sat << " got " << got << " want " << want); if (r.chance(0.1) && want && s != 'R') VF_CHECK("add.duplicate", !st.addEphemeris(in), q.sat); }
   }
   // contents
   std::set<SatID> ids, have = st.getIndexSet(); int total = 0; std::map<char, int> per; std::map<SatID, int> cnt;
   for (auto& p : sats) { SatID s = sid(p.first, p.second); int n = 0; if (p.first == 'R') { if (!glo.count(s)) continue; std::list<GloEphemeris> l; n = glo[s].addToList(l); if (glo[s].isPresent(s)) ids.insert(s); } else { n = (int)orb[s].size(); if (n) ids.insert(s); } cnt[s] = n; total += n; per[p.first] += n; }
   VF_CHECK("index", have == ids, ds.str() << " index " << have.size() << " want " << ids.size()); VF_CHECK("size.total", st.size() == total, ds.str() << " size " << st.size() << " want " << total);
   for (char s : SYS) { VF_CHECK("size.system", st.size(ssys(s)) == per[s], ds.str() << " " << s << " " << st.size(ssys(s)) << " want " << per[s]); std::list<Rinex3NavData> l; int n = st.addToList(l, SatID(-1, ssys(s))); VF_CHECK("list.system", n == per[s] && (int)l.size() == n, ds.str() << " " << s << " " << n << " want " << per[s]); for (auto& x : l) VF_CHECK("list.system.which", x.sat.system == ssys(s), x.sat); }
   std::list<Rinex3NavData> all; VF_CHECK("list.all", st.addToList(all) == total && (int)all.size() == total, ds.str() << " " << all.size());
   for (auto& p : sats)
   {
      SatID s = sid(p.first, p.second); std::list<Rinex3NavData> l; int n = st.addToList(l, s); VF_CHECK("list.sat", n == cnt[s] && (int)l.size() == n, ds.str() << " " << s << " list " << n << " want " << cnt[s]); VF_CHECK("size.sat", st.size(s) == cnt[s], ds.str() << " " << s << " size " << st.size(s) << " want " << cnt[s]); VF_CHECK("present", st.isPresent(s) == (ids.count(s) > 0), s);
      for (auto& x : l) { bool ok = false; for (auto& q : by[s]) if (std::fabs((double)x.Toe - (double)q.d.Toe) < 1e-6 || p.first == 'R') if ((p.first == 'R' || vf::close((double)x.M0, (double)q.d.M0, 1e-9, 1e-9)) && (p.first != 'R' || vf::close((double)x.px, (double)q.d.px, 1e-5, 1e-9))) ok = true; VF_CHECK("list.content", ok && x.sat == s, ds.str() << " " << x.sat << " Toe " << (double)x.Toe); }
      if (cnt[s]) { CommonTime a = st.getInitialTime(s), b = st.getFinalTime(s), x = p.first == 'R' ? glo[s].getInitialTime(s) : orb[s].getInitialTime(s), y = p.first == 'R' ? glo[s].getFinalTime(s) : orb[s].getFinalTime(s); a.setTimeSystem(TimeSystem::Any); b.setTimeSystem(TimeSystem::Any); VF_CHECK("span.sat", a == x && b == y, ds.str() << " " << s << " " << a << ".." << b << " want " << x << ".." << y); }
   }
   SatID none = SatID(31, SatelliteSystem::GPS); VF_CHECK("absent", !st.isPresent(none) && st.size(none) == 0 && st.computeXvt(none, at(t0, TimeSystem::GPS)).health == Xvt::HealthStatus::Unavailable && st.getSVHealth(none, at(t0, TimeSystem::GPS)) == Xvt::HealthStatus::Unavailable, ""); VF_THROWS("absent.xvt", InvalidRequest, st.getXvt(none, at(t0, TimeSystem::GPS)), "");
   // queries
   static const std::vector<TimeSystem> Q = {TimeSystem::GPS, TimeSystem::GAL, TimeSystem::BDT, TimeSystem::GLO, TimeSystem::UTC, TimeSystem::QZS, TimeSystem::TAI};
   for (int k = 0; k < 14; k++)
   {
      auto p = r.pick(sats); SatID s = sid(p.first, p.second); TimeSystem own = tsys(p.first), q = r.chance(0.25) ? own : r.pick(Q); const std::vector<Rec>& v = by[s]; const Rec& a = v[r.below(v.size())];
      double u = a.toe + (p.first == 'R' ? r.range(-1100, 1100) : r.range(-9000, 9000)) + r.pick(std::vector<double>{0, 0.25, 0.5}), sq = u + offset(own, u) - offset(q, u); CommonTime tq = at(sq, q), to = convert(cm, q, own, sq);
      bool yes = false; Xvt x, y; std::string why; if (p.first == 'R') { try { y = glo[s].getXvt(s, to); yes = true; } catch (InvalidRequest&) {} } else { try { y = orb[s].getXvt(s, to); yes = true; } catch (InvalidRequest&) {} } std::ostringstream d; d.precision(12); d << ds.str() << " " << s << " at " << sq << " " << StringUtils::asString(q) << " = " << to << " own";
      bool got = false; try { x = st.getXvt(s, tq); got = true; } catch (InvalidRequest& e) { why = e.getText(); }
      VF_CHECK("xvt.answered", got == yes, d.str() << (got ? " answered" : " refused ") << why << " want " << (yes ? "answer" : "refusal")); c.count(got ? "answered" : "refused"); c.count("in." + StringUtils::asString(q)); if (got && yes) { VF_CHECK("xvt.value", same(x, y), d.str() << " " << x << " want " << y); }
      Xvt cx = st.computeXvt(s, tq), cy = p.first == 'R' ? glo[s].computeXvt(s, to) : orb[s].computeXvt(s, to); VF_CHECK("compute", cx.health == cy.health && (cx.health == Xvt::HealthStatus::Unavailable || same(cx, cy)), d.str() << " computeXvt " << cx << " want " << cy);
      Xvt::HealthStatus hx = st.getSVHealth(s, tq), hy = p.first == 'R' ? glo[s].getSVHealth(s, to) : orb[s].getSVHealth(s, to); VF_CHECK("health", hx == hy, d.str() << " health " << (int)hx << " want " << (int)hy);
      CommonTime ct = st.correctTimeSystem(tq, own); VF_CHECK("convert", ct.getTimeSystem() == own && std::fabs(ct - to) < 1e-9, d.str() << " converted " << ct << " want " << to << " diff " << (ct - to));
   }
   // editing keeps what overlaps; clearing forgets everything
   st.clear(); VF_CHECK("clear", st.size() == 0 && st.getIndexSet().empty(), ""); for (auto& p : sats) VF_CHECK("clear.present", !st.isPresent(sid(p.first, p.second)), ""); std::list<Rinex3NavData> l; VF_CHECK("clear.list", st.addToList(l) == 0, "");
   if (!recs.empty() && !file) { bool h = recs[0].sys != 'R' || !healthy || recs[0].d.health == 0; VF_CHECK("clear.reuse", st.addEphemeris(recs[0].d) == h && st.size() == (h ? 1 : 0), recs[0].sys << " " << st.size()); if (h) { Rinex3EphemerisStore f; f.setOnlyHealthyFlag(healthy); f.addEphemeris(recs[0].d); VF_CHECK("clear.span", st.getInitialTime() == f.getInitialTime() && st.getFinalTime() == f.getFinalTime(), recs[0].sys << " after clear spans " << st.getInitialTime() << " to " << st.getFinalTime() << " not " << f.getInitialTime() << " to " << f.getFinalTime()); } }
}
// the corrections that follow from the ones given
static void network(vf::Case& c)
{
   vf::Rng& r = c.rng; double t0 = W * (double)r.range(1400, 2300); std::map<std::string, Corr> m; Rinex3EphemerisStore st; static const struct { const char* n; TimeSystem f, t; bool lin; } K[] = {{"GPUT",TimeSystem::GPS,TimeSystem::UTC,true},{"GAUT",TimeSystem::GAL,TimeSystem::UTC,true},{"GLUT",TimeSystem::GLO,TimeSystem::UTC,false},{"GPGA",TimeSystem::GPS,TimeSystem::GAL,true},{"GLGP",TimeSystem::GLO,TimeSystem::GPS,false}};
   for (auto& k : K) if (r.chance(0.6)) { Corr q; q.n = k.n; q.f = k.f; q.t = k.t; q.lin = k.lin; q.a0 = (r.unit() - 0.5) * 1e-6; q.a1 = k.lin ? (r.unit() - 0.5) * 1e-14 : 0; q.ref = t0 + 4096 * r.range(0, 147); m[q.n] = q; VF_CHECK("net.add", !st.addTimeCorr(lib(q)), ""); VF_CHECK("net.overwrite", st.addTimeCorr(lib(q)), ""); }
   std::string ds; for (auto& k : m) ds += k.first + " "; c.note(ds); c.distinct(ds); std::map<std::string, TimeSystemCorrection> old = st.mapTimeCorr; int n = st.expandTimeCorrMap(); int want = 0; std::vector<std::string> add; if (!m.count("GLGP") && m.count("GPUT") && m.count("GLUT")) add.push_back("GLGP"); if (!m.count("GPGA") && m.count("GPUT") && m.count("GAUT")) add.push_back("GPGA"); want = (int)add.size();
   VF_CHECK("net.count", n == want && st.mapTimeCorr.size() == old.size() + want, ds << " added " << n << " want " << want); for (auto& k : old) VF_CHECK("net.kept", st.mapTimeCorr[k.first].A0 == k.second.A0 && st.mapTimeCorr[k.first].A1 == k.second.A1, k.first);
   for (auto& a : add) if (st.mapTimeCorr.count(a)) { TimeSystemCorrection& x = st.mapTimeCorr[a]; double w = a == "GLGP" ? m["GLUT"].a0 - m["GPUT"].a0 : m["GAUT"].a0 - m["GPUT"].a0; VF_CHECK("net.value." + a, std::fabs(std::fabs(x.A0) - std::fabs(w)) < 1e-20, ds << " " << x.A0 << " want " << w); }
   VF_CHECK("net.again", st.expandTimeCorrMap() == 0, ds);
   for (auto& k : m) { VF_CHECK("net.find", st.dumpTimeSystemCorrection(k.second.f, k.second.t).find("not found") == std::string::npos && st.dumpTimeSystemCorrection(k.second.t, k.second.f).find("not found") == std::string::npos, k.first); VF_CHECK("net.del", st.delTimeCorr(k.first) && !st.delTimeCorr(k.first) && !st.mapTimeCorr.count(k.first), k.first); }
}
// one store asked again and again, in one session, at dates on either side of leap seconds
static void requests(vf::Case& c)
{
   vf::Rng& r = c.rng; Rinex3EphemerisStore st; std::map<std::string, Corr> none; static const std::vector<TimeSystem> Q = {TimeSystem::GPS, TimeSystem::GAL, TimeSystem::BDT, TimeSystem::GLO, TimeSystem::UTC, TimeSystem::QZS, TimeSystem::TAI};
   static const std::vector<int> Y = {1981, 1982, 1983, 1985, 1992, 1993, 1994, 1997, 2012, 2015, 1988, 1999, 2006, 2009, 2017}; int y = r.pick(Y), pairs = (int)r.range(1, 2); std::vector<std::pair<TimeSystem, TimeSystem> > fq; for (int i = 0; i < pairs; i++) { TimeSystem a = r.pick(Q), b = r.pick(Q); if (i == 0 && r.chance(0.7)) { a = r.chance(0.5) ? TimeSystem::GLO : TimeSystem::UTC; while (b == TimeSystem::GLO || b == TimeSystem::UTC) b = r.pick(Q); if (r.chance(0.5)) std::swap(a, b); } fq.push_back({a, b}); }
   std::ostringstream ds; ds << y << " " << StringUtils::asString(fq[0].first) << ">" << StringUtils::asString(fq[0].second); c.note(ds.str()); c.distinct(ds.str()); CommonTime z = CivilTime(1980, 1, 6, 0, 0, 0, TimeSystem::UTC); std::set<int> leaps;
   for (int k = 0; k < 12; k++)
   {
      auto p = r.pick(fq); double s; if (r.chance(0.8)) { CommonTime t = CivilTime(y, (int)r.range(1, 12), (int)r.range(1, 28), (int)r.range(0, 23), (int)r.range(0, 59), 0, TimeSystem::UTC); s = t - z; } else s = 3600.0 * (double)r.range(24 * 600, 24 * 16000);
      CommonTime to = convert(none, p.first, p.second, s), ct = st.correctTimeSystem(at(s, p.first), p.second); leaps.insert(leap(s)); VF_CHECK("requests.convert", ct.getTimeSystem() == p.second && std::fabs(ct - to) < 1e-9, ds.str() << " request " << k << " " << at(s, p.first) << " converted " << ct << " want " << to);
   }
   c.count(leaps.size() > 1 ? "across a leap second" : "one side");
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"answers", 1200, 30000, answers}, {"network", 400, 4000, network}, {"requests", 600, 10000, requests}}); }
