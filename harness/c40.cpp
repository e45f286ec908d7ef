// C40: which vehicle carries which identifier at which time (SatMetaDataStore, SVNumXRef)
#include "vf.hpp"
#include <cstdarg>
#include <algorithm>
#include <set>
#include <map>
#include "SatMetaDataStore.hpp"
#include "SVNumXRef.hpp"
#include "MJD.hpp"
#include "YDSTime.hpp"
#include "TimeRange.hpp"
using namespace gpstk;
using std::string; using std::vector; using std::set; using std::map;
typedef vector<string> Lines;
typedef long double ld;
static string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static string join(const Lines& v, const char* eol = "\n") { string s; for (auto& l : v) s += l + eol; return s; }
static Lines cut(const string& s, char d) { Lines v; string w; std::istringstream i(s); while (std::getline(i, w, d)) { size_t a = w.find_first_not_of(' '), b = w.find_last_not_of(" \r"); v.push_back(a == string::npos ? "" : w.substr(a, b - a + 1)); } return v; }
static bool leap(int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static long mjdOf(int y, int doy) { long m = 40587; if (y >= 1970) for (int i = 1970; i < y; i++) m += 365 + leap(i); else for (int i = y; i < 1970; i++) m -= 365 + leap(i); return m + doy - 1; }
static CommonTime ct(long mjd, double sod, TimeSystem ts = TimeSystem::Any) { CommonTime t = MJD((ld)mjd, ts).convertToCommonTime(); t += sod; return t; }
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() : b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(b); } };
struct QuietOut { std::ostringstream o; std::streambuf* b; QuietOut() : b(std::cout.rdbuf(o.rdbuf())) {} ~QuietOut() { std::cout.rdbuf(b); } };

// ---------------------------------------------------------------- the store
typedef SatelliteSystem Sys;
static const std::pair<const char*, Sys> SYS[] = {{"GPS", Sys::GPS}, {"GLONASS", Sys::Glonass}, {"Galileo", Sys::Galileo}, {"BeiDou", Sys::BeiDou}, {"QZSS", Sys::QZSS}};
static const std::pair<const char*, SatMetaData::Status> STAT[] = {{"Operational", SatMetaData::Status::Operational}, {"Decommissioned", SatMetaData::Status::Decommissioned}, {"Test", SatMetaData::Status::Test}, {"Unknown", SatMetaData::Status::Unknown}};
static const std::pair<const char*, SatMetaData::ClockType> CLK[] = {{"Unknown", SatMetaData::ClockType::Unknown}, {"Crystal", SatMetaData::ClockType::Crystal}, {"Cesium", SatMetaData::ClockType::Cesium}, {"Rubidium", SatMetaData::ClockType::Rubidium}, {"Hydrogen", SatMetaData::ClockType::Hydrogen}, {"USNO", SatMetaData::ClockType::USNO}};
struct T { int y, d; double s; CommonTime t() const { return ct(mjdOf(y, d), s); } };
struct Sat { int sys; string svn; unsigned prn; int chl; unsigned slot; T a, b; string plane, oslot, sig; int stat; unsigned act; long norad; T launch; string type, mission; int clk[4]; };
struct Launch { T t; string type, mission; };
struct Model { map<std::pair<int, string>, long> norad; map<std::pair<int, string>, Launch> launch; map<std::pair<int, string>, vector<int> > clk; vector<Sat> sats; };
static string num(double s) { return s == floor(s) ? fmt("%.0f", s) : fmt("%.3f", s); }
static bool same(const SatMetaData& g, const Sat& s, string& why)
{
   std::ostringstream o;
   if (g.prn != s.prn) o << " prn " << g.prn; if (g.svn != s.svn) o << " svn " << g.svn; if (g.norad != s.norad) o << " norad " << g.norad;
   if (g.chl != s.chl) o << " channel " << g.chl; if (g.slotID != s.slot) o << " slot " << g.slotID; if (g.sys != SYS[s.sys].second) o << " system";
   if (g.launchTime != s.launch.t()) o << " launch " << g.launchTime; if (g.startTime != s.a.t()) o << " start " << g.startTime; if (g.endTime != s.b.t()) o << " end " << g.endTime;
   if (g.plane != s.plane) o << " plane " << g.plane; if (g.slot != s.oslot) o << " orbital slot " << g.slot; if (g.signals != s.sig) o << " signals " << g.signals;
   if (g.type != s.type) o << " type " << g.type; if (g.mission != s.mission) o << " mission " << g.mission; if (g.status != STAT[s.stat].second) o << " status " << g.status;
   if (g.activeClock != s.act) o << " clock " << unsigned(g.activeClock); for (int i = 0; i < 4; i++) if (g.clocks[i] != CLK[s.clk[i]].second) o << " clock " << i << " " << g.clocks[i];
   why = o.str();
   return why.empty();
}
static void store(vf::Case& c)
{
   vf::Rng& r = c.rng;
   SatMetaDataStore st;
   Model m;
   int files = r.chance(0.2) ? 2 : 1;
   vector<string> svns; for (int i = r.range(1, 8); i > 0; i--) svns.push_back(r.chance(0.7) ? std::to_string(r.range(1, 850)) : "C" + std::to_string(r.range(1, 60)));
   vector<string> types = {"I", "IIA", "M", "IIR-M", "FOC type"};
   int nsys = r.range(1, 5);
   bool gaps = r.chance(0.3);
   string all;
   for (int f = 0; f < files; f++)
   {
      Lines L; bool ok = true;
      auto put = [&](vector<string> w) { string s; if (r.chance(0.1)) std::transform(w[0].begin(), w[0].end(), w[0].begin(), ::tolower); for (size_t i = 0; i < w.size(); i++) { if (i) s += ","; if (r.chance(0.15)) s += " "; s += w[i]; if (r.chance(0.05)) s += "  "; } L.push_back(s); };
      // a sign of which fields cannot be told apart from one value to the next
      auto time = [&](vector<string>& w, const T& t) { w.push_back(std::to_string(t.y)); w.push_back(r.chance(0.3) ? fmt("%03d", t.d) : std::to_string(t.d)); w.push_back(num(t.s)); };
      auto anyT = [&]() { T t; t.y = r.range(1975, 2035); t.d = r.chance(0.1) ? 365 + leap(t.y) : r.chance(0.1) ? 1 : r.range(1, 365); t.s = r.chance(0.6) ? 0 : r.chance(0.5) ? r.range(0, 86399) : r.range(0, 691199) / 8.0; return t; };
      int n = r.range(1, 60);
      for (int q = 0; q < n; q++)
      {
         int s = r.range(0, nsys - 1); string id = r.pick(svns), ty = r.pick(types);
         std::pair<int, string> k(s, id), kt(s, ty);
         int w = q < 12 && !gaps ? q % 3 : r.range(0, 9);
         if (r.chance(0.08)) L.push_back(r.chance(0.4) ? "" : r.pick(Lines{"# SAT, GPS, 1, 2, 3", "#", "#NORAD,GPS,1,1", "# a,b"}));
         if (w == 0)
         {
            long nn = r.range(1, 60000); vector<string> v{"NORAD", SYS[s].first, id, std::to_string(nn)};
            if (r.chance(0.03)) { if (r.chance(0.5)) v.pop_back(); else v.push_back("1"); ok = false; }
            else if (m.norad.count(k)) ok = false; else m.norad[k] = nn;
            put(v);
         }
         else if (w == 1)
         {
            Launch l; l.t = anyT(); l.type = ty; l.mission = r.chance(0.5) ? "II-" + std::to_string(r.range(1, 20)) : std::to_string(r.range(1, 99));
            vector<string> v{"LAUNCH", SYS[s].first, id}; time(v, l.t); v.push_back(ty); v.push_back(l.mission);
            double z = r.unit();
            if (z < 0.03) { if (r.chance(0.5)) v.pop_back(); else v.push_back("1"); ok = false; }
            else if (z < 0.08) { v[5] = r.pick(Lines{"86400", "90000.5", "100000"}); ok = false; }      // no such time: nothing is known of the launch
            else if (m.launch.count(k)) ok = false; else m.launch[k] = l;
            put(v);
         }
         else if (w == 2)
         {
            vector<int> cl; vector<string> v{"CLOCK", SYS[s].first, ty}; for (int i = 0; i < 4; i++) { cl.push_back(r.range(0, 5)); v.push_back(CLK[cl.back()].first); }
            if (r.chance(0.03)) { v.pop_back(); ok = false; }
            else if (m.clk.count(kt)) ok = false; else m.clk[kt] = cl;
            put(v);
         }
         else if (w == 3 && r.chance(0.3))
         {
            if (r.chance(0.5)) { bool good = r.chance(0.7); vector<string> v{"SIG", "GPS I", "L1", "CA", "GPSLNAV"}; if (!good) { v.pop_back(); ok = false; } put(v); }
            else { put(r.pick(vector<vector<string> >{{"SATS", "GPS", "1"}, {"ORBIT"}, {"0", "1", "2"}})); ok = false; }
         }
         else
         {
            Sat x; x.sys = s; x.svn = id; x.prn = r.chance(0.8) ? r.range(1, 6) : r.range(0, 63); x.chl = s == 1 ? r.range(-7, 6) : 0; x.slot = s == 1 ? r.range(1, 24) : 0; if (s == 1 && r.chance(0.5)) { x.chl = r.range(-1, 0); x.slot = r.range(1, 2); }
            x.a = anyT(); x.b = anyT(); if (x.b.t() < x.a.t()) std::swap(x.a, x.b); if (r.chance(0.2)) x.b = T{4713, 1, 0};
            // half the time the next user of the number begins when the last one ends
            if (m.sats.size() && r.chance(0.4)) { Sat& p = m.sats[r.below(m.sats.size())]; if (p.b.y < 4000) { x.a = p.b; x.b = T{x.a.y + int(r.range(1, 9)), int(r.range(1, 365)), 0}; if (r.chance(0.5)) { x.prn = p.prn; x.chl = p.chl; x.slot = p.slot; } } }
            x.plane = r.pick(Lines{"A", "B", "?", "Z", "3"}); x.oslot = r.pick(Lines{"1", "9", "?", "F2"}); x.sig = r.pick(Lines{"GPS I", "M", "FOC"}); x.stat = r.range(0, 3); x.act = r.chance(0.5) ? 255 : r.range(0, 4);
            vector<string> v{"SAT", SYS[s].first, id, std::to_string(x.prn), std::to_string(x.chl), std::to_string(x.slot)}; time(v, x.a); time(v, x.b);
            for (auto& e : Lines{x.plane, x.oslot, x.sig, x.stat == 3 ? r.pick(Lines{"Unknown", "operational", "?"}) : STAT[x.stat].first, std::to_string(x.act)}) v.push_back(e);
            double z = r.unit(); bool good = true;
            if (z < 0.03) { if (r.chance(0.5)) v.pop_back(); else v.push_back("1"); good = false; }
            else if (z < 0.07) { v[r.range(3, 5)] = r.pick(Lines{"G01", "1.5", "x", "-"}); good = false; }
            else if (z < 0.10) { v[r.chance(0.5) ? 8 : 11] = "86400"; good = false; }
            else if (!m.norad.count(k) || !m.launch.count(k) || !m.clk.count(std::make_pair(s, m.launch[k].type))) good = false;
            if (!good) ok = false;
            else { x.norad = m.norad[k]; x.launch = m.launch[k].t; x.type = m.launch[k].type; x.mission = m.launch[k].mission; for (int i = 0; i < 4; i++) x.clk[i] = m.clk[std::make_pair(s, x.type)][i]; m.sats.push_back(x); }
            put(v);
         }
      }
      string name = vf::scratch() + "/c40.csv", text = join(L); if (r.chance(0.3) && text.size()) text.resize(text.size() - 1);
      vf::spit(name, text); all += text;
      bool g = false; string why;
      { Quiet q; VF_NOTHROW("store.load.throws", g = st.loadData(name), text); why = q.o.str(); }
      VF_CHECK("store.load.result", g == ok, "gave " << g << " for\n" << text << "\nsaying " << why);
      if (!ok) c.count("files with bad lines");
   }
   c.count("files", files); c.distinct(all); if (c.idx < 3) c.sample(all.substr(0, 300));
   { Quiet q; VF_CHECK("store.load.missing", !st.loadData(vf::scratch() + "/c40.none"), ""); }
   size_t have = 0; for (auto& p : st.satMap) have += p.second.size();
   VF_CHECK("store.count", have == m.sats.size(), have << " of " << m.sats.size() << "\n" << all);
   VF_CHECK("store.norad.count", st.noradMap.size() == m.norad.size(), all);
   VF_CHECK("store.launch.count", st.launchMap.size() == m.launch.size(), st.launchMap.size() << " of " << m.launch.size() << "\n" << all);
   VF_CHECK("store.clock.count", st.clkMap.size() == m.clk.size(), all);
   for (auto& p : m.norad) { auto i = st.noradMap.find(SatMetaDataStore::SVNID(SYS[p.first.first].second, p.first.second)); VF_CHECK("store.norad", i != st.noradMap.end() && long(i->second) == p.second, p.first.second); }
   for (auto& p : m.launch) { auto i = st.launchMap.find(SatMetaDataStore::SVNID(SYS[p.first.first].second, p.first.second)); VF_CHECK("store.launch", i != st.launchMap.end() && i->second.launchTime == p.second.t.t() && i->second.type == p.second.type && i->second.mission == p.second.mission && i->second.svn.id == p.first.second && i->second.svn.system == SYS[p.first.first].second, p.first.second << "\n" << all); }
   // in the order of the numbers, then of time
   for (auto& p : st.satMap) { const SatMetaData* l = 0; for (auto& x : p.second) { if (l) VF_CHECK("store.order", std::make_pair(std::make_pair(l->prn, l->chl), l->slotID) <= std::make_pair(std::make_pair(x.prn, x.chl), x.slotID) && (l->prn != x.prn || l->chl != x.chl || l->slotID != x.slotID || l->startTime <= x.startTime), *l << " before " << x); l = &x; } }
   // every record is there
   { vector<bool> used(m.sats.size()); for (auto& p : st.satMap) for (auto& x : p.second) { string w; size_t i = 0; while (i < m.sats.size() && (used[i] || !same(x, m.sats[i], w))) i++; if (i < m.sats.size()) used[i] = true; else { std::ostringstream o; o << x; VF_CHECK("store.record", false, o.str() << " (last:" << w << ")\n" << all); } } }
   // answers
   for (int q = 0; q < 60 && m.sats.size(); q++)
   {
      const Sat& b = m.sats[r.below(m.sats.size())];
      int s = r.chance(0.9) ? b.sys : r.range(0, 4);
      CommonTime t; double z = r.unit();
      if (z < 0.2) t = b.a.t(); else if (z < 0.4) t = b.b.t(); else if (z < 0.5) { t = b.b.t(); t -= 0.125; } else if (z < 0.6) { t = b.a.t(); t -= 0.125; } else t = ct(mjdOf(r.range(1975, 2040), 1) + r.range(0, 364), r.range(0, 86399));
      if (r.chance(0.3)) t.setTimeSystem(r.chance(0.5) ? TimeSystem::GPS : TimeSystem::UTC);
      int how = r.range(0, 5); unsigned prn = r.chance(0.9) ? b.prn : r.range(0, 64); string svn = r.chance(0.9) ? b.svn : "999"; unsigned slot = r.chance(0.9) ? b.slot : 3; int chl = r.chance(0.9) ? b.chl : -2;
      vector<const Sat*> hit;
      for (auto& x : m.sats)
      {
         CommonTime a = x.a.t(), e = x.b.t();
         if (t < a || t >= e) continue;
         bool y = how == 4 ? x.sys == 1 && x.slot == slot && x.chl == chl : x.sys == s && (how == 1 || how == 3 ? x.svn == svn : x.prn == prn);
         if (y) hit.push_back(&x);
      }
      SatMetaData g; string gs = "none"; uint32_t gp = 12345; bool found = false;
      SatID id(int(prn), SYS[s].second);
      if (how == 0) found = st.findSat(SYS[s].second, prn, t, g); else if (how == 1) found = st.findSatBySVN(SYS[s].second, svn, t, g); else if (how == 2) found = r.chance(0.5) ? st.getSVN(SYS[s].second, prn, t, gs) : st.getSVN(id, t, gs);
      else if (how == 3) found = st.getPRN(SYS[s].second, svn, t, gp); else if (how == 4) found = st.findSatBySlotFdma(slot, chl, t, g); else found = st.findSat(id, t, g);
      static const char* N[] = {"prn", "svn", "getsvn", "getprn", "fdma", "satid"};
      string what = fmt("%s: %s prn %u svn %s slot %u channel %d at ", N[how], SYS[s].first, prn, svn.c_str(), slot, chl) + t.asString();
      VF_CHECK(string("find.") + N[how], found == !hit.empty(), what << " found " << found << " of " << hit.size() << "\n" << all);
      if (found && hit.size())
      {
         bool y = false; string w, last;
         for (auto x : hit) { if (how == 2 ? gs == x->svn : how == 3 ? gp == x->prn : same(g, *x, w)) y = true; last = w; }
         VF_CHECK(string("find.") + N[how] + ".which", y, what << " gave " << (how == 2 ? gs : how == 3 ? std::to_string(gp) : last) << "\n" << all);
         c.count(hit.size() > 1 ? "ambiguous" : "found");
      }
      else { VF_CHECK("find.untouched", gs == "none" && gp == 12345 && g.svn.empty() && g.prn == 0, what); c.count("not found"); }
   }
}
// ---------------------------------------------------------------- names of states and clocks; order
static void names(vf::Case& c)
{
   vf::Rng& r = c.rng;
   for (auto& p : STAT) { VF_CHECK("names.status", SatMetaData::asString(p.second) == p.first && SatMetaData::asStatus(p.first) == p.second, p.first); }
   for (auto& p : CLK) { VF_CHECK("names.clock", SatMetaData::asString(p.second) == p.first && SatMetaData::asClockType(p.first) == p.second, p.first); }
   string s = r.str(r.range(0, 12), "OperationalTest "); bool known = false; for (auto& p : STAT) known |= s == p.first;
   if (!known) VF_CHECK("names.unknown", SatMetaData::asStatus(s) == SatMetaData::Status::Unknown && SatMetaData::asClockType(s) == SatMetaData::ClockType::Unknown, s);
   SatMetaData d; VF_CHECK("names.default", d.prn == 0 && d.svn.empty() && d.norad == 0 && d.chl == 0 && d.slotID == 0 && d.sys == Sys::Unknown && d.status == SatMetaData::Status::Unknown && d.activeClock == 0 && d.clocks[3] == SatMetaData::ClockType::Unknown && d.endTime == CommonTime::END_OF_TIME, "");
   auto mk = [&]() { SatMetaData x; x.prn = r.range(0, 2); x.chl = r.range(-1, 1); x.slotID = r.range(0, 2); x.startTime = ct(50000 + r.range(0, 2), 0); return x; };
   auto key = [](const SatMetaData& x) { return vector<ld>{(ld)x.prn, (ld)x.chl, (ld)x.slotID, x.startTime - ct(50000, 0)}; };
   SatMetaData a = mk(), b = mk(); SatMetaDataSort lt;
   c.count("orders"); c.distinct(uint64_t(a.prn * 1000000 + (a.chl + 1) * 100000 + a.slotID * 10000 + b.prn * 1000 + (b.chl + 1) * 100 + b.slotID * 10 + (a.startTime < b.startTime)));
   VF_CHECK("names.order", lt(a, b) == (key(a) < key(b)), a << b);
   SatMetaDataStore::SVNID u(SYS[r.range(0, 2)].second, std::to_string(r.range(1, 12))), v(SYS[r.range(0, 2)].second, std::to_string(r.range(1, 12)));
   VF_CHECK("names.svnid", (u < v) == (std::make_pair(int(u.system), u.id) < std::make_pair(int(v.system), v.id)), u << " " << v);
   SatMetaDataStore::SystemBlock x, y; x.sys = u.system; x.blk = u.id; y.sys = v.system; y.blk = v.id;
   VF_CHECK("names.block", (x < y) == (u < v), x << " " << y);
}
// ---------------------------------------------------------------- the cross reference
struct Use { int svn, prn; CommonTime a, b; };
static const vector<Use>& uses(SVNumXRef& x)
{
   static vector<Use> u;
   if (u.empty()) for (auto& p : x.getPtoNMap()) u.push_back({p.second.getNAVSTARNum(), p.first, p.second.getBeginTime(), p.second.getEndTime()});
   return u;
}
static void xref(vf::Case& c)
{
   vf::Rng& r = c.rng;
   static SVNumXRef x;
   const vector<Use>& u = uses(x);
   for (int q = 0; q < 40; q++)
   {
      const Use& b = u[r.below(u.size())];
      CommonTime t; double z = r.unit();
      if (z < 0.15) t = b.a; else if (z < 0.3) t = b.b; else if (z < 0.4) t = b.a - 1.0; else if (z < 0.5) { t = b.b; if (t != CommonTime::END_OF_TIME) t += 1.0; }
      else t = ct(mjdOf(r.range(1977, 2031), 1) + r.range(0, 365), r.range(0, 86399), TimeSystem::GPS);
      int svn = r.chance(0.8) ? b.svn : r.chance(0.7) ? r.range(-2, 90) : int(r.u64()), prn = r.chance(0.8) ? b.prn : r.chance(0.7) ? r.range(-2, 40) : int(r.u64());
      set<int> ps, ns;
      for (auto& e : u) { if (t < e.a || e.b < t) continue; if (e.svn == svn) ps.insert(e.prn); if (e.prn == prn) ns.insert(e.svn); }
      string what = fmt("svn %d prn %d at ", svn, prn) + t.asString();
      c.distinct(what);
      VF_CHECK("xref.prn.available", x.PRNIDAvailable(svn, t) == !ps.empty(), what);
      VF_CHECK("xref.svn.active", x.NAVSTARIDActive(svn, t) == !ps.empty(), what);
      VF_CHECK("xref.svn.available", x.NAVSTARIDAvailable(prn, t) == !ns.empty(), what);
      VF_CHECK("xref.one", (ps.size() < 2 && ns.size() < 2) || z < 0.5, what << " " << ps.size() << " " << ns.size());
      if (ps.empty()) { VF_THROWS("xref.prn.none", Exception, x.getPRNID(svn, t), what); c.count("no prn"); }
      else { int g = -1; VF_NOTHROW("xref.prn.throws", g = x.getPRNID(svn, t), what); VF_CHECK("xref.prn", ps.count(g), what << " gave " << g); c.count("prn"); }
      if (ns.empty()) { VF_THROWS("xref.svn.none", NoNAVSTARNumberFound, x.getNAVSTAR(prn, t), what); c.count("no svn"); }
      else
      {
         int g = -1; VF_NOTHROW("xref.svn.throws", g = x.getNAVSTAR(prn, t), what); VF_CHECK("xref.svn", ns.count(g), what << " gave " << g); c.count("svn");
         // and back
         if (ns.size() == 1) { int p = -1; VF_NOTHROW("xref.back.throws", p = x.getPRNID(g, t), what); set<int> pp; for (auto& e : u) if (e.svn == g && !(t < e.a || e.b < t)) pp.insert(e.prn); VF_CHECK("xref.back", pp.count(p) && (pp.size() > 1 || p == prn), what << " svn " << g << " prn " << p); }
      }
   }
   // blocks: what was built, by the numbers of the vehicles
   auto block = [](int n) -> int {
      if (n >= 1 && n <= 11 && n != 7) return 0; if (n >= 13 && n <= 21) return 1; if (n >= 22 && n <= 40) return 2;
      for (int k : {48, 49, 50, 52, 53, 55, 57, 58}) if (n == k) return 4;
      if (n >= 41 && n <= 61 && n != 42) return 3; if (n >= 62 && n <= 73) return 5; if (n >= 74 && n <= 77) return 6; return -1; };
   static const SVNumXRef::BlockType BT[] = {SVNumXRef::I, SVNumXRef::II, SVNumXRef::IIA, SVNumXRef::IIR, SVNumXRef::IIR_M, SVNumXRef::IIF, SVNumXRef::III};
   static const char* BN[] = {"Block I", "Block II", "Block IIA", "Block IIR", "Block IIR_M", "Block IIF", "GPS III"};
   int n = r.chance(0.9) ? r.range(-1, 77) : -int(r.u64() & 0x7fffffff), k = block(n);
   VF_CHECK("xref.block.available", x.BlockTypeAvailable(n) == (k >= 0), n);
   if (k < 0) { VF_THROWS("xref.block.none", NoNAVSTARNumberFound, x.getBlockType(n), n); VF_CHECK("xref.block.unknown", x.getBlockTypeString(n) == "unknown", n); }
   else { VF_CHECK("xref.block", x.getBlockType(n) == BT[k], n); VF_CHECK("xref.block.name", x.getBlockTypeString(n) == BN[k], x.getBlockTypeString(n)); }
   // nodes
   {
      CommonTime a = ct(50000 + r.range(0, 3), 0), e = a + 86400.0 * r.range(1, 3); XRefNode d(n, a, e), d2(n, TimeRange(a, e, r.chance(0.5), r.chance(0.5)));
      CommonTime t = a + 43200.0 * r.range(-2, 8);
      VF_CHECK("node.applicable", d.isApplicable(t) == (t >= a && t <= e), ""); VF_CHECK("node.range", d2.isApplicable(t) == d2.getTimeRange().inRange(t), "");
      VF_CHECK("node.number", d.getPRNNum() == n && d.getNAVSTARNum() == n && d2.getPRNNum() == n && d.getBeginTime() == a && d.getEndTime() == e, n);
   }
   if (c.idx % 200 == 0)
   {
      { QuietOut q; VF_CHECK("xref.consistent", x.isConsistent(), q.o.str()); }
      for (auto& e : u) { VF_CHECK("xref.block.known", x.BlockTypeAvailable(e.svn), e.svn); VF_CHECK("xref.prn.range", e.prn >= 1 && e.prn <= 32, e.prn); VF_CHECK("xref.span", e.a < e.b, e.svn); }
      for (size_t i = 0; i < u.size(); i++) for (size_t j = i + 1; j < u.size(); j++) if (u[i].svn == u[j].svn || u[i].prn == u[j].prn) VF_CHECK("xref.overlap", u[i].b <= u[j].a || u[j].b <= u[i].a, u[i].svn << "/" << u[i].prn << " " << u[j].svn << "/" << u[j].prn);
      std::ostringstream o; x.dump(o); string s = o.str(); size_t lines = std::count(s.begin(), s.end(), '\n');
      VF_CHECK("xref.dump", lines == 2 * u.size() + 7, lines << " lines for " << u.size());
      for (auto& e : u) { XRefNode p(e.prn, e.a, e.b), v(e.svn, e.a, e.b); VF_CHECK("xref.dump.line", s.find(fmt("     %2d       ", e.svn) + p.toString() + "\n") != string::npos && s.find(fmt("    %2d        ", e.prn) + v.toString() + "\n") != string::npos, e.svn << "/" << e.prn); }
   }
}
// ---------------------------------------------------------------- the tables that come with the library agree
static void tables(vf::Case& c)
{
   string root = getenv("VF_REPO") ? getenv("VF_REPO") : "/repo";
   for (auto& f : Lines{"sats.csv", "satmeta_GLONASS.csv"})
   {
      string text = vf::slurp(root + "/data/" + f);
      if (text.empty()) { c.count("no " + f); continue; }
      SatMetaDataStore st; bool ok;
      { Quiet q; ok = st.loadData(root + "/data/" + f); VF_CHECK("tables.load", ok, f << " " << q.o.str().substr(0, 300)); }
      SVNumXRef x; std::istringstream in(text); string l; size_t n = 0, agree = 0, asked = 0;
      while (std::getline(in, l))
      {
         if (l.empty() || l[0] == '#') continue;
         Lines v = cut(l, ',');
         if (v[0] != "SAT") continue;
         n++;
         Sys s = v[1] == "GPS" ? Sys::GPS : v[1] == "GLONASS" ? Sys::Glonass : Sys::Unknown;
         if (s == Sys::Unknown) continue;
         CommonTime a = ct(mjdOf(atoi(v[6].c_str()), atoi(v[7].c_str())), atof(v[8].c_str())), b = ct(mjdOf(atoi(v[9].c_str()), atoi(v[10].c_str())), atof(v[11].c_str()));
         CommonTime mid = a; double len = b - a; if (len > 86400.0 * 3000) len = 86400.0 * 3000; mid += len / 2;
         SatMetaData g; bool found = st.findSatBySVN(s, v[2], mid, g); VF_CHECK("tables.svn", found && g.svn == v[2], l);
         if (s == Sys::GPS)
         {
            found = st.findSat(s, atoi(v[3].c_str()), mid, g); VF_CHECK("tables.prn", found && g.prn == unsigned(atoi(v[3].c_str())), l);
            mid.setTimeSystem(TimeSystem::GPS);
            int svn = atoi(v[2].c_str());
            if (x.PRNIDAvailable(svn, mid)) { asked++; agree += x.getPRNID(svn, mid) == atoi(v[3].c_str()); }
         }
         else { found = st.findSatBySlotFdma(atoi(v[5].c_str()), atoi(v[4].c_str()), mid, g); VF_CHECK("tables.fdma", found && g.slotID == unsigned(atoi(v[5].c_str())) && g.chl == atoi(v[4].c_str()), l); }
      }
      size_t have = 0; for (auto& p : st.satMap) have += p.second.size();
      VF_CHECK("tables.count", have == n, f << " " << have << " of " << n);
      if (f == "sats.csv") VF_CHECK("tables.agree", asked > 60 && asked - agree <= 1, agree << " of " << asked);
      c.count("records", n); c.distinct(text.substr(0, 2000)); c.maximum("agreeing", agree);
   }
}
int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"store", 1200, 25000, store}, {"names", 1000, 20000, names}, {"xref", 500, 12000, xref}, {"tables", 1, 1, tables}});
}
