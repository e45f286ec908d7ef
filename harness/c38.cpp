// C38: weather records survive RINEX meteorological files and are found by time
#include "vf.hpp"
#include <cstdarg>
#include <algorithm>
#include <set>
#include <map>
#include "RinexMetStream.hpp"
#include "RinexMetHeader.hpp"
#include "RinexMetData.hpp"
#include "RinexMetFilterOperators.hpp"
#include "WxObsMap.hpp"
#include "MetReader.hpp"
#include "CivilTime.hpp"
#include "MJD.hpp"
using namespace gpstk;
using std::string; using std::vector; using std::set; using std::map;
typedef RinexMetHeader H;
typedef H::RinexMetType MT;
typedef vector<string> Lines;
static string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static string rtrim(string s) { size_t n = s.find_last_not_of(" \r"); return n == string::npos ? "" : s.substr(0, n + 1); }
static string pad(const string& s, size_t n) { return (s + string(n, ' ')).substr(0, n); }
static Lines split(const string& t) { Lines v; std::istringstream i(t); string l; while (std::getline(i, l)) v.push_back(l); return v; }
static string join(const Lines& v) { string s; for (auto& l : v) s += l + "\n"; return s; }
static string lab(const string& s, const string& l) { return pad(s, 60) + l; }
static const char* NAME[] = {"PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"};
static const MT TYPE[] = {H::PR, H::TD, H::HR, H::ZW, H::ZD, H::ZT, H::WD, H::WS, H::RI, H::HI};
static string nameOf(MT t) { for (int i = 0; i < 10; i++) if (TYPE[i] == t) return NAME[i]; return "??"; }
static const string LAB[] = {"RINEX VERSION / TYPE", "PGM / RUN BY / DATE", "COMMENT", "MARKER NAME", "MARKER NUMBER", "# / TYPES OF OBSERV", "SENSOR MOD/TYPE/ACC", "SENSOR POS XYZ/H", "END OF HEADER"};
static const unsigned long BIT[] = {1, 2, 4, 8, 16, 32, 64, 128, 0x80000000ul};
static string word(vf::Rng& r, int n) { string s = r.str(r.range(1, n), "ABCxyz019-./ "); s[0] = 'W'; s[s.size() - 1] = 'e'; return s; }

struct Cal { int y, mo, d, h, mi, s; };
static Cal cal(long mjd, long sod) { long j = mjd + 2400001; long a = j + 32044, b = (4 * a + 3) / 146097, c = a - 146097 * b / 4, d = (4 * c + 3) / 1461, e = c - 1461 * d / 4, m = (5 * e + 2) / 153; Cal r; r.d = e - (153 * m + 2) / 5 + 1; r.mo = m + 3 - 12 * (m / 10); r.y = 100 * b + d - 4800 + m / 10; r.h = sod / 3600; r.mi = sod / 60 % 60; r.s = sod % 60; return r; }
static CommonTime ct(long mjd, double sod) { return MJD((long double)mjd, TimeSystem::Any).convertToCommonTime() + sod; }

struct Rec { long mjd, sod; map<MT, double> v; };
struct Met
{
   string ver; double v; vector<MT> types; string pgm, agency, name, number; bool hasNum, hasCom; Lines com;
   vector<H::sensorType> st; vector<H::sensorPosType> sp; vector<Rec> recs;
};
static Met make(vf::Rng& r)
{
   Met m;
   m.ver = r.pick(vector<string>{"2.00", "2.10", "2.11", "3.00", "3.01", "3.02"});
   m.v = atof(m.ver.c_str());
   vector<MT> all(TYPE, TYPE + 10);
   r.shuffle(all);
   int n = r.chance(0.25) ? r.range(8, 10) : r.range(1, 10);
   m.types.assign(all.begin(), all.begin() + n);
   if (std::find(m.types.begin(), m.types.end(), H::PR) == m.types.end()) m.types[r.below(n)] = H::PR;
   m.pgm = word(r, 20); m.agency = word(r, 20); m.name = word(r, r.chance(0.3) ? 60 : 8);
   m.hasNum = r.chance(0.6); m.number = m.hasNum ? word(r, 20) : "";
   m.hasCom = r.chance(0.6);
   if (m.hasCom) for (int i = r.range(1, 4); i > 0; i--) m.com.push_back(word(r, r.chance(0.3) ? 60 : 12));
   vector<MT> o = m.types; r.shuffle(o);
   for (MT t : o) { H::sensorType s; s.model = word(r, 20); s.type = word(r, 20); s.accuracy = r.range(0, r.chance(0.2) ? 999999 : 100) / 10.0; s.obsType = t; m.st.push_back(s); }
   r.shuffle(o);
   for (MT t : o) if (t == H::PR || r.chance(0.5)) { H::sensorPosType s; double lim = r.chance(0.3) ? 99999999 : 6.4e6; for (int i = 0; i < 3; i++) s.position[i] = llround(r.unif(-lim, lim) * 1e4) / 1e4; s.height = r.range(-5000000, 90000000) / 1e4; s.obsType = t; m.sp.push_back(s); }
   long top = m.v >= 3.02 ? 88067 : 80763, mjd = r.range(44239, top), sod = r.chance(0.3) ? r.range(0, 95) * 900 : r.range(0, 86399);
   for (int i = r.range(0, 6); i > 0; i--)
   {
      Rec q; q.mjd = mjd; q.sod = sod;
      for (MT t : m.types) { int k = r.range(0, 5); q.v[t] = k == 0 ? 0.0 : k == 1 ? r.range(-99999, 999999) / 10.0 : r.range(0, 11000) / 10.0; }
      if (r.chance(0.1)) q.v[m.types[r.below(m.types.size())]] = r.chance(0.5) ? -9999.9 : 99999.9;
      m.recs.push_back(q);
      sod += r.pick(vector<int>{1, 30, 60, 900, 3600, 86399});
      while (sod >= 86400) { sod -= 86400; mjd++; }
      if (mjd > top) break;
   }
   return m;
}
static Lines typeLines(const vector<MT>& ts)
{
   Lines L;
   for (size_t i = 0; i < ts.size(); i += 9) { string s = i ? string(6, ' ') : fmt("%6zu", ts.size()); for (size_t k = i; k < ts.size() && k < i + 9; k++) s += "    " + nameOf(ts[k]); L.push_back(lab(s, LAB[5])); }
   return L;
}
// the header as the RINEX document defines it, the line of the date marked
static Lines headText(const Met& m)
{
   Lines L;
   L.push_back(lab(pad(fmt("%9s", m.ver.c_str()), 20) + "METEOROLOGICAL DATA", LAB[0]));
   L.push_back(lab(pad(m.pgm, 20) + pad(m.agency, 20) + "11/20/2026 04:11:09", LAB[1]));
   for (auto& s : m.com) L.push_back(lab(s, LAB[2]));
   L.push_back(lab(m.name, LAB[3]));
   if (m.hasNum) L.push_back(lab(m.number, LAB[4]));
   for (auto& s : typeLines(m.types)) L.push_back(s);
   for (auto& s : m.st) L.push_back(lab(pad(s.model, 20) + pad(s.type, 20) + fmt("      %7.1f    %s", s.accuracy, nameOf(s.obsType).c_str()), LAB[6]));
   for (auto& s : m.sp) L.push_back(lab(fmt("%14.4f%14.4f%14.4f%14.4f ", s.position[0], s.position[1], s.position[2], s.height) + nameOf(s.obsType), LAB[7]));
   L.push_back(lab("", LAB[8]));
   return L;
}
static Lines recText(const Met& m, const Rec& q)
{
   Lines L;
   Cal c = cal(q.mjd, q.sod);
   string s = (m.v >= 3.02 ? fmt(" %4d", c.y) : fmt(" %02d", c.y % 100)) + fmt(" %2d %2d %2d %2d %2d", c.mo, c.d, c.h, c.mi, c.s);
   for (size_t i = 0; i < m.types.size(); i++)
   {
      if (i >= 8 && (i - 8) % 10 == 0) { L.push_back(s); s = "    "; }
      s += fmt("%7.1f", q.v.at(m.types[i]));
   }
   L.push_back(s);
   return L;
}
static H toHead(const Met& m)
{
   H h;
   h.version = m.v; h.fileType = "METEOROLOGICAL DATA"; h.fileProgram = m.pgm; h.fileAgency = m.agency; h.markerName = m.name; h.markerNumber = m.number; h.commentList = m.com;
   h.obsTypeList = m.types; h.sensorTypeList = m.st; h.sensorPosList = m.sp;
   h.valid = H::validVersion | H::validRunBy | H::validMarkerName | H::validObsType | H::validSensorType | H::validSensorPos | H::validEoH;
   if (m.hasNum) h.valid |= H::validMarkerNumber;
   if (m.hasCom) h.valid |= H::validComment;
   return h;
}
static RinexMetData toData(const Rec& q) { RinexMetData d; d.time = ct(q.mjd, q.sod); for (auto& k : q.v) d.data[k.first] = k.second; return d; }
static void sameHead(const string& k, const H& h, const Met& m)
{
   unsigned long want = H::validVersion | H::validRunBy | H::validMarkerName | H::validObsType | H::validSensorType | H::validSensorPos | H::validEoH | (m.hasNum ? (unsigned long)H::validMarkerNumber : 0ul) | (m.com.size() ? (unsigned long)H::validComment : 0ul);
   VF_CHECK(k + ".valid", h.valid == want, std::hex << h.valid << " want " << want);
   VF_CHECK(k + ".version", h.version == m.v && h.fileType == "METEOROLOGICAL DATA", h.version << " " << h.fileType);
   VF_CHECK(k + ".run", h.fileProgram == m.pgm && h.fileAgency == m.agency, h.fileProgram << "/" << h.fileAgency);
   VF_CHECK(k + ".marker", h.markerName == m.name && (!m.hasNum || h.markerNumber == m.number), h.markerName << "/" << h.markerNumber << " want " << m.name << "/" << m.number);
   VF_CHECK(k + ".comments", h.commentList == m.com, h.commentList.size() << " want " << m.com.size());
   VF_CHECK(k + ".types", h.obsTypeList == m.types, h.obsTypeList.size() << " want " << m.types.size());
   bool ok = h.sensorTypeList.size() == m.st.size();
   for (size_t i = 0; ok && i < m.st.size(); i++) { auto &a = h.sensorTypeList[i], &b = m.st[i]; ok = a.model == b.model && a.type == b.type && a.accuracy == b.accuracy && a.obsType == b.obsType; }
   VF_CHECK(k + ".sensors", ok, h.sensorTypeList.size() << " sensors, want " << m.st.size());
   ok = h.sensorPosList.size() == m.sp.size();
   for (size_t i = 0; ok && i < m.sp.size(); i++) { auto &a = h.sensorPosList[i], &b = m.sp[i]; ok = a.obsType == b.obsType && a.height == b.height; for (int j = 0; j < 3; j++) ok = ok && a.position[j] == b.position[j]; }
   VF_CHECK(k + ".positions", ok, h.sensorPosList.size() << " positions, want " << m.sp.size());
}
static void sameRec(const string& k, const RinexMetData& d, const Rec& q)
{
   VF_CHECK(k + ".time", d.time == ct(q.mjd, q.sod), d.time.asString() << " want " << ct(q.mjd, q.sod).asString());
   bool ok = d.data.size() == q.v.size();
   string s;
   for (auto& e : q.v) { auto i = d.data.find(e.first); bool g = i != d.data.end() && i->second == e.second; if (!g) s += nameOf(e.first) + fmt(" %.17g want %.17g ", i == d.data.end() ? NAN : i->second, e.second); ok = ok && g; }
   VF_CHECK(k + ".values", ok, d.data.size() << " values: " << s);
}
static void readAll(const string& k, const string& fn, const Met& m, vf::Rng& r, H* reuse = nullptr, RinexMetData* dre = nullptr)
{
   RinexMetStream s(fn.c_str());
   H h0; H& h = reuse ? *reuse : h0;
   if (r.chance(0.7)) { s >> h; VF_CHECK(k + ".open", (bool)s, "header not read"); sameHead(k, h, m); VF_CHECK(k + ".again", s.headerRead, ""); }
   RinexMetData d0; RinexMetData& d = dre ? *dre : d0;
   size_t n = 0;
   for (; s >> d; n++) { if (n < m.recs.size()) sameRec(k, d, m.recs[n]); }
   VF_CHECK(k + ".count", n == m.recs.size(), n << " records, want " << m.recs.size());
   VF_CHECK(k + ".eof", s.eof(), "reading stopped before the end");
   sameHead(k + ".stream", s.header, m);
}
static void fileS(vf::Case& c)
{
   vf::Rng& r = c.rng;
   string fn = vf::scratch() + "/m.txt", fn2 = vf::scratch() + "/n.txt";
   Met m = make(r);
   Lines want = headText(m);
   size_t nh = want.size();
   for (auto& q : m.recs) for (auto& l : recText(m, q)) want.push_back(l);
   c.distinct(join(want));
   c.sample(m.ver + " with " + std::to_string(m.types.size()) + " types");
   // write
   {
      RinexMetStream o(fn.c_str(), std::ios::out);
      H h = toHead(m);
      if (r.chance(0.2)) { // sensors of other types are not written
         for (int i = 0; i < 10; i++) if (std::find(m.types.begin(), m.types.end(), TYPE[i]) == m.types.end()) { H::sensorType s = m.st[0]; s.obsType = TYPE[i]; h.sensorTypeList.insert(h.sensorTypeList.begin() + r.below(h.sensorTypeList.size() + 1), s); H::sensorPosType p = m.sp[0]; p.obsType = TYPE[i]; h.sensorPosList.insert(h.sensorPosList.begin() + r.below(h.sensorPosList.size() + 1), p); }
      }
      o << h;
      VF_CHECK("write.header", (bool)o, "header not written");
      for (auto& q : m.recs)
      {
         RinexMetData d = toData(q);
         if (r.chance(0.3)) for (int i = 0; i < 10; i++) d.data.insert({TYPE[i], 77.7});  // more than the header names
         o << d;
         VF_CHECK("write.data", (bool)o, "record not written");
      }
      VF_CHECK("write.lines", o.lineNumber == want.size(), o.lineNumber << " want " << want.size());
   }
   Lines got = split(vf::slurp(fn));
   VF_CHECK("write.size", got.size() == want.size(), got.size() << " lines, want " << want.size());
   for (size_t i = 0; i < got.size() && i < want.size(); i++)
   {
      if (i == 1)
      {
         string d = got[1].substr(40, 20);
         bool ok = got[1].size() == 79 && got[1].substr(0, 40) == want[1].substr(0, 40) && got[1].substr(60) == LAB[1];
         for (size_t k = 0; k < 19 && ok; k++) { string f = m.v < 3 ? "00/00/0000 00:00:00" : "00000000 000000 UTC"; ok = f[k] == '0' ? isdigit(d[k]) : d[k] == f[k]; }
         VF_CHECK("write.run", ok, got[1]);
      }
      else
         VF_CHECK(i < nh ? "write.text.header" : "write.text.data", rtrim(got[i]) == rtrim(want[i]), "line " << i + 1 << " /" << got[i] << "/ want /" << want[i] << "/");
   }
   readAll("read", fn, m, r);
   c.count("files");
   c.count("records", m.recs.size());
   // own text: any order, padded lines, other spellings of the version, header objects used before
   Lines t = headText(m), head(t.begin(), t.begin() + 1), mid, tail;
   size_t a = 1; while (t[a].substr(60) != LAB[5]) a++;
   mid.assign(t.begin() + 1, t.begin() + a);
   vector<MT> wantTypes = m.types;
   Lines com; for (auto& s : m.com) com.push_back(s);
   r.shuffle(mid);
   Met m2 = m;
   m2.com.clear(); for (auto& l : mid) if (l.substr(60) == LAB[2]) m2.com.push_back(rtrim(l.substr(0, 60)));
   string v = m.ver;
   if (r.chance(0.5)) v = v == "2.00" ? "2.0" : v == "2.10" ? "2.1" : v == "3.00" ? "3.0" : v;
   head[0] = lab((r.chance(0.5) ? pad(fmt("%9s", v.c_str()), 20) : pad(v, 20)) + "METEOROLOGICAL DATA", LAB[0]);
   Lines f = head; for (auto& l : mid) f.push_back(l); for (size_t i = a; i < t.size(); i++) f.push_back(t[i]);
   size_t nhead = f.size();
   for (auto& q : m.recs) for (auto& l : recText(m, q)) f.push_back(l);
   if (r.chance(0.5)) for (size_t i = 0; i < nhead; i++) f[i] = pad(f[i], 80);
   vf::spit(fn2, join(f));
   static H used; static RinexMetData usedD;
   bool re = r.chance(0.5);
   readAll("text", fn2, m2, r, re ? &used : nullptr, re ? &usedD : nullptr);
   // truncated value fields and dumps
   {
      H h = toHead(m);
      std::ostringstream o; h.dump(o);
      string w = "Marker " + m.name + "\nObs types:\n"; for (MT x : m.types) w += nameOf(x) + " ";
      VF_CHECK("dump.header", o.str() == w + "\n", o.str());
      if (m.recs.size())
      {
         const Rec& q = m.recs[0];
         Cal k = cal(q.mjd, q.sod);
         string tt = "  " + fmt(" %02d %2d %2d %2d %2d %2d", k.y % 100, k.mo, k.d, k.h, k.mi, k.s) + "\n", w1 = tt, w2 = tt;
         map<int, double> srt; for (auto& e : q.v) srt[int(e.first)] = e.second;
         for (auto& e : srt) { std::ostringstream x; x << e.second; w1 += "  " + nameOf(MT(e.first)) + " " + x.str() + "\n"; w2 += "  " + nameOf(MT(e.first)) + fmt(" %.1f\n", e.second); }
         std::ostringstream o1; toData(q).dump(o1);
         VF_CHECK("dump.data", o1.str() == w1, o1.str() << " want " << w1);
         VF_CHECK("dump.stable", toData(q).stableText() == w2, toData(q).stableText() << " want " << w2);
      }
   }
   // refusing to write what is incomplete
   {
      RinexMetStream o(fn.c_str(), std::ios::out);
      o.exceptions(std::ios::failbit);
      H h = toHead(m);
      int bits[] = {0, 1, 3, 5, 6, 7, 8};
      int b = bits[r.below(7)];
      h.valid &= ~BIT[b];
      VF_THROWS("refuse.write.bits", FFStreamError, o << h, "without " << LAB[b]);
      h = toHead(m); h.version = r.pick(vector<double>{1.0, 2.2, 0, 2.05, 1.99});
      o.clear();
      VF_THROWS("refuse.write.version", FFStreamError, o << h, "version " << h.version);
      o.clear();
      h = toHead(m);
      o << h;
      RinexMetData d; for (MT x : m.types) d.data[x] = 1; d.time = ct(50000, 0);
      d.data.erase(m.types[r.below(m.types.size())]);
      VF_THROWS("refuse.write.missing", FFStreamError, o << d, m.types.size() << " types");
      o.exceptions(std::ios::goodbit);
   }
   // refusing to read what is wrong
   {
      Lines g = headText(m);
      int k = r.range(0, 7);
      string what;
      bool data = false;
      if (k == 0) { size_t i = r.below(g.size()); g[i] = r.chance(0.5) ? g[i].substr(0, r.below(60)) : pad(g[i], r.range(82, 120)); what = "length of line " + std::to_string(i + 1); }
      else if (k == 1) { string x = r.pick(vector<string>{"1.00", "4.00", "2.12", "2.2", "", "x"}); g[0] = lab(pad(fmt("%9s", x.c_str()), 20) + "METEOROLOGICAL DATA", LAB[0]); what = "version /" + x; }
      else if (k == 2) { g[0] = lab(pad(fmt("%9s", m.ver.c_str()), 20) + r.pick(vector<string>{"OBSERVATION DATA", "NAVIGATION DATA", "G: GLONASS NAV DATA"}), LAB[0]); what = "file type"; }
      else if (k == 3) { size_t i = 1 + r.below(g.size() - 2); g[i] = pad(g[i], 60) + r.pick(vector<string>{"MARKER", "COMMENTS", "APPROX POSITION XYZ", "END OF HEADR"}); what = "label in line " + std::to_string(i + 1); }
      else if (k == 4) { int bits[] = {1, 3, 6, 7}; int b = bits[r.below(4)]; Lines n; for (auto& l : g) if (l.substr(60) != LAB[b]) n.push_back(l); if (b == 7 && r.chance(0.5)) for (auto& l : g) if (l.substr(60) == LAB[7] && l.substr(57, 2) != "PR") n.insert(n.end() - 1, l); g = n; what = "without " + LAB[b]; }
      else if (k == 5) { size_t i = 0; while (g[i].substr(60) != LAB[r.chance(0.5) ? 5 : 7] && g[i].substr(60) != LAB[5]) i++; size_t p = 10; g[i].replace(p, 2, r.pick(vector<string>{"XX", "pr", "  ", "P "})); what = "observation type"; }
      else if (k == 6) { size_t i = 0; while (g[i].substr(60) != LAB[5]) i++; g[i].replace(6 + r.below(4), 1, "x"); what = "blanks of the types"; if (r.chance(0.5)) { g = headText(m); i = 0; while (g[i].substr(60) != LAB[6]) i++; g[i].replace(40 + r.below(6), 1, "x"); what = "blanks of a sensor"; } }
      else if (k == 7) { size_t i = 0; while (g[i].substr(60) != LAB[6]) i++; g.erase(g.begin() + i); what = "a sensor missing"; }
      vf::spit(fn2, join(g));
      RinexMetStream s(fn2.c_str());
      s.exceptions(std::ios::failbit);
      H h;
      VF_THROWS("refuse.read.header", FFStreamError, s >> h, what);
      VF_CHECK("refuse.read.flag", !s.headerRead, what);
      s.exceptions(std::ios::goodbit);
      (void)data;
   }
   if (m.recs.size())
   {
      const Rec& q = m.recs[0];
      Lines g = headText(m), d = recText(m, q);
      string what;
      int add = m.v >= 3.02 ? 2 : 0, k = r.range(0, 1);
      if (k == 0) { d[0] = d[0].substr(0, r.below(18 + add)); what = "short line"; if (d.size() > 1 && r.chance(0.4)) { d = recText(m, q); d.resize(1); what = "no continuation"; } }
      else { int p[] = {0, 3 + add, 6 + add, 9 + add, 12 + add, 15 + add}; d[0][p[r.below(6)]] = r.pick(vector<char>{'0', 'x', '-'}); what = "blank of the time"; }
      for (auto& l : d) g.push_back(l);
      vf::spit(fn2, join(g));
      RinexMetStream s(fn2.c_str());
      s.exceptions(std::ios::failbit);
      RinexMetData x;
      VF_THROWS("refuse.read.data", Exception, s >> x, what << " in " << d[0]);
      s.exceptions(std::ios::goodbit);
   }
}
// ---------------------------------------------------------------- names, comparison, filters
static void opS(vf::Case& c)
{
   vf::Rng& r = c.rng;
   for (int i = 0; i < 10; i++) VF_CHECK("type.name", H::convertObsType(TYPE[i]) == NAME[i] && H::convertObsType(string(NAME[i])) == TYPE[i], NAME[i]);
   { string b = r.str(r.range(0, 3), "PRTDHZWSI "); bool known = false; for (auto n : NAME) known = known || b == n; if (!known) VF_THROWS("type.bad", FFStreamError, H::convertObsType(b), b); }
   unsigned long vb = 0; Lines nm;
   for (int i = 0; i < 9; i++) if (r.chance(0.4)) { vb |= BIT[i]; nm.push_back(LAB[i]); }
   if (r.chance(0.1)) { vb |= 0x100; nm.insert(std::find_if(nm.begin(), nm.end(), [](const string& s) { return s == LAB[8]; }), "*UNKNOWN/INVALID BITS*"); }
   {
      char q = r.chance(0.3) ? 0 : r.chance(0.5) ? '"' : '|'; string sep = r.chance(0.5) ? ", " : "; ", w, w0;
      for (size_t i = 0; i < nm.size(); i++) { w += (i ? sep : "") + (q ? string(1, q) + nm[i] + q : nm[i]); w0 += (i ? ", " : "") + ("\"" + nm[i] + "\""); }
      VF_CHECK("bits", H::bitString(vb, q, sep) == w && H::bitString(vb) == w0, H::bitString(vb, q, sep) << " want " << w);
   }
   Met m = make(r);
   H a = toHead(m), b = a;
   a.date = b.date = "20201010";
   c.distinct(join(headText(m)));
   set<string> diff;
   auto maybe = [&](int k) { bool y = r.chance(0.25); if (y) diff.insert(LAB[k]); return y; };
   if (maybe(0)) { if (r.chance(0.5)) b.version += 0.5; else b.fileType = "OBS"; } else if (r.chance(0.3)) b.fileType = "M";
   if (maybe(1)) { int k = r.below(3); (k == 0 ? b.fileProgram : k == 1 ? b.fileAgency : b.date) += "x"; }
   if (maybe(2)) b.commentList.push_back("another one"); else if (b.commentList.size()) { std::reverse(b.commentList.begin(), b.commentList.end()); if (r.chance(0.5)) b.commentList.push_back(b.commentList[0]); }
   if (maybe(3)) b.markerName += "x";
   if (maybe(4)) b.markerNumber += "x";
   if (maybe(5)) { if (b.obsTypeList.size() > 1 && r.chance(0.5)) b.obsTypeList.pop_back(); else { bool f = false; for (MT t : TYPE) if (!f && std::find(a.obsTypeList.begin(), a.obsTypeList.end(), t) == a.obsTypeList.end()) { b.obsTypeList.push_back(t); f = true; } if (!f) b.obsTypeList.pop_back(); } } else std::reverse(b.obsTypeList.begin(), b.obsTypeList.end());
   if (maybe(6)) { auto& s = b.sensorTypeList[r.below(b.sensorTypeList.size())]; int k = r.below(3); if (k == 0) s.model += "x"; else if (k == 1) s.type += "x"; else s.accuracy += 0.1; } else std::reverse(b.sensorTypeList.begin(), b.sensorTypeList.end());
   if (maybe(7)) { auto& s = b.sensorPosList[r.below(b.sensorPosList.size())]; int k = r.below(4); if (k == 3) s.height += 0.5; else s.position[k] += 0.5; } else std::reverse(b.sensorPosList.begin(), b.sensorPosList.end());
   Lines list; for (int i = 0; i < 9; i++) if (r.chance(0.3)) list.push_back(LAB[i]);
   if (r.chance(0.2)) list.push_back("NO SUCH LINE");
   bool incl = r.chance(0.4);
   set<string> want;
   for (auto& d : diff) { bool in = std::find(list.begin(), list.end(), d) != list.end(); if (in == incl) want.insert(d); }
   b.valid = vb;
   Lines got;
   bool eq = a.compare(b, got, list, incl);
   VF_CHECK("compare.diffs", got == Lines(want.begin(), want.end()), got.size() << " differences, want " << want.size() << (incl ? " including " : " excluding ") << list.size());
   VF_CHECK("compare.result", eq == want.empty(), eq);
   Lines none, all; 
   VF_CHECK("compare.self", a.compare(a, none, all) && none.empty(), "");
   { Lines d2; bool e2 = b.compare(a, d2, list, incl); VF_CHECK("compare.symmetric", e2 == eq && d2 == got, ""); }
   c.count("compared");
   // sensor equality is within 1/1000
   { H::sensorType s = m.st[0], t = s; t.accuracy += 0.0005; VF_CHECK("sensor.equal", s == t, ""); t.accuracy += 0.5; VF_CHECK("sensor.differ", !(s == t) && (s < t) && !(t < s), ""); H::sensorPosType p = m.sp[0], q = p; q.height -= 0.0005; VF_CHECK("position.equal", p == q, ""); q.height -= 1; VF_CHECK("position.differ", !(p == q) && q < p && !(p < q), ""); }
   // filters
   {
      auto rd = [&]() { RinexMetData d; d.time = ct(50000, r.range(0, 3)); for (int i = 0; i < 4; i++) if (r.chance(0.9)) d.data[TYPE[i]] = r.range(0, 2); return d; };
      set<MT> com; for (int i = 0; i < 4; i++) if (r.chance(0.7)) com.insert(TYPE[i]);
      RinexMetDataOperatorLessThanFull full(com);
      RinexMetDataOperatorLessThanSimple lt; RinexMetDataOperatorEqualsSimple eqs;
      for (int n = 0; n < 20; n++)
      {
         RinexMetData x = rd(), y = rd();
         bool w = x.time < y.time;
         if (x.time == y.time) for (MT t : com) { if (!x.data.count(t) || !y.data.count(t)) break; if (x.data[t] != y.data[t]) { w = x.data[t] < y.data[t]; break; } }
         VF_CHECK("filter.less", full(x, y) == w, x.stableText() << y.stableText() << " gave " << !w);
         VF_CHECK("filter.time", lt(x, y) == (x.time < y.time) && eqs(x, y) == (x.time == y.time), x.stableText() << y.stableText());
         int s = r.range(-1, 4), e = r.range(-1, 5);
         double xt = x.time - ct(50000, 0);
         RinexMetDataFilterTime ft(ct(50000, 0) + s, ct(50000, 0) + e);
         VF_CHECK("filter.span", ft(x) == !(xt >= s && xt < e), xt << " in " << s << " to " << e);
      }
   }
   // merging headers
   {
      RinexMetHeaderTouchHeaderMerge mg;
      set<string> com; set<MT> obs; bool vc = false;
      H first;
      int n = r.range(1, 4);
      for (int i = 0; i < n; i++)
      {
         Met k = make(r);
         H h = toHead(k);
         VF_CHECK("merge.goes.on", mg(h), "");
         com.insert(k.com.begin(), k.com.end());
         vc = vc || k.hasCom;
         set<MT> o(k.types.begin(), k.types.end()), b2;
         if (i == 0) { obs = o; first = h; } else { std::set_intersection(obs.begin(), obs.end(), o.begin(), o.end(), std::inserter(b2, b2.begin())); obs = b2; }
         VF_CHECK("merge.observations", mg.obsSet == obs, mg.obsSet.size() << " types after " << i + 1 << " headers, want " << obs.size());
         VF_CHECK("merge.types", set<MT>(mg.theHeader.obsTypeList.begin(), mg.theHeader.obsTypeList.end()) == obs && mg.theHeader.obsTypeList.size() == obs.size(), "");
         VF_CHECK("merge.comments", set<string>(mg.theHeader.commentList.begin(), mg.theHeader.commentList.end()) == com, "");
         VF_CHECK("merge.comments.valid", vc == bool(mg.theHeader.valid & H::validComment), "after " << i + 1 << " headers");
         VF_CHECK("merge.first", mg.theHeader.markerName == first.markerName && mg.theHeader.version == first.version && mg.theHeader.sensorTypeList.size() == first.sensorTypeList.size(), "");
      }
   }
}
// ---------------------------------------------------------------- weather by time
static bool sameWx(const WxObservation& a, const WxObservation& b) { return a.t == b.t && a.temperature == b.temperature && a.pressure == b.pressure && a.humidity == b.humidity && a.temperatureSource == b.temperatureSource && a.pressureSource == b.pressureSource && a.humiditySource == b.humiditySource; }
static void wxS(vf::Case& c)
{
   vf::Rng& r = c.rng;
   CommonTime t0 = ct(r.range(44244, 60000), r.range(0, 86399));
   WxObsData w;
   map<int, WxObservation> m;
   { WxObservation e; VF_CHECK("wx.fresh", !e.isAllValid() && e.t == CommonTime::END_OF_TIME && e.temperatureSource == WxObservation::noWx && e.pressureSource == WxObservation::noWx && e.humiditySource == WxObservation::noWx, ""); }
   string ops;
   int step = r.pick(vector<int>{1, 60, 900, 3600});
   auto rt = [&]() { return int(r.range(-3, 25)) * step * 4 + (r.chance(0.4) ? int(r.range(-9, 9)) : 0) + (r.chance(0.3) ? step * 2 : 0); }; // quarters of seconds
   for (int n = r.range(1, 40); n > 0; n--)
   {
      int k = r.range(0, 19), t = rt();
      CommonTime T = t0 + t / 4.0;
      if (k < 8)
      {
         WxObservation o(T, r.range(-400, 400) / 10.0f, r.range(8000, 11000) / 10.0f, r.range(0, 1000) / 10.0f);
         VF_CHECK("wx.valid", o.isAllValid(), "");
         if (r.chance(0.2)) { (r.chance(0.5) ? o.pressureSource : r.chance(0.5) ? o.humiditySource : o.temperatureSource) = r.chance(0.5) ? WxObservation::noWx : WxObservation::defWx; bool v = o.pressureSource != WxObservation::noWx && o.humiditySource != WxObservation::noWx && o.temperatureSource != WxObservation::noWx; VF_CHECK("wx.sources", o.isAllValid() == v, ""); }
         w.insertObservation(o);
         m[t] = o;
         ops += fmt("+%d ", t);
      }
      else if (k < 10 && n < 12)
      {
         w.flush(T);
         m.erase(m.begin(), m.lower_bound(t));
         ops += fmt("-%d ", t);
         c.count("flushes");
      }
      else
      {
         unsigned iv = r.pick(vector<unsigned>{0, 1, 60, 900, 1800, 3600, 7200, 86400});
         bool ip = r.chance(0.6), def = r.chance(0.15);
         if (def) { iv = 3600; ip = true; }
         const WxObservation *a = nullptr, *b = nullptr;  // after, at or before
         auto u = m.upper_bound(t);
         int ta = 0, tb = 0;
         if (u != m.end() && u->first - t <= 4 * int(iv)) { a = &u->second; ta = u->first; }
         if (u != m.begin()) { --u; if (t - u->first <= 4 * int(iv)) { b = &u->second; tb = u->first; } }
         string what = fmt("at %d within %u of ", t, iv) + ops;
         if (!a && !b) VF_THROWS("wx.none", ObjectNotFound, w.getWxObservation(T, iv, ip), what);
         else
         {
            WxObservation g = def ? w.getWxObservation(T) : w.getWxObservation(T, iv, ip);
            c.count("found");
            if (a && b && ip)
            {
               double f = double(t - tb) / (ta - tb);
               auto q = [&](float x, float y) { return double(x) + f * (double(y) - x); };
               VF_CHECK("wx.interpolated", g.t == T && fabs(g.temperature - q(b->temperature, a->temperature)) < 1e-4 && fabs(g.pressure - q(b->pressure, a->pressure)) < 2e-3 && fabs(g.humidity - q(b->humidity, a->humidity)) < 1e-4 && g.isAllValid(), what << ": " << g.temperature << " " << g.pressure << " " << g.humidity);
               c.count("interpolated");
            }
            else
            {
               const WxObservation* e = !a ? b : !b ? a : ta - t < t - tb ? a : b;
               VF_CHECK("wx.nearest", sameWx(g, *e), what << " gave the one at " << (g.t - t0));
            }
         }
         if (m.size())
         {
            auto v = m.upper_bound(t);
            WxObservation g = w.getMostRecent(T);
            if (v != m.begin()) { --v; VF_CHECK("wx.recent", sameWx(g, v->second), "before " << t << " of " << ops << " gave the one at " << (g.t - t0)); }
         }
         else
            VF_CHECK("wx.recent.none", sameWx(w.getMostRecent(T), WxObservation()) || w.getMostRecent(T).t == CommonTime::END_OF_TIME, "");
      }
      bool ok = w.obs.size() == m.size();
      for (auto& e : m) { auto i = w.obs.find(t0 + e.first / 4.0); ok = ok && i != w.obs.end() && sameWx(i->second, e.second); }
      VF_CHECK("wx.kept", ok, ops << " keeps " << w.obs.size() << " want " << m.size());
      VF_CHECK("wx.first", w.firstTime == (m.empty() ? CommonTime::END_OF_TIME : t0 + m.begin()->first / 4.0), ops << " first " << w.firstTime.asString());
      VF_CHECK("wx.last", w.lastTime == (m.empty() ? CommonTime::BEGINNING_OF_TIME : t0 + m.rbegin()->first / 4.0), ops << " last " << w.lastTime.asString());
   }
   if (m.size()) { const WxObservation& o = m.begin()->second; std::ostringstream s, x; s << o; x << o.t << ", t=" << o.temperature << ", p=" << o.pressure << ", rh=" << o.humidity; VF_CHECK("wx.text", s.str() == x.str(), s.str()); }
   c.distinct(ops);
   // from files
   string fn = vf::scratch() + "/w.txt", fn2 = vf::scratch() + "/w2.txt";
   map<CommonTime, std::pair<Rec, vector<MT> > > all;
   MetReader mr;
   for (int i = r.range(1, 2); i > 0; i--)
   {
      Met k = make(r);
      Lines L = headText(k);
      for (auto& q : k.recs) { for (auto& l : recText(k, q)) L.push_back(l); all[ct(q.mjd, q.sod)] = {q, k.types}; }
      vf::spit(fn, join(L));
      if (i == 1 && all.size() == k.recs.size() && r.chance(0.5)) { MetReader o(fn); mr.wx = o.wx; }
      else mr.read(fn);
   }
   bool ok = mr.wx.obs.size() == all.size(), src = true;
   for (auto& e : all)
   {
      auto i = mr.wx.obs.find(e.first);
      if (i == mr.wx.obs.end()) { ok = false; continue; }
      const WxObservation& o = i->second;
      auto chk = [&](MT t, float g, WxObservation::EWxSrc s) { auto j = e.second.first.v.find(t); if (j == e.second.first.v.end()) src = src && s == WxObservation::noWx; else { src = src && s == WxObservation::obsWx; ok = ok && g == float(j->second); } };
      chk(H::TD, o.temperature, o.temperatureSource); chk(H::PR, o.pressure, o.pressureSource); chk(H::HR, o.humidity, o.humiditySource);
   }
   VF_CHECK("reader.values", ok, mr.wx.obs.size() << " observations, want " << all.size());
   VF_CHECK("reader.sources", src, "an observation the file does not have is marked as observed");
}
int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"file", 3000, 40000, fileS}, {"op", 4000, 60000, opS}, {"wx", 4000, 60000, wxS}});
}
