// C39: ionosphere maps survive IONEX files and give the values their grid defines
#include "vf.hpp"
#include <cstdarg>
#include <algorithm>
#include <set>
#include <map>
#include "IonexStream.hpp"
#include "IonexHeader.hpp"
#include "IonexData.hpp"
#include "IonexStore.hpp"
#include "CivilTime.hpp"
#include "MJD.hpp"
#include "Position.hpp"
using namespace gpstk;
using std::string; using std::vector; using std::set; using std::map;
typedef vector<string> Lines;
typedef long double ld;
static string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static string rtrim(string s) { size_t n = s.find_last_not_of(" \r"); return n == string::npos ? "" : s.substr(0, n + 1); }
static string pad(const string& s, size_t n) { return (s + string(n, ' ')).substr(0, n); }
static Lines split(const string& t) { Lines v; std::istringstream i(t); string l; while (std::getline(i, l)) v.push_back(l); return v; }
static string join(const Lines& v) { string s; for (auto& l : v) s += l + "\n"; return s; }
static string lab(const string& s, const string& l) { return pad(s, 60) + pad(l, 20); }
static string word(vf::Rng& r, int n) { string s = r.str(r.range(1, n), "ABCxyz019-./ "); s[0] = 'W'; s[s.size() - 1] = 'e'; return s; }
struct Cal { int y, mo, d, h, mi, s; };
static Cal cal(long mjd, long sod) { mjd += sod / 86400; sod %= 86400; long j = mjd + 2400001; long a = j + 32044, b = (4 * a + 3) / 146097, c = a - 146097 * b / 4, d = (4 * c + 3) / 1461, e = c - 1461 * d / 4, m = (5 * e + 2) / 153; Cal r; r.d = e - (153 * m + 2) / 5 + 1; r.mo = m + 3 - 12 * (m / 10); r.y = 100 * b + d - 4800 + m / 10; r.h = sod / 3600; r.mi = sod / 60 % 60; r.s = sod % 60; return r; }
static CommonTime ct(long mjd, double sod) { return MJD((long double)mjd, TimeSystem::Unknown).convertToCommonTime() + sod; }
static string tm6(long mjd, long sod) { Cal c = cal(mjd, sod); return fmt("%6d%6d%6d%6d%6d%6d", c.y, c.mo, c.d, c.h, c.mi, c.s); }

struct Grid { ld a, d; int n; bool cyc; ld at(int i) const { return a + i * d; } double lo() const { return (double)a; } double hi() const { return atof(fmt("%.1Lf", at(n - 1)).c_str()); } double st() const { return (double)d; } };
static ld tenth(ld x) { return roundl(x * 10) / 10; }
static Grid gridLat(vf::Rng& r)
{
   Grid g; g.cyc = false;
   int d = r.pick(vector<int>{1, 3, 4, 5, 7, 10, 20, 25, 50, 100});   // tenths of a degree
   int top = 900 / d, k = r.range(-top, top - 1);
   g.n = std::min<int>(r.range(2, 12), top - k + 1);
   bool up = r.chance(0.3);
   g.d = (up ? 1 : -1) * d / 10.0L;
   g.a = (up ? k : k + g.n - 1) * d / 10.0L;
   return g;
}
static Grid gridLon(vf::Rng& r)
{
   Grid g;
   bool up = r.chance(0.85);
   if (r.chance(0.65)) {
      int d = r.pick(vector<int>{50, 100, 200, 300, 72, 360, 450, 25});
      int c = 3600 / d;
      g.cyc = true;
      int start = d == 72 || d == 360 || d == 200 || d == 50 || d == 100 || d == 300 || d == 450 || d == 25 ? (r.chance(0.6) ? -1800 : 0) : 0;
      g.n = r.chance(0.7) ? c + 1 : c;
      g.d = (up ? 1 : -1) * d / 10.0L;
      g.a = start / 10.0L;
      if (!up) g.a = start == 0 ? 360 : 180;
   } else {
      g.cyc = false;
      int d = r.pick(vector<int>{1, 3, 4, 5, 7, 10, 25, 50});
      int k = r.range(-1700 / d, 1500 / d);
      g.n = std::max(2, std::min<int>(r.range(2, 35), (1790 - k * d) / d));
      g.d = (up ? 1 : -1) * d / 10.0L;
      g.a = (up ? k : k + g.n - 1) * d / 10.0L;
   }
   return g;
}
struct Map { int id; bool rms; long mjd, sod; vector<int> v; };
struct Ion
{
   string sys, pgm, ag, date, mapf, obs, aux; Lines desc, com; long mjd, sod; int dt; size_t nmaps; double elev, radius; int nst, nsv, dims, exp; Grid lat, lon; double h[3]; int nh; map<SatID, IonexHeader::DCB> dcb; bool hasAux; vector<Map> maps;
};
struct Ion; static void close_(const Ion& m, vector<int>& v);
static Ion make(vf::Rng& r, bool d3 = true)
{
   Ion m;
   m.sys = r.pick(vector<string>{"GPS", "GNSS", "GEO", "MIX", "BEN"});
   m.pgm = word(r, 20); m.ag = word(r, 20); m.date = "17-JAN-02 12:00";
   m.mapf = r.pick(vector<string>{"COSZ", "NONE", "QFAC"}); m.obs = r.chance(0.8) ? word(r, 60) : "";
   for (int i = r.range(0, 3); i > 0; i--) m.desc.push_back(word(r, r.chance(0.3) ? 60 : 12));
   for (int i = r.range(0, 3); i > 0; i--) m.com.push_back(word(r, r.chance(0.3) ? 60 : 12));
   m.mjd = r.range(44244, 80000); m.sod = r.chance(0.5) ? 0 : r.range(0, 86399);
   m.nmaps = r.range(1, 4); m.dt = r.pick(vector<int>{900, 3600, 7200, 7201, 86400, 1});
   m.elev = r.range(0, 900) / 10.0; m.radius = r.chance(0.5) ? 6371.0 : r.range(60000, 65000) / 10.0;
   m.nst = r.chance(0.3) ? 0 : r.range(1, 999); m.nsv = r.chance(0.3) ? 0 : r.range(1, 99);
   m.exp = r.pick(vector<int>{-1, -1, -1, 0, 1, -2, -3});
   m.lat = gridLat(r); m.lon = gridLon(r);
   m.dims = d3 && r.chance(0.25) ? 3 : 2;
   m.nh = 1;
   m.h[0] = m.h[1] = r.pick(vector<int>{450, 400, 350}); m.h[2] = 0;
   if (m.dims == 3) { m.nh = r.range(2, 4); m.h[2] = r.pick(vector<int>{50, 100}) * (r.chance(0.8) ? 1 : -1); m.h[1] = m.h[0] + (m.nh - 1) * m.h[2]; }
   m.hasAux = r.chance(0.6);
   if (m.hasAux) { m.aux = "DIFFERENTIAL CODE BIASES"; for (int i = r.range(0, 12); i > 0; i--) { bool g = r.chance(0.7); int p = r.range(1, 32); IonexHeader::DCB d(g ? 'G' : 'R', p, r.range(-30000, 30000) / 1000.0, r.range(0, 999) / 1000.0); m.dcb[SatID(p, g ? SatelliteSystem::GPS : SatelliteSystem::Glonass)] = d; } }
   bool rms = r.chance(0.5);
   for (int k = 0; k < (rms ? 2 : 1); k++)
      for (size_t i = 0; i < m.nmaps; i++)
      {
         Map p; p.id = int(i + 1); p.rms = k == 1; p.mjd = m.mjd; p.sod = m.sod + long(i) * m.dt;
         bool hole = r.chance(0.5);
         for (int q = m.lat.n * m.lon.n * m.nh; q > 0; q--) p.v.push_back(hole && r.chance(0.05) ? 9999 : k == 0 && r.chance(0.02) ? int(r.pick(vector<int>{0, 9998, -999})) : int(r.range(0, 1200)));
         close_(m, p.v);
         m.maps.push_back(p);
      }
   return m;
}
// the meridian a global grid gives twice has the same values
static void close_(const Ion& m, vector<int>& v) { if (m.lon.cyc && m.lon.n > llroundl(360 / fabsl(m.lon.d))) for (size_t i = m.lon.n - 1; i < v.size(); i += m.lon.n) v[i] = v[i - (m.lon.n - 1)]; }
static Lines headText(const Ion& m)
{
   Lines L;
   L.push_back(lab(pad("     1.0", 20) + pad("IONOSPHERE MAPS", 20) + m.sys, "IONEX VERSION / TYPE"));
   L.push_back(lab(pad(m.pgm, 20) + pad(m.ag, 20) + m.date, "PGM / RUN BY / DATE"));
   if (m.com.size()) L.push_back(lab(m.com[0], "COMMENT"));
   for (auto& s : m.desc) L.push_back(lab(s, "DESCRIPTION"));
   L.push_back(lab(tm6(m.mjd, m.sod), "EPOCH OF FIRST MAP"));
   L.push_back(lab(tm6(m.mjd, m.sod + long(m.nmaps - 1) * m.dt), "EPOCH OF LAST MAP"));
   L.push_back(lab(fmt("%6d", m.dt), "INTERVAL"));
   L.push_back(lab(fmt("%6zu", m.nmaps), "# OF MAPS IN FILE"));
   L.push_back(lab("  " + m.mapf, "MAPPING FUNCTION"));
   L.push_back(lab(fmt("%8.1f", m.elev), "ELEVATION CUTOFF"));
   L.push_back(lab(m.obs, "OBSERVABLES USED"));
   if (m.nst) L.push_back(lab(fmt("%6d", m.nst), "# OF STATIONS"));
   if (m.nsv) L.push_back(lab(fmt("%6d", m.nsv), "# OF SATELLITES"));
   L.push_back(lab(fmt("%8.1f", m.radius), "BASE RADIUS"));
   L.push_back(lab(fmt("%6d", m.dims), "MAP DIMENSION"));
   L.push_back(lab(fmt("  %6.1f%6.1f%6.1f", m.h[0], m.h[1], m.h[2]), "HGT1 / HGT2 / DHGT"));
   L.push_back(lab(fmt("  %6.1f%6.1f%6.1f", m.lat.lo(), m.lat.hi(), m.lat.st()), "LAT1 / LAT2 / DLAT"));
   L.push_back(lab(fmt("  %6.1f%6.1f%6.1f", m.lon.lo(), m.lon.hi(), m.lon.st()), "LON1 / LON2 / DLON"));
   L.push_back(lab(fmt("%6d", m.exp), "EXPONENT"));
   for (size_t i = 1; i < m.com.size(); i++) L.push_back(lab(m.com[i], "COMMENT"));
   if (m.hasAux)
   {
      L.push_back(lab(m.aux, "START OF AUX DATA"));
      for (auto& d : m.dcb) L.push_back(lab(fmt("   %c%02d%10.3f%10.3f", d.second.system, d.second.prn, d.second.bias, d.second.rms), "PRN / BIAS / RMS"));
      L.push_back(lab(m.aux, "END OF AUX DATA"));
   }
   L.push_back(lab("", "END OF HEADER"));
   return L;
}
static Lines mapText(const Ion& m, const Map& p)
{
   Lines L;
   L.push_back(lab(fmt("%6d", p.id), p.rms ? "START OF RMS MAP" : "START OF TEC MAP"));
   L.push_back(lab(tm6(p.mjd, p.sod), "EPOCH OF CURRENT MAP"));
   size_t q = 0;
   for (int h = 0; h < m.nh; h++)
      for (int i = 0; i < m.lat.n; i++)
      {
         L.push_back(lab(fmt("  %6.1Lf%6.1f%6.1f%6.1f%6.1f", tenth(m.lat.at(i)) + 0.0L, m.lon.lo(), m.lon.hi(), m.lon.st(), m.h[0] + h * m.h[2]), "LAT/LON1/LON2/DLON/H"));
         string s;
         for (int k = 0; k < m.lon.n; k++) { s += fmt("%5d", p.v[q++]); if (s.size() == 80) { L.push_back(s); s.clear(); } }
         if (s.size()) L.push_back(s);
      }
   L.push_back(lab(fmt("%6d", p.id), p.rms ? "END OF RMS MAP" : "END OF TEC MAP"));
   return L;
}
static void grid3(double* o, const Grid& g) { o[0] = g.lo(); o[1] = g.hi(); o[2] = g.st(); }
static IonexHeader toHead(const Ion& m)
{
   IonexHeader h;
   h.clear();
   h.version = 1.0; h.fileType = "IONOSPHERE MAPS"; h.system = m.sys; h.fileProgram = m.pgm; h.fileAgency = m.ag; h.date = m.date; h.descriptionList = m.desc; h.commentList = m.com;
   h.firstEpoch = ct(m.mjd, m.sod); h.lastEpoch = h.firstEpoch + double(m.nmaps - 1) * m.dt; h.interval = m.dt; h.numMaps = m.nmaps; h.mappingFunction = m.mapf; h.elevation = m.elev; h.observablesUsed = m.obs; h.numStations = m.nst; h.numSVs = m.nsv; h.baseRadius = m.radius; h.mapDims = m.dims;
   for (int i = 0; i < 3; i++) h.hgt[i] = m.h[i];
   grid3(h.lat, m.lat); grid3(h.lon, m.lon);
   h.exponent = m.exp; h.auxData = m.aux; h.svsmap = m.dcb; h.auxDataFlag = m.hasAux; h.valid = true;
   return h;
}
static IonexData toData(const Ion& m, const Map& p)
{
   IonexData d;
   d.mapID = p.id; d.time = ct(p.mjd, p.sod); d.type = p.rms ? IonexData::RMS : IonexData::TEC; d.exponent = m.exp; d.valid = true;
   d.dim[0] = m.lat.n; d.dim[1] = m.lon.n; d.dim[2] = m.nh;
   grid3(d.lat, m.lat); grid3(d.lon, m.lon);
   for (int i = 0; i < 3; i++) d.hgt[i] = m.h[i];
   d.data.resize(p.v.size(), 0.0);
   for (size_t i = 0; i < p.v.size(); i++) d.data[i] = p.v[i] == 9999 ? 999.9 : p.v[i] * pow(10.0, m.exp);
   return d;
}
static Lines trimmed(const Lines& v) { Lines o; for (auto& s : v) o.push_back(rtrim(s)); return o; }
static void sameHead(const string& k, const IonexHeader& h, const Ion& m, bool textOrder = false)
{
   VF_CHECK(k + ".valid", h.valid && h.version == 1.0, "");
   VF_CHECK(k + ".run", h.fileType == "IONOSPHERE MAPS" && h.system == m.sys && h.fileProgram == m.pgm && h.fileAgency == m.ag && h.date == m.date, h.fileType << "/" << h.system << "/" << h.fileProgram << "/" << h.fileAgency << "/" << h.date);
   VF_CHECK(k + ".comments", trimmed(h.commentList) == m.com && trimmed(h.descriptionList) == m.desc, h.commentList.size() << " comments, " << h.descriptionList.size() << " descriptions");
   VF_CHECK(k + ".epochs", h.firstEpoch == ct(m.mjd, m.sod) && h.lastEpoch == ct(m.mjd, m.sod) + double(m.nmaps - 1) * m.dt, h.firstEpoch.asString() << " " << h.lastEpoch.asString());
   VF_CHECK(k + ".counts", h.interval == m.dt && h.numMaps == m.nmaps && int(h.numStations) == m.nst && int(h.numSVs) == m.nsv && int(h.mapDims) == m.dims && h.exponent == m.exp, h.interval << " " << h.numMaps << " " << h.numStations << " " << h.numSVs << " " << h.mapDims << " " << h.exponent);
   VF_CHECK(k + ".model", h.mappingFunction == m.mapf && h.elevation == m.elev && h.observablesUsed == m.obs && h.baseRadius == m.radius, h.mappingFunction << " " << h.elevation << " " << h.observablesUsed << " " << h.baseRadius);
   double la[3], lo[3]; grid3(la, m.lat); grid3(lo, m.lon);
   bool ok = true; for (int i = 0; i < 3; i++) ok = ok && h.hgt[i] == m.h[i] && h.lat[i] == la[i] && h.lon[i] == lo[i];
   VF_CHECK(k + ".grid", ok, "lat " << h.lat[0] << " " << h.lat[1] << " " << h.lat[2] << " lon " << h.lon[0] << " " << h.lon[1] << " " << h.lon[2]);
   ok = h.svsmap.size() == m.dcb.size() && h.auxDataFlag == m.hasAux;
   for (auto& d : m.dcb) { auto i = h.svsmap.find(d.first); ok = ok && i != h.svsmap.end() && i->second.system == d.second.system && i->second.prn == d.second.prn && i->second.bias == d.second.bias && i->second.rms == d.second.rms; }
   VF_CHECK(k + ".biases", ok, h.svsmap.size() << " biases, want " << m.dcb.size() << " flag " << h.auxDataFlag);
   (void)textOrder;
}
static void sameMap(const string& k, const IonexData& d, const Ion& m, const Map& p)
{
   VF_CHECK(k + ".map.id", d.isValid() && d.mapID == p.id && d.type == (p.rms ? IonexData::RMS : IonexData::TEC) && d.exponent == m.exp, d.mapID << " " << d.type);
   VF_CHECK(k + ".map.time", d.time == ct(p.mjd, p.sod), d.time.asString());
   double la[3], lo[3]; grid3(la, m.lat); grid3(lo, m.lon);
   bool ok = d.dim[0] == m.lat.n && d.dim[1] == m.lon.n && d.dim[2] == m.nh; for (int i = 0; i < 3; i++) ok = ok && d.hgt[i] == m.h[i] && d.lat[i] == la[i] && d.lon[i] == lo[i];
   VF_CHECK(k + ".map.grid", ok, d.dim[0] << " x " << d.dim[1] << " x " << d.dim[2] << " want " << m.lat.n << " x " << m.lon.n << " x " << m.nh);
   ok = d.data.size() == p.v.size();
   size_t bad = 0;
   for (size_t i = 0; ok && i < p.v.size(); i++) { double w = p.v[i] == 9999 ? 999.9 : p.v[i] * (double)powl(10, m.exp); if (!(fabs(d.data[i] - w) <= 1e-12 * fabs(w)) || (p.v[i] == 9999 && d.data[i] != 999.9)) { ok = false; bad = i; } }
   VF_CHECK(k + ".map.values", ok, d.data.size() << " values, want " << p.v.size() << ", differing at " << bad);
}
static void readAll(const string& k, const string& fn, const Ion& m, vf::Rng& r)
{
   IonexStream s(fn.c_str());
   static IonexHeader used;
   IonexHeader h;
   IonexHeader& H = r.chance(0.3) ? used : h;
   if (r.chance(0.7)) { s >> H; VF_CHECK(k + ".open", (bool)s && s.headerRead, "header not read"); if (!s) return; sameHead(k, H, m); }
   IonexData d;
   size_t n = 0;
   while (s >> d && d.isValid()) { if (n < m.maps.size()) sameMap(k, d, m, m.maps[n]); n++; }
   VF_CHECK(k + ".count", n == m.maps.size() && (bool)s, n << " maps, want " << m.maps.size());
   if (s) { s >> d; VF_CHECK(k + ".eof", !s && s.eof(), "more after the end of the file"); }
   sameHead(k + ".stream", s.header, m);
}
static void fileS(vf::Case& c)
{
   vf::Rng& r = c.rng;
   string fn = vf::scratch() + "/i.txt", fn2 = vf::scratch() + "/j.txt";
   Ion m = make(r);
   Lines want = headText(m);
   size_t nh = want.size();
   for (auto& p : m.maps) for (auto& l : mapText(m, p)) want.push_back(l);
   want.push_back(lab("", "END OF FILE"));
   c.distinct(join(want));
   c.sample(fmt("%d x %d x %d, %zu maps", m.lat.n, m.lon.n, m.nh, m.maps.size()));
   {
      IonexStream o(fn.c_str(), std::ios::out);
      o << toHead(m);
      VF_CHECK("write.header", (bool)o, "header not written");
      for (auto& p : m.maps) { o << toData(m, p); VF_CHECK("write.data", (bool)o, "map not written"); }
      { IonexData bad = toData(m, m.maps[0]); bad.valid = false; o << bad; }   // nothing
      VF_CHECK("write.lines", o.lineNumber + 1 == want.size(), o.lineNumber << " want " << want.size() - 1);
      o << lab("", "END OF FILE") << std::endl;
   }
   Lines got = split(vf::slurp(fn));
   VF_CHECK("write.size", got.size() == want.size(), got.size() << " lines, want " << want.size());
   auto nz = [](string s) { size_t i; while ((i = s.find(" -0.0")) != string::npos) s.replace(i, 5, "  0.0"); return rtrim(s); };
   for (size_t i = 0; i < got.size() && i < want.size(); i++)
      if (nz(got[i]) != nz(want[i]) || i == 0) VF_CHECK(i < nh ? "write.text.header" : "write.text.map", nz(got[i]) == nz(want[i]), "line " << i + 1 << " /" << got[i] << "/ want /" << want[i] << "/");
   readAll("read", fn, m, r);
   c.count("files"); c.count("maps", m.maps.size());
   // own text: records in another order, blank lines, biases as other centres write them
   {
      Ion m2 = m;
      Lines t = headText(m), top(t.begin(), t.begin() + 1), mid, tail;
      size_t a = 1; while (a < t.size() && t[a].substr(60, 5) != "START" && t[a].substr(60, 6) != "END OF") a++;
      mid.assign(t.begin() + 1, t.begin() + a);
      if (r.chance(0.7)) r.shuffle(mid);
      m2.com.clear(); m2.desc.clear();
      for (auto& l : mid) { if (rtrim(l.substr(60)) == "COMMENT") m2.com.push_back(rtrim(l.substr(0, 60))); if (rtrim(l.substr(60)) == "DESCRIPTION") m2.desc.push_back(rtrim(l.substr(0, 60))); }
      Lines aux(t.begin() + a, t.end());
      if (m.hasAux && r.chance(0.5))
      {
         for (auto& l : aux) if (l.substr(60, 3) == "PRN" && l[3] == 'G' && r.chance(0.3)) { l[3] = ' '; }
         for (auto& d : m2.dcb) (void)d;
         Lines n; n.push_back(aux[0]);
         for (size_t i = 1; i < aux.size(); i++) { n.push_back(aux[i]); }
         aux = n;
         size_t e = 0; while (rtrim(aux[e].substr(60)) != "END OF AUX DATA") e++;
         aux.insert(aux.begin() + e, lab("   G  ALIC 50137M0014            -12.345     0.123", "STATION / BIAS / RMS"));
         if (r.chance(0.5)) { aux.insert(aux.begin() + e + 1, lab("DCB comment", "COMMENT")); m2.com.push_back("DCB comment"); }
      }
      Lines f = top;
      for (auto& l : mid) f.push_back(l);
      for (auto& l : aux) f.push_back(l);
      if (r.chance(0.4)) f.insert(f.begin() + 1 + r.below(f.size() - 1), string(r.chance(0.5) ? 0 : 10, ' '));
      for (auto& p : m.maps) { if (r.chance(0.3)) f.push_back(""); for (auto& l : mapText(m, p)) f.push_back(l); }
      f.push_back(lab("", "END OF FILE"));
      if (r.chance(0.5)) for (auto& l : f) l = rtrim(l);
      if (r.chance(0.2)) for (auto& l : f) l += "\r";
      vf::spit(fn2, join(f));
      readAll("text", fn2, m2, r);
      // an interval of zero says that it varies
      if (r.chance(0.3)) { Ion m3 = m2; m3.dt = 0; for (auto& l : f) if (l.size() > 60 && l.substr(60, 8) == "INTERVAL") l.replace(0, 6, "     0"); vf::spit(fn2, join(f)); IonexStream s(fn2.c_str()); IonexHeader h; s >> h; VF_CHECK("text.varying", (bool)s && h.interval == 0 && h.valid, "an interval of 0 is refused"); }
   }
   // dumps
   {
      IonexHeader h = toHead(m); std::ostringstream o; h.dump(o);
      string d = o.str();
      auto has = [&](const string& l, const string& v) { size_t i = d.find(l); return i != string::npos && d.compare(d.find(": ", i) + 2, v.size() + 1, v + "\n") == 0; };
      auto num = [](double x) { std::ostringstream s; s << x; return s.str(); };
      VF_CHECK("dump.header", has("Interval", fmt("%d", m.dt)) && has("Number of ionex maps", fmt("%zu", m.nmaps)) && has("Mapping function", m.mapf) && has("Elevation cut off", num(m.elev)) && has("Number of stations", fmt("%d", m.nst)) && has("Number of satellites", fmt("%d", m.nsv)) && has("Map dimensions", fmt("%d", m.dims)) && has("LAT1", num(h.lat[0]) + " / " + num(h.lat[1]) + " / " + num(h.lat[2])) && has("LON1", num(h.lon[0]) + " / " + num(h.lon[1]) + " / " + num(h.lon[2])) && has("HGT1", num(h.hgt[0]) + " / " + num(h.hgt[1]) + " / " + num(h.hgt[2])), d);
      IonexData x = toData(m, m.maps.back()); std::ostringstream o2; x.dump(o2); d = o2.str();
      VF_CHECK("dump.data", has("Map index", fmt("%d", m.maps.back().id)) && has("Data type", m.maps.back().rms ? "RMS (TECU)" : "TEC (TECU)") && has("Grid size", fmt("%d x %d x %d", m.lat.n, m.lon.n, m.nh)) && has("Number of values", fmt("%zu values.", m.maps.back().v.size())) && has("Valid object?", "1"), d);
      h.clear();
      VF_CHECK("clear", h.version == 1.0 && h.descriptionList.empty() && h.commentList.empty() && h.interval == 0 && h.numMaps == 0 && h.numStations == 0 && h.numSVs == 0 && h.mapDims == 0 && h.exponent == -1 && h.svsmap.empty() && !h.valid && !h.auxDataFlag && h.lat[2] == 0 && h.lon[0] == 0 && h.hgt[1] == 0, "");
   }
   // refused
   {
      IonexStream o(fn.c_str(), std::ios::out); o.exceptions(std::ios::failbit);
      IonexHeader h = toHead(m);
      if (r.chance(0.5)) { h.version = 1.1; VF_THROWS("refuse.write.version", FFStreamError, o << h, ""); } else { h.fileType = "OBSERVATION DATA"; VF_THROWS("refuse.write.type", FFStreamError, o << h, ""); }
      o.clear();
      IonexData d = toData(m, m.maps[0]); d.type = IonexData::UN;
      VF_THROWS("refuse.write.map", FFStreamError, o << d, "");
      o.exceptions(std::ios::goodbit);
   }
   {
      Lines g = headText(m); string what; size_t hl = g.size();
      auto rep = [&](const string& l, const string& v) { for (size_t i = 0; i < g.size(); i++) if (rtrim(g[i].substr(60)) == l) g[i] = lab(v, l); what = l + " " + v; };
      int k = r.range(0, 9);
      if (k == 0) { g[0] = lab(pad(r.pick(vector<string>{"     1.1", "     2.0", "     0.9"}), 20) + pad("IONOSPHERE MAPS", 20), "IONEX VERSION / TYPE"); what = g[0]; }
      else if (k == 1) { size_t i = r.below(hl); g[i] = r.chance(0.5) ? "x" + string(r.range(1, 57), 'y') : pad(g[i], 80) + "x"; what = "length of line " + std::to_string(i); }
      else if (k == 2) { size_t i = 1 + r.below(hl - 2); g[i] = lab(g[i].substr(0, 60), r.pick(vector<string>{"COMMENTS", "INTERVALS", "EPOCH OF MAP", "STATION"})); what = g[i]; }
      else if (k == 3) { if (m.nmaps < 2) rep("INTERVAL", fmt("%6d", m.dt)), rep("# OF MAPS IN FILE", "     0"); rep("INTERVAL", fmt("%6d", m.dt + (m.dt > 1 && r.chance(0.5) ? -1 : 1))); if (m.nmaps < 2) { rep("# OF MAPS IN FILE", "     2"); } }
      else if (k == 4) { if (m.dims == 2) rep("HGT1 / HGT2 / DHGT", r.chance(0.5) ? "   450.0 450.0  10.0" : "   450.0 500.0   0.0"); else rep("HGT1 / HGT2 / DHGT", r.chance(0.5) ? "   450.0 450.0  10.0" : "   450.0 500.0   0.0"); }
      else if (k == 5) rep("MAP DIMENSION", m.dims == 2 ? "     3" : "     2");
      else if (k == 6) { const char* l = r.chance(0.5) ? "LAT1 / LAT2 / DLAT" : "LON1 / LON2 / DLON"; rep(l, r.pick(vector<string>{"    10.0 -10.0   0.0", "    10.0 -10.0  -3.0", "    11.0 -10.0  -5.0", "    10.0 -10.0   5.0"})); }
      else if (k == 7) { g.pop_back(); what = "no end of header"; }
      else if (k == 8 && m.dcb.size()) { for (auto& l : g) if (l.substr(60, 3) == "PRN") { l[3] = r.pick(vector<char>{'X', 'E', '1'}); what = l; break; } }
      else { what = "map"; }
      bool map = what == "map";
      const Map& p = m.maps[0];
      Lines b = mapText(m, p);
      if (map)
      {
         int q = r.range(0, 4);
         if (q == 0) { size_t i = 2, e = i + 1 + (m.lon.n + 15) / 16; Lines x(b.begin() + i, b.begin() + e); b.insert(b.begin() + e, x.begin(), x.end()); what = "a latitude too many"; }
         else if (q == 1) { b.erase(b.begin() + 1); what = "map without epoch"; }
         else if (q == 2) { b[1] = lab(b[1].substr(0, 60), "EPOCH OF LAST MAP"); what = "label"; }
         else if (q == 3) { b.erase(b.begin()); what = "no start of map"; }
         else { b[3] = pad(b[3], 81) + "x"; what = "long line of values"; }
      }
      for (auto& l : b) g.push_back(l);
      g.push_back(lab("", "END OF FILE"));
      vf::spit(fn2, join(g));
      IonexStream s(fn2.c_str()); s.exceptions(std::ios::failbit);
      if (!map) { IonexHeader h; VF_THROWS("refuse.read.header", FFStreamError, s >> h, what); VF_CHECK("refuse.read.flag", !s.headerRead, what); }
      else { IonexData d; VF_THROWS("refuse.read.map", FFStreamError, s >> d, what); }
      s.exceptions(std::ios::goodbit);
   }
}
// ---------------------------------------------------------------- values
enum Res { OK, OUT, UNDEF };
static ld norm(ld lam, const Grid& g)    // steps from the first meridian, in [0, steps of a turn)
{
   ld u = (lam - g.a) / g.d, c = 360 / fabsl(g.d);
   ld v = u - c * floorl(u / c + 1e-12L);
   return v < 0 ? 0 : v;
}
static Res value(const Ion& m, const Map& p, ld beta, ld lam, int h, ld& out)
{
   const ld E = 1e-9L;
   ld v = (beta - m.lat.a) / m.lat.d, u = norm(lam, m.lon);
   ld c = 360 / fabsl(m.lon.d);
   if (v < -E || v > m.lat.n - 1 + E) return OUT;
   int i = int(floorl(v + E)), k = int(floorl(u + E));
   ld q = v - i, w = u - k;
   if (fabsl(q) < E) q = 0;
   if (fabsl(w) < E) w = 0;
   if (m.lon.cyc) { if (k >= llroundl(c)) k -= llroundl(c); }
   if (k > m.lon.n - 1 || (!m.lon.cyc && k == m.lon.n - 1 && w > 0)) return OUT;
   if (i == m.lat.n - 1 && q > 0) return OUT;
   int k2 = k + 1 < m.lon.n ? k + 1 : k + 1 - int(llroundl(c)), i2 = i + 1;
   ld s = 0;
   bool un = false;
   auto add = [&](int a, int b, ld f) { if (f == 0) return; int x = p.v[(h * m.lat.n + a) * m.lon.n + b]; if (x == 9999) un = true; s += f * x * powl(10, m.exp); };
   add(i, k, (1 - q) * (1 - w)); add(i, k2, (1 - q) * w); add(i2, k, q * (1 - w)); add(i2, k2, q * w);
   out = s;
   return un ? UNDEF : OK;
}
static double lonIn(ld l) { while (l < 0) l += 360; while (l >= 360) l -= 360; return (double)l; }
static void place(vf::Rng& r, const Ion& m, ld& b, ld& l, bool inside = false)
{
   int i = r.range(0, m.lat.n - 1), k = r.range(0, m.lon.n - 1);
   auto frac = [&]() { return r.chance(0.35) ? 0.0L : (ld)r.unif(0.01, 0.99); };
   ld q = frac(), w = frac();
   if (i == m.lat.n - 1 && (inside || r.chance(0.8))) q = 0;
   if (k == m.lon.n - 1 && !m.lon.cyc && (inside || r.chance(0.8))) w = 0;
   if (!inside && r.chance(0.05)) i = r.chance(0.5) ? -1 : m.lat.n;
   b = m.lat.a + (i + q) * m.lat.d; l = m.lon.a + (k + w) * m.lon.d;
   if (b > 90) b = 90; if (b < -90) b = -90;
}
static void valueS(vf::Case& c)
{
   vf::Rng& r = c.rng;
   Ion m = make(r);
   for (int n = 0; n < 12; n++)
   {
      const Map& p = m.maps[r.below(m.maps.size())];
      IonexData d = toData(m, p);
      ld b, l;
      place(r, m, b, l);
      int h = r.range(0, m.nh - 1);
      double H = (m.h[0] + h * m.h[2]) * 1000;
      WGS84Ellipsoid we;
      Position x((double)b, lonIn(l), we.a() + H + (m.nh > 1 ? m.h[2] * 250 : 0), Position::Geocentric);
      ld want = 0;
      // a position of a double, wrapped into a turn
      Res res = value(m, p, x.theArray[0], x.theArray[1], h, want);
      string what = fmt("at %.17g %.17g in lat %g %g %g lon %g %g %g", x.theArray[0], x.theArray[1], d.lat[0], d.lat[1], d.lat[2], d.lon[0], d.lon[1], d.lon[2]);
      c.distinct(what);
      if (res == OUT) { c.count("outside"); VF_THROWS("value.outside", InvalidRequest, d.getValue(x), what); }
      else if (res == UNDEF) { c.count("undefined"); VF_THROWS("value.undefined", FFStreamError, d.getValue(x), what); }
      else
      {
         double g = NAN; string e;
         try { g = d.getValue(x); } catch (Exception& q) { e = q.getText(0); }
         VF_CHECK("value.interpolated", fabsl(g - want) <= 1e-9L * powl(10, m.exp) * 10000, what << " gave " << g << " " << e << " want " << (double)want);
         c.count("values");
      }
      // indexes
      {
         int i = r.range(0, m.lat.n - 1), k = r.range(0, m.lon.n - 1), hh = r.range(0, m.nh - 1);
         double q = r.unif(-0.45, 0.45), w = r.unif(-0.45, 0.45);
         Triple in((double)(m.lat.a + (i + q) * m.lat.d), (double)(m.lon.a + (k + w) * m.lon.d), (m.h[0] + hh * m.h[2]) * 1000), out;
         bool near = r.chance(0.5);
         if (!near) { in[0] = (double)(m.lat.a + (i + fabs(q) + 0.05) * m.lat.d); in[1] = (double)(m.lon.a + (k + fabs(w) + 0.05) * m.lon.d); }
         int g = -1; string e;
         try { g = d.getIndex(in, near ? 1 : 2, out); } catch (Exception& x) { e = x.getText(0); }
         int kk = k; if (m.lon.cyc && m.lon.n > llroundl(360 / fabsl(m.lon.d)) && k == m.lon.n - 1 && g >= 0 && g % m.lon.n == 0) kk = 0;   // the meridian given twice
         if (m.lon.cyc && k == 0 && g >= 0 && g % m.lon.n == llroundl(360 / fabsl(m.lon.d))) kk = g % m.lon.n;
         VF_CHECK(near ? "index.nearest" : "index.corner", g == (hh * m.lat.n + i) * m.lon.n + kk, what << " index " << g << " " << e << " want " << i << "," << k << "," << hh);
         if (g >= 0) VF_CHECK("index.point", fabs(out[0] - (double)m.lat.at(i)) < 1e-9 && fabs(out[1] - (double)m.lon.at(kk)) < 1e-9 && fabs(out[2] - (m.nh > 1 ? (m.h[0] + hh * m.h[2]) * 1000 : m.h[0])) < 1e-6, what << " point " << out[0] << " " << out[1] << " " << out[2]);
         Triple bad = in; int z = r.range(0, m.nh > 1 ? 2 : m.lon.cyc ? 0 : 1);
         if (z == 0) bad[0] = (double)(r.chance(0.5) ? m.lat.a - 0.6L * m.lat.d : m.lat.at(m.lat.n - 1) + 1.1L * m.lat.d);
         else if (z == 1 && m.lon.cyc) z = -1;
         else if (z == 1) bad[1] = (double)(r.chance(0.5) ? m.lon.a - 0.6L * m.lon.d : m.lon.at(m.lon.n - 1) + 1.1L * m.lon.d);
         else bad[2] = (r.chance(0.5) ? m.h[0] - 1.1 * m.h[2] : m.h[1] + 1.1 * m.h[2]) * 1000;
         if (z >= 0) VF_THROWS("index.outside", InvalidRequest, d.getIndex(bad, near ? 1 : 2, out), what << " for " << bad[0] << " " << bad[1] << " " << bad[2]);
      }
      if (n == 0) { Position y(x); y.transformTo(Position::Cartesian); VF_THROWS("value.system", InvalidRequest, d.getValue(y), ""); }
   }
}
// ---------------------------------------------------------------- the store
static void storeS(vf::Case& c)
{
   vf::Rng& r = c.rng;
   Ion m = make(r, false);
   // varying intervals
   IonexStore st;
   bool rms = r.chance(0.6), hole = r.chance(0.3);
   vector<long> ep; long s = m.sod;
   int ne = r.range(1, 5);
   for (int i = 0; i < ne; i++) { ep.push_back(s); s += r.pick(vector<int>{900, 3600, 7200, 7200, 43200, 86400, 100000}); }
   vector<Map> tec, rm;
   for (int i = 0; i < ne; i++) for (int k = 0; k < 2; k++) { Map p; p.id = i + 1; p.rms = k; p.mjd = m.mjd; p.sod = ep[i]; for (int q = m.lat.n * m.lon.n; q > 0; q--) p.v.push_back(hole && r.chance(0.03) ? 9999 : r.range(0, 1500)); close_(m, p.v); (k ? rm : tec).push_back(p); }
   vector<int> ord; for (int i = 0; i < ne; i++) ord.push_back(i);
   r.shuffle(ord);
   VF_CHECK("store.empty", st.getInitialTime() == CommonTime::END_OF_TIME && st.getFinalTime() == CommonTime::BEGINNING_OF_TIME, "");
   { Position x(0, 0, 6.8e6, Position::Geocentric); VF_THROWS("store.none", InvalidRequest, st.getIonexValue(ct(m.mjd, m.sod), x, 1), ""); }
   for (int i : ord) { if (r.chance(0.2)) { Map o = tec[i]; for (auto& v : o.v) v = 7; st.addMap(toData(m, o)); } st.addMap(toData(m, tec[i])); if (rms) st.addMap(toData(m, rm[i])); }
   VF_CHECK("store.times", st.getInitialTime() == ct(m.mjd, ep[0]) && st.getFinalTime() == ct(m.mjd, ep[ne - 1]), st.getInitialTime().asString() << " " << st.getFinalTime().asString());
   c.distinct(fmt("%ld %d %d", ep.back(), m.lat.n, m.lon.n) + std::to_string(c.idx));
   for (int n = 0; n < 14; n++)
   {
      ld b, l;
      place(r, m, b, l, r.chance(0.9));
      double R = 6371000 + r.unif(300e3, 500e3);
      Position x((double)b, lonIn(l), R, Position::Geocentric);
      double t;
      int i = r.range(0, ne - 1);
      int kt = r.range(0, 4);
      if (kt < 2 || ne == 1) t = ep[i]; else { if (i == ne - 1) i--; t = kt == 2 ? (ep[i] + ep[i + 1]) / 2.0 : ep[i] + r.unif(0.001, 0.999) * (ep[i + 1] - ep[i]); if (kt == 3) t = floor(t); }
      if (t < ep[0]) t = ep[0];
      int strat = r.range(1, 4);
      CommonTime T = ct(m.mjd, 0) + t;
      // model
      int a = 0; while (a + 1 < ne && ep[a + 1] <= t) a++;
      vector<std::pair<int, ld> > use;
      if (a == ne - 1 || t == ep[a]) use.push_back({a, 1.0L});
      else { ld f = ((ld)t - ep[a]) / (ep[a + 1] - ep[a]); if (strat == 2 || strat == 3) { use.push_back({a, 1 - f}); use.push_back({a + 1, f}); } else { if (fabsl(f - 0.5L) < 1e-9L && f != 0.5L) continue; use.push_back({f > 0.5L ? a + 1 : a, 1.0L}); } }
      bool zero = t == ep[a] && a + 1 < ne && (strat == 2 || strat == 3);   // the next map counts with weight zero
      ld tw = 0, rw = 0; Res res = OK; bool skip = false;
      for (auto& u : use)
      {
         ld lam = x.theArray[1]; if (strat > 2) lam += ((ld)t - ep[u.first]) / 240;
         ld q = 0;
         Res z = value(m, tec[u.first], x.theArray[0], lam, 0, q); tw += u.second * q; if (z != OK && res == OK) res = z;
         if (rms) { z = value(m, rm[u.first], x.theArray[0], lam, 0, q); rw += u.second * q; if (z != OK && res == OK) res = z; }
         // rounding of a rotated longitude decides whether a point is on a grid line
         if (strat > 2) { ld uu = norm(lam, m.lon), fr = uu - floorl(uu); if (fr < 1e-6L || fr > 1 - 1e-6L) if (hole || !m.lon.cyc) skip = true; }
      }
      if (zero && res == OK) { ld q; ld lam = x.theArray[1]; if (strat > 2) lam += ((ld)t - ep[a + 1]) / 240; if (value(m, tec[a + 1], x.theArray[0], lam, 0, q) != OK || (rms && value(m, rm[a + 1], x.theArray[0], lam, 0, q) != OK)) skip = true; }
      if (skip) { c.count("skipped"); continue; }
      string what = fmt("t=%.17g strategy %d at %.17g %.17g epochs", t, strat, x.theArray[0], x.theArray[1]); for (long e : ep) what += fmt(" %ld", e);
      what += fmt(" lat %g %g lon %g %g %d", m.lat.lo(), m.lat.st(), m.lon.lo(), m.lon.st(), m.lon.n);
      if (res != OK) { VF_THROWS("store.value.none", Exception, st.getIonexValue(T, x, strat), what); c.count("no value"); }
      else
      {
         Triple g(NAN, NAN, NAN); string e;
         try { g = st.getIonexValue(T, x, strat); } catch (Exception& q) { e = q.getText(0); }
         ld tol = powl(10, m.exp) * 1500 * (strat > 2 ? 1e-6L : 1e-7L);
         VF_CHECK("store.tec", fabsl(g[0] - tw) <= tol, what << " gave " << g[0] << " want " << (double)tw << " " << e);
         VF_CHECK("store.rms", fabsl(g[1] - rw) <= tol, what << " gave " << g[1] << " want " << (double)rw);
         VF_CHECK("store.height", g[2] == R, what << " gave " << g[2]);
         if (strat == 3) { Triple g2(NAN, NAN, NAN); try { g2 = st.getIonexValue(T, x); } catch (Exception& q) { e = q.getText(0); } VF_CHECK("store.default", g2[0] == g[0] && g2[1] == g[1], what); }
         c.count("values");
      }
      if (n == 0)
      {
         VF_THROWS("store.before", InvalidRequest, st.getIonexValue(ct(m.mjd, ep[0]) - 1.0, x, strat), "");
         VF_THROWS("store.after", InvalidRequest, st.getIonexValue(ct(m.mjd, ep[ne - 1]) + 1.0, x, strat), "");
         int bad = r.pick(vector<int>{0, 5, -1});
         VF_THROWS("store.strategy", InvalidRequest, st.getIonexValue(T, x, bad), bad);
         Position y(x); y.transformTo(Position::Cartesian);
         VF_THROWS("store.system", InvalidRequest, st.getIonexValue(T, y, strat), "");
      }
   }
   // mapping functions and delays
   for (int n = 0; n < 6; n++)
   {
      double el = r.chance(0.1) ? -r.unif(0.01, 20) : r.chance(0.2) ? r.pick(vector<double>{0, 10, 90, 9.99, 10.01}) : r.unif(0, 90), v = r.unif(0, 200), f = r.pick(vector<double>{1575.42e6, 1227.6e6, 1176.45e6});
      string k = r.pick(vector<string>{"NONE", "SLM", "MSLM", "ESM"});
      ld z = (90 - (ld)el) * acosl(-1) / 180, w = 1;
      if (k == "SLM") w = 1 / cosl(asinl(6371.0L / 6821.0L * sinl(z)));
      if (k == "MSLM" && 90 - el <= 80) w = 1 / cosl(asinl(6371.0L / (6371.0L + 506.7L) * sinl(0.9782L * z)));
      string what = fmt("elevation %.17g ", el) + k;
      if (el >= 0) VF_CHECK("mapping", vf::close(st.iono_mapping_function(el, k), (double)w, 1e-9), what << " gave " << st.iono_mapping_function(el, k) << " want " << (double)w);
      ld d = 40.3e16L / ((ld)f * f) * v * w;
      if (el < 0) { w = 0; d = 0; }
      VF_CHECK("stec", vf::close(st.getSTEC(el, v, k), (double)(v * w), 1e-9), what << " gave " << st.getSTEC(el, v, k));
      VF_CHECK("delay", vf::close(st.getIono(el, v, f, k), (double)d, 1e-9), what << " gave " << st.getIono(el, v, f, k) << " want " << (double)d);
      VF_CHECK("delay.bands", st.getIonoL1(el, v, k) == st.getIono(el, v, 1575.42e6, k) && st.getIonoL2(el, v, k) == st.getIono(el, v, 1227.6e6, k) && st.getIonoL5(el, v, k) == st.getIono(el, v, 1176.45e6, k) && vf::close(st.getIonoL6(el, v, k), st.getIono(el, v, 1278.75e6, k), 1e-12) && vf::close(st.getIonoL7(el, v, k), st.getIono(el, v, 1207.14e6, k), 1e-12) && vf::close(st.getIonoL8(el, v, k), st.getIono(el, v, 1191.795e6, k), 1e-12), what);
      VF_THROWS("stec.negative", InvalidParameter, st.getSTEC(el, -0.1, k), what);
      VF_THROWS("delay.negative", InvalidParameter, st.getIono(el, -0.1, f, k), what);
      VF_THROWS("stec.model", InvalidParameter, st.getSTEC(el, v, "slm"), what);
      VF_THROWS("delay.model", InvalidParameter, st.getIono(el, v, f, ""), what);
   }
   // files: consecutive days, biases per day
   IonexStore fs;
   vector<Ion> days;
   Ion base = make(r, false);
   base.sod = 0;
   int nd = r.range(1, 3);
   bool closed = r.chance(0.5);   // with a map at 24 h
   string dir = vf::scratch();
   vector<string> fns;
   size_t nep = 0; bool anyRms = false;
   set<long> tecEp, rmsEp;
   for (int k = 0; k < nd; k++)
   {
      Ion q = make(r, false);
      q.lat = base.lat; q.lon = base.lon; q.exp = base.exp;
      q.mjd = base.mjd + k; q.sod = 0; q.dt = 28800; q.nmaps = closed ? 4 : 3;
      bool rr = q.maps.back().rms;
      q.maps.clear();
      for (int z = 0; z < (rr ? 2 : 1); z++) for (size_t i = 0; i < q.nmaps; i++) { Map p; p.id = i + 1; p.rms = z; p.mjd = q.mjd; p.sod = i * q.dt; for (int x = q.lat.n * q.lon.n; x > 0; x--) p.v.push_back(r.range(0, 999)); close_(q, p.v); q.maps.push_back(p); (z ? rmsEp : tecEp).insert(k * 86400 + p.sod); }
      anyRms = anyRms || rr;
      days.push_back(q);
      fns.push_back(dir + fmt("/d%d.%llui", k, (unsigned long long)c.idx));
   }
   vector<int> od; for (int i = 0; i < nd; i++) od.push_back(i);
   r.shuffle(od);
   for (int round = 0; round < 2; round++)
   {
      for (int k : od)
      {
         Lines L = headText(days[k]);
         for (auto& p : days[k].maps) for (auto& l : mapText(days[k], p)) L.push_back(l);
         L.push_back(lab("", "END OF FILE"));
         vf::spit(fns[k], join(L));
         VF_NOTHROW("load", fs.loadFile(fns[k]), fns[k]);
      }
      VF_CHECK("load.times", fs.getInitialTime() == ct(base.mjd, 0) && fs.getFinalTime() == ct(base.mjd + nd - 1, closed ? 86400 : 57600), fs.getInitialTime().asString() << " " << fs.getFinalTime().asString());
      vector<string> nm = fs.getFileNames(), wf = fns; std::sort(wf.begin(), wf.end());
      VF_CHECK("load.names", nm == wf, nm.size());
      { std::ostringstream o; fs.dump(o, 1); Lines L = split(o.str()); int nt = 0, ny = 0; string tot; nep = tecEp.size(); for (auto& x : L) { if (x.find(" YES ") != string::npos) nt++; if (x.find(" YES  YES ") != string::npos) ny++; if (x.find("Total epochs:") == 0) tot = x; } int a = -1, b = -1; sscanf(tot.c_str(), "Total epochs: %d %d", &a, &b); VF_CHECK("load.dump", nt == int(nep) && ny == int(rmsEp.size()) && a == int(nep) && b == int(rmsEp.size()) && o.str().find(fmt("# %zu epochs", nep)) != string::npos && o.str().find(fmt("# %d files.", nd)) != string::npos, o.str()); }
      for (int n = 0; n < 8; n++)
      {
         int k = r.range(0, nd - 1);
         long sod = r.chance(0.3) ? 0 : r.range(0, k == nd - 1 ? 57600 : 86399);
         SatID id = days[k].dcb.size() && r.chance(0.8) ? [&] { auto i = days[k].dcb.begin(); std::advance(i, r.below(days[k].dcb.size())); return i->first; }() : SatID(r.range(1, 32), r.chance(0.5) ? SatelliteSystem::GPS : SatelliteSystem::Glonass);
         auto i = days[k].dcb.find(id);
         if (i == days[k].dcb.end()) VF_THROWS("bias.none", InvalidRequest, fs.findDCB(id, ct(days[k].mjd, sod)), id);
         else { double g = NAN; try { g = fs.findDCB(id, ct(days[k].mjd, sod)); } catch (Exception&) {} VF_CHECK("bias.value", g == i->second.bias, id << " day " << k << " gave " << g << " want " << i->second.bias); c.count("biases"); }
      }
      SatID any(1, SatelliteSystem::GPS);
      VF_THROWS("bias.before", InvalidRequest, fs.findDCB(any, ct(base.mjd, 0) - 1.0), "");
      VF_THROWS("bias.after", InvalidRequest, fs.findDCB(any, fs.getFinalTime() + 1.0), "");
      if (closed) VF_THROWS("bias.midnight", InvalidRequest, fs.findDCB(any, fs.getFinalTime()), "the day after the last file");
      if (round == 0) { string again = fns[0]; std::streambuf* keep = std::cout.rdbuf(nullptr); VF_THROWS("load.twice", InvalidRequest, fs.loadFile(again), ""); std::cout.rdbuf(keep); std::cout.clear(); VF_THROWS("load.missing", FileMissingException, fs.loadFile(dir + "/none"), ""); }
      fs.clear();
      VF_CHECK("cleared", fs.getInitialTime() == CommonTime::END_OF_TIME && fs.getFinalTime() == CommonTime::BEGINNING_OF_TIME && fs.getFileNames().empty(), fs.getFileNames().size() << " files left");
      if (nd > 1) { od.pop_back(); tecEp.clear(); rmsEp.clear(); int lo = *std::min_element(od.begin(), od.end()); bool cons = true; vector<int> so = od; std::sort(so.begin(), so.end()); for (size_t i = 1; i < so.size(); i++) cons = cons && so[i] == so[i - 1] + 1; if (!cons) so.resize(1), od = so; lo = so[0]; vector<Ion> nd2; vector<string> nf; for (int k : so) { nd2.push_back(days[k]); nf.push_back(fns[k]); } days = nd2; fns = nf; base.mjd = days[0].mjd; nd = days.size(); od.clear(); for (int i = 0; i < nd; i++) od.push_back(i); for (int k = 0; k < nd; k++) for (auto& p : days[k].maps) (p.rms ? rmsEp : tecEp).insert(k * 86400 + p.sod); (void)lo; }
   }
   for (auto& f : fns) remove(f.c_str());
}
int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"file", 1200, 15000, fileS}, {"value", 4000, 60000, valueS}, {"store", 1500, 20000, storeS}});
}
