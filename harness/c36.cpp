// C36: file specifications name, parse, order and find files.
#include "vf.hpp"
#include "FileSpec.hpp"
#include "FileSpecFind.hpp"
#include "FileHunter.hpp"
#include "FileUtils.hpp"
#include "CommonTime.hpp"
#include "MJD.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <ftw.h>
#include <map>
#include <set>
using namespace gpstk;
using std::string;
using std::vector;
typedef long long i64;
typedef FileSpec::FileSpecType FT;

// ------------------------------------------------------------ own model
namespace {
// days since 1858-11-17 (MJD)
i64 mjdOf(i64 y, int m, int d)
{
   y -= m <= 2;
   i64 era = (y >= 0 ? y : y - 399) / 400;
   i64 yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
   i64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return era * 146097 + doe - 719468 + 40587;
}
void civil(i64 mjd, i64& y, int& m, int& d)
{
   i64 z = mjd - 40587 + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
   i64 doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
   i64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
   d = int(doy - (153 * mp + 2) / 5 + 1);
   m = int(mp < 10 ? mp + 3 : mp - 9);
   y = yoe + era * 400 + (m <= 2);
}
string zp(i64 v, int w)
{
   string s = std::to_string(v);
   while (int(s.size()) < w) s = "0" + s;
   return s;
}
const i64 GPS0 = 44244;                      // 1980-01-06
struct Tm { i64 s; };                        // seconds since MJD 0
i64 day(i64 s) { return s / 86400; }
i64 sod(i64 s) { return s % 86400; }

// Characters and their FileSpecType, from the documentation of the enum.
struct Letter { char c; FT t; };
const Letter LET[] = {
   {'n', FileSpec::station}, {'r', FileSpec::receiver}, {'p', FileSpec::prn}, {'t', FileSpec::selected},
   {'I', FileSpec::sequence}, {'v', FileSpec::version}, {'k', FileSpec::clock}, {'x', FileSpec::text},
   {'y', FileSpec::year}, {'Y', FileSpec::year}, {'m', FileSpec::month}, {'d', FileSpec::dayofmonth},
   {'H', FileSpec::hour}, {'M', FileSpec::minute}, {'S', FileSpec::second}, {'f', FileSpec::fsecond},
   {'G', FileSpec::gpsweek}, {'F', FileSpec::fullgpsweek}, {'g', FileSpec::gpssecond}, {'Q', FileSpec::mjd},
   {'w', FileSpec::dayofweek}, {'j', FileSpec::day}, {'s', FileSpec::doysecond}, {'Z', FileSpec::zcount},
   {'z', FileSpec::zcountfloor}, {'U', FileSpec::unixsec}, {'u', FileSpec::unixusec}, {'C', FileSpec::fullzcount},
   {'c', FileSpec::fullzcount}};
FT typeOf(char c) { for (auto& l : LET) if (l.c == c) return l.t; return FileSpec::unknown; }
bool isTime(char c) { return typeOf(c) >= FileSpec::firstTime; }
// rank in the documented order of the enum
int rank(char c)
{
   static const string o = "nrptIv\1kxyYmdHMSfGFgQwjsZzUuCc";
   int i = int(o.find(c));
   if (c == 'Y') i--;
   if (c == 'c') i--;
   return i;
}

struct Tok { char c; int w; bool zero, wide; string lit; };   // c==0: literal
struct Spec { vector<Tok> t; };
string specStr(const Spec& s)
{
   string r;
   for (auto& k : s.t) {
      if (!k.c) { r += k.lit; continue; }
      r += '%';
      if (k.zero) r += '0';
      if (k.wide) r += std::to_string(k.w);
      r += k.c;
   }
   return r;
}
// value of a time field
string tval(char c, i64 s)
{
   i64 y; int m, d;
   civil(day(s), y, m, d);
   i64 week = (day(s) - GPS0) / 7, sow = s - (GPS0 + week * 7) * 86400;
   i64 zc = sow * 2 / 3;
   switch (c) {
   case 'Y': return zp(y, 4);
   case 'y': return zp(y % 100, 2);
   case 'm': return zp(m, 2);
   case 'd': return zp(d, 2);
   case 'H': return zp(sod(s) / 3600, 2);
   case 'M': return zp(sod(s) / 60 % 60, 2);
   case 'S': return zp(sod(s) % 60, 2);
   case 'j': return zp(day(s) - mjdOf(y, 1, 1) + 1, 3);
   case 'F': return zp(week, 4);
   case 'G': return zp(week % 1024, 4);
   case 'w': return zp(sow / 86400, 1);
   case 'Z': case 'z': return zp(zc, 6);
   case 'C': return zp(((week & 0x1fff) << 19) | zc, 10);
   case 'c': return zp(((week & 0x3ff) << 19) | zc, 9);
   case 'U': return zp(s - 40587LL * 86400, 10);
   }
   return "";
}
int twidth(char c)
{
   switch (c) { case 'Y': case 'F': case 'G': return 4; case 'j': return 3; case 'w': return 1;
   case 'Z': case 'z': return 6; case 'C': case 'U': return 10; case 'c': return 9; }
   return 2;
}
// start of the interval the time fields in have stand for, containing s
i64 floorTo(const std::set<char>& have, i64 s)
{
   i64 y; int m, d;
   civil(day(s), y, m, d);
   if (have.count('U')) return s;
   bool Y = have.count('Y') || have.count('y');
   i64 base = 0;
   i64 week = (day(s) - GPS0) / 7, w0 = (GPS0 + week * 7) * 86400;
   if (have.count('C')) return w0 + (s - w0) * 2 / 3 * 3 / 2;
   if (have.count('F')) {
      if (have.count('Z')) return w0 + (s - w0) * 2 / 3 * 3 / 2;
      base = have.count('w') ? day(s) * 86400 : w0;
      if (!have.count('w')) return base;
   } else if (Y) {
      if (have.count('j') || (have.count('m') && have.count('d'))) base = day(s) * 86400;
      else if (have.count('m')) return mjdOf(y, m, 1) * 86400;
      else return mjdOf(y, 1, 1) * 86400;
   }
   if (!have.count('H')) return base;
   i64 r = base + sod(s) / 3600 * 3600;
   if (!have.count('M')) return r;
   r += sod(s) / 60 % 60 * 60;
   if (!have.count('S')) return r;
   return r + sod(s) % 60;
}
CommonTime ct(i64 s, double f = 0, TimeSystem ts = TimeSystem::Unknown)
{
   CommonTime t;
   t.set(long(day(s)) + 2400001, long(sod(s)), f, ts);  // JDay(noon based): MJD 0 = JD 2400000.5
   return t;
}
// seconds since MJD 0 of a CommonTime
long double secs(const CommonTime& t)
{
   long d, s; double f;
   t.get(d, s, f);
   return (long double)(d - 2400001) * 86400 + s + f;
}
string num(vf::Rng& r, int w) { return r.str(w, "0123456789"); }
const string LITS = "abcdefgABCXYZ-_.0123456789";
string tempLit(vf::Rng& r, int lo, int hi) { return r.str(int(r.range(lo, hi)), LITS); }
vector<char> timeSet(vf::Rng& r)
{
   static const vector<vector<char>> k = {{'Y', 'j'}, {'y', 'j'}, {'Y', 'm', 'd'}, {'y', 'm', 'd'}, {'F', 'w'}, {'F', 'Z'}, {'C'}, {'U'}, {'Y', 'j', 'H'}, {'Y', 'j', 'H', 'M'},
      {'Y', 'j', 'H', 'M', 'S'}, {'Y', 'm', 'd', 'H', 'M', 'S'}, {'y', 'm', 'd', 'H', 'M'}, {'F', 'w', 'H'}, {'F', 'w', 'H', 'M', 'S'}, {'Y'}, {'y'}, {'Y', 'm'}, {'F'}};
   return r.pick(k);
}
i64 randTime(vf::Rng& r)
{
   i64 a = mjdOf(1981, 1, 1), b = mjdOf(2068, 12, 31);
   i64 d = r.chance(0.3) ? r.range(mjdOf(2017, 12, 20), mjdOf(2021, 1, 10)) : r.range(a, b);
   i64 s = r.chance(0.2) ? 0 : r.range(0, 86399);
   return d * 86400 + s;
}
const vector<char> NONT = {'n', 'r', 'p', 't', 'I', 'v', 'k', 'x'};

// -------------------------------------------------------------- spec
void stSpec(vf::Case& c)
{
   vf::Rng& r = c.rng;
   Spec sp;
   vector<Tok> fld;
   vector<char> tt;
   if (r.chance(0.85)) tt = timeSet(r);
   if (r.chance(0.3)) r.shuffle(tt);
   for (char k : tt) fld.push_back({k, twidth(k), true, k == 'Y' ? r.chance(0.7) : true, ""});
   int nn = int(r.range(0, 4));
   for (int i = 0; i < nn; i++) {
      Tok k{r.pick(NONT), int(r.range(1, 12)), r.chance(0.6), true, ""};
      if (r.chance(0.2)) { k.w = 1; k.wide = false; k.zero = false; }
      fld.insert(fld.begin() + r.range(0, fld.size()), k);
   }
   for (auto& k : fld) {
      if (k.c == 'Y' && !k.wide) k.zero = false;
      if (r.chance(0.6)) sp.t.push_back({0, 0, false, false, tempLit(r, 1, 4)});
      sp.t.push_back(k);
   }
   if (r.chance(0.6)) sp.t.push_back({0, 0, false, false, tempLit(r, 1, 5)});
   if (sp.t.empty()) sp.t.push_back({0, 0, false, false, "plain"});
   // a %Y without a width at the very end or before another field has no delimiter
   for (size_t i = 0; i < sp.t.size(); i++)      // a field without a width ends at its delimiter
      if (sp.t[i].c == 'Y' && !sp.t[i].wide && (i + 1 >= sp.t.size() || sp.t[i + 1].c || isdigit(sp.t[i + 1].lit[0]))) sp.t[i].wide = sp.t[i].zero = true;
   string str = specStr(sp);
   c.distinct(str);
   c.sample(str);

   FileSpec fs(str);
   FileSpec re("%04F%01w%05n%03j%02y%1v%1p%2I%2k%2t%2r%2x%2m%2d%2H%2M%2S%2Z%9C%9U");
   re.newSpec(str);
   std::set<FT> types;
   for (auto& k : sp.t) if (k.c) types.insert(typeOf(k.c));
   bool anyT = false, anyN = false;
   for (auto& k : sp.t) if (k.c) (isTime(k.c) ? anyT : anyN) = true;
   VF_CHECK("spec.string", fs.getSpecString() == str && re.getSpecString() == str, str << " gave " << fs.getSpecString());
   for (int q = FileSpec::unknown + 1; q < FileSpec::end; q++) {
      if (q == FileSpec::fixed) continue;
      FT f = FT(q);
      VF_CHECK("spec.hasField", fs.hasField(f) == (types.count(f) > 0), str << " field " << q);
      VF_CHECK("spec.hasField.again", re.hasField(f) == (types.count(f) > 0), "after newSpec " << str << " field " << q);
   }
   VF_CHECK("spec.hasTime", fs.hasTimeField() == anyT && re.hasTimeField() == anyT, str);
   VF_CHECK("spec.hasNonTime", fs.hasNonTimeField() == anyN && re.hasNonTimeField() == anyN, str);
   string search;
   for (auto& k : sp.t) search += k.c ? string(k.w, '?') : k.lit;
   VF_CHECK("spec.search", fs.createSearchString() == search && re.createSearchString() == search, str << " gave " << fs.createSearchString() << " want " << search);

   // the name for a time and values
   i64 s = randTime(r);
   FileSpec::FSTStringMap m;
   std::map<char, string> val;
   for (char k : NONT) {
      int w = int(r.range(0, 14));
      val[k] = k == 'x' ? r.str(w, "abcXYZ019.-[]") : num(r, w);
      m[typeOf(k)] = val[k];
   }
   if (r.chance(0.1) && !tt.empty()) { char k = tt[0]; val[k] = num(r, twidth(k)); m[typeOf(k)] = val[k]; }
   auto fit = [](string v, int w, char p) { if (int(v.size()) > w) v = v.substr(v.size() - w); return string(w - v.size(), p) + v; };
   string name;
   std::map<FT, string> first;
   bool over = false;
   for (auto& k : sp.t) if (k.c && !k.wide && k.c != 'Y') over = true;   // ends at a delimiter for the time, but not for the name
   for (auto& k : sp.t) {
      if (!k.c) { name += k.lit; continue; }
      string v;
      if (val.count(k.c)) { v = fit(val[k.c], k.w, k.c == 'x' ? ' ' : '0'); over |= isTime(k.c); }
      else v = tval(k.c, s);
      if (!first.count(typeOf(k.c))) first[typeOf(k.c)] = v;
      name += v;
   }
   TimeSystem sys = r.chance(0.5) ? TimeSystem::Unknown : TimeSystem::GPS;
   double frac = r.chance(0.3) ? r.unif(0, 0.4) : 0;
   CommonTime t = ct(s, frac, sys);
   string got = fs.toString(t, m);
   VF_CHECK("spec.name", got == name, str << " gave " << got << " want " << name);
   VF_CHECK("spec.name.width", got.size() == search.size(), str << " gave " << got);
   c.count("names");
   for (int q = FileSpec::unknown + 1; q < FileSpec::end; q++) {
      if (q == FileSpec::fixed) continue;
      FT f = FT(q);
      if (first.count(f)) {
         string e = fs.extractField(name, f);
         VF_CHECK("spec.extract", e == first[f], str << " of " << name << " field " << q << " gave " << e << " want " << first[f]);
      } else
         VF_THROWS("spec.extract.missing", FileSpecException, fs.extractField(name, f), str << " field " << q);
   }
   VF_THROWS("spec.extract.unknown", FileSpecException, fs.extractField(name, FileSpec::unknown), str);
   VF_THROWS("spec.extract.end", FileSpecException, fs.extractField(name, FileSpec::end), str);
   // a name too short for the last field
   {
      int off = 0, lo = -1; FT lt = FileSpec::unknown; std::set<FT> seen;
      for (auto& k : sp.t) { if (k.c && !seen.count(typeOf(k.c))) { seen.insert(typeOf(k.c)); if (off > 0) { lo = off; lt = typeOf(k.c); } } off += k.c ? k.w : int(k.lit.size()); }
      if (lo > 0) {
         string shrt = name.substr(0, r.below(lo));
         VF_THROWS("spec.extract.short", FileSpecException, fs.extractField(shrt, lt), str << " of " << shrt);
         c.count("short names");
      }
   }
   // the time back
   if (!tt.empty() && !over) {
      std::set<char> have(tt.begin(), tt.end());
      i64 want = floorTo(have, s);
      long double w2 = want;
      if (have.count('C') || have.count('Z')) {
         i64 wk = (day(s) - GPS0) / 7, w0 = (GPS0 + wk * 7) * 86400;
         w2 = w0 + (long double)((s - w0) * 2 / 3) * 1.5L;
      }
      CommonTime b;
      b = fs.extractCommonTime(name);
      VF_CHECK("spec.time", fabsl(secs(b) - w2) < 1e-6L, str << " of " << name << " gave " << (double)secs(b) << " want " << (double)w2);
      c.count("times");
   }
   // dump: one line per element
   {
      std::ostringstream o;
      fs.dump(o);
      std::istringstream in(o.str());
      string line;
      bool ok = true;
      std::getline(in, line);
      ok = line == "FileSpec string: " + str;
      std::getline(in, line);
      int off = 0;
      for (auto& k : sp.t) {
         ok = ok && std::getline(in, line);
         std::istringstream ls(line);
         int a = -1, b = -1; string ty;
         ls >> a >> b;
         ok = ok && a == off && b == (k.c ? k.w : int(k.lit.size()));
         if (k.c) { ls >> ty; char want = k.c == 'Y' ? 'y' : k.c == 'c' ? 'C' : k.c; ok = ok && ty == string(1, want); }
         else { ls >> ty; ok = ok && ty == k.lit; }
         off += k.c ? k.w : int(k.lit.size());
      }
      ok = ok && !std::getline(in, line);
      VF_CHECK("spec.dump", ok, str << " gave " << o.str());
   }
   // letters
   {
      const Letter& l = LET[r.below(sizeof LET / sizeof LET[0])];
      char low = l.c == 'Y' ? 'y' : l.c == 'c' ? 'C' : l.c;
      VF_CHECK("letter.to", FileSpec::convertFileSpecType(string(1, l.c)) == l.t, "letter " << l.c);
      VF_CHECK("letter.from", FileSpec::convertFileSpecType(l.t) == string(1, low), "letter " << l.c);
      char bad = char(r.range(33, 126));
      if (typeOf(bad) == FileSpec::unknown) {
         VF_THROWS("letter.bad", FileSpecException, FileSpec::convertFileSpecType(string(1, bad)), "letter " << bad);
         if (!isdigit(bad)) {
            string b = tempLit(r, 0, 3) + "%" + (r.chance(0.5) ? "3" : "") + bad + tempLit(r, 0, 3);
            if (bad == '-' || bad == '+' || bad == '.') b = "x%" + string(1, bad);
            VF_THROWS("spec.bad", FileSpecException, FileSpec{b}, "spec " << b);
         }
      }
      string e = tempLit(r, 0, 4) + "%" + (r.chance(0.5) ? "03" : "");
      VF_THROWS("spec.end", FileSpecException, FileSpec{e}, "spec " << e);
      {  // a minus sign left-justifies the field, as in printf
         int w = r.range(2, 12);
         string pre = tempLit(r, 0, 4), post = tempLit(r, 0, 4), v = r.str(r.range(1, w), "abcXYZ019");
         string neg = pre + "%-" + std::to_string(w) + "n" + post;
         FileSpec ls(neg);
         FileSpec::FSTStringMap lm;
         lm[FileSpec::station] = v;
         string ln = ls.toString(CommonTime::BEGINNING_OF_TIME + 86400., lm), pad = v + string(w - v.size(), ' ');
         VF_CHECK("spec.left.search", ls.createSearchString() == pre + string(w, '?') + post, "spec " << neg);
         VF_CHECK("spec.left.name", ln == pre + pad + post, "spec " << neg << " gave " << ln);
         VF_CHECK("spec.left.extract", ls.extractField(pre + pad + post, FileSpec::station) == pad, "spec " << neg);
         c.count("left-justified");
      }
      VF_THROWS("letter.unknown", FileSpecException, FileSpec::convertFileSpecType(FileSpec::unknown), "unknown");
      VF_THROWS("letter.end", FileSpecException, FileSpec::convertFileSpecType(FileSpec::end), "end");
      FT a = FT(r.range(FileSpec::unknown, FileSpec::end)), b = a;
      b++;
      VF_CHECK("step.up", b == (a == FileSpec::end ? FileSpec::unknown : FT(a + 1)), "from " << a);
      b--;
      VF_CHECK("step.down", b == a, "from " << a);
   }
}

// -------------------------------------------------------------- sort
void stSort(vf::Case& c)
{
   vf::Rng& r = c.rng;
   Spec sp;
   vector<char> ks = {'n', 'p', 'Y', 'j', 'v', 'I', 'x', 'r'};
   r.shuffle(ks);
   ks.resize(r.range(1, 5));
   for (char k : ks) {
      if (r.chance(0.6)) sp.t.push_back({0, 0, false, false, tempLit(r, 1, 3)});
      sp.t.push_back({k, k == 'Y' ? 4 : k == 'j' ? 3 : int(r.range(1, 3)), true, true, ""});
   }
   if (r.chance(0.5)) sp.t.push_back({0, 0, false, false, ".d"});
   string str = specStr(sp);
   int n = int(r.range(0, 25));
   bool dirs = r.chance(0.5);
   vector<string> in;
   std::map<string, std::map<char, string>> val;
   std::map<string, string> noVer;
   for (int i = 0; i < n; i++) {
      std::map<char, string> v;
      string name, key;
      for (auto& k : sp.t) {
         if (!k.c) { name += k.lit; key += k.lit; continue; }
         string x = k.c == 'x' ? r.str(k.w, "abc") : r.str(k.w, "012");
         v[k.c] = x;
         name += x;
         if (k.c != 'v') key += x;
      }
      if (dirs) name = "/" + tempLit(r, 1, 9) + (r.chance(0.5) ? "/" + tempLit(r, 1, 5) : "") + "/" + name;
      if (val.count(name)) continue;
      val[name] = v;
      noVer[name] = key;
      in.push_back(name);
   }
   c.distinct(str + (in.empty() ? "" : in[0]) + std::to_string(n));
   vector<char> order = ks;
   std::sort(order.begin(), order.end(), [](char a, char b) { return rank(a) < rank(b); });
   bool desc = r.chance(0.5);
   auto cmp = [&](const string& a, const string& b) {
      for (char k : order) { int d = val[a][k].compare(val[b][k]); if (d) return desc ? -d : d; }
      return 0;
   };
   FileSpec fs(str);
   vector<string> out = in;
   fs.sortList(out, desc ? FileSpec::descending : FileSpec::ascending);
   bool ord = true;
   for (size_t i = 1; i < out.size(); i++) if (cmp(out[i - 1], out[i]) > 0) ord = false;
   string shown;
   for (auto& o : out) shown += " " + o;
   VF_CHECK(dirs ? "sort.order.dirs" : "sort.order", ord, str << (desc ? " descending" : " ascending") << shown);
   bool hasV = std::find(ks.begin(), ks.end(), 'v') != ks.end();
   std::multiset<string> a(in.begin(), in.end()), b(out.begin(), out.end());
   if (!hasV)
      VF_CHECK("sort.same", a == b, str << shown);
   else {
      bool sub = std::includes(a.begin(), a.end(), b.begin(), b.end());
      std::map<string, string> best;
      for (auto& x : in) { string& q = best[noVer[x]]; q = std::max(q, val[x]['v']); }
      std::set<string> seen;
      bool high = true;
      for (auto& x : out) if (val.count(x)) { if (val[x]['v'] != best[noVer[x]]) high = false; if (!seen.insert(noVer[x]).second) high = false; }
      VF_CHECK("sort.version.known", sub, str << shown);
      VF_CHECK(desc ? "sort.version.desc" : "sort.version", high && seen.size() == best.size(), str << shown);
      c.count("versions");
   }
   // equal files keep their order
   if (!hasV) {
      bool st = true;
      std::map<string, int> pos;
      for (size_t i = 0; i < in.size(); i++) pos[in[i]] = int(i);
      for (size_t i = 1; i < out.size(); i++) if (cmp(out[i - 1], out[i]) == 0 && pos[out[i - 1]] > pos[out[i]]) st = false;
      VF_CHECK("sort.stable", st, str << shown);
   }
   c.count("lists");
   // a name too short to hold the fields
   size_t off = 0;
   for (auto& k : sp.t) { if (k.c) break; off += k.lit.size(); }
   if (in.size() > 1 && off > 0) {
      vector<string> bad = in;
      bad.push_back(string(r.below(off), 'q'));
      if (sp.t[0].c == 0 && order.size() == 1)
         VF_THROWS("sort.short", FileSpecException, fs.sortList(bad), str << " with " << bad.back());
   }
}

// -------------------------------------------------------------- trees
struct Tree {
   string root;
   vector<Spec> lev;              // one per directory level, the last is the file
   std::set<char> have;           // all time fields
   struct F { string path; i64 t; std::map<char, string> v; vector<string> comp; };
   vector<F> files;
   bool meta;
};
string render(const Spec& s, i64 t, const std::map<char, string>& v)
{
   string r;
   for (auto& k : s.t) r += !k.c ? k.lit : isTime(k.c) ? tval(k.c, t) : v.at(k.c);
   return r;
}
int treeNo = 0;
void touch(const string& p) { vf::spit(p, "x"); }
void mkdirs(const string& p)
{
   for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
}
void rmTree(const string& p)          // only ever below vf::scratch()
{
   if (p.compare(0, vf::scratch().size(), vf::scratch()) != 0 || p.size() <= vf::scratch().size() + 1) return;
   nftw(p.c_str(), [](const char* f, const struct stat*, int, struct FTW*) { return remove(f); }, 32, FTW_DEPTH | FTW_PHYS);
}
Tree mkTree(vf::Rng& r, bool hunter)
{
   Tree T;
   T.meta = false;
   T.root = vf::scratch() + "/t" + std::to_string(getpid()) + "_" + std::to_string(treeNo++);
   vector<char> tt = r.chance(hunter ? 1.0 : 0.9) ? timeSet(r) : vector<char>();
   if (hunter) tt = r.chance(0.5) ? vector<char>{'Y', 'j'} : r.chance(0.5) ? vector<char>{'y', 'm', 'd', 'H'} : vector<char>{'F', 'w', 'H', 'M'};
   if (tt == vector<char>{'F', 'Z'} || tt == vector<char>{'C'}) tt = {'Y', 'm', 'd', 'H', 'M'};
   for (char k : tt) T.have.insert(k);
   int n = int(r.range(1, 4));
   vector<char> ot = NONT;
   if (hunter) ot = {'n', 'r', 'p', 't', 'I', 'k'};
   r.shuffle(ot);
   ot.resize(r.below(5));
   std::map<char, int> wid;
   for (char k : ot) wid[k] = int(r.range(1, 4));
   vector<vector<char>> per(n);
   size_t lo = 0;
   for (size_t i = 0; i < tt.size(); i++) { lo = std::max<size_t>(lo, r.below(n)); per[lo].push_back(tt[i]); }
   for (char k : ot) per[r.below(n)].push_back(k);
   for (int l = 0; l < n; l++) {
      // repeat known fields lower down, as archives do
      if (l == n - 1 && n > 1 && r.chance(0.4)) for (int q = 0; q < l; q++) for (char k : per[q]) if (std::find(per[l].begin(), per[l].end(), k) == per[l].end()) per[l].push_back(k);
      if (r.chance(0.5)) r.shuffle(per[l]);
      Spec s;
      for (char k : per[l]) {
         if (r.chance(0.6)) s.t.push_back({0, 0, false, false, tempLit(r, 1, 3)});
         s.t.push_back({k, isTime(k) ? twidth(k) : wid[k], isTime(k) || r.chance(0.7), true, ""});
      }
      if (s.t.empty() || r.chance(0.5)) s.t.push_back({0, 0, false, false, "L" + tempLit(r, 1, 3)});
      if (s.t.size() && s.t[0].c == 0 && s.t[0].lit[0] == '.') s.t[0].lit[0] = 'q';
      T.lev.push_back(s);
   }
   T.meta = !hunter && r.chance(0.4);
   i64 base = randTime(r);
   i64 span = i64(fabs(r.logmag(1e3, 1e8))) + 1;
   if (base + span > mjdOf(2068, 12, 31) * 86400LL) base -= span + 86400;
   if (base < mjdOf(1981, 1, 1) * 86400LL) base = mjdOf(1981, 1, 1) * 86400LL;
   if (base + span > mjdOf(2068, 12, 31) * 86400LL) span = 86400;
   int nf = int(r.range(1, 24));
   std::set<string> seen;
   for (int i = 0; i < nf; i++) {
      Tree::F f;
      f.t = base + r.range(0, span);
      if (r.chance(0.2)) f.t = f.t / 86400 * 86400;
      for (char k : ot) f.v[k] = k == 'x' || k == 't' || (k == 'n' && !hunter) ? r.str(wid[k], T.meta && k == 'x' ? "ab[]*?\\%" : "abC1") : r.str(wid[k], "012");
      for (auto& l : T.lev) f.comp.push_back(render(l, f.t, f.v));
      string p = T.root;
      for (size_t l = 0; l + 1 < f.comp.size(); l++) p += "/" + f.comp[l];
      if (f.comp.back() == "." || f.comp.back() == "..") continue;
      if (!seen.insert(p + "/" + f.comp.back()).second) continue;
      mkdirs(p);
      f.path = p + "/" + f.comp.back();
      touch(f.path);
      T.files.push_back(f);
   }
   return T;
}
string treeSpec(const Tree& T)
{
   string s;
   for (auto& l : T.lev) s += (s.empty() ? "" : "/") + specStr(l);
   return s;
}
// names which do not match the specification
void decoys(vf::Rng& r, const Tree& T, bool hunter)
{
   int n = int(r.below(6));
   for (int i = 0; i < n && !T.files.empty(); i++) {
      const Tree::F& f = r.pick(T.files);
      size_t l = r.below(f.comp.size());
      string p = T.root;
      for (size_t q = 0; q < l; q++) p += "/" + f.comp[q];
      string name = f.comp[l];
      const Spec& s = T.lev[l];
      int kind = int(r.below(3));
      if (kind == 0) name += r.chance(0.5) ? "0" : "~";
      else if (kind == 1) { if (name.size() < 2) continue; name.erase(name.size() - 1); }
      else if (hunter) continue;
      else {
         // a letter where a digit must be
         size_t off = 0; bool done = false;
         for (auto& k : s.t) {
            size_t w = k.c ? k.w : k.lit.size();
            if (k.c && k.c != 'x' && k.c != 't' && k.c != 'n') { name[off + r.below(w)] = 'q'; done = true; break; }
            off += w;
         }
         if (!done) continue;
      }
      if (name == "." || name == "..") continue;
      string full = p + "/" + name;
      struct stat sb;
      if (stat(full.c_str(), &sb) == 0) continue;
      if (l + 1 == f.comp.size()) touch(full);
      else {
         for (size_t q = l + 1; q + 1 < f.comp.size(); q++) full += "/" + f.comp[q];
         mkdirs(full);
         touch(full + "/" + f.comp.back());
      }
   }
}
struct Q { i64 a, b; double fa, fb; };
Q query(vf::Rng& r, const Tree& T)
{
   Q q{0, 0, 0, 0};
   i64 t0 = T.files.empty() ? randTime(r) : r.pick(T.files).t, t1 = T.files.empty() ? t0 : r.pick(T.files).t;
   int kind = int(r.below(5));
   if (kind == 0) { q.a = q.b = t0; }
   else if (kind == 1) { q.a = std::min(t0, t1); q.b = std::max(t0, t1); }
   else if (kind == 2) { q.a = floorTo(T.have, std::min(t0, t1)); q.b = floorTo(T.have, std::max(t0, t1)); if (q.a < 0 || T.have.empty()) q.a = q.b = t0; }
   else if (kind == 3) { q.a = t0 - i64(fabs(r.logmag(1, 1e7))); q.b = t1 + i64(fabs(r.logmag(1, 1e7))); if (q.b < q.a) std::swap(q.a, q.b); }
   else { q.a = std::min(t0, t1) / 86400 * 86400; q.b = std::max(t0, t1) / 86400 * 86400 + 86400 * r.range(0, 2); }
   if (r.chance(0.3)) { q.fa = 0.25; q.fb = r.chance(0.5) ? 0.25 : 0.75; }
   return q;
}
string showQ(const Q& q) { return std::to_string(q.a) + "+" + std::to_string(q.fa) + ".." + std::to_string(q.b) + "+" + std::to_string(q.fb); }

string listing(const vector<string>& v, const string& root)
{
   string s;
   for (auto& x : v) s += " " + (x.compare(0, root.size(), root) == 0 ? x.substr(root.size()) : x);
   return s;
}
void compare(vf::Case& c, const char* key, const std::set<string>& want, const vector<string>& got, const string& what, const string& root)
{
   std::set<string> g(got.begin(), got.end());
   vector<string> miss, extra;
   std::set_difference(want.begin(), want.end(), g.begin(), g.end(), std::back_inserter(miss));
   std::set_difference(g.begin(), g.end(), want.begin(), want.end(), std::back_inserter(extra));
   VF_CHECK(string(key) + ".missing", miss.empty(), what << " missed" << listing(miss, root));
   VF_CHECK(string(key) + ".extra", extra.empty(), what << " returned" << listing(extra, root));
   VF_CHECK(string(key) + ".once", g.size() == got.size(), what << " returned " << got.size() << " names, " << g.size() << " distinct");
   c.count("files found", want.size());
}

// -------------------------------------------------------------- find
void stFind(vf::Case& c)
{
   vf::Rng& r = c.rng;
   Tree T = mkTree(r, false);
   mkdirs(T.root);
   decoys(r, T, false);
   string spec = treeSpec(T);
   c.distinct(spec + std::to_string(T.files.size()));
   c.sample(spec);
   bool rel = r.chance(0.35);
   string old;
   char buf[4096];
   if (rel) { old = getcwd(buf, sizeof buf); if (chdir(T.root.c_str()) != 0) rel = false; }
   string pre = rel ? (r.chance(0.5) ? "" : "./") : T.root + "/";
   int nq = int(r.range(1, 4));
   for (int i = 0; i < nq; i++) {
      Q q = query(r, T);
      TimeSystem sys = r.chance(0.5) ? TimeSystem::Unknown : r.chance(0.5) ? TimeSystem::GPS : TimeSystem::Any;
      CommonTime a = ct(q.a, q.fa, sys), b = ct(q.b, q.fb, sys);
      bool all = r.chance(0.1);
      if (all) { a = CommonTime::BEGINNING_OF_TIME; b = CommonTime::END_OF_TIME; }
      std::multimap<FT, string> filt;
      std::map<char, std::set<string>> fv;
      if (!T.files.empty() && r.chance(0.6)) {
         int k = int(r.range(1, 4));
         for (int j = 0; j < k; j++) {
            const Tree::F& f = r.pick(T.files);
            for (auto& e : f.v) if (r.chance(0.4)) fv[e.first].insert(r.chance(0.9) ? e.second : "0" + e.second);
            if (r.chance(0.1)) fv['k'].insert("7");
            if (r.chance(0.15)) for (char t : T.have) if (r.chance(0.5)) fv[t].insert(tval(t, f.t));
         }
         for (auto& e : fv) for (auto& s : e.second) filt.insert({typeOf(e.first), s});
      }
      std::set<char> present;
      for (auto& l : T.lev) for (auto& k : l.t) if (k.c) present.insert(k.c);
      std::set<string> want;
      for (auto& f : T.files) {
         bool ok = true;
         if (!T.have.empty() && !all) {
            i64 ft = floorTo(T.have, f.t), from = floorTo(T.have, q.a);
            bool before = ft < q.b || (ft == q.b && q.fb > 0);
            ok = ft >= from && (before || ft == from);
         }
         for (auto& e : fv) {
            if (!present.count(e.first)) continue;
            string v = isTime(e.first) ? tval(e.first, f.t) : f.v.at(e.first);
            if (!e.second.count(v)) ok = false;
         }
         if (ok) want.insert(pre + f.path.substr(T.root.size() + 1));
      }
      vector<string> got;
      string what = pre + spec + " " + (all ? "all" : showQ(q)) + (filt.empty() ? "" : " filtered");
      VF_NOTHROW("find.throws", {
         std::list<string> l = r.chance(0.5) ? FileSpecFind::find(pre + spec, a, b, filt) : FileSpecFind::find(FileSpec(pre + spec), a, b, filt);
         got.assign(l.begin(), l.end());
      }, what);
      compare(c, rel && pre.empty() ? "find.relative" : T.meta ? "find.meta" : "find", want, got, what, T.root);
      c.count("searches");
      if (filt.size()) c.count("filtered searches");
      // the same search with values for the text fields
      if (present.count('x') && !T.files.empty() && !T.meta && !fv.count('n')) {
         const Tree::F& f0 = r.pick(T.files);
         string var;
         for (auto& l : T.lev) {
            var += var.empty() ? "" : "/";
            for (auto& k : l.t) {
               Spec one; one.t.push_back(k);
               if (k.c == 'x') { one.t[0].wide = false; one.t[0].zero = false; }
               if (k.c == 't') { one.t[0].wide = false; one.t[0].zero = false; }
               var += specStr(one);
            }
         }
         FileSpec::FSTStringMap m;
         m[FileSpec::text] = f0.v.at('x');
         if (present.count('t')) m[FileSpec::selected] = f0.v.at('t');
         std::set<string> w2;
         for (auto& f : T.files) {
            bool ok = f.v.at('x') == f0.v.at('x');
            if (!T.have.empty() && !all) {
               i64 ft = floorTo(T.have, f.t), from = floorTo(T.have, q.a);
               ok = ok && ft >= from && (ft < q.b || (ft == q.b && q.fb > 0) || ft == from);
            }
            if (ok) w2.insert(pre + f.path.substr(T.root.size() + 1));
         }
         vector<string> g2;
         VF_NOTHROW("find.text.throws", {
            std::list<string> l = r.chance(0.5) ? FileSpecFind::find(pre + var, a, b, m) : FileSpecFind::find(FileSpec(pre + var), a, b, m);
            g2.assign(l.begin(), l.end());
         }, pre + var);
         compare(c, present.count('t') ? "find.text.selected" : "find.text", w2, g2, pre + var + " text " + f0.v.at('x') + " " + showQ(q), T.root);
         c.count("text searches");
      }
   }
   // an exact name
   if (!T.files.empty() && !T.meta) {
      const Tree::F& f = r.pick(T.files);
      string p = pre + f.path.substr(T.root.size() + 1);
      vector<string> got;
      VF_NOTHROW("find.exact.throws", { std::list<string> l = FileSpecFind::find(p, CommonTime::BEGINNING_OF_TIME, CommonTime::END_OF_TIME); got.assign(l.begin(), l.end()); }, p);
      VF_CHECK("find.exact", got.size() == 1 && got[0] == p, p << " gave " << got.size());
      vector<string> none;
      VF_NOTHROW("find.exact.throws", { std::list<string> l = FileSpecFind::find(p + "nope", CommonTime::BEGINNING_OF_TIME, CommonTime::END_OF_TIME); none.assign(l.begin(), l.end()); }, p);
      VF_CHECK("find.exact.none", none.empty(), p);
   }
   if (rel) (void)!chdir(old.c_str());
   rmTree(T.root);
}

// -------------------------------------------------------------- hunt
void stHunt(vf::Case& c)
{
   vf::Rng& r = c.rng;
   Tree T = mkTree(r, true);
   mkdirs(T.root);
   decoys(r, T, true);
   string spec = treeSpec(T);
   c.distinct(spec + std::to_string(T.files.size()));
   bool rel = r.chance(0.3);
   string old;
   char buf[4096];
   if (rel) { old = getcwd(buf, sizeof buf); if (chdir(T.root.c_str()) != 0) rel = false; }
   string pre = rel ? "" : T.root + "/";
   string full = T.root;
   std::set<char> present;
   for (auto& l : T.lev) for (auto& k : l.t) if (k.c) present.insert(k.c);
   {
      FileHunter dummy("/nonexistent%02p/x");
      dummy.setFilter(FileSpec::prn, vector<string>(1, "77"));
      FileHunter direct(pre + spec);
      FileHunter viaSpec{FileSpec(pre + spec)};
      if (r.chance(0.5)) dummy.newHunt(pre + spec); else dummy.newHunt(FileSpec(pre + spec));
      FileHunter* h = r.chance(0.4) ? &direct : r.chance(0.5) ? &viaSpec : &dummy;
      std::map<char, std::set<string>> fv;
      int nq = int(r.range(1, 3));
      for (int i = 0; i < nq; i++) {
         if (!T.files.empty() && r.chance(0.4)) {
            char k = 0;
            const Tree::F& f = r.pick(T.files);
            for (auto& e : f.v) if (!fv.count(e.first) && r.chance(0.5)) k = e.first;
            if (k) {
               vector<string> vals;
               int m = int(r.range(1, 3));
               for (int j = 0; j < m; j++) {
                  string v = r.pick(T.files).v.at(k);
                  fv[k].insert(v);
                  if (r.chance(0.3)) { size_t z = v.find_first_not_of('0'); v = z == string::npos ? "0" : v.substr(z); }
                  vals.push_back(v);
               }
               h->setFilter(typeOf(k), vals);
            }
         }
         Q q = query(r, T);
         bool all = r.chance(0.15);
         static const FileHunter::FileChunking CH[] = {FileHunter::WEEK, FileHunter::DAY, FileHunter::HOUR, FileHunter::MINUTE};
         int ch = int(r.below(4));
         i64 from = ch == 0 ? (GPS0 + (day(q.a) - GPS0) / 7 * 7) * 86400 : ch == 1 ? day(q.a) * 86400 : ch == 2 ? q.a / 3600 * 3600 : q.a / 60 * 60;
         bool desc = r.chance(0.5);
         std::set<string> want;
         std::map<string, const Tree::F*> by;
         for (auto& f : T.files) {
            i64 ft = floorTo(T.have, f.t);
            bool ok = all || (ft >= from && (ft < q.b || ft == q.b));
            for (auto& e : fv) if (!e.second.count(f.v.at(e.first))) ok = false;
            by[f.path] = &f;
            if (ok) want.insert(f.path);
         }
         vector<string> got;
         string what = pre + spec + " " + (all ? "all" : showQ(q)) + " chunk " + std::to_string(ch);
         VF_NOTHROW("hunt.throws", {
            if (all) got = h->find(CommonTime::BEGINNING_OF_TIME, CommonTime::END_OF_TIME, desc ? FileSpec::descending : FileSpec::ascending);
            else got = h->find(ct(q.a, q.fa, TimeSystem::Any), ct(q.b, q.fb, TimeSystem::Any), desc ? FileSpec::descending : FileSpec::ascending, CH[ch]);
         }, what);
         compare(c, fv.empty() ? "hunt" : "hunt.filter", want, got, what, T.root);
         c.count("hunts");
         // ordered by the fields of the file name
         vector<char> order;
         for (auto& k : T.lev.back().t) if (k.c) order.push_back(k.c);
         std::sort(order.begin(), order.end(), [](char x, char y) { return rank(x) < rank(y); });
         bool ord = true;
         for (size_t j = 1; j < got.size(); j++) {
            if (!by.count(got[j]) || !by.count(got[j - 1])) continue;
            const Tree::F &x = *by[got[j - 1]], &y = *by[got[j]];
            for (char k : order) {
               string u = isTime(k) ? tval(k, x.t) : x.v.at(k), v = isTime(k) ? tval(k, y.t) : y.v.at(k);
               int d = u.compare(v);
               if (d) { if ((desc ? -d : d) > 0) ord = false; break; }
            }
         }
         VF_CHECK("hunt.order", ord, what << (desc ? " descending" : " ascending") << listing(got, T.root));
         VF_THROWS("hunt.backwards", FileHunterException, h->find(ct(q.b + 10, 0, TimeSystem::Any), ct(q.a, 0, TimeSystem::Any)), what);
      }
      VF_THROWS("hunt.filter.none", FileHunterException, h->setFilter(FileSpec::prn, vector<string>()), spec);
      if (!present.count('v'))
         VF_THROWS("hunt.filter.absent", FileHunterException, h->setFilter(FileSpec::version, vector<string>(1, "1")), spec);
      VF_THROWS("hunt.filter.type", FileHunterException, h->setFilter(FileSpec::end, vector<string>(1, "1")), spec);
   }
   VF_THROWS("hunt.empty", FileHunterException, FileHunter{string()}, "empty");
   string bad = "/tmp/%3" + string(1, r.chance(0.5) ? '!' : 'q');
   VF_THROWS("hunt.bad", FileHunterException, FileHunter{bad}, bad);
   if (rel) (void)!chdir(old.c_str());
   rmTree(T.root);
}

// -------------------------------------------------------------- dirs
void stDirs(vf::Case& c)
{
   vf::Rng& r = c.rng;
   string root = vf::scratch() + "/d" + std::to_string(getpid()) + "_" + std::to_string(treeNo++);
   mkdir(root.c_str(), 0755);
   int n = int(r.range(1, 5));
   string p = root;
   vector<string> all;
   for (int i = 0; i < n; i++) { p += string(r.chance(0.1) ? 2 : 1, '/') + "d" + r.str(int(r.range(1, 6)), "abc .-_%1"); all.push_back(p); }
   if (r.chance(0.4) && n > 1) mkdir(all[0].c_str(), 0755);
   c.distinct(p.substr(root.size()));
   unsigned mode = r.chance(0.5) ? 0755 : r.chance(0.5) ? 0700 : 0750;
   mode_t um = umask(0);
   bool rel = r.chance(0.3);
   char buf[4096];
   string old = getcwd(buf, sizeof buf), arg = p;
   if (rel && chdir(root.c_str()) == 0) arg = p.substr(p.find_first_not_of('/', root.size())); else rel = false;
   if (r.chance(0.3)) arg += "/";
   struct stat sb;
   bool pre0 = stat(all[0].c_str(), &sb) == 0;
   int rc = r.chance(0.5) ? FileUtils::makeDir(arg, mode) : FileUtils::makeDir(arg.c_str(), mode);
   VF_CHECK("dir.rc", rc == 0, arg << " gave " << rc);
   bool made = true, modes = true;
   for (size_t i = 0; i < all.size(); i++) {
      if (stat(all[i].c_str(), &sb) != 0 || !S_ISDIR(sb.st_mode)) { made = false; continue; }
      if (!(i == 0 && pre0) && (sb.st_mode & 0777) != mode) modes = false;
   }
   VF_CHECK("dir.made", made, arg);
   VF_CHECK("dir.mode", modes, arg << " mode " << mode);
   VF_CHECK("dir.again", FileUtils::makeDir(arg, mode) == 0, arg);
   umask(um);
   string f = p + "/f" + r.str(3, "abc ");
   VF_CHECK("access.absent", !FileUtils::fileAccessCheck(f) && !FileUtils::fileAccessCheck(f.c_str()), f);
   VF_CHECK("access.absent.update", !FileUtils::fileAccessCheck(f, std::ios::in | std::ios::out), f);
   VF_CHECK("access.made", stat(f.c_str(), &sb) != 0, f << " exists after a check for reading");
   string body = r.str(int(r.range(1, 60)), "abc\n");
   vf::spit(f, body);
   VF_CHECK("access.read", FileUtils::fileAccessCheck(f) && FileUtils::fileAccessCheck(f.c_str()), f);
   VF_CHECK("access.update", FileUtils::fileAccessCheck(f, std::ios::in | std::ios::out), f);
   VF_CHECK("access.append", FileUtils::fileAccessCheck(f, std::ios::out | std::ios::app), f);
   VF_CHECK("access.keeps.read", vf::slurp(f) == body, f);
   VF_CHECK("access.write", FileUtils::fileAccessCheck(f, std::ios::out) && FileUtils::fileAccessCheck(f.c_str(), std::ios::out), f);
   VF_CHECK("access.keeps.write", vf::slurp(f) == body, f << " changed by a check for writing");
   string deep = f + "/x";
   VF_CHECK("access.below", !FileUtils::fileAccessCheck(deep) && !FileUtils::fileAccessCheck(deep, std::ios::out), deep);
   // a file in the way: nothing is created and nothing is lost
   FileUtils::makeDir(deep, 0755);
   VF_CHECK("dir.blocked", vf::slurp(f) == body && stat(deep.c_str(), &sb) != 0, deep);
   if (rel) (void)!chdir(old.c_str());
   rmTree(root);
   c.count("directories", n);
}
} // namespace

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {
      {"spec", 20000, 300000, stSpec},
      {"sort", 15000, 200000, stSort},
      {"find", 2500, 40000, stFind},
      {"hunt", 2000, 30000, stHunt},
      {"dirs", 1500, 20000, stDirs},
   });
}
