// C23: formatted file streams: any bytes read as any supported file format give records or a marked failure, never anything else
#include "vf.hpp"
#include "RinexObsStream.hpp"
#include "RinexObsHeader.hpp"
#include "RinexObsData.hpp"
#include "RinexNavStream.hpp"
#include "RinexNavHeader.hpp"
#include "RinexNavData.hpp"
#include "RinexMetStream.hpp"
#include "RinexMetHeader.hpp"
#include "RinexMetData.hpp"
#include "RinexClockStream.hpp"
#include "RinexClockHeader.hpp"
#include "RinexClockData.hpp"
#include "Rinex3ObsStream.hpp"
#include "Rinex3ObsHeader.hpp"
#include "Rinex3ObsData.hpp"
#include "Rinex3NavStream.hpp"
#include "Rinex3NavHeader.hpp"
#include "Rinex3NavData.hpp"
#include "Rinex3ClockStream.hpp"
#include "Rinex3ClockHeader.hpp"
#include "Rinex3ClockData.hpp"
#include "SP3Stream.hpp"
#include "SP3Header.hpp"
#include "SP3Data.hpp"
#include "SinexStream.hpp"
#include "SinexData.hpp"
#include "SEMStream.hpp"
#include "SEMHeader.hpp"
#include "SEMData.hpp"
#include "YumaStream.hpp"
#include "YumaHeader.hpp"
#include "YumaData.hpp"
#include "IonexStream.hpp"
#include "IonexHeader.hpp"
#include "IonexData.hpp"
#include "AntexStream.hpp"
#include "AntexHeader.hpp"
#include "AntexData.hpp"
#include "BinexStream.hpp"
#include "BinexData.hpp"
#include <dirent.h>
using namespace gpstk;

static std::map<std::string, std::vector<std::string> > CORPUS;
static std::string corpusDir() { std::string f = __FILE__; size_t p = f.rfind('/'); return (p == std::string::npos ? std::string(".") : f.substr(0, p)) + "/../corpus"; }
static void load() { if (!CORPUS.empty()) return; DIR* d = opendir(corpusDir().c_str()); if (!d) { fprintf(stderr, "no corpus\n"); exit(3); } while (dirent* e = readdir(d)) { std::string f = e->d_name; if (f[0] == '.') continue; DIR* g = opendir((corpusDir() + "/" + f).c_str()); if (!g) continue; std::vector<std::string> n; while (dirent* x = readdir(g)) if (x->d_name[0] != '.') n.push_back(x->d_name); closedir(g); std::sort(n.begin(), n.end()); for (auto& q : n) CORPUS[f].push_back(vf::slurp(corpusDir() + "/" + f + "/" + q)); } closedir(d); }

static std::vector<std::string> split(const std::string& t) { std::vector<std::string> v; std::string l; for (char c : t) { if (c == '\n') { v.push_back(l); l.clear(); } else l += c; } if (!l.empty()) v.push_back(l); return v; }
static std::string mutate(vf::Rng& r, const std::string& base, std::string& what)
{
   std::vector<std::string> L = split(base); int n = r.chance(0.08) ? 0 : (int)r.range(1, 4); std::string tail = "\n", all; bool crlf = false; double cutAt = 1;
   // concentrate on a part of the file half of the time
   size_t lo = 0, hi = L.size(); if (hi > 30 && r.chance(0.4)) hi = 30;
   for (int k = 0; k < n && !L.empty(); k++)
   {
      if (hi > L.size()) hi = L.size(); if (hi == 0) break; size_t i = lo + r.below(hi - lo); std::string& l = L[i]; int m = (int)r.below(17); char b[64]; snprintf(b, 64, "%d@%zu ", m, i); what += b;
      switch (m)
      {
         case 0: if (!l.empty()) l.erase(r.below(l.size()), 1); break;
         case 1: if (!l.empty()) l[r.below(l.size())] = (char)r.range(32, 126); break;
         case 2: l.insert(r.below(l.size() + 1), 1, (char)r.range(32, 126)); break;
         case 3: l.resize(r.below(l.size() + 1)); break;
         case 4: l += std::string(r.range(1, 40), r.chance(0.5) ? ' ' : 'X'); break;
         case 5: L.insert(L.begin() + i, L[r.below(L.size())]); break;
         case 6: L.erase(L.begin() + i); break;
         case 7: std::swap(l, L[r.below(L.size())]); break;
         case 8: case 9: { std::vector<std::pair<size_t, size_t> > f; for (size_t p = 0; p < l.size();) { if (isdigit((unsigned char)l[p])) { size_t q = p; while (q < l.size() && isdigit((unsigned char)l[q])) q++; f.push_back(std::make_pair(p, q - p)); p = q; } else p++; } if (f.empty()) break; auto q = f[r.below(f.size())]; std::string w; switch (r.below(6)) { case 0: w = std::string(q.second, ' '); break; case 1: w = std::string(q.second, '9'); break; case 2: w = std::string(q.second, '0'); break; case 3: w = "-" + std::string(q.second - 1, '9'); break; case 4: w = std::string(q.second, 'A'); break; default: for (size_t j = 0; j < q.second; j++) w += (char)('0' + r.below(10)); } l.replace(q.first, q.second, w); break; }
         case 10: l = std::string(l.size(), ' '); break;
         case 11: l = ""; break;
         case 12: if (!l.empty()) l[r.below(l.size())] = (char)r.pick(std::vector<int>{0, 9, 127, 128, 255, 13, 27}); break;
         case 13: { auto it = CORPUS.begin(); std::advance(it, r.below(CORPUS.size())); std::vector<std::string> M = split(it->second[r.below(it->second.size())]); if (!M.empty()) l = M[r.below(M.size())]; break; }
         case 14: cutAt = r.unit(); break;
         case 15: if (r.chance(0.3)) crlf = true; else if (l.size() > 60) l.resize(r.range(56, 62)); break;
         case 16: tail = r.chance(0.5) ? "" : r.chance(0.5) ? "\n\n" : "   \n"; break;
      }
   }
   std::string o; for (size_t i = 0; i < L.size(); i++) o += L[i] + (i + 1 < L.size() ? (crlf ? "\r\n" : "\n") : tail); if (cutAt < 1) o.resize((size_t)(cutAt * o.size())); return o;
}
// an object built in memory filled with a pattern: an uninitialized member shows as a difference between two runs
template <class T> struct Filled { void* p; T* t; explicit Filled(int fill) { p = malloc(sizeof(T)); memset(p, fill, sizeof(T)); t = new (p) T; } ~Filled() { t->~T(); free(p); } Filled(const Filled&) = delete; };
struct Out { std::vector<std::string> recs; bool failed, eof, threw, other; std::string what; size_t at; Out() : failed(false), eof(false), threw(false), other(false), at(0) {} };
static std::string dumped(const FFData& d) { std::ostringstream o; try { d.dump(o); } catch (Exception& e) { o << "dump: " << e.getText(); } return o.str(); }
template <class S> static long lineOf(S&, long) { return -1; }
static long lineNo(FFTextStream& s) { return s.lineNumber; }
static long lineNo(FFStream&) { return -1; }
template <class S> static bool one(S& in, FFData& d, Out& o, const std::string& fmt, const std::string& ds, bool exc, size_t limit, bool implicit)
{
   if (in.rdstate() == std::ios::eofbit) in.clear(); long pos = in.tellg(), line = lineNo(in); unsigned rec = in.recordNumber; bool threw = false;
   try { in >> d; }
   catch (FFStreamError& e) { threw = true; o.what = e.what(); }
   catch (StringUtils::StringException& e) { threw = true; o.what = e.what(); }
   catch (Exception& e) { threw = true; o.other = true; o.what = vf::demangle(typeid(e).name()) + " " + e.what(); }
   catch (std::exception& e) { threw = true; o.other = true; o.what = vf::demangle(typeid(e).name()) + " " + e.what(); }
   if (threw) { o.threw = true; VF_CHECK(fmt + ".throws.enabled", exc, ds << " exception with exceptions off: " << o.what); VF_CHECK(fmt + ".throws.type", !o.other, ds << " threw " << o.what); }
   bool bad = in.fail() || threw; o.failed = bad; o.at = o.recs.size();
   if (!bad) { VF_CHECK(fmt + ".recordnumber", in.recordNumber == rec + 1 || (implicit && in.recordNumber == rec + 2), ds << " record number " << in.recordNumber << " after " << rec); o.recs.push_back(dumped(d)); VF_CHECK(fmt + ".terminates", o.recs.size() < limit, ds << " more records than bytes"); return o.recs.size() < limit; }
   o.eof = in.eof(); bool ff = in.fail(); if (threw) VF_CHECK(fmt + ".failbit", ff, ds << " threw without failbit: " << o.what);
   if (!o.eof) { if (exc) VF_CHECK(fmt + ".silent", threw, ds << " failed without throwing though exceptions are on: " << in.mostRecentException.what()); in.exceptions(std::ios::goodbit); in.clear(); long now = in.tellg(); VF_CHECK(fmt + ".position", now == pos, ds << " position " << now << " after a failed read at " << pos); VF_CHECK(fmt + ".recordnumber.fail", in.recordNumber == rec, ds << " record number " << in.recordNumber << " want " << rec); VF_CHECK(fmt + ".linenumber.fail", lineNo(in) == line, ds << " line number " << lineNo(in) << " want " << line); }
   return false;
}
template <class S, class H, class D> static Out go(const std::string& fmt, const std::string& fn, const std::string& ds, bool exc, int fill, bool header, size_t limit, std::ios::openmode mode)
{
   Out o; Filled<S> s(fill); S& in = *s.t; in.open(fn.c_str(), mode); if (exc) in.exceptions(std::ios::failbit); Filled<H> h(fill); if (header && !one(in, *h.t, o, fmt, ds, exc, limit, false)) return o;
   Filled<D> d(fill); while (one(in, *d.t, o, fmt, ds, exc, limit, !header && o.recs.empty())) ; return o;
}
struct None : public FFData { void reallyPutRecord(FFStream&) const {} void reallyGetRecord(FFStream&) {} };
template <class S, class H, class D> static void check(vf::Case& c, const std::string& fmt, const std::string& bytes, const std::string& what, bool hasHeader, std::ios::openmode mode = std::ios::in)
{
   std::string fn = vf::scratch() + "/f." + fmt, ds = fmt + " " + what; vf::spit(fn, bytes); size_t limit = bytes.size() + 3; bool header = hasHeader && c.rng.chance(0.6);
   Out a = go<S, H, D>(fmt, fn, ds, false, 0xa5, header, limit, mode), b = go<S, H, D>(fmt, fn, ds, true, 0x5a, header, limit, mode);
   c.count(fmt + " records", a.recs.size()); c.count(a.eof ? fmt + " read to the end" : fmt + " refused", 1);
   VF_CHECK(fmt + ".same.count", a.recs.size() == b.recs.size(), ds << " " << a.recs.size() << " records, with exceptions on " << b.recs.size() << " " << b.what);
   VF_CHECK(fmt + ".same.end", a.eof == b.eof, ds << " end of file " << a.eof << " with exceptions on " << b.eof << " " << b.what);
   for (size_t i = 0; i < a.recs.size() && i < b.recs.size(); i++) if (a.recs[i] != b.recs[i]) { size_t p = 0; while (p < a.recs[i].size() && p < b.recs[i].size() && a.recs[i][p] == b.recs[i][p]) p++; size_t q = p > 60 ? p - 60 : 0; VF_CHECK(fmt + ".same.record", false, ds << " record " << i << " depends on what was read or in memory before: <" << a.recs[i].substr(q, 120) << "> or <" << b.recs[i].substr(q, 120) << ">"); break; }
   VF_CHECK(fmt + ".same.record", true, ds);
}
static void text(vf::Case& c)
{
   load(); vf::Rng& r = c.rng; static const std::vector<std::string> F = {"robs", "r3obs", "rnav", "r3nav", "rmet", "rclk", "r3clk", "sp3", "sinex", "sem", "yuma", "ionex", "antex"}; std::string f = F[c.idx % F.size()], src = r.chance(0.93) ? f : r.pick(F), what; const std::vector<std::string>& v = CORPUS[src]; size_t i = r.below(v.size()); std::string bytes = mutate(r, v[i], what); what = src + std::to_string(i) + " " + what; c.note(f + " " + what); c.distinct(f + std::to_string(std::hash<std::string>()(bytes))); c.sample(f + " " + what);
   if (f == "robs") check<RinexObsStream, RinexObsHeader, RinexObsData>(c, f, bytes, what, true);
   else if (f == "r3obs") check<Rinex3ObsStream, Rinex3ObsHeader, Rinex3ObsData>(c, f, bytes, what, true);
   else if (f == "rnav") check<RinexNavStream, RinexNavHeader, RinexNavData>(c, f, bytes, what, true);
   else if (f == "r3nav") check<Rinex3NavStream, Rinex3NavHeader, Rinex3NavData>(c, f, bytes, what, true);
   else if (f == "rmet") check<RinexMetStream, RinexMetHeader, RinexMetData>(c, f, bytes, what, true);
   else if (f == "rclk") check<RinexClockStream, RinexClockHeader, RinexClockData>(c, f, bytes, what, true);
   else if (f == "r3clk") check<Rinex3ClockStream, Rinex3ClockHeader, Rinex3ClockData>(c, f, bytes, what, true);
   else if (f == "sp3") check<SP3Stream, SP3Header, SP3Data>(c, f, bytes, what, true);
   else if (f == "sinex") check<Sinex::Stream, Sinex::Data, Sinex::Data>(c, f, bytes, what, false);
   else if (f == "sem") check<SEMStream, SEMHeader, SEMData>(c, f, bytes, what, true);
   else if (f == "yuma") check<YumaStream, YumaHeader, YumaData>(c, f, bytes, what, true);
   else if (f == "ionex") check<IonexStream, IonexHeader, IonexData>(c, f, bytes, what, true);
   else if (f == "antex") check<AntexStream, AntexHeader, AntexData>(c, f, bytes, what, true);
}
static void binex(vf::Case& c)
{
   vf::Rng& r = c.rng; std::string fn = vf::scratch() + "/b.bnx", what; int n = (int)r.range(1, 6);
   { BinexStream o(fn.c_str(), std::ios::out | std::ios::binary); for (int i = 0; i < n; i++) { BinexData d; d.setRecordFlags((unsigned char)(BinexData::VALID_RECORD_FLAGS & r.below(256))); d.setRecordID((BinexData::RecordID)r.range(0, 200)); size_t off = 0; int k = (int)r.range(0, r.chance(0.1) ? 300 : 20); for (int j = 0; j < k; j++) { switch (r.below(4)) { case 0: d.updateMessageData(off, BinexData::UBNXI((unsigned long)r.range(0, 500000))); break; case 1: d.updateMessageData(off, r.str(5, "abcXYZ"), (size_t)5); break; case 2: d.updateMessageData(off, (double)r.range(-1000000, 1000000), (size_t)8); break; default: d.updateMessageData(off, (long)r.range(-1000, 1000), (size_t)4); } } try { d.putRecord(o); } catch (Exception&) {} } }
   std::string b = vf::slurp(fn); int m = r.chance(0.15) ? 0 : (int)r.range(1, 4); for (int k = 0; k < m && !b.empty(); k++) { size_t i = r.below(b.size()); switch (r.below(6)) { case 0: b.erase(i, 1); break; case 1: b[i] = (char)r.below(256); break; case 2: b.insert(i, 1, (char)r.below(256)); break; case 3: b.resize(i); break; case 4: b[i] ^= (char)(1 << r.below(8)); break; default: for (size_t j = i; j < b.size() && j < i + 5; j++) b[j] = (char)0xff; } what += std::to_string(i) + " "; }
   c.note("binex " + what); c.distinct("b" + std::to_string(std::hash<std::string>()(b))); check<BinexStream, None, BinexData>(c, "binex", b, what, false, std::ios::in | std::ios::binary);
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"text", 26000, 400000, text}, {"binex", 2000, 40000, binex}}); }
