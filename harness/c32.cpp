// C32: navigation message filters judged against independent verdicts, with every message accounted for.
#include "vf.hpp"
#include "lnav.hpp"
#include "NavFilterMgr.hpp"
#include "NavOrderFilter.hpp"
#include "LNavOrderFilter.hpp"
#include "LNavCrossSourceFilter.hpp"
#include "CNavCrossSourceFilter.hpp"
#include "LNavParityFilter.hpp"
#include "LNavCookFilter.hpp"
#include "LNavEmptyFilter.hpp"
#include "LNavTLMHOWFilter.hpp"
#include "LNavAlmValFilter.hpp"
#include "LNavEphMaker.hpp"
#include "CNavParityFilter.hpp"
#include "CNavCookFilter.hpp"
#include "CNavEmptyFilter.hpp"
#include "CNavTOWFilter.hpp"
#include "CNav2SanityFilter.hpp"
#include "CNavFilterData.hpp"
#include "NavMsgDataBits.hpp"
#include "NavMsgDataPNB.hpp"
#include "NavMsgDataWords.hpp"
#include "GenericNavFilterData.hpp"
#include "GPSWeekSecond.hpp"
#include "CivilTime.hpp"
#include <memory>
#include <set>
#include <map>
using namespace gpstk;
typedef NavFilter::NavMsgList L;
static std::vector<NavFilterKey*> vec(const L& l) { return std::vector<NavFilterKey*>(l.begin(), l.end()); }

// ------------------------------------------------------------------ LNAV words
struct LM { uint32_t w[10]; std::unique_ptr<LNavFilterData> d; LM() : d(new LNavFilterData) { d->sf = w; } };
static lnav::SF randSF(vf::Rng& r)
{
   lnav::SF f;
   for (int i = 1; i <= 300; i++) f.bit[i] = r.below(2);
   f.head(1 + r.below(5), r.below(1 << 14), r.chance(0.1) ? 100799 : r.below(100800), r.below(4));
   return f;
}
static bool parityOK(const uint32_t w[10])
{
   for (int i = 0; i < 10; i++)
      if ((w[i] & 0x3f) != lnav::parity((w[i] >> 6) & 0xffffff, i ? (w[i - 1] >> 1) & 1 : 0, i ? w[i - 1] & 1 : 0)) return false;
   return true;
}
static std::string hex(const uint32_t* w) { std::ostringstream s; s << std::hex; for (int i = 0; i < 10; i++) s << w[i] << ' '; return s.str(); }
   // run one message through a filter that stores nothing
static int verdict(NavFilter& f, NavFilterKey* k, const char* name)
{
   L in, out; in.push_back(k); f.rejected.clear();
   f.validate(in, out);
   VF_CHECK(std::string("one.") + name, out.size() + f.rejected.size() == 1 && (out.empty() ? f.rejected.front() : out.front()) == k,
            out.size() << " accepted, " << f.rejected.size() << " rejected");
   return out.size();
}
static void lfilt(vf::Case& c)
{
   vf::Rng& r = c.rng;
   LM m; lnav::SF f = randSF(r);
   int what = r.below(5);
   c.note("what " + std::to_string(what));
   c.distinct(what * 1000 + r.below(1000));
   if (what == 0)
   {     // parity
      f.words(m.w, true);
      int flips = r.below(4);
      for (int i = 0; i < flips; i++) m.w[r.below(10)] ^= 1u << r.below(30);
      LNavParityFilter p;
      VF_CHECK("lparity", verdict(p, m.d.get(), "lparity") == parityOK(m.w), hex(m.w) << "flips " << flips << " expected " << parityOK(m.w));
      if (!flips) c.count("parity ok"); else c.count("parity damaged");
   }
   else if (what == 1)
   {     // cook
      uint32_t up[10]; f.words(up, true); f.words(m.w, false);
      bool inv = r.chance(0.5);
      if (inv) for (auto& w : m.w) w ^= 0x3fffffff;
      bool junk = r.chance(0.15);
      if (junk) m.w[0] ^= (1u + r.below(254)) << 22;
      uint32_t was[10]; std::copy(m.w, m.w + 10, was);
      LNavCookFilter p;
      VF_CHECK("cook.kept", verdict(p, m.d.get(), "cook") == 1, "a cooked message was rejected");
      VF_CHECK("cook", std::equal(m.w, m.w + 10, junk ? was : up), hex(m.w) << "expected " << hex(junk ? was : up) << (inv ? " inverted" : "") << (junk ? " junk" : ""));
      if (!junk)
      {
         LNavParityFilter q;
         VF_CHECK("cook.parity", verdict(q, m.d.get(), "lparity") == 1, "a cooked subframe fails the parity check: " << hex(m.w));
      }
      c.count(junk ? "cook junk" : inv ? "cook inverted" : "cook raw");
   }
   else if (what == 2)
   {     // empty
      bool zero = r.chance(0.3), blank = true;
      if (zero)
      {
         for (auto& w : m.w) w = 0;
         if (r.chance(0.6)) { m.w[r.below(10)] = 1u << r.below(30); blank = false; }
      }
      else
      {
         int id = r.chance(0.7) ? 4 + r.below(2) : 1 + r.below(5);
         f.head(id, r.below(1 << 14), r.below(100800), r.below(4));
         f.put(61, 8, r.below(256));
         for (int w = 2; w < 10; w++) for (int i = w == 2 ? 8 : 0; i < 24; i++) f.bit[30 * w + 1 + i] = !(i & 1);
         blank = id > 3;
         if (r.chance(0.5))
         {     // one bit of the data off the pattern (not bits 23 and 24 of word ten, which carry no data)
            int w = 2 + r.below(8), b = w == 2 ? 8 + r.below(16) : w == 9 ? r.below(22) : r.below(24);
            f.bit[30 * w + 1 + b] ^= 1; blank = false;
         }
         f.words(m.w, true);
      }
      LNavEmptyFilter p;
      bool tb = blank && !zero && ((m.w[9] >> 6) & 3) != 2;   // the bits solved for parity are part of the pattern the filter expects
      VF_CHECK(tb ? "lempty.tbits" : "lempty", verdict(p, m.d.get(), "lempty") == !blank, hex(m.w) << (blank ? "is empty but was accepted" : "holds data but was rejected"));
      c.count(zero ? blank ? "zero" : "nearly zero" : blank ? "blank page" : "not blank");
   }
   else if (what == 3)
   {     // TLM and HOW
      int sfid = r.below(8), tow = r.pick(std::vector<int>{0, 1, 100799, 100800, 131071, (int)r.below(131072)}), pre = r.chance(0.8) ? 0x8b : r.chance(0.5) ? 0x8b ^ (1 << r.below(8)) : r.below(256);
      f.head(sfid, r.below(1 << 14), tow, r.below(4)); f.put(1, 8, pre);
      f.words(m.w, true);
      bool z = r.chance(0.85);
      if (!z) m.w[1] = (m.w[1] & ~3u) | (1 + r.below(3));
      bool ok = pre == 0x8b && z && tow < 100800 && sfid >= 1 && sfid <= 5;
      LNavTLMHOWFilter p;
      VF_CHECK("tlmhow", verdict(p, m.d.get(), "tlmhow") == ok, hex(m.w) << "preamble " << pre << " tow " << tow << " id " << sfid << " zero bits " << z);
      c.count(ok ? "tlmhow ok" : "tlmhow bad");
   }
   else
   {
      f.words(m.w, true);
      LNavAlmValFilter p;
      int v = verdict(p, m.d.get(), "almval");
      if (((m.w[1] >> 8) & 7) < 4) VF_CHECK("almval", v == 1, "a subframe without almanac was rejected as almanac");
      c.count("almval");
   }
}

// ------------------------------------------------------------------ CNAV bits
typedef std::vector<int> B;
static void put(B& b, int s, int n, uint64_t v) { for (int i = 0; i < n; i++) b[s + i] = (v >> (n - 1 - i)) & 1; }
static uint64_t get(const B& b, int s, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v * 2 + b[s + i]; return v; }
static void load(PackedNavBits& p, const B& b)
{
   p.clearBits();
   size_t i = 0;
   while (i < b.size()) { int n = std::min<size_t>(30, b.size() - i); p.addUnsignedLong(get(b, i, n), n, 1); i += n; }
   p.trimsize();
}
static B unload(const PackedNavBits& p) { B b(p.getNumBits()); for (size_t i = 0; i < b.size(); i++) b[i] = p.asUnsignedLong(i, 1, 1); return b; }
   // CRC-24Q by long division of the polynomial
static uint32_t crc24q(const B& b, size_t n)
{
   static const int g[] = {24, 23, 18, 17, 14, 11, 10, 7, 6, 5, 4, 3, 1, 0};
   B x(b.begin(), b.begin() + n); x.resize(n + 24, 0);
   for (size_t i = 0; i < n; i++) if (x[i]) for (int k : g) x[i + 24 - k] ^= 1;
   return get(x, n, 24);
}
static PackedNavBits mk(vf::Rng& r, const B& b, const CommonTime& t, int prn)
{
   PackedNavBits p(SatID(prn, SatelliteSystem::GPS), ObsID(ObservationType::NavMsg, CarrierBand::L2, TrackingCode::L2CM), "rx" + std::to_string(r.below(9)), t);
   load(p, b);
   return p;
}
static void cfilt(vf::Case& c)
{
   vf::Rng& r = c.rng;
   int what = r.below(5), prn = 1 + r.below(32);
   CommonTime t = GPSWeekSecond(1800 + r.below(500), 6.0 * r.below(100800), TimeSystem::GPS);
   B b(300);
   for (auto& x : b) x = r.below(2);
   put(b, 0, 8, 0x8b);
   c.distinct(what * 1000 + r.below(1000));
   c.note("what " + std::to_string(what));
   if (what == 0)
   {
      put(b, 276, 24, crc24q(b, 276));
      int flips = r.below(4); std::set<int> at;
      while ((int)at.size() < flips) at.insert(r.below(300));
      if (r.chance(0.2)) { at.clear(); flips = 1 + r.below(24); int s = r.below(277); at.insert(s); at.insert(std::min(299, s + flips - 1)); for (int i = 1; i < flips - 1; i++) if (r.below(2)) at.insert(s + i); }
      for (int i : at) b[i] ^= 1;
      PackedNavBits p = mk(r, b, t, prn); CNavFilterData d(&p); CNavParityFilter f;
      VF_CHECK("cparity", verdict(f, &d, "cparity") == at.empty(), at.size() << " bits flipped, from " << (at.empty() ? -1 : *at.begin()));
      c.count(at.empty() ? "crc ok" : "crc damaged");
   }
   else if (what == 1)
   {
      B raw = b; bool inv = r.chance(0.5);
      if (inv) for (auto& x : raw) x ^= 1;
      PackedNavBits p = mk(r, raw, t, prn); CNavFilterData d(&p); CNavCookFilter f;
      VF_CHECK("ccook.kept", verdict(f, &d, "ccook") == 1, "a cooked message was rejected");
      VF_CHECK("ccook", unload(p) == b, "the cooked message is not upright, was " << (inv ? "inverted" : "upright"));
      c.count("ccook");
   }
   else if (what == 2)
   {
      int k = r.below(4); bool blank = k < 2;
      if (k < 3) { int alt = r.below(2); for (int i = 38; i < 276; i++) b[i] = alt && ((i - 38) & 1); if (k == 2) b[38 + r.below(238)] ^= 1; }
      PackedNavBits p = mk(r, b, t, prn); CNavFilterData d(&p); CNavEmptyFilter f;
      VF_CHECK("cempty", verdict(f, &d, "cempty") == !blank, (blank ? "an empty message was accepted" : "a message with data was rejected"));
      c.count(blank ? "cempty blank" : "cempty data");
   }
   else if (what == 3)
   {
      int pre = r.chance(0.8) ? 0x8b : r.below(256), ty = r.below(64), tow = r.pick(std::vector<int>{0, 100799, 100800, 131071, (int)r.below(131072)});
      put(b, 0, 8, pre); put(b, 14, 6, ty); put(b, 20, 17, tow);
      static const std::set<int> types = {0, 10, 11, 12, 13, 14, 15, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39};
      bool ok = pre == 0x8b && types.count(ty) && tow < 100800;
      PackedNavBits p = mk(r, b, t, prn); CNavFilterData d(&p); CNavTOWFilter f;
      VF_CHECK("ctow", verdict(f, &d, "ctow") == ok, "preamble " << pre << " type " << ty << " tow " << tow);
      c.count(ok ? "ctow ok" : "ctow bad");
   }
   else
   {     // CNAV-2: 9 bits TOI, 600 bits subframe 2, 274 bits subframe 3
      B x(883);
      for (auto& v : x) v = r.below(2);
      int week = 1700 + r.below(600), n18 = r.pick(std::vector<int>{0, 1, 399, 400, 33599, 33598, (int)r.below(33600)});
      t = GPSWeekSecond(week, 18.0 * n18, TimeSystem::GPS);
         // the message names the time at its end: two-hour count and 18 s count of the next one
      int next = n18 + 1, itow = next / 400, toi = next % 400;
      if (next == 33600) { itow = 0; toi = 0; }
      if (toi == 0 && next != 33600 && r.chance(0.5)) { itow--; toi = 400; }
      int page = 1 + r.below(6), id = prn;
      bool ok = true;
      switch (r.below(7))
      {
         case 0: toi ^= 1 << r.below(9); ok = false; break;
         case 1: itow ^= 1 << r.below(7); ok = false; break;
         case 2: week ^= 1 << r.below(11); ok = false; break;
         case 3: id ^= 1 << r.below(8); ok = false; break;
         case 4: page = r.below(58); if (page) page += 6; ok = false; break;
      }
      put(x, 0, 9, toi); put(x, 9, 13, week); put(x, 22, 8, itow); put(x, 609, 8, id); put(x, 617, 6, page);
      PackedNavBits p = mk(r, x, t, prn); CNavFilterData d(&p); CNav2SanityFilter f;
      VF_CHECK("sane", verdict(f, &d, "sane") == ok, "sent " << 18 * n18 << " toi " << toi << " itow " << itow << " page " << page << " id " << id << " of " << prn);
      c.count(ok ? "cnav2 ok" : "cnav2 bad");
   }
}

// ------------------------------------------------------------------ ordering
template <class F, class D> static void orderOne(vf::Case& c, const char* name)
{
   vf::Rng& r = c.rng;
   unsigned depth = 1 + r.below(5), ep = r.pick(std::vector<int>{1, 6, 12, 30});
   F f(depth, ep); bool dflt = r.chance(0.2);
   if (dflt) { f.procDepth = 3; f.epochInSeconds = 6; depth = 3; ep = 6; F g; VF_CHECK("order.default", g.procDepth == 3 && g.epochInSeconds == 6, "defaults"); }
   VF_CHECK("order.depth", f.processingDepth() == depth, "processingDepth()");
   CommonTime t0 = r.chance(0.2) ? CommonTime(CivilTime(1970 + r.below(12), 1 + r.below(12), 5, 0, 0, 0, r.chance(0.5) ? TimeSystem::UTC : TimeSystem::GPS))
                                 : CommonTime(GPSWeekSecond(1500 + r.below(800), 6.0 * r.below(100800), TimeSystem::GPS));
   int n = 5 + r.below(60); double now = 0;
   std::vector<std::unique_ptr<D>> own; std::map<NavFilterKey*, double> tm;
      // model: held messages and the newest time seen
   std::map<double, std::set<NavFilterKey*>> held; double newest = -1e9; bool any = false;
   std::vector<double> outTimes; size_t acc = 0, rej = 0;
   for (int i = 0; i < n; i++)
   {
      if (r.chance(0.15)) now += ep * (double)r.below(12); else if (r.chance(0.5)) now += ep;
      L in, out; std::set<NavFilterKey*> wantRej;
      int k = r.chance(0.2) ? 2 + r.below(3) : 1;
      double limit = any ? newest - double(depth * ep) : -1e18;
      for (int j = 0; j < k; j++)
      {
         double t = now - (r.chance(0.4) ? ep * (double)r.below(2 * depth + 2) : 0) + (r.chance(0.1) ? 0.5 * ep : 0);
         own.emplace_back(new D); D* d = own.back().get();
         d->timeStamp = t0 + t; d->prn = 1 + r.below(32); tm[d] = t;
         in.push_back(d);
         if (t < limit) wantRej.insert(d);
         else held[t].insert(d);
      }
      if (!held.empty()) { newest = held.rbegin()->first; any = true; }
      f.rejected.clear();
      VF_NOTHROW("order.throw", f.validate(in, out), "validate");
      std::set<NavFilterKey*> gotRej(f.rejected.begin(), f.rejected.end());
      VF_CHECK(std::string("order.reject.") + name, gotRej == wantRej && f.rejected.size() == wantRej.size(), gotRej.size() << " rejected, expected " << wantRej.size() << " depth " << depth << " epoch " << ep);
      std::set<NavFilterKey*> want;
      while (!held.empty() && held.begin()->first <= newest - double(depth * ep)) { want.insert(held.begin()->second.begin(), held.begin()->second.end()); held.erase(held.begin()); }
      std::set<NavFilterKey*> got(out.begin(), out.end());
      VF_CHECK(std::string("order.accept.") + name, got == want && out.size() == want.size(), got.size() << " accepted, expected " << want.size() << " depth " << depth << " epoch " << ep);
      for (auto p : out) outTimes.push_back(tm[p]);
      acc += out.size(); rej += gotRej.size();
      if (r.chance(0.03) || i == n - 1)
      {
         L fin; f.finalize(fin);
         std::set<NavFilterKey*> rest, g(fin.begin(), fin.end());
         for (auto& h : held) rest.insert(h.second.begin(), h.second.end());
         VF_CHECK(std::string("order.final.") + name, g == rest && fin.size() == rest.size(), g.size() << " flushed, expected " << rest.size());
         for (auto p : fin) outTimes.push_back(tm[p]);
         VF_CHECK(std::string("order.sorted.") + name, std::is_sorted(outTimes.begin(), outTimes.end()), "accepted messages are not in time order");
         outTimes.clear(); held.clear(); any = false; newest = -1e9; acc += fin.size();
         L fin2; f.finalize(fin2);
         VF_CHECK("order.again", fin2.empty(), "flushed twice");
      }
   }
   VF_CHECK("order.all", acc + rej == own.size(), acc << " accepted, " << rej << " rejected of " << own.size());
   c.count("messages", own.size()); c.count("late", rej);
   c.distinct(depth * 1000 + ep * 100 + rej);
}
static void order(vf::Case& c)
{
   if (c.rng.chance(0.5)) orderOne<NavOrderFilter, LNavFilterData>(c, "any"); else orderOne<LNavOrderFilter, LNavFilterData>(c, "lnav");
}

// ------------------------------------------------------------------ voting
struct VM { int prn, bits; NavFilterKey* k; };
   // which bits may win among the votes (several when tied, none when no vote is useful)
static std::set<int> winners(const std::map<int, int>& votes, int minSame, int minAll)
{
   int total = 0, best = 0; std::set<int> w;
   for (auto& v : votes) { total += v.second; if (v.second > best) { best = v.second; w.clear(); } if (v.second == best) w.insert(v.first); }
   if (total < minAll || best < minSame) w.clear();
   return w;
}
static void vote(vf::Case& c)
{
   vf::Rng& r = c.rng;
   bool ln = r.chance(0.5); int minSame = 2, minAll = 3;
   LNavCrossSourceFilter lf; CNavCrossSourceFilter cf;
   if (!ln) { VF_CHECK("vote.min", cf.getMinIdentical() == 2, "default"); minSame = r.chance(0.5) ? 2 : 1 + r.below(5); if (minSame != 2) cf.setMinIdentical(minSame); VF_CHECK("vote.minset", (int)cf.getMinIdentical() == minSame, "set"); minAll = minSame; }
   NavFilter& f = ln ? (NavFilter&)lf : (NavFilter&)cf;
   VF_CHECK("vote.depth", f.processingDepth() == 1, "depth");
   std::vector<std::unique_ptr<LM>> lms; std::vector<std::unique_ptr<PackedNavBits>> pn; std::vector<std::unique_ptr<CNavFilterData>> cm;
   lnav::SF base[3]; B cb[3];
   for (int i = 0; i < 3; i++) { base[i] = randSF(r); cb[i].resize(300); for (auto& x : cb[i]) x = r.below(2); }
   if (r.chance(0.5)) { for (int i = 1; i < 3; i++) { base[i] = base[0]; int at = i == 1 ? 290 : 61 + 30 * r.below(6) + r.below(24); base[i].bit[at] ^= 1; cb[i] = cb[0]; cb[i][i == 1 ? 299 : (int)r.below(299)] ^= 1; } }
   CommonTime t = GPSWeekSecond(1900 + r.below(200), 6.0 * r.below(100000), TimeSystem::GPS);
   int epochs = 1 + r.below(6); std::vector<VM> cur; size_t seen = 0, acc = 0, rej = 0;
   auto judge = [&](const L& out, const char* when)
   {
      std::map<int, std::map<int, int>> votes; std::map<NavFilterKey*, VM> by; std::set<NavFilterKey*> o(out.begin(), out.end()), x(f.rejected.begin(), f.rejected.end());
      for (auto& m : cur) { votes[m.prn][m.bits]++; by[m.k] = m; }
      VF_CHECK("vote.each", o.size() == out.size() && x.size() == f.rejected.size() && o.size() + x.size() == cur.size(), when << ": " << o.size() << " accepted and " << x.size() << " rejected of " << cur.size());
      for (auto& pv : votes)
      {
         std::set<int> w = winners(pv.second, minSame, minAll), got;
         bool whole = true; std::map<int, int> n;
         for (auto& m : cur) if (m.prn == pv.first && o.count(m.k)) { got.insert(m.bits); n[m.bits]++; }
         for (auto& g : n) whole = whole && g.second == pv.second[g.first];
         bool ok = w.empty() ? got.empty() : got.size() == 1 && w.count(*got.begin()) && whole;
         VF_CHECK(ln ? "vote.l" : "vote.c", ok, when << ": PRN " << pv.first << " of " << pv.second.size() << " different messages, " << got.size() << " groups accepted, expected one of " << w.size());
         c.count(w.empty() ? "no winner" : w.size() > 1 ? "tie" : "winner");
      }
      acc += o.size(); rej += x.size(); cur.clear();
   };
   for (int e = 0; e < epochs; e++)
   {
      if (e) t += r.chance(0.1) ? -6.0 : 6.0 * (1 + r.below(3));
      int n = 1 + r.below(14), sats = 1 + r.below(3);
      for (int i = 0; i < n; i++)
      {
         int prn = 1 + r.below(sats), w = r.chance(0.6) ? 0 : r.below(3);
         NavFilterKey* k;
         if (ln) { lms.emplace_back(new LM); base[w].words(lms.back()->w, true); k = lms.back()->d.get(); k->timeStamp = t; k->prn = prn; k->stationID = "st" + std::to_string(i); }
         else { pn.emplace_back(new PackedNavBits(mk(r, cb[w], t, prn))); cm.emplace_back(new CNavFilterData(pn.back().get())); k = cm.back().get();
            VF_CHECK("vote.key", k->prn == (uint32_t)prn && k->timeStamp == t && k->rxID == pn.back()->getRxID() && k->carrier == CarrierBand::L2 && k->code == TrackingCode::L2CM, "CNavFilterData does not identify its message"); }
         L in, out; in.push_back(k); f.rejected.clear();
         f.validate(in, out);
         if (i == 0) { if (e) judge(out, "new epoch"); else VF_CHECK("vote.start", out.empty() && f.rejected.empty(), "verdict before any vote"); }
         else VF_CHECK("vote.early", out.empty() && f.rejected.empty(), "verdict within the epoch");
         cur.push_back(VM{prn, w, k}); seen++;
      }
   }
   f.rejected.clear(); L out; f.finalize(out); judge(out, "finalize");
   VF_CHECK("vote.all", acc + rej == seen, acc << "+" << rej << " of " << seen);
   f.rejected.clear(); L o2; f.finalize(o2);
   VF_CHECK("vote.twice", o2.empty() && f.rejected.empty(), "finalize twice");
   c.count("messages", seen); c.distinct(acc * 100 + rej);
}

// ------------------------------------------------------------------ ephemeris assembly
static void eph(vf::Case& c)
{
   vf::Rng& r = c.rng;
   LNavEphMaker f; std::vector<std::unique_ptr<LM>> ms;
   struct S { int tow = -1, iod = 0; LNavFilterData* d = NULL; };
   std::map<std::string, std::vector<S>> grp; size_t made = 0; int frame = r.below(20000) * 5;
   struct Src { std::string st, rx; int prn; CarrierBand cb; TrackingCode tc; };
   std::vector<Src> src;
   for (int i = 0, n = 1 + r.below(4); i < n; i++)
   {
      Src s{r.chance(0.7) ? "A" : "B", r.chance(0.7) ? "1" : "2", r.chance(0.6) ? 5 : 6, r.chance(0.7) ? CarrierBand::L1 : CarrierBand::L2, r.chance(0.7) ? TrackingCode::CA : TrackingCode::Y};
      src.push_back(s);
   }
   int iod = r.below(256), n = 10 + r.below(60), sub = 0;
   for (int i = 0; i < n; i++)
   {
      const Src& s = r.pick(src);
      int id = r.chance(0.8) ? 1 + sub % 5 : 1 + r.below(5);
      if (r.chance(0.5)) { sub++; if (sub % 5 == 0) { frame += 5; if (r.chance(0.3)) iod = (iod + 1) % 256; } }
      lnav::SF b = randSF(r); int tow = (frame + id) % 100800;
      if (r.chance(0.05)) tow = (tow + 5) % 100800;
      int hi = r.below(4), io = r.chance(0.9) ? iod : (iod ^ (1 << r.below(8)));
      b.head(id, r.below(1 << 14), tow, r.below(4));
      if (id == 1) { b.put2(83, 2, 211, 8, (hi << 8) | io); } else if (id == 2) b.put(61, 8, io); else if (id == 3) b.put(271, 8, io);
      ms.emplace_back(new LM); LM& m = *ms.back(); b.words(m.w, true);
      m.d->timeStamp = GPSWeekSecond(2000, tow * 6.0, TimeSystem::GPS); m.d->stationID = s.st; m.d->rxID = s.rx; m.d->prn = s.prn; m.d->carrier = s.cb; m.d->code = s.tc;
      L in, out; in.push_back(m.d.get());
      f.rejected.clear(); f.validate(in, out);
      VF_CHECK("eph.rejected", f.rejected.empty(), "rejects");
      VF_CHECK("eph.pass", id > 3 ? out.size() == 1 && out.front() == m.d.get() : out.empty(), "subframe " << id << " gave " << out.size());
      bool want = false; std::vector<S>* g = NULL;
      if (id <= 3)
      {
         g = &grp[s.st + "/" + s.rx + "/" + std::to_string(s.prn) + "/" + std::to_string((int)s.cb) + "/" + std::to_string((int)s.tc)];
         g->resize(3); (*g)[id - 1].tow = tow; (*g)[id - 1].iod = io; (*g)[id - 1].d = m.d.get();
         want = (*g)[0].d && (*g)[1].d && (*g)[2].d && (*g)[1].tow == (*g)[0].tow + 1 && (*g)[2].tow == (*g)[1].tow + 1 && (*g)[0].iod == (*g)[1].iod && (*g)[1].iod == (*g)[2].iod;
      }
      VF_CHECK("eph.complete", f.completeEphs.size() == (want ? 1u : 0u), f.completeEphs.size() << " ephemerides completed, expected " << want);
      if (want)
      {
         made++; LNavEphMaker::EphGroup& e = *f.completeEphs.front();
         VF_CHECK("eph.parts", e.size() == 3 && e[0] == (*g)[0].d && e[1] == (*g)[1].d && e[2] == (*g)[2].d, "wrong subframes");
      }
      if (r.chance(0.02)) { L o; f.finalize(o); VF_CHECK("eph.final", o.empty() && f.completeEphs.empty(), "finalize"); grp.clear(); }
   }
   c.count("ephemerides", made); c.count("subframes", n); c.distinct(made * 100 + src.size());
}

// ------------------------------------------------------------------ the manager
   // a filter written here: holds messages for 'hold' calls, drops by bit of the station name, optionally on flush
class Probe : public NavFilter
{
public:
   Probe(unsigned h, int d, unsigned pd) : hold(h), drop(d), pd_(pd), calls(0) {}
   void validate(NavMsgList& in, NavMsgList& out) override
   {
      calls++;
      for (auto k : in) q.push_back(k);
      while (q.size() > hold) { give(q.front(), out); q.pop_front(); }
   }
   void finalize(NavMsgList& out) override { while (!q.empty()) { give(q.front(), out); q.pop_front(); } }
   unsigned processingDepth() const throw() override { return pd_; }
   std::string filterName() const throw() override { return "Probe"; }
   void give(NavFilterKey* k, NavMsgList& out) { if (drop >= 0 && ((k->prn >> drop) & 1)) reject(k); else accept(k, out); }
   unsigned hold; int drop; unsigned pd_; int calls; std::list<NavFilterKey*> q;
};
static void mgr(vf::Case& c)
{
   vf::Rng& r = c.rng;
   bool real = r.chance(0.5);
   NavFilterMgr m; std::vector<std::unique_ptr<NavFilter>> fs; std::vector<std::unique_ptr<Probe>> model; unsigned depth = 1;
   int nf = r.below(6); std::ostringstream d;
   for (int i = 0; i < nf; i++)
   {
      NavFilter* f = NULL;
      if (real)
         switch (r.below(7))
         {
            case 0: f = new LNavParityFilter; d << "P"; break;
            case 1: f = new LNavEmptyFilter; d << "E"; break;
            case 2: f = new LNavTLMHOWFilter; d << "H"; break;
            case 3: f = new LNavCrossSourceFilter; d << "X"; break;
            case 4: f = new LNavOrderFilter(1 + r.below(4)); d << "O"; break;
            case 5: f = new NavOrderFilter(1 + r.below(4)); d << "N"; break;
            default: f = new LNavAlmValFilter; d << "A"; break;
         }
      else { unsigned h = r.chance(0.5) ? r.below(5) : 0; int dr = r.chance(0.6) ? (int)r.below(5) : -1; unsigned pd = r.below(4); f = new Probe(h, dr, pd); model.emplace_back(new Probe(h, dr, pd)); d << "p" << h << "/" << dr; }
      fs.emplace_back(f); m.addFilter(f); depth += f->processingDepth();
   }
   c.note(d.str());
   VF_CHECK("mgr.depth", m.processingDepth() == depth, m.processingDepth() << " instead of " << depth);
   std::vector<std::unique_ptr<LM>> ms; std::set<NavFilterKey*> in, gone; size_t accepted = 0, rejected = 0, flushRej = 0;
   CommonTime t = GPSWeekSecond(2100, 6.0 * r.below(90000), TimeSystem::GPS);
   lnav::SF base = randSF(r);
   auto after = [&](const L& out, const char* when, const std::vector<std::vector<NavFilterKey*>>* wantRej, const std::vector<NavFilterKey*>* wantOut)
   {
      if (wantOut) VF_CHECK("mgr.out", vec(out) == *wantOut, when << " (" << d.str() << "): " << out.size() << " accepted, expected " << wantOut->size());
      for (auto k : out) { VF_CHECK("mgr.once", in.count(k) && gone.insert(k).second, when << " (" << d.str() << "): a message came out twice"); accepted++; }
      for (size_t i = 0; i < fs.size(); i++)
      {
         bool marked = m.rejected.count(fs[i].get());
         if (wantRej) VF_CHECK("mgr.rej", marked == !(*wantRej)[i].empty() && (!marked || vec(fs[i]->rejected) == (*wantRej)[i]), when << " (" << d.str() << "): filter " << i << (marked ? " marked with " : " not marked, holds ") << fs[i]->rejected.size() << " rejected, expected " << (*wantRej)[i].size());
         if (marked)
         {
            VF_CHECK("mgr.mark", !fs[i]->rejected.empty(), when << ": a filter without rejected messages is marked");
            for (auto k : fs[i]->rejected) { VF_CHECK("mgr.once", in.count(k) && gone.insert(k).second, when << " (" << d.str() << "): a rejected message came out twice"); rejected++; }
         }
      }
      for (auto f : m.rejected) { bool mine = false; for (auto& x : fs) mine = mine || x.get() == f; VF_CHECK("mgr.foreign", mine, "unknown filter marked"); }
   };
      // reference cascade over the probes
   auto run = [&](std::vector<NavFilterKey*> cur, size_t from, std::vector<std::vector<NavFilterKey*>>& rej)
   {
      for (size_t i = from; i < model.size() && !cur.empty(); i++)
      {
         L a(cur.begin(), cur.end()), b; model[i]->rejected.clear(); model[i]->validate(a, b);
         for (auto k : model[i]->rejected) rej[i].push_back(k);
         cur = vec(b);
      }
      return cur;
   };
   int rounds = 1 + r.below(2);
   for (int q = 0; q < rounds; q++)
   {
      int n = r.below(50);
      for (int i = 0; i < n; i++)
      {
         if (r.chance(0.4)) t += 6.0;
         ms.emplace_back(new LM); LM& x = *ms.back();
         lnav::SF b = r.chance(0.6) ? base : randSF(r);
         b.words(x.w, true);
         if (r.chance(0.15)) x.w[r.below(10)] ^= 1u << r.below(30);
         if (r.chance(0.05)) for (auto& w : x.w) w = 0;
         x.d->timeStamp = t - (r.chance(0.15) ? 6.0 * r.below(6) : 0.0); x.d->prn = r.below(32);
         NavFilterKey* k = x.d.get(); in.insert(k);
         std::vector<std::vector<NavFilterKey*>> rej(fs.size()); std::vector<NavFilterKey*> want;
         if (!real) want = run(std::vector<NavFilterKey*>(1, k), 0, rej);
         L out = m.validate(k);
         after(out, "validate", real ? NULL : &rej, real ? NULL : &want);
      }
      std::vector<std::vector<NavFilterKey*>> rej(fs.size()); std::vector<NavFilterKey*> want;
      if (!real) for (size_t i = 0; i < model.size(); i++)
      {
         L b; model[i]->rejected.clear(); model[i]->finalize(b);
         for (auto k : model[i]->rejected) rej[i].push_back(k);
         for (auto k : run(vec(b), i + 1, rej)) want.push_back(k);
      }
      size_t r0 = rejected;
      L out = m.finalize();
      after(out, "finalize", real ? NULL : &rej, real ? NULL : &want);
      flushRej += rejected - r0;
      VF_CHECK("mgr.all", gone.size() == in.size(), "(" << d.str() << ") " << in.size() << " messages in, " << accepted << " accepted and " << rejected << " reported as rejected");
   }
   c.count("messages", in.size()); c.count("accepted", accepted); c.count("rejected", rejected); c.count("rejected in flush", flushRej);
   c.distinct(std::hash<std::string>()(d.str()) % 100000 * 100 + rejected);
}

// ------------------------------------------------------------------ bits
template <class M> struct GD : GenericNavFilterData
{
   M m;
   uint32_t getBits(unsigned s, unsigned n) const override { return m.getBits(s, n); }
};
template <class M> static void bitsOf(vf::Case& c, const char* name, M& g, const B& b)
{
   vf::Rng& r = c.rng; int N = b.size();
   for (int q = 0; q < 30; q++)
   {
      int n = 1 + r.below(32), s = 1 + r.below(N - n + 1);
      if (r.chance(0.2)) s = std::min(N - n + 1, 30 * (1 + (int)r.below(9)));
      uint32_t got = g.getBits(s, n), want = get(b, s - 1, n);
      VF_CHECK(std::string("bits.") + name, got == want, "getBits(" << s << ", " << n << ") = " << got << ", expected " << want);
      int n1 = 1 + r.below(15), n2 = 1 + r.below(15), n3 = r.chance(0.5) ? 0 : 1 + r.below(32 - n1 - n2);
      int s1 = 1 + r.below(N - n1 + 1), s2 = 1 + r.below(N - n2 + 1), s3 = n3 ? 1 + r.below(N - n3 + 1) : 0;
      uint32_t w = (get(b, s1 - 1, n1) << n2) | get(b, s2 - 1, n2);
      if (n3) w = (w << n3) | get(b, s3 - 1, n3);
      uint32_t sp = n3 ? g.getBitsSplit(s1, n1, s2, n2, s3, n3) : g.getBitsSplit(s1, n1, s2, n2);
      VF_CHECK(std::string("split.") + name, sp == w, "getBitsSplit(" << s1 << "," << n1 << "," << s2 << "," << n2 << "," << s3 << "," << n3 << ") = " << sp << ", expected " << w);
      c.count("fields");
   }
   int bad = 31 + r.below(100);
   VF_THROWS("split.many", AssertionFailure, (r.chance(0.5) ? g.getBitsSplit(1, bad, 5, 1) : g.getBitsSplit(1, 1, 5, bad)), bad << " bits");
}
template <size_t W> static void wordsOf(vf::Case& c, const B& b)
{
   GD<NavMsgDataWords<W>> g; int nw = (b.size() + W - 1) / W; std::vector<uint32_t> w(nw, 0);
   for (size_t i = 0; i < b.size(); i++) if (b[i]) w[i / W] |= 1u << (W - 1 - i % W);
   if (W < 32 && c.rng.chance(0.3)) for (auto& x : w) x |= 0xffffffffu << (W % 32);   // the unused bits hold anything
   g.m.sf = w.data();
   bitsOf(c, "words", g, b);
   std::ostringstream s, e; g.m.dump(s, b.size());
   for (auto x : w) { char t[16]; snprintf(t, sizeof t, "0x%08x ", x); e << t; }
   e << " ";
   VF_CHECK("dump.words", s.str() == e.str(), s.str() << " instead of " << e.str());
}
static void bitv(vf::Case& c)
{
   vf::Rng& r = c.rng; int N = 300; B b(N);
   for (auto& x : b) x = r.below(2);
   int k = r.below(4);
   if (k == 0) { GD<NavMsgDataBits> g; std::vector<int8_t> v(b.begin(), b.end()); g.m.sf = v.data(); bitsOf(c, "bits", g, b); std::ostringstream s; g.m.dump(s, N); std::string e; for (int x : b) e += char('0' + x); VF_CHECK("dump.bits", s.str() == e, s.str()); }
   else if (k == 1) { PackedNavBits p = mk(r, b, CommonTime(GPSWeekSecond(2000, 0, TimeSystem::GPS)), 3); GD<NavMsgDataPNB> g; g.m.sf = &p; bitsOf(c, "pnb", g, b); }
   else if (k == 2) wordsOf<30>(c, b);
   else { B x(N - N % 32); std::copy(b.begin(), b.begin() + x.size(), x.begin()); if (r.chance(0.5)) wordsOf<32>(c, x); else wordsOf<24>(c, x); }
   c.distinct(k);
      // identity of a fresh key, and dumping
   alignas(CNavFilterData) static unsigned char mem[sizeof(CNavFilterData) + sizeof(LNavFilterData)];
   memset(mem, 0xa5, sizeof mem);
   CNavFilterData* cd = new (mem) CNavFilterData; VF_CHECK("fresh.c", cd->pnb == NULL && cd->prn == 0, "a fresh CNavFilterData is not empty"); cd->~CNavFilterData();
   memset(mem, 0xa5, sizeof mem);
   LNavFilterData* ld = new (mem) LNavFilterData; VF_CHECK("fresh.l", ld->sf == NULL && ld->prn == 0, "a fresh LNavFilterData is not empty"); ld->~LNavFilterData();
   LM m; for (auto& w : m.w) w = r.below(1u << 30);
   m.d->timeStamp = CivilTime(2015, 3, 9, 4, 5, 6.0, TimeSystem::GPS); m.d->prn = 7; m.d->stationID = "STN"; m.d->rxID = "RX";
   std::ostringstream s; s << *(NavFilterKey*)m.d.get(); std::string e;
   for (auto w : m.w) { char t[16]; snprintf(t, sizeof t, "%08x", w); VF_CHECK("dump.l", s.str().find(t) != std::string::npos, s.str() << " lacks " << t); }
   VF_CHECK("dump.id", s.str().compare(0, 22, "03/09/2015 04:05:06.0 ") == 0 && s.str().find("  7 STN/RX ") == 22, s.str());
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"lfilt", 20000, 400000, lfilt}, {"cfilt", 3000, 60000, cfilt}, {"order", 1500, 40000, order}, {"vote", 1000, 25000, vote}, {"eph", 1000, 25000, eph}, {"mgr", 1500, 40000, mgr}, {"bits", 800, 15000, bitv}});
}
