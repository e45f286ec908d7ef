// C33: P-code generation, byte order conversion and CRC.
#include "vf.hpp"
#include <algorithm>
#include <sstream>
#include <memory>
#include "SVPCodeGen.hpp"
#include "GenXSequence.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSWeekSecond.hpp"
#include "BinUtils.hpp"

using namespace gpstk;
using namespace std;
namespace bu = gpstk::BinUtils;

// ------------------------------------------------ the published P code
namespace pc
{
   // IS-GPS-200 figures 3-2..3-5: register content listed stage 12 first, and
   // the polynomial exponents.
   vector<int> seq(const char *init, const vector<int>& taps, int len)
   {
      int st[13];
      for (int i = 1; i <= 12; i++) st[i] = init[i-1] - '0';   // stage 1 ... 12
      vector<int> out;
      for (int k = 0; k < len; k++)
      {
         out.push_back(st[12]);
         int fb = 0;
         for (size_t t = 0; t < taps.size(); t++) fb ^= st[taps[t]];
         for (int i = 12; i > 1; i--) st[i] = st[i-1];
         st[1] = fb;
      }
      return out;
   }
   struct Tab
   {
      vector<int> x1a, x1b, x2a, x2b;
      Tab()
      {
         static const int ta[] = {6,8,11,12}, tb[] = {1,2,5,8,9,10,11,12},
            tc[] = {1,3,4,5,7,8,9,10,11,12}, td[] = {2,3,4,8,9,12};
         // stage 1 first
         x1a = seq("000100100100", vector<int>(ta, ta+4), 4092);
         x1b = seq("001010101010", vector<int>(tb, tb+8), 4093);
         x2a = seq("101001001001", vector<int>(tc, tc+10), 4092);
         x2b = seq("001010101010", vector<int>(td, td+6), 4093);
      }
   };
   const Tab& T() { static Tab t; return t; }
   const long long X1E = 15345000LL, X2E = 15345037LL, WEEK = 403200LL * X1E;

   int x1(long long n)
   {
      long long e = n % X1E;
      int a = T().x1a[e % 4092];
      int b = e < 3749LL * 4093 ? T().x1b[e % 4093] : T().x1b[4092];
      return a ^ b;
   }
   // m: chip of the week of the undelayed X2; eow selects the truncated final one
   int x2(long long m)
   {
      if (m < 0) m = 0;
      long long ep = m / X2E, e = m % X2E;
      long long ca = ep == 403199 ? 104 : 3750, cb = ep == 403199 ? 104 : 3749;
      int a = e < ca * 4092 ? T().x2a[e % 4092] : T().x2a[4091];
      int b = e < cb * 4093 ? T().x2b[e % 4093] : T().x2b[4092];
      return a ^ b;
   }
   int chip(int prn, long long n)
   {
      int d = prn > 37 ? (prn - 1) / 37 : 0;
      int p = prn - 37 * d;
      n = (n + d * 57600LL * X1E) % WEEK;
      return x1(n) ^ x2(n - p);
   }
   uint32_t word(int prn, long long n)
   {
      uint32_t w = 0;
      for (int i = 0; i < 32; i++) w = (w << 1) | chip(prn, n + i);
      return w;
   }
   // the first twelve chips of the week of the published table
   int first12(int prn)
   {
      static const int t[] = {04444, 04000, 04222, 04333, 04377, 04355, 04344, 04340, 04342};
      return prn <= 9 ? t[prn-1] : 04343;
   }
}

static void alloc()
{
   static bool done = false;
   if (done) return;
   done = true;
   VF_THROWS("pcode.x1.order", Exception, X1Sequence x, "X1Sequence before allocateMemory");
   VF_THROWS("pcode.x2.order", Exception, X2Sequence x, "X2Sequence before allocateMemory");
   VF_THROWS("pcode.x1.nodealloc", Exception, X1Sequence::deAllocateMemory(), "deAllocateMemory first");
   VF_THROWS("pcode.x2.nodealloc", Exception, X2Sequence::deAllocateMemory(), "deAllocateMemory first");
   X1Sequence::allocateMemory();
   X2Sequence::allocateMemory();
   VF_THROWS("pcode.x1.twice", Exception, X1Sequence::allocateMemory(), "second allocateMemory");
   VF_THROWS("pcode.x2.twice", Exception, X2Sequence::allocateMemory(), "second allocateMemory");
   X1Sequence::deAllocateMemory();
   X2Sequence::deAllocateMemory();
   X1Sequence::allocateMemory();
   X2Sequence::allocateMemory();
   for (int p = 1; p <= 37; p++)
   {
      int w = 0;
      for (int i = 0; i < 12; i++) w = (w << 1) | pc::chip(p, i);
      VF_CHECK("harness.first12", w == pc::first12(p), "model chips of prn " << p << ": " << oct << w);
   }
}

// ------------------------------------------------ six seconds of code
static void pcodeStage(vf::Case& c)
{
   alloc();
   vf::Rng& r = c.rng;
   static unique_ptr<CodeBuffer> cb, cb2;
   if (!cb) { cb.reset(new CodeBuffer(1)); cb2.reset(new CodeBuffer(2)); }

   int prn = r.chance(0.6) ? (int)r.range(1, 37) : (int)r.range(38, 210);
   if (r.chance(0.1)) prn = vf::Rng(r).chance(0.5) ? 37 : (r.chance(0.5) ? 210 : 38);
   int week = (int)r.range(0, 2300);
   long z;
   int k = (int)r.below(8);
   if (k == 0) z = 0;
   else if (k == 1) z = 403196;
   else if (k == 2) z = 403192;
   else if (k == 3) z = 4;
   else if (k == 4) z = 57600L * (long)r.range(0, 6) + 4 * (long)r.range(0, 2);  // day boundaries
   else z = 4 * (long)r.range(0, 100799);
   // aim at the shifted end and beginning of week as well
   if (prn > 37 && r.chance(0.4))
   {
      long target = r.chance(0.5) ? 403196 : 0;
      z = ((target - 57600L * ((prn - 1) / 37)) % 403200 + 403200) % 403200;
   }
   int how = (int)r.below(4);
   CommonTime t;
   static const long LEN = NUM_6SEC_WORDS;
   unique_ptr<SVPCodeGen> g;
   CommonTime aligned = GPSWeekZcount(week, z, TimeSystem::GPS).convertToCommonTime();
   if (how == 0)
      g.reset(new SVPCodeGen(prn, aligned));
   else if (how == 1)
   {
      // times within the six seconds are taken back to their start
      double off = r.pick(vector<double>{0.25, 0.75, 1.5, 2.25, 3.0, 4.5, 5.25, 5.75});
      g.reset(new SVPCodeGen(prn, aligned + off));
      c.count("rounded back");
   }
   else if (how == 2)
   {
      g.reset(new SVPCodeGen(prn, aligned + 604800.0));
      g->setCurrentZCount(GPSZcount(week, z + (long)r.below(4)));
   }
   else
   {
      g.reset(new SVPCodeGen(prn, aligned - 12.0));
      g->increment4ZCounts();
      g->increment4ZCounts();
   }
   CommonTime at = g->getCurrentZCount();
   at.setTimeSystem(TimeSystem::GPS);
   if (how == 1)
      VF_CHECK("pcode.rounded", fabs(at - aligned) < 1e-9, "prn " << prn << " z " << z << " starts at offset " << (at - aligned));
   else
      VF_CHECK("pcode.time", fabs(at - aligned) < 1e-9, "prn " << prn << " z " << z << " how " << how << " starts at offset " << (at - aligned));
   cb->updateBufferStatus(Y_CODE);
   VF_CHECK("pcode.flag.set", cb->getPYFlag() == Y_CODE, "flag");
   g->getCurrentSixSeconds(*cb);
   VF_CHECK("pcode.flag", cb->getPYFlag() == P_CODE, "flag after generation");
   CommonTime bt = cb->getCurrentTime();
   bt.setTimeSystem(TimeSystem::GPS);
   VF_CHECK("pcode.buftime", fabs(bt - aligned) < 1e-9, "buffer time offset " << (bt - aligned));
   VF_CHECK("pcode.notadvanced", g->getCurrentZCount() == bt || fabs(at - aligned) < 1e-9, "time advanced");

   // words to compare: both ends, about every X1 and X2 epoch boundary, random
   vector<long> ws;
   for (long i = 0; i < 12; i++) { ws.push_back(i); ws.push_back(LEN - 1 - i); }
   int d = prn > 37 ? (prn - 1) / 37 : 0, p = prn - 37 * d;
   long long n0 = z * pc::X1E, s0 = (n0 + d * 57600LL * pc::X1E) % pc::WEEK;
   for (int e = 0; e <= 4; e++)
      for (int q = -4; q <= 4; q++)
      {
         ws.push_back((long)(e * pc::X1E / 32) + q);
         ws.push_back((long)((e * pc::X1E - 343) / 32) + q);
         // X2 rollovers in this span
         long long m0 = s0 - p, nx = ((m0 + pc::X2E - 1) / pc::X2E + e) * pc::X2E;
         if (m0 < 0) nx = e * pc::X2E;
         ws.push_back((long)((nx - m0) / 32) + q);
         ws.push_back((long)((nx - m0 - 37) / 32) + q);
         ws.push_back((long)((nx - m0 - 380) / 32) + q);
         // the hold at the end of the week
         ws.push_back((long)((pc::WEEK - s0 - 1069 + p) / 32) + q);
         ws.push_back((long)((pc::WEEK - s0 - 965 + p) / 32) + q);
      }
   for (int i = 0; i < 1500; i++) ws.push_back((long)r.below(LEN));
   for (long i = 0; i < 45; i++) ws.push_back(LEN - 1 - i);
   sort(ws.begin(), ws.end());
   ws.erase(unique(ws.begin(), ws.end()), ws.end());
   long compared = 0;
   for (size_t i = 0; i < ws.size(); i++)
   {
      if (ws[i] < 0 || ws[i] >= LEN) continue;
      uint32_t want = pc::word(prn, n0 + 32LL * ws[i]);
      unsigned long got = (*cb)[(int)ws[i]];
      compared++;
      const char *key = "pcode.word";
      if (z == 0 && ws[i] < 2) key = "pcode.word.bow";
      else if (s0 / pc::X1E == 403196 && ws[i] > LEN - 40) key = "pcode.word.eow";
      VF_CHECK(key, got == want, "how " << how << " prn " << prn << " z " << z << " word " << ws[i] << ": " << hex << got << " for " << want);
   }
   c.count("words compared", compared);
   if (z == 0 && prn <= 37)
   {
      int w = 0;
      for (int i = 0; i < 12; i++) w = (w << 1) | (int)cb->getBit(i);
      VF_CHECK("pcode.first12", w == pc::first12(prn), "prn " << prn << " begins " << oct << w << " for " << pc::first12(prn));
      c.count("first twelve chips");
   }
   for (int i = 0; i < 400; i++)
   {
      long n = i < 32 ? i : i < 64 ? LEN * 32 - 1 - (i - 32) : (long)r.below(LEN * 32);
      unsigned long got = cb->getBit(n);
      VF_CHECK("pcode.getBit", got == (unsigned long)pc::chip(prn, n0 + n), "prn " << prn << " z " << z << " bit " << n << ": " << got);
   }
   if (r.chance(0.3))
   {
      *cb2 = *cb;
      VF_CHECK("pcode.copy", cb2->getPRNID() == cb->getPRNID() && cb2->getPYFlag() == cb->getPYFlag() && cb2->getCurrentTime() == cb->getCurrentTime(), "copied buffer");
      bool eq = true;
      for (long i = 0; i < LEN; i++) eq = eq && (*cb2)[(int)i] == (*cb)[(int)i];
      VF_CHECK("pcode.copy.bits", eq, "copied bits");
      int prn2 = (int)r.range(1, 210);
      SVPCodeGen g2(prn2, aligned);
      g2.getCurrentSixSeconds(*cb2);
      unsigned long a = (*cb)[777], b = (*cb2)[777], e0 = (*cb)[(int)LEN - 1], e1 = (*cb2)[(int)LEN - 1];
      *cb2 ^= *cb;
      VF_CHECK("pcode.xor", (*cb2)[777] == (a ^ b) && (*cb2)[(int)LEN - 1] == (e0 ^ e1), "xor of buffers");
   }
   if (c.idx % 7 == 0)
   {
      VF_THROWS("pcode.prnlow", Exception, SVPCodeGen(-1 - (int)r.below(50), aligned), "negative prn");
      VF_THROWS("pcode.prnhigh", Exception, SVPCodeGen(211 + (int)r.below(50), aligned), "prn above 210");
   }
   c.distinct(to_string(prn) + " " + to_string(z));
   ostringstream sm; sm << "prn " << prn << " week " << week << " zcount " << z << ": " << compared << " words"; c.sample(sm.str());
}

// ------------------------------------------------ the parts of the generator
static void seqStage(vf::Case& c)
{
   alloc();
   vf::Rng& r = c.rng;
   static X1Sequence x1;
   X2Sequence x2;
   for (int i = 0; i < 300; i++)
   {
      long w = (long)r.below(NUM_6SEC_WORDS);
      uint32_t want = 0;
      for (int b = 0; b < 32; b++) want = (want << 1) | pc::x1(32LL * w + b);
      VF_CHECK("x1.word", x1[w] == want, "x1 word " << w);
   }
   // words of the four X2 epochs from any chip, wrapping at the end
   for (int i = 0; i < 300; i++)
   {
      long long span = 4 * pc::X2E;
      long n;
      if (i < 69) n = -37 + i;
      else if (i < 140) n = (long)(span - 1 - (i - 69));
      else if (i < 180) n = (long)((i % 4) * pc::X2E - 400 + (long)r.below(440));
      else n = (long)r.below(span);
      if (n < -37 || n >= span) continue;
      uint32_t want = 0;
      for (int b = 0; b < 32; b++)
      {
         long long m = n + b;
         if (m >= span) m -= span;
         want = (want << 1) | pc::x2(m);
      }
      uint32_t got = x2[n];
      VF_CHECK("x2.word", got == want, "x2 from chip " << n << ": " << hex << got << " for " << want);
   }
   // the truncated last epoch of the week
   x2.setEOWX2Epoch(true);
   for (int i = 0; i < 200; i++)
   {
      // the fourth epoch in the buffer
      long n = (long)(3 * pc::X2E + (i < 100 ? (long)r.below(426600) : 425500 + (long)r.below(1060)));
      uint32_t want = 0;
      for (int b = 0; b < 32; b++) want = (want << 1) | pc::x2(403196LL * pc::X2E + n + b);
      uint32_t got = x2[n];
      if (n - 3 * pc::X2E + 32 <= 426637) VF_CHECK("x2.eow", got == want, "x2 of the last epoch from chip " << n << ": " << hex << got << " for " << want);
   }
   x2.setEOWX2Epoch(false);
   // any register
   unsigned init = (unsigned)r.range(1, 4095), taps = (unsigned)r.range(1, 4095);
   int len = (int)(r.chance(0.5) ? 4092 : 4093), delay = (int)r.pick(vector<int>{0, 37, 343, 380});
   GenXSequence g(init, taps, len, delay);
   vector<int> bits;
   unsigned reg = init;
   for (int i = 0; i < len; i++)
   {
      bits.push_back((reg >> 11) & 1);
      int fb = __builtin_popcount(reg & taps) & 1;
      reg = ((reg << 1) & 0xfff) | fb;
   }
   for (int i = 0; i < delay; i++) bits.push_back(bits[len-1]);
   bool longer = delay && r.chance(0.5);
   int L = len;
   if (longer) { L = len + delay; g.setLengthOfSequence(L); }
   for (int i = 0; i < 300; i++)
   {
      int p = i < 70 ? L - 1 - i : i < 100 ? i - 70 : i < 140 ? L + (int)r.below(3 * L) : (int)r.below(L);
      uint32_t want = 0;
      for (int b = 0; b < 32; b++) want = (want << 1) | bits[(p + b) % L];
      uint32_t got = g[p];
      VF_CHECK("xseq.word", got == want, "register " << hex << init << " taps " << taps << dec << " length " << L << " from " << p << ": " << hex << got << " for " << want);
   }
   c.distinct(((uint64_t)init << 32) ^ (taps << 8) ^ L ^ delay);
   ostringstream sm; sm << "x sequence init " << hex << init << " taps " << taps << dec << " length " << L; c.sample(sm.str());
}

// ------------------------------------------------ byte order
template <class T, class F>
static void codecOne(const char *nm, vf::Rng& r, F be, F le, void (*hton)(void*, T, unsigned), void (*htoi)(void*, T, unsigned))
{
   const size_t n = sizeof(T);
   unsigned pos = (unsigned)r.below(9), pad = (unsigned)r.below(5);
   vector<uint8_t> buf(pos + n + pad);
   for (size_t i = 0; i < buf.size(); i++) buf[i] = (uint8_t)r.below(256);
   uint64_t vb = 0, vl = 0;
   for (size_t i = 0; i < n; i++) { vb = (vb << 8) | buf[pos + i]; vl |= (uint64_t)buf[pos + i] << (8 * i); }
   auto bitsOf = [](const T& v) { uint64_t u = 0; memcpy(&u, &v, sizeof(T)); return u; };   // little endian host
   T v;
   be(buf.data(), v, pos);
   VF_CHECK(string("bytes.network.") + nm, bitsOf(v) == vb, nm << " at " << pos << ": " << hex << bitsOf(v) << " for " << vb);
   T vv;
   le(buf.data(), vv, pos);
   VF_CHECK(string("bytes.intel.") + nm, bitsOf(vv) == vl, nm << " at " << pos << ": " << hex << bitsOf(vv) << " for " << vl);
   vector<uint8_t> o(buf.size(), 0x5a), w(buf.size(), 0x5a);
   hton(o.data(), v, pos);
   memcpy(w.data() + pos, buf.data() + pos, n);
   VF_CHECK(string("bytes.tonetwork.") + nm, o == w, nm << " at " << pos);
   fill(o.begin(), o.end(), 0x5a);
   htoi(o.data(), vv, pos);
   VF_CHECK(string("bytes.tointel.") + nm, o == w, nm << " at " << pos);
   // strings
   string s((const char *)buf.data(), buf.size());
   T d1 = bu::decodeVar<T>(s, pos), d2 = bu::decodeVarLE<T>(s, pos);
   VF_CHECK(string("bytes.decodeVar.") + nm, bitsOf(d1) == vb, nm << " " << hex << bitsOf(d1));
   VF_CHECK(string("bytes.decodeVarLE.") + nm, bitsOf(d2) == vl, nm << " " << hex << bitsOf(d2));
   string s1 = s.substr(pos), s2 = s1;
   T d3 = bu::decodeVar<T>(s1), d4 = bu::decodeVarLE<T>(s2);
   VF_CHECK(string("bytes.decodeHead.") + nm, bitsOf(d3) == vb && bitsOf(d4) == vl && s1 == s.substr(pos + n) && s2 == s1, nm << " head");
   VF_CHECK(string("bytes.encodeVar.") + nm, bu::encodeVar<T>(d1) == s.substr(pos, n), nm << " encodeVar");
   VF_CHECK(string("bytes.encodeVarLE.") + nm, bu::encodeVarLE<T>(d2) == s.substr(pos, n), nm << " encodeVarLE");
   string t(buf.size(), 'x'), u(t);
   string ww = t;
   ww.replace(pos, n, s.substr(pos, n));
   bu::encodeVar<T>(d1, t, pos);
   bu::encodeVarLE<T>(d2, u, pos);
   VF_CHECK(string("bytes.encodeInto.") + nm, t == ww && u == ww, nm << " encode into a string at " << pos);
   // at the end of the string it is extended
   string e(pos, 'y'), e2 = e;
   bu::encodeVar<T>(d1, e, pos);
   bu::encodeVarLE<T>(d2, e2, pos);
   VF_CHECK(string("bytes.encodeAppend.") + nm, e == string(pos, 'y') + s.substr(pos, n) && e2 == e, nm << " encode at the end of a string");
}

static void codecStage(vf::Case& c)
{
   vf::Rng& r = c.rng;
#define TWO(T, h, s) codecOne<T, void (*)(const void*, T&, unsigned)>(#s, r, bu::bunto##h, bu::buito##h, bu::buhton##s, bu::buhtoi##s)
   TWO(uint16_t, hs, s);
   TWO(uint32_t, hl, l);
   TWO(uint64_t, hll, ll);
   TWO(int16_t, hss, ss);
   TWO(int32_t, hsl, sl);
   TWO(int64_t, hsll, sll);
   TWO(float, hf, f);
   TWO(double, hd, d);
   uint64_t v = ((uint64_t)r.below(1ULL << 32) << 32) | r.below(1ULL << 32);
   if (r.chance(0.1)) v = r.chance(0.5) ? 0 : ~0ULL;
   VF_CHECK("bits.count", bu::countBits((uint32_t)v) == __builtin_popcount((uint32_t)v), "countBits " << hex << (uint32_t)v);
   int n = (int)r.range(1, 64);
   uint64_t want = 0;
   for (int i = 0; i < n; i++) if ((v >> i) & 1) want |= 1ULL << (n - 1 - i);
   VF_CHECK("bits.reflect", bu::reflect(v, n) == want, "reflect " << hex << v << dec << " over " << n << ": " << hex << bu::reflect(v, n));
   // exclusive-or checksum
   unsigned ws = (unsigned)r.range(1, 9), k = (unsigned)r.below(8);
   string s, acc(ws, '\0');
   for (unsigned i = 0; i < ws * k; i++) { s += (char)r.below(256); acc[i % ws] ^= s[i]; }
   VF_CHECK("xor.sum", bu::xorChecksum(s, ws) == acc, "xorChecksum of " << k << " words of " << ws);
   if (ws > 1)
      VF_THROWS("xor.partial", InvalidParameter, bu::xorChecksum(s + string(1 + r.below(ws - 1), 'a'), ws), "partial word");
   VF_THROWS("xor.zero", InvalidParameter, bu::xorChecksum(s, 0), "words of no bytes");
   c.distinct(v);
   ostringstream sm; sm << "value " << hex << v << dec << " reflect " << n << " words of " << ws; c.sample(sm.str());
}

// ------------------------------------------------ CRC
// register fed one message bit at a time at its top: the direct form
static uint64_t crcDirect(const vector<uint8_t>& d, int order, uint64_t poly, uint64_t init, uint64_t fin, bool rin, bool rout)
{
   uint64_t mask = order == 64 ? ~0ULL : (1ULL << order) - 1, top = 1ULL << (order - 1), reg = init & mask;
   for (size_t i = 0; i < d.size(); i++)
      for (int b = 0; b < 8; b++)
      {
         int bit = rin ? (d[i] >> b) & 1 : (d[i] >> (7 - b)) & 1;
         bool fb = ((reg & top) != 0) != (bit != 0);
         reg = (reg << 1) & mask;
         if (fb) reg ^= poly;
      }
   if (rout)
   {
      uint64_t o = 0;
      for (int i = 0; i < order; i++) if ((reg >> i) & 1) o |= 1ULL << (order - 1 - i);
      reg = o;
   }
   return (reg ^ fin) & mask;
}
// the message and as many zeros shifted through the register: the other form
static uint64_t crcAugmented(const vector<uint8_t>& d, int order, uint64_t poly, uint64_t init, uint64_t fin, bool rin, bool rout)
{
   uint64_t mask = (1ULL << order) - 1, top = 1ULL << (order - 1), reg = init & mask;
   vector<int> bits;
   for (size_t i = 0; i < d.size(); i++)
      for (int b = 0; b < 8; b++) bits.push_back(rin ? (d[i] >> b) & 1 : (d[i] >> (7 - b)) & 1);
   for (int i = 0; i < order; i++) bits.push_back(0);
   for (size_t i = 0; i < bits.size(); i++)
   {
      bool fb = (reg & top) != 0;
      reg = ((reg << 1) & mask) | bits[i];
      if (fb) reg ^= poly;
   }
   if (rout)
   {
      uint64_t o = 0;
      for (int i = 0; i < order; i++) if ((reg >> i) & 1) o |= 1ULL << (order - 1 - i);
      reg = o;
   }
   return (reg ^ fin) & mask;
}

static void crcStage(vf::Case& c)
{
   vf::Rng& r = c.rng;
   vector<uint8_t> d((size_t)r.below(60));
   for (size_t i = 0; i < d.size(); i++) d[i] = (uint8_t)r.below(256);
   const uint8_t dummy = 0, *dp = d.empty() ? &dummy : d.data();
   int order = (int)r.range(1, 32);
   uint64_t mask = (1ULL << order) - 1;
   // a generator polynomial has a constant term
   uint64_t poly = (r.below(1ULL << 32) & mask) | 1, init = r.chance(0.3) ? 0 : r.below(1ULL << 32) & mask, fin = r.chance(0.3) ? 0 : r.below(1ULL << 32) & mask;
   bool direct = r.chance(0.5), rin = r.chance(0.5), rout = r.chance(0.5);
   bu::CRCParam p(order, poly, init, fin, direct, rin, rout);
   uint32_t got = bu::computeCRC(dp, d.size(), p);
   uint64_t want = direct ? crcDirect(d, order, poly, init, fin, rin, rout) : crcAugmented(d, order, poly, init, fin, rin, rout);
   VF_CHECK(direct ? "crc.direct" : "crc.augmented", got == want, "order " << order << " poly " << hex << poly << " init " << init << " final " << fin << dec << " in " << rin << " out " << rout << " of " << d.size() << " bytes: " << hex << got << " for " << want);
   VF_CHECK("crc.ccitt", bu::computeCRC(dp, d.size(), bu::CRCCCITT) == crcDirect(d, 16, 0x1021, 0xffff, 0, false, false), "CRC-CCITT");
   VF_CHECK("crc.16", bu::computeCRC(dp, d.size(), bu::CRC16) == crcDirect(d, 16, 0x8005, 0, 0, true, true), "CRC-16");
   VF_CHECK("crc.32", bu::computeCRC(dp, d.size(), bu::CRC32) == crcDirect(d, 32, 0x04c11db7, 0xffffffff, 0xffffffff, true, true), "CRC-32");
   VF_CHECK("crc.24q.params", bu::computeCRC(dp, d.size(), bu::CRC24Q) == crcDirect(d, 24, bu::CRC24Q.polynom, bu::CRC24Q.initial, bu::CRC24Q.final, bu::CRC24Q.refin, bu::CRC24Q.refout), "CRC-24Q with its own parameters");
   VF_CHECK("crc.24q.standard", bu::computeCRC(dp, d.size(), bu::CRC24Q) == crcDirect(d, 24, 0x864cfb, 0, 0, false, false), "CRC24Q is not the CRC-24Q of " << d.size() << " bytes");
   // one flipped bit changes it
   if (!d.empty())
   {
      vector<uint8_t> e = d;
      e[r.below(e.size())] ^= (uint8_t)(1 << r.below(8));
      VF_CHECK("crc.flip", bu::computeCRC(e.data(), e.size(), p) != got, "a flipped bit was not seen, order " << order);
   }
   c.distinct(((uint64_t)got << 16) ^ d.size() ^ poly);
   ostringstream sm; sm << "order " << order << " poly " << hex << poly << dec << " bytes " << d.size(); c.sample(sm.str());
}

int main(int argc, char **argv)
{
   return vf::run(argc, argv, {
      {"pcode", 24, 300, pcodeStage},
      {"seq", 200, 3000, seqStage},
      {"codec", 4000, 100000, codecStage},
      {"crc", 3000, 60000, crcStage},
   });
}
