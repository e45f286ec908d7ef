// C13: packed navigation bits: packing and unpacking of message fields.
#include "vf.hpp"
#include "PackedNavBits.hpp"
#include "CommonTime.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;
typedef long double ld;

typedef std::vector<bool> Bits;
static void push(Bits& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back((v >> i) & 1); }
static uint64_t peek(const Bits& b, size_t s, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = (v << 1) | (b[s + i] ? 1 : 0); return v; }
static int64_t sext(uint64_t v, int n) { if (n < 64 && (v >> (n - 1)) & 1) return (int64_t)(v | (~0ULL << n)); return (int64_t)v; }
static const double PI_ = 3.1415926535898;
static PackedNavBits fresh(vf::Rng& r)
{
   CommonTime t = GPSWeekSecond(1500 + (int)r.below(3), 6.0 * r.below(3)).convertToCommonTime();
   return PackedNavBits(SatID(1 + (int)r.below(3), SatelliteSystem::GPS), ObsID(ObservationType::NavMsg, CarrierBand::L1, r.chance(0.5) ? TrackingCode::CA : TrackingCode::Y), NavID(NavType::GPSLNAV), r.chance(0.5) ? "rx1" : "rx2", t);
}

   // add one random field to both; false if refused
static void addField(vf::Case& c, vf::Rng& r, PackedNavBits& p, Bits& m, std::ostringstream& log)
{
   int n = (int)r.range(1, 50), kind = (int)r.below(8); size_t before = m.size();
   switch (kind)
   {
      case 0:
      { uint64_t lim = (1ULL << n) - 1, v = r.chance(0.2) ? lim : r.below(lim + 1); int sc = r.pick({1, 1, 4, 16, 900}); uint64_t val = v * sc + (r.chance(0.5) ? 0 : r.below(sc));
        log << " ul(" << val << "," << n << "," << sc << ")"; VF_NOTHROW("pack.ul.ok", p.addUnsignedLong(val, n, sc), log.str()); push(m, v, n);
        VF_THROWS("pack.ul.big", InvalidParameter, p.addUnsignedLong((lim + 1 + r.below(5)) * sc, n, sc), log.str()); break; }
      case 1:
      { if (n < 2) n = 2; int64_t h = 1LL << (n - 1), v = r.chance(0.3) ? r.pick({-h, h - 1, (int64_t)-1, (int64_t)0}) : r.range(-h, h - 1); int sc = r.pick({1, 1, 4, 100});
        log << " l(" << v * sc << "," << n << "," << sc << ")"; VF_NOTHROW("pack.l.ok", p.addLong(v * sc, n, sc), log.str()); push(m, (uint64_t)v, n);
        int64_t bad = r.chance(0.5) ? (h + r.range(0, 3)) * sc : (-h - 1 - r.range(0, 3)) * sc;
        VF_THROWS("pack.l.big", InvalidParameter, p.addLong(bad, n, sc), log.str()); break; }
      case 2:
      { int e = (int)r.range(-60, 20); uint64_t lim = (1ULL << n) - 1, v = r.chance(0.2) ? lim : r.below(lim + 1);
        double f = n < 45 && v < lim ? r.unif(-0.45, 0.45) : 0; if (v == 0 && f < 0) f = 0; double x = std::ldexp((double)v + f, e);
        log << " ud(" << x << "," << n << "," << e << ")"; VF_NOTHROW("pack.ud.ok", p.addUnsignedDouble(x, n, e), log.str()); push(m, v, n);
        VF_THROWS("pack.ud.big", InvalidParameter, p.addUnsignedDouble(std::ldexp((double)lim + 1 + r.below(5), e), n, e), log.str()); break; }
      case 3: case 4:
      { if (n < 2) n = 2; int e = (int)r.range(-60, 20); int64_t h = 1LL << (n - 1), v = r.chance(0.3) ? r.pick({-h, h - 1, (int64_t)-1, (int64_t)0}) : r.range(-h, h - 1);
        double f = n < 40 && v < h - 1 && v > -h ? r.unif(-0.45, 0.45) : 0; if (kind == 4 && n > 40) { n = 40; h = 1LL << 39; v = r.range(-h, h - 1); }
        double x = std::ldexp((double)v + f, e);
        log << (kind == 3 ? " sd(" : " sc(") << x << "," << n << "," << e << ")";
        if (kind == 3) { VF_NOTHROW("pack.sd.ok", p.addSignedDouble(x, n, e), log.str()); VF_THROWS("pack.sd.big", InvalidParameter, p.addSignedDouble(std::ldexp(r.chance(0.5) ? (double)h + 1 : -(double)h - 2, e), n, e), log.str()); }
        else { VF_NOTHROW("pack.sc.ok", p.addDoubleSemiCircles(x * PI_, n, e), log.str()); VF_THROWS("pack.sc.big", InvalidParameter, p.addDoubleSemiCircles(std::ldexp(r.chance(0.5) ? (double)h + 1 : -(double)h - 2, e) * PI_, n, e), log.str()); }
        push(m, (uint64_t)v, n); break; }
      case 5:
      { static const std::string AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 \"'+-./:\xf8";
        std::string s = r.str(r.below(9), AL); int k = (int)r.range(1, 10); log << " str(" << s << "," << k << ")";
        VF_NOTHROW("pack.str.ok", p.addString(s, k), log.str());
        for (int i = 0; i < k; i++) push(m, i < (int)s.size() ? (unsigned char)s[i] : ' ', 8);
        if (r.chance(0.3)) { PackedNavBits q(p); VF_THROWS("pack.str.bad", InvalidParameter, q.addString(std::string(1, r.pick({'a', '!', ';', '@', '\n', '\x80', '_'})) + s, k), log.str()); } break; }
      case 6:
      { PackedNavBits q = fresh(r); Bits qm; std::ostringstream d; int t = (int)r.range(1, 3); for (int i = 0; i < t; i++) { uint64_t v = r.below(1 << 20); q.addUnsignedLong(v, 20, 1); push(qm, v, 20); }
        log << " append(" << 20 * t << ")"; p.addPackedNavBits(q); for (bool b : qm) m.push_back(b); break; }
      default:
      { if (r.chance(0.5)) { p.invert(); m.flip(); log << " invert"; }
        else if (m.size() > 50) { size_t s = r.below(m.size() - 50); uint64_t v = r.below(1ULL << n); log << " insert(" << v << "," << s << "," << n << ")"; p.insertUnsignedLong(v, (int)s, n); for (int i = 0; i < n; i++) m[s + i] = (v >> (n - 1 - i)) & 1;
          VF_THROWS("pack.insert.past", InvalidParameter, p.insertUnsignedLong(1, (int)m.size() - n + 1, n), log.str()); } }
   }
   VF_CHECK("pack.count", p.getNumBits() == m.size(), log.str() << " has " << p.getNumBits() << " bits, expected " << m.size() << " (before " << before << ")");
}

static void verify(vf::Rng& r, const PackedNavBits& p, const Bits& m, const std::string& log)
{
   if (m.size() < 4) return;
   for (int k = 0; k < 4; k++)
   {
      int n = (int)r.range(2, (long)std::min<size_t>(50, m.size())); int s = (int)r.below(m.size() - n + 1); uint64_t u = peek(m, s, n); int64_t v = sext(u, n); int e = (int)r.range(-55, 16), sc = r.pick({1, 1, 16, 900});
      VF_CHECK("unpack.ul", p.asUnsignedLong(s, n, sc) == u * sc, log << " @" << s << "+" << n << " = " << p.asUnsignedLong(s, n, sc) << " expected " << u * sc);
      VF_CHECK("unpack.l", p.asLong(s, n, sc) == v * sc, log << " @" << s << "+" << n << " = " << p.asLong(s, n, sc) << " expected " << v * sc);
      VF_CHECK("unpack.ud", p.asUnsignedDouble(s, n, e) == std::ldexp((double)u, e), log << " @" << s << "+" << n);
      VF_CHECK("unpack.sd", p.asSignedDouble(s, n, e) == std::ldexp((double)v, e), log << " @" << s << "+" << n);
      double w = std::ldexp((double)v, e) * M_PI, g = p.asDoubleSemiCircles(s, n, e);
      VF_CHECK("unpack.sc", std::fabs(g - w) <= 1e-12 * std::fabs(w), log << " @" << s << "+" << n << " = " << g << " expected " << w);
      uint64_t mag = peek(m, s + 1, n - 1); double sm = m[s] ? -(double)mag : (double)mag;
      VF_CHECK("unpack.sml", p.asSignMagLong(s, n, sc) == (m[s] ? -1 : 1) * (long)mag * sc, log << " @" << s << "+" << n);
      VF_CHECK("unpack.smd", p.asSignMagDouble(s, n, e) == std::ldexp(sm, e), log << " @" << s << "+" << n);
      g = p.asSignMagDoubleSemiCircles(s, n, e); w = std::ldexp(sm, e) * M_PI;
      VF_CHECK("unpack.smsc", std::fabs(g - w) <= 1e-12 * std::fabs(w), log << " @" << s << "+" << n);
      VF_CHECK("unpack.bool", p.asBool(s) == m[s], log << " @" << s);
         // field in up to four pieces, most significant first
      unsigned st[4], nb[4], len = (unsigned)r.range(1, 4); int tot = 0; uint64_t cu = 0;
      for (unsigned i = 0; i < len; i++) { nb[i] = (unsigned)r.range(1, std::min<long>(16, m.size())); st[i] = (unsigned)r.below(m.size() - nb[i] + 1); cu = (cu << nb[i]) | peek(m, st[i], nb[i]); tot += nb[i]; }
      if (tot > 50) continue;
      int64_t cs = sext(cu, tot); std::ostringstream d; for (unsigned i = 0; i < len; i++) d << " [" << st[i] << "+" << nb[i] << "]";
      VF_CHECK("split.ul", p.asUnsignedLong(st, nb, len, sc) == cu * sc, log << d.str() << " = " << p.asUnsignedLong(st, nb, len, sc) << " expected " << cu * sc);
      VF_CHECK("split.l", p.asLong(st, nb, len, sc) == cs * sc, log << d.str() << " = " << p.asLong(st, nb, len, sc) << " expected " << cs * sc);
      VF_CHECK("split.ud", p.asUnsignedDouble(st, nb, len, e) == std::ldexp((double)cu, e), log << d.str());
      VF_CHECK("split.sd", p.asSignedDouble(st, nb, len, e) == std::ldexp((double)cs, e), log << d.str());
      g = p.asDoubleSemiCircles(st, nb, len, e); w = std::ldexp((double)cs, e) * M_PI;
      VF_CHECK("split.sc", std::fabs(g - w) <= 1e-12 * std::fabs(w), log << d.str());
   }
   int past = (int)std::max<size_t>(900, m.size());
   VF_THROWS("unpack.past", InvalidParameter, p.asUnsignedLong(past - 3, 4, 1), log);
   VF_THROWS("unpack.past", InvalidParameter, p.asSignedDouble(past + (int)r.below(200), 8, 1), log);
}

static void fields(vf::Case& c)
{
   vf::Rng& r = c.rng; PackedNavBits p = fresh(r); Bits m; std::ostringstream log; log << std::setprecision(17);
   int n = r.chance(0.2) ? (int)r.range(20, 60) : (int)r.range(2, 12);
   for (int i = 0; i < n; i++)
   {
      if (r.chance(0.03)) { p.clearBits(); m.clear(); log << " clear"; }
      if (r.chance(0.05)) { p.trimsize(); log << " trim"; if (m.size() > 4) VF_THROWS("unpack.past.trim", InvalidParameter, p.asUnsignedLong((int)m.size() - 2, 3, 1), log.str()); }
      if (r.chance(0.05)) { PackedNavBits q(p); p = q; log << " copy"; }
      c.note(log.str()); addField(c, r, p, m, log);
      if (log.str().size() > 1500) { log.str(""); log << "..."; }
      if (i % 4 == 3) verify(r, p, m, log.str());
   }
   verify(r, p, m, log.str()); c.distinct(log.str()); if (r.chance(0.001)) c.sample(log.str());
   PackedNavBits q(p), *k = p.clone();
   verify(r, q, m, log.str() + " copy"); verify(r, *k, m, log.str() + " clone"); delete k;
   VF_CHECK("copy.meta", q.getsatSys() == p.getsatSys() && q.getobsID() == p.getobsID() && q.getRxID() == p.getRxID() && q.getTransmitTime() == p.getTransmitTime() && q.getNavID().navType == p.getNavID().navType && q.getNumBits() == p.getNumBits(), log.str());
   VF_CHECK("copy.equal", q == p && p == q && !(q < p) && !(p < q), log.str() << " copy differs from its original");
      // text form and back
   if (m.size() > 0)
   {
      q.trimsize(); std::ostringstream o; int cnt = q.outputPackedBits(o, (short)r.range(1, 40), ' ');
      VF_CHECK("text.count", cnt == (int)m.size(), log.str() << " wrote " << cnt);
      std::string tx = std::to_string(m.size()) + " " + o.str(); for (char& ch : tx) if (ch == '\n') ch = r.pick({' ', ',', '\t'});
      PackedNavBits x = fresh(r); if (r.chance(0.2)) x = PackedNavBits(x);
      VF_NOTHROW("text.ok", x.rawBitInput(tx), tx); VF_CHECK("text.same", x.getNumBits() == m.size() && x.matchBits(q) && q.matchBits(x), log.str() << " text " << tx << " read " << x.getNumBits() << " bits");
      verify(r, x, m, log.str() + " text");
   }
}

static void matching(vf::Case& c)
{
   vf::Rng& r = c.rng; int n = (int)r.range(8, 300); Bits a, b; PackedNavBits p = fresh(r), q = fresh(r);
   for (int i = 0; i < n; i++) { bool v = r.chance(0.5); a.push_back(v); }
   b = a; int flips = (int)r.below(3); for (int i = 0; i < flips; i++) { int k = (int)r.below(n); b[k] = !b[k]; }
   for (int i = 0; i < n; i++) { p.addUnsignedLong(a[i], 1, 1); q.addUnsignedLong(b[i], 1, 1); }
   int s = (int)r.range(-3, n - 1), e = r.chance(0.3) ? -1 : (int)r.range(s < 0 ? 0 : s, n + 5); int lo = std::max(0, s), hi = e == -1 || e >= n ? n - 1 : e;
   bool same = true; for (int i = lo; i <= hi; i++) same = same && a[i] == b[i];
   std::ostringstream d; d << n << " bits, " << flips << " flips, range " << s << ".." << e; c.distinct(d.str() + std::to_string(r.u64()));
   VF_CHECK("match.bits", p.matchBits(q, (short)s, (short)e) == same && q.matchBits(p, (short)s, (short)e) == same, d.str());
   bool mt = p.getTransmitTime() == q.getTransmitTime(), msat = p.getsatSys() == q.getsatSys(), mo = p.getobsID() == q.getobsID(), mr = p.getRxID() == q.getRxID();
   unsigned f = (unsigned)r.below(32); bool meta = (!(f & 1) || mt) && (!(f & 2) || msat) && (!(f & 4) || mo) && (!(f & 8) || mr);
   VF_CHECK("match.meta", p.matchMetaData(q, f) == meta, d.str() << " flags " << f);
   VF_CHECK("match.both", p.match(q, (short)s, (short)e, f) == (meta && same), d.str() << " flags " << f);
   VF_CHECK("match.equal", (p == q) == (a == b && mt && msat && mo && mr), d.str());
   bool lt = false, gt = false; for (int i = 0; i < n && !lt && !gt; i++) if (a[i] != b[i]) (b[i] ? lt : gt) = true;
   VF_CHECK("match.less", (p < q) == lt && (q < p) == gt, d.str());
   PackedNavBits u(p); u.copyBits(q, (short)lo, (short)(r.chance(0.5) ? hi : (hi == n - 1 ? -1 : hi)));
   bool ok = u.getNumBits() == (size_t)n; for (int i = 0; i < n; i++) ok = ok && u.asBool(i) == (i >= lo && i <= hi ? b[i] : a[i]);
   VF_CHECK("copybits", ok, d.str()); 
   PackedNavBits w(p); w.addUnsignedLong(1, 1, 1); VF_THROWS("copybits.size", InvalidParameter, w.copyBits(q), d.str());
   VF_CHECK("match.size", !w.matchBits(p) && !(w == p), d.str());
}

static void hostile(vf::Case& c)     // raw bit text of any shape
{
   vf::Rng& r = c.rng; int n = (int)r.range(1, 1200); std::ostringstream o; o << n;
   for (int i = 0; i < (n + 31) / 32; i++) { char b[16]; snprintf(b, 16, " 0x%08x", (unsigned)r.u64()); o << b; }
   std::string t = o.str(); int k = (int)r.below(4);
   for (int i = 0; i < k; i++)
   {
      size_t p = r.below(t.size());
      switch (r.below(4)) { case 0: t.erase(p, r.range(1, 20)); break; case 1: t.insert(p, r.pick({std::string(" "), std::string("0x"), std::string("-5"), std::string("99"), std::string("g"), std::string(",")})); break; case 2: t = t.substr(0, p + 1); break; default: t[p] = r.str(1, "0123456789xX -,\t")[0]; }
      if (t.empty()) t = "1";
   }
   c.note(t); c.distinct(t); PackedNavBits p = fresh(r); bool threw = false;
   try { p.rawBitInput(t); } catch (const gpstk::Exception&) { threw = true; }
   if (k == 0) VF_CHECK("raw.valid", !threw && p.getNumBits() == (size_t)n, t);
   if (!threw) { std::ostringstream s; p.dump(s); std::ostringstream s2; p.outputPackedBits(s2); }
   c.count(threw ? "refused" : "accepted"); VF_CHECK("raw.done", true, "");
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"fields", 4000, 150000, fields}, {"matching", 6000, 200000, matching}, {"hostile", 3000, 100000, hostile}});
}
