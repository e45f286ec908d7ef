// C03: GNSS week/second, week/Z-count representations
#include "timemodel.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSZcount.hpp"
#include "Epoch.hpp"
using namespace gpstk; using namespace tm_;

template <class W> static void weeksec(vf::Case& c, const char* nm, long ep, int bits)
{
   vf::Rng& r = c.rng;
   std::string n = nm;
   TimeSystem ts = r.pick(SYSTEMS);
   long mx = std::min(J_MAX - 10, ep + 7L * 60000);
   CommonTime t = genTime(r, ts, r.chance(0.8) ? ep : 1, mx);
   if (r.chance(0.3))
   {  // around week and rollover edges
      long w = (r.chance(0.5) ? r.range(0, 4000) : (r.range(0, 3) << bits)) + r.range(-1, 1);
      long d = std::min(mx, std::max(ep, ep + 7 * w + r.range(-1, 1))), ms; double fs; genSod(r, ms, fs);
      t.setInternal(d, ms, fs, ts);
   }
   long day, ms; double fs; t.getInternal(day, ms, fs);
   c.note(n + show(t)); c.distinct((uint64_t)(value(t) / 1000000) + bits);
   if (r.chance(0.0003)) c.sample(n + " " + show(t));
   if (day < ep)
   {
      VF_THROWS(n + ".before", gpstk::Exception, W x(t), show(t));
      return;
   }
   long nd = day - ep, wk = nd / 7, dow = nd % 7; double sow = dow * 86400 + ms / 1000.0 + fs;
   W x(t);
   VF_CHECK(n + ".from", x.week == wk && vf::close(x.sow, sow, 1.3e-10) && x.getTimeSystem() == ts && x.getWeek() == (unsigned)wk && x.getSOW() == x.sow,
            show(t) << " -> " << x.week << "/" << x.sow << " want " << wk << "/" << sow);
   if (x.sow < 604800.0)
   {
      VF_CHECK(n + ".dow", x.getDayOfWeek() == (unsigned)dow || vf::close(x.sow, 86400.0 * (dow + 1), 2e-10), show(t) << " dow " << x.getDayOfWeek());
      CommonTime b = x.convertToCommonTime();
      double e = secdiff(value(b), value(t)); c.maximum(n + ".roundtrip_s", std::fabs(e));
      VF_CHECK(n + ".back", std::fabs(e) < 1.5e-10 && normalised(b) && b.getTimeSystem() == ts, show(t) << " back " << show(b));
      VF_CHECK(n + ".valid", x.isValid(), show(t));
   }
   W y((unsigned)wk, dow * 86400 + ms / 1000, ts);
   VF_CHECK(n + ".ctor", value(y.convertToCommonTime()) == (i128)day * DAYA + (i128)(ms / 1000) * ATTO && y.convertToCommonTime().getTimeSystem() == ts, show(t));
   long mod = 1L << bits, mask = mod - 1;
   unsigned e, w; x.getEpochModWeek(e, w);
   VF_CHECK(n + ".mod", x.getModWeek() == (unsigned)(wk & mask) && x.getEpoch() == (unsigned)(wk >> bits) && e == x.getEpoch() && w == x.getModWeek()
            && x.bitmask() == mask && x.Nbits() == bits && x.rollover() == mod, show(t) << " mod " << x.getModWeek());
   W z(x); unsigned ne = r.below(4), nw = r.below(mod);
   z.setEpochModWeek(ne, nw);
   VF_CHECK(n + ".setmod", z.week == (long)((ne << bits) | nw) && z.sow == x.sow, ne << "," << nw << " -> " << z.week);
   W z2(x); z2.setModWeek(nw);
   VF_CHECK(n + ".setmodweek", z2.week == ((wk & ~mask) | nw), wk << "," << nw << " -> " << z2.week);
   W z3(x); z3.setEpoch(ne);
   VF_CHECK(n + ".setepoch", z3.week == (long)((ne << bits) | (wk & mask)), wk << "," << ne << " -> " << z3.week);
   {  // a truncated week plus the year gives the full week back
      Ymd cv = civil(day);
      long w1 = (jdn(cv.y, 1, 1) - ep);
      if (w1 >= 0)
      {
         W a(x); a.setEpoch(r.below(3)); a.adjustToYear(cv.y);
         VF_CHECK(n + ".year", a.week == wk, show(t) << " mod week " << (wk & mask) << " year " << cv.y << " -> " << a.week << " want " << wk);
         if (r.chance(0.2) && ts != TimeSystem::Unknown)
         {
            W a2(x); a2.setEpoch(r.below(3));
            Epoch ee(a2, cv.y);
            VF_CHECK(n + ".epochyear", std::fabs(secdiff(value((CommonTime)ee), value(t))) < 1.5e-10 || x.sow >= 604800, show(t) << " -> " << show((CommonTime)ee));
         }
      }
   }
   {  // ordering
      W o(x); 
      switch (r.below(4))
      {
         case 0: o.week += (int)r.range(-2, 2); break;
         case 1: o.sow = r.range(0, 604799); break;
         case 2: o.week += (int)r.range(-2, 2); o.sow = r.range(0, 604799); break;
         default: break;
      }
      int want = x.week != o.week ? (x.week < o.week ? -1 : 1) : x.sow != o.sow ? (x.sow < o.sow ? -1 : 1) : 0;
      bool lt = x < o, gt = x > o, le = x <= o, ge = x >= o, eq = x == o, nq = x != o;
      bool ok = want < 0 ? (lt && !gt && le && !ge && !eq && nq) : want > 0 ? (!lt && gt && !le && ge && !eq && nq) : (!lt && !gt && le && ge && eq && !nq);
      VF_CHECK(n + ".order", ok, x.week << "/" << x.sow << " vs " << o.week << "/" << o.sow);
   }
}
static void ws(vf::Case& c)
{
   switch (c.idx % 5)
   {
      case 0: weeksec<GPSWeekSecond>(c, "gps", jdn(1980, 1, 6), 10); break;
      case 1: weeksec<GALWeekSecond>(c, "gal", jdn(1999, 8, 22), 12); break;
      case 2: weeksec<BDSWeekSecond>(c, "bds", jdn(2006, 1, 1), 13); break;
      case 3: weeksec<QZSWeekSecond>(c, "qzs", jdn(1980, 1, 6), 16); break;
      default: weeksec<IRNWeekSecond>(c, "irn", jdn(1999, 8, 22), 10);
   }
}

static const long ZW = 403200;

static void zcount(vf::Case& c)
{
   vf::Rng& r = c.rng;
   TimeSystem ts = r.pick(SYSTEMS);
   CommonTime t = genTime(r, ts, J_GPS, J_GPS + 7 * 4000);
   if (r.chance(0.4))
   {
      long w = r.range(0, 3999), ms = r.range(0, 57599) * 1500 + r.pick<long>({0, 0, -1, 1, 750});
      if (ms < 0) ms = 0;
      t.setInternal(J_GPS + 7 * w + r.range(0, 6), ms, r.pick({0.0, 0.0, 1e-6, 0.000999}), ts);
   }
   long day, ms; double fs; t.getInternal(day, ms, fs);
   c.note(show(t)); c.distinct((uint64_t)(value(t) / 1000000));
   long nd = day - J_GPS, wk = nd / 7; long z = nd % 7 * 57600 + ms / 1500;
   GPSWeekZcount x(t);
   bool edge = ms % 1500 == 1499 && fs > 0.00099999;
   VF_CHECK("wz.from", x.week == wk && (x.zcount == z || (edge && x.zcount == z + 1)) && x.getTimeSystem() == ts, show(t) << " -> " << x.week << "/" << x.zcount << " want " << wk << "/" << z);
   CommonTime b = GPSWeekZcount((int)wk, (int)z, ts).convertToCommonTime();
   VF_CHECK("wz.back", value(b) == (i128)(J_GPS + 7 * wk + z / 57600) * DAYA + (i128)(z % 57600) * 1500 * (ATTO / 1000) && b.getTimeSystem() == ts, wk << "/" << z << " -> " << show(b));
   GPSWeekZcount s((int)wk, (int)z, ts);
   VF_CHECK("wz.pack", s.getZcount29() == (unsigned)(((wk & 1023) << 19) | z) && s.getZcount32() == (unsigned)((wk << 19) | z) && s.getTotalZcounts() == (unsigned long)(wk * ZW + z) && s.getDayOfWeek() == (unsigned)(z / 57600) && s.isValid(), wk << "/" << z);
   GPSWeekZcount u(0, 0, ts); u.setZcount32(s.getZcount32());
   VF_CHECK("wz.unpack32", u.week == wk && u.zcount == z, wk << "/" << z << " -> " << u.week << "/" << u.zcount);
   GPSWeekZcount u2((int)(wk & ~1023L), 0, ts); u2.setZcount29(s.getZcount29());
   VF_CHECK("wz.unpack29", u2.week == wk && u2.zcount == z, wk << "/" << z << " -> " << u2.week << "/" << u2.zcount);
   {
      GPSWeekZcount q(s); unsigned e, w; unsigned ne = r.below(4), nw = r.below(1024);
      q.getEpochWeek10(e, w);
      VF_CHECK("wz.mod", e == (unsigned)(wk >> 10) && w == (unsigned)(wk & 1023) && q.getWeek10() == w && q.getEpoch() == e, wk);
      q.setEpochWeek10(ne, nw);
      VF_CHECK("wz.setmod", q.week == (int)(ne * 1024 + nw), ne << " " << nw << " " << q.week);
      GPSWeekZcount q2(s); q2.setWeek10(nw);
      VF_CHECK("wz.setweek10", q2.week == (int)((wk & ~1023) | nw), wk << " " << nw << " " << q2.week);
   }
   long T = wk * ZW + z;
   long n = r.chance(0.3) ? r.range(-3, 3) : r.chance(0.5) ? ZW * r.range(-3, 3) + r.range(-2, 2) : r.range(-5000000, 5000000);
   if (T + n >= 0 && (T + n) / ZW < 4000)
   {
      GPSWeekZcount p = s + n, q(s); q += n; GPSWeekZcount m = p - n;
      VF_CHECK("wz.add", (long)p.getTotalZcounts() == T + n && p.zcount >= 0 && p.zcount < ZW && p.week == (T + n) / ZW, wk << "/" << z << " + " << n << " = " << p.week << "/" << p.zcount);
      VF_CHECK("wz.addassign", q.week == p.week && q.zcount == p.zcount && (p - s) == n && m.week == s.week && m.zcount == s.zcount, wk << "/" << z << " + " << n);
      GPSWeekZcount o(p);
      int want = n < 0 ? 1 : n > 0 ? -1 : 0;
      VF_CHECK("wz.order", (s < o) == (want < 0) && (s > o) == (want > 0) && (s == o) == (want == 0) && (s != o) == (want != 0) && (s <= o) == (want <= 0) && (s >= o) == (want >= 0), wk << "/" << z << " + " << n);
      GPSZcount a((short)wk, z), bb = a + n;
      VF_CHECK("z.add", bb.getWeek() == (T + n) / ZW && bb.getZcount() == (T + n) % ZW && bb.getTotalZcounts() == (double)(T + n) && (bb - a) == (double)n, wk << "/" << z << " + " << n << " = " << bb.getWeek() << "/" << bb.getZcount());
      GPSZcount cc(a); cc -= -n; GPSZcount dd = bb - n;
      VF_CHECK("z.sub", cc == bb && dd == a, wk << "/" << z << " + " << n);
      VF_CHECK("z.order", (a < bb) == (want < 0) && (a > bb) == (want > 0) && (a == bb) == (want == 0) && (a != bb) == (want != 0) && (a <= bb) == (want <= 0) && (a >= bb) == (want >= 0), wk << "/" << z << " + " << n);
      if (T > 0) { GPSZcount i(a), k = i++; GPSZcount j(a), l = j--; VF_CHECK("z.incdec", k == a && l == a && (i - a) == 1 && (a - j) == 1 && ++j == a && --i == a, wk << "/" << z); }
      unsigned long blk = r.pick({1UL, 4UL, 40UL, 2400UL, 57600UL, 403200UL, 806400UL}), off = 0;
      bool same;
      if ((long)blk < ZW) same = a.getWeek() == bb.getWeek() && a.getZcount() / (long)blk == bb.getZcount() / (long)blk;
      else same = T / (long)blk == (T + n) / (long)blk;
      VF_CHECK("z.block", a.inSameTimeBlock(bb, blk, off) == same, wk << "/" << z << " + " << n << " block " << blk);
      VF_CHECK("wz.block", s.inSameTimeBlock(p, blk, off) == same, wk << "/" << z << " + " << n << " block " << blk);
      GPSZcount f(a.getFullZcount());
      VF_CHECK("z.full", a.getFullZcount() == (((wk & 1023) << 19) | z) && f.getWeek() == (wk & 1023) && f.getZcount() == z, wk << "/" << z << " -> " << a.getFullZcount());
   }
   else if (T + n < 0)
   {
      GPSZcount a((short)wk, z), k(a);
      VF_THROWS("z.neg", gpstk::Exception, a += n, wk << "/" << z << " + " << n);
      VF_CHECK("z.negkeep", a == k, "refused addition changed the value");
      GPSWeekZcount q(s);
      VF_THROWS("wz.neg", gpstk::Exception, q += n, wk << "/" << z << " + " << n);
      VF_CHECK("wz.negkeep", q.week == s.week && q.zcount == s.zcount, "refused addition changed the value");
   }
   long bad = r.chance(0.5) ? -1 - (long)r.below(1000) : ZW + (long)r.below(1000);
   VF_THROWS("z.bad", gpstk::Exception, GPSZcount((short)wk, bad), bad);
   VF_THROWS("z.badweek", gpstk::Exception, GPSZcount((short)(-1 - (long)r.below(1000)), z), z);
   {
      CommonTime early = genTime(r, ts, 1, J_GPS - 1);
      VF_THROWS("wz.before", gpstk::Exception, GPSWeekZcount q(early), show(early));
   }
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {
      {"ws", 150000, 5000000, ws},
      {"zcount", 60000, 2000000, zcount}});
}
