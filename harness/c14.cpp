// C14: GPS legacy navigation message: parity, pages, weeks, subframe 1-5 decoding.
#include "vf.hpp"
#include "lnav.hpp"
#include "EngNav.hpp"
#include "EngEphemeris.hpp"
#include "EngAlmanac.hpp"
#include "GPSWeekSecond.hpp"
#include "GPS_URA.hpp"
using namespace gpstk;
using lnav::SF; using lnav::sgn;
static const double PI_ = lnav::PI_ICD;
#define NEAR(key, got, want) do { double g_ = (got), w_ = (want); VF_CHECK(key, std::fabs(g_ - w_) <= 1e-12 * std::fabs(w_), "got " << g_ << " want " << w_ << " " << log); } while (0)

static uint64_t rbits(vf::Rng& r, int n)
{
   uint64_t m = n >= 64 ? ~0ULL : (1ULL << n) - 1;
   switch (r.below(6)) { case 0: return r.pick({(uint64_t)0, m, m >> 1, (m >> 1) + 1, (uint64_t)1}) & m; case 1: return (1ULL << r.below(n)) & m; default: return r.u64() & m; }
}
static void randomData(vf::Rng& r, SF& f) { for (int w = 2; w < 10; w++) f.put(30 * w + 1, 24, rbits(r, 24)); }

static void parity(vf::Case& c)
{
   vf::Rng& r = c.rng; SF f; f.head(1 + (int)r.below(5), (int)rbits(r, 14), (int)rbits(r, 17), (int)r.below(4)); randomData(r, f);
   bool up = r.chance(0.5); uint32_t w[10]; f.words(w, up); std::string log;
   { std::ostringstream o; o << "upright=" << up << std::hex; for (int i = 0; i < 10; i++) o << " " << w[i]; log = o.str(); }
   c.distinct(log); if (c.idx < 2) c.sample(log); c.note(log);
   VF_CHECK("parity.valid", EngNav::checkParity(w, up), log);
   std::vector<uint32_t> v(w, w + 10); VF_CHECK("parity.valid.vector", EngNav::checkParity(v, up), log);
   if (!r.below(4)) { long lw[10]; SF g = f; uint32_t u[10]; g.words(u, true); for (int i = 0; i < 10; i++) lw[i] = u[i]; VF_CHECK("parity.valid.long", EngNav::subframeParity(lw), log); }
   for (int k = 0; k < 30; k++)
   {     // one to three wrong bits in one word are always detected
      uint32_t x[10]; memcpy(x, w, sizeof x); int wd = (int)r.below(10), nb = 1 + (int)r.below(3); std::set<int> s;
      while ((int)s.size() < nb) s.insert((int)r.below(30));
      for (int b : s) x[wd] ^= 1u << b;
      VF_CHECK("parity.detects", !EngNav::checkParity(x, up), log << " word " << wd << " bits " << nb);
   }
   for (int i = 0; i < 10; i++)
   {
      uint32_t prev = i ? w[i - 1] : 0;
      VF_CHECK("parity.compute", EngNav::computeParity(w[i], prev, up) == (w[i] & 0x3f), log << " word " << i);
      VF_CHECK("parity.compute.ignoreslow", EngNav::computeParity(w[i] ^ (uint32_t)r.below(64), prev, up) == (w[i] & 0x3f), log << " word " << i);
      bool nib = i == 1 || i == 9;
      uint32_t stale = (w[i] & ~0x3fu) | (r.chance(0.5) ? 0 : (uint32_t)r.below(64)); if (nib && r.chance(0.5)) stale ^= (uint32_t)r.below(4) << 6;
      VF_CHECK(nib ? "parity.fix.nib" : "parity.fix", EngNav::fixParity(stale, prev, nib, up) == w[i], log << " word " << i << " given " << std::hex << stale << " got " << EngNav::fixParity(stale, prev, nib, up));
   }
   VF_CHECK("how.time", EngNav::getHOWTime(w[1]) == 6 * ((w[1] >> 13) & 0x1ffff) && EngNav::getTOW(w[1]) == ((w[1] >> 13) & 0x1ffff), log);
   VF_CHECK("how.sfid", EngNav::getSFID(w[1]) == (short)((w[1] >> 8) & 7), log);
}

   // SV ID of each of the 25 pages, IS-GPS-200 table 20-V
static const int SF4[25] = {57, 25, 26, 27, 28, 57, 29, 30, 31, 32, 57, 62, 52, 53, 54, 57, 55, 56, 58, 59, 57, 60, 61, 62, 63};
static void pages(vf::Case& c)
{
   if (c.idx == 0)
   {
      for (int sf = -1; sf <= 7; sf++) for (int pg = -3; pg <= 30; pg++)
      {
         short id = -1; bool ok = EngNav::sfpage2svid(sf, pg, id); bool want = (sf == 4 || sf == 5) && pg >= 1 && pg <= 25;
         VF_CHECK("page.valid", ok == want, "sf " << sf << " page " << pg);
         if (!want) continue;
         int w = sf == 5 ? (pg == 25 ? 51 : pg) : SF4[pg - 1];
         VF_CHECK("page.svid", id == w, "sf " << sf << " page " << pg << " got " << id << " want " << w); c.distinct(sf * 100 + pg);
         short s2 = -1, p2 = -1, id2 = -1;
         VF_CHECK("page.back", EngNav::sv2page(id, s2, p2) && EngNav::sfpage2svid(s2, p2, id2) && id2 == id, "svid " << id << " -> " << s2 << " " << p2 << " -> " << id2);
      }
      for (int sv = -5; sv < 300; sv++)
      {
         bool used = false; if (sv >= 1 && sv <= 24) used = true; if (sv == 51) used = true; for (int x : SF4) if (x == sv) used = true;
         short s, p; VF_CHECK("page.svvalid", EngNav::sv2page(sv, s, p) == used, "svid " << sv);
      }
      return;
   }
      // page schedule: frame k of the week carries page (k mod 25)+1; HOW counts to the next subframe
   long frame = c.idx < 50 ? (long)c.idx - 1 : c.rng.range(0, 20159);
   for (int sf = 1; sf <= 5; sf++)
   {
      unsigned long how = ((frame * 5 + sf) % 100800), z = how * 4; short s = -1, p = -1; c.distinct(z);
      bool ok = EngNav::zcount2page(z, s, p); int wp = sf < 4 ? 0 : (int)(frame % 25) + 1;
      VF_CHECK("page.zcount", ok && s == sf && p == wp, "z " << z << " got " << s << "/" << p << " want " << sf << "/" << wp);
   }
}

static void weeks(vf::Case& c)
{
   int full = (int)c.idx; c.distinct(c.idx);
   for (int t = 0; t < 2; t++)
   {
      int M = t ? 1024 : 256;
      for (int k = 0; k < M; k += (t ? 1 + (int)c.rng.below(5) : 1))
      {
         int got = EngNav::convertXBit(full, k, t ? EngNav::BITS10 : EngNav::BITS8);
         VF_CHECK("week.congruent", ((got - k) % M + M) % M == 0, "full " << full << " short " << k << " got " << got);
         VF_CHECK("week.nearest", std::abs(got - full) <= M / 2, "full " << full << " short " << k << " got " << got);
         double d = k; bool ok = t ? EngNav::convert10bit(full, &d) : EngNav::convert8bit(full, &d);
         VF_CHECK("week.double", ok && d == got, "full " << full << " short " << k << " got " << d);
      }
   }
}

static short fitHours(int iodc, int fit)
{
   int lo = iodc & 0xff;
   if (!fit) return 4;
   if (lo < 240) return 6;
   if (iodc >= 240 && iodc <= 247) return 8;
   if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14;
   if ((iodc >= 497 && iodc <= 503) || iodc >= 1021) return 26;
   if (iodc >= 504 && iodc <= 510) return 50;
   if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
   if (iodc == 757) return 98;
   return -1; // reserved
}

struct Eph
{
   int week, prn, trk; int how[3], tlm[3], flg[3]; uint64_t cf, ura, hl, iodc, l2p, tgd, toc, af2, af1, af0, iode, crs, dn, m0, cuc, ecc, cus, ah, toe, fit, aodo, cic, om0, cis, i0, crc, w, omd, idot;
   int toeWeek, tocWeek;
   void gen(vf::Rng& r)
   {
      week = (int)r.range(1, 3000); prn = (int)r.range(1, 32); trk = (int)r.below(20);
      long frame = r.chance(0.3) ? r.pick({0L, 1L, 20159L, 20158L, 10080L}) : r.range(0, 20159);
      for (int i = 0; i < 3; i++) { how[i] = (int)(frame * 5 + i + 1); tlm[i] = (int)rbits(r, 14); flg[i] = (int)r.below(4); }
      cf = r.below(4); ura = r.below(16); hl = r.chance(0.5) ? 0 : r.below(64); iodc = rbits(r, 10); l2p = r.below(2); tgd = rbits(r, 8);
      double ref = how[1] * 6.0; auto epoch = [&](uint64_t& e, int& wk)
      {     // an epoch within half a week of transmission, in units of 16 s
         double d = r.chance(0.5) ? r.unif(-20000, 20000) : r.unif(-302000, 302000), s = std::floor((ref + d) / 16) * 16; wk = week;
         if (s < 0) { s += 604800; wk--; } if (s >= 604800) { s -= 604800; wk++; }
         if (std::fabs(s + 604800.0 * (wk - week) - ref) > 302000) { s = std::floor(ref / 16) * 16; wk = week; if (s > 604784) s = 604784; }
         e = (uint64_t)(s / 16);
      };
      epoch(toc, tocWeek); epoch(toe, toeWeek);
      af2 = rbits(r, 8); af1 = rbits(r, 16); af0 = rbits(r, 22); iode = r.chance(0.7) ? iodc & 0xff : rbits(r, 8);
      crs = rbits(r, 16); dn = rbits(r, 16); m0 = rbits(r, 32); cuc = rbits(r, 16); ecc = rbits(r, 28); cus = rbits(r, 16); ah = rbits(r, 32);
      fit = r.below(2); aodo = r.below(32); cic = rbits(r, 16); om0 = rbits(r, 32); cis = rbits(r, 16); i0 = rbits(r, 32); crc = rbits(r, 16); w = rbits(r, 32); omd = rbits(r, 24); idot = rbits(r, 14);
   }
   void subframes(vf::Rng& r, SF f[3]) const
   {
      for (int i = 0; i < 3; i++) { f[i].head(i + 1, tlm[i], how[i], flg[i]); randomData(r, f[i]); }
      SF& a = f[0]; a.put(61, 10, week % 1024); a.put(71, 2, cf); a.put(73, 4, ura); a.put(77, 6, hl); a.put2(83, 2, 211, 8, iodc); a.put(91, 1, l2p); a.put(197, 8, tgd); a.put(219, 16, toc); a.put(241, 8, af2); a.put(249, 16, af1); a.put(271, 22, af0);
      SF& b = f[1]; b.put(61, 8, iode); b.put(69, 16, crs); b.put(91, 16, dn); b.put2(107, 8, 121, 24, m0); b.put(151, 16, cuc); b.put2(167, 8, 181, 24, ecc); b.put(211, 16, cus); b.put2(227, 8, 241, 24, ah); b.put(271, 16, toe); b.put(287, 1, fit); b.put(288, 5, aodo);
      SF& d = f[2]; d.put(61, 16, cic); d.put2(77, 8, 91, 24, om0); d.put(121, 16, cis); d.put2(137, 8, 151, 24, i0); d.put(181, 16, crc); d.put2(197, 8, 211, 24, w); d.put(241, 24, omd); d.put(271, 8, iode); d.put(279, 14, idot);
   }
   static double S(uint64_t v, int n, int e) { return std::ldexp((double)sgn(v, n), e); }
   void verify(const EngEphemeris& e, const std::string& log, bool overhead, int wkToe, int wkToc) const
   {
      if (overhead)
      {
         for (int i = 0; i < 3; i++)
         {
            VF_CHECK("eph.tlm", (int)e.getTLMMessage(i + 1) == tlm[i], log << " sf " << i + 1 << " got " << e.getTLMMessage(i + 1));
            VF_CHECK("eph.how", e.getHOWTime(i + 1) == 6.0 * how[i], log << " sf " << i + 1 << " got " << e.getHOWTime(i + 1));
            VF_CHECK("eph.alert", e.getASAlert(i + 1) == flg[i], log << " sf " << i + 1);
         }
         VF_CHECK("eph.valid", e.isValid() == (toc * 16 <= 604784 && toe * 16 <= 604784 && std::ldexp((double)ecc, -33) <= 0.03), log << " isValid " << e.isValid());
      }
      VF_CHECK("eph.week", e.getFullWeek() == week, log << " got " << e.getFullWeek());
      VF_CHECK("eph.ids", e.getPRNID() == prn && e.getTracker() == trk && e.getSatSys() == "G", log);
      VF_CHECK("eph.flags", e.getCodeFlags() == (short)cf && e.getHealth() == (short)hl && e.getL2Pdata() == (short)l2p && e.getAccFlag() == (short)ura, log << " cf " << e.getCodeFlags() << " health " << e.getHealth() << " l2p " << e.getL2Pdata() << " acc " << e.getAccFlag());
      NEAR("eph.accuracy", e.getAccuracy(), ura2accuracy((short)ura));
      VF_CHECK("eph.iod", e.getIODC() == (short)iodc && e.getIODE() == (short)iode, log << " iodc " << e.getIODC() << " iode " << e.getIODE());
      VF_CHECK("eph.dataset", e.isDataSet() == ((iodc & 0xff) == iode), log);
      VF_CHECK("eph.fit", e.getFitInt() == (short)fit && e.getFitInterval() == fitHours(iodc, fit), log << " " << e.getFitInterval());
      VF_CHECK("eph.aodo", e.getAODO() == (overhead ? (long)aodo * 900 : e.getAODO()), log << " got " << e.getAODO());
      NEAR("eph.toe", e.getToe(), toe * 16.0); NEAR("eph.toc", e.getToc(), toc * 16.0);
      NEAR("eph.tgd", e.getTgd(), S(tgd, 8, -31)); NEAR("eph.af", e.getAf0(), S(af0, 22, -31)); NEAR("eph.af", e.getAf1(), S(af1, 16, -43)); NEAR("eph.af", e.getAf2(), S(af2, 8, -55));
      NEAR("eph.harm", e.getCrs(), S(crs, 16, -5)); NEAR("eph.harm", e.getCrc(), S(crc, 16, -5)); NEAR("eph.harm", e.getCuc(), S(cuc, 16, -29)); NEAR("eph.harm", e.getCus(), S(cus, 16, -29)); NEAR("eph.harm", e.getCic(), S(cic, 16, -29)); NEAR("eph.harm", e.getCis(), S(cis, 16, -29));
      NEAR("eph.m0", e.getM0(), S(m0, 32, -31) * PI_); NEAR("eph.dn", e.getDn(), S(dn, 16, -43) * PI_); NEAR("eph.ecc", e.getEcc(), std::ldexp((double)ecc, -33)); NEAR("eph.ahalf", e.getAhalf(), std::ldexp((double)ah, -19)); NEAR("eph.a", e.getA(), std::ldexp((double)ah, -19) * std::ldexp((double)ah, -19));
      NEAR("eph.omega0", e.getOmega0(), S(om0, 32, -31) * PI_); NEAR("eph.i0", e.getI0(), S(i0, 32, -31) * PI_); NEAR("eph.w", e.getW(), S(w, 32, -31) * PI_); NEAR("eph.omegadot", e.getOmegaDot(), S(omd, 24, -43) * PI_); NEAR("eph.idot", e.getIDot(), S(idot, 14, -43) * PI_);
      CommonTime toeT = GPSWeekSecond(wkToe, toe * 16.0, TimeSystem::GPS), tocT = GPSWeekSecond(wkToc, toc * 16.0, TimeSystem::GPS);
      VF_CHECK("eph.toe.time", std::fabs(e.getOrbit().getOrbitEpoch() - toeT) < 1e-6, log << " off by " << e.getOrbit().getOrbitEpoch() - toeT);
      VF_CHECK("eph.toe.epoch", std::fabs(e.getEphemerisEpoch() - toeT) < 1e-6, log << " off by " << e.getEphemerisEpoch() - toeT);
      VF_CHECK("eph.toc.time", std::fabs(e.getClock().getEpochTime() - tocT) < 1e-6, log << " off by " << e.getClock().getEpochTime() - tocT);
      double h = fitHours(iodc, fit) * 1800.0;
      VF_CHECK("eph.fit.begin", std::fabs(e.getOrbit().getBeginningOfFitInterval() - (toeT - h)) < 1e-6, log << " off by " << e.getOrbit().getBeginningOfFitInterval() - (toeT - h));
      VF_CHECK("eph.fit.end", std::fabs(e.getOrbit().getEndOfFitInterval() - (toeT + h)) < 1e-6, log << " off by " << e.getOrbit().getEndOfFitInterval() - (toeT + h));
      VF_CHECK("eph.healthy", e.getOrbit().isHealthy() == (hl == 0), log);
   }
};

static void ephemeris(vf::Case& c)
{
   vf::Rng& r = c.rng; Eph E; E.gen(r); SF f[3]; E.subframes(r, f); uint32_t w[3][10];
   for (int i = 0; i < 3; i++) f[i].words(w[i], true);
   std::ostringstream o; o << "wk " << E.week << " how " << E.how[1] * 6 << " toe " << E.toe * 16 << "@" << E.toeWeek << " toc " << E.toc * 16 << "@" << E.tocWeek << " iodc " << E.iodc << " fit " << E.fit << std::hex;
   for (auto& s : w) for (uint32_t x : s) o << " " << x; std::string log = o.str(); c.distinct(log); if (c.idx < 2) c.sample(log); c.note(log);
   int refWeek = E.week + (int)r.range(-511, 511); if (refWeek < 0) refWeek = E.week; // 10-bit week is resolved to the nearest
   if (r.chance(0.5)) refWeek = E.week;
   EngEphemeris e; std::vector<int> ord{0, 1, 2}; r.shuffle(ord);
   bool reserved = fitHours(E.iodc, E.fit) < 0; int how = (int)r.below(3); // entry point
   for (int k = 0; k < 3; k++)
   {
      int s = ord[k]; VF_CHECK("eph.isdata", !e.isData(s + 1), log);
      if (k < 2) { VF_CHECK("eph.notset", !e.isDataSet(), log); }
      if (how == 2) continue;
      uint32_t x[10]; for (int i = 0; i < 10; i++) x[i] = how == 1 ? w[s][i] >> 6 : w[s][i];
      auto add = [&]() { return how == 1 ? e.addSubframeNoParity(x, refWeek, E.prn, E.trk) : e.addSubframe(x, refWeek, E.prn, E.trk); };
      if (k == 2 && reserved) { VF_THROWS("eph.fit.reserved", InvalidRequest, add(), log); return; }
      bool ok = false; VF_NOTHROW("eph.add", ok = add(), log); VF_CHECK("eph.add.ok", ok, log); VF_CHECK("eph.isdata.after", e.isData(s + 1), log);
      if (k < 2)
      {     // a getter of a subframe not yet stored refuses
         for (int q = k + 1; q < 3; q++)
         {
            int m = ord[q];
            VF_THROWS("eph.missing", InvalidRequest, e.getHOWTime(m + 1), log);
            if (m == 0) VF_THROWS("eph.missing", InvalidRequest, e.getFullWeek(), log);
            if (m == 1) VF_THROWS("eph.missing", InvalidRequest, e.getEcc(), log);
            if (m == 2) VF_THROWS("eph.missing", InvalidRequest, e.getIDot(), log);
         }
      }
   }
   if (how == 2)
   {
      auto add = [&]() { return e.addIncompleteSF1Thru3(w[0] + 2, w[1] + 2, w[2] + 2, E.how[0] * 6 - 6, refWeek, E.prn, E.trk); };
      if (reserved) { VF_THROWS("eph.fit.reserved", InvalidRequest, add(), log); return; }
      bool ok = false; VF_NOTHROW("eph.incomplete", ok = add(), log); VF_CHECK("eph.add.ok", ok, log); return;
   }
   E.verify(e, log, true, E.toeWeek, E.tocWeek);
   long tot = std::min(std::min(E.how[0], E.how[1]), E.how[2]) * 6 / 30 * 30; VF_CHECK("eph.tot", e.getTot() == tot, log << " got " << e.getTot());
   { EngEphemeris b(e); VF_CHECK("eph.equal", b == e, log); EngEphemeris d; VF_CHECK("eph.unequal", !(d == e), log); }
   { std::ostringstream s; VF_NOTHROW("eph.dump", e.dump(s); e.dumpTerse(s); s << e, log); }
      // the pieces decoded straight from subframes agree
   long lw[3][10]; for (int i = 0; i < 3; i++) for (int j = 0; j < 10; j++) lw[i][j] = w[i][j];
   ObsID oid(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA); BrcKeplerOrbit ko; BrcClockCorrection cc;
   VF_NOTHROW("brc.load", ko.loadData(oid, E.prn, refWeek, lw[0], lw[1], lw[2]); cc.loadData(oid, E.prn, refWeek, lw[0]), log);
   if (ko.hasData() && cc.hasData())
   {
      BrcKeplerOrbit k1 = e.getOrbit(); BrcClockCorrection c1 = e.getClock();
      VF_CHECK("brc.orbit.epoch", std::fabs(ko.getOrbitEpoch() - k1.getOrbitEpoch()) < 1e-6 && std::fabs(ko.getBeginningOfFitInterval() - k1.getBeginningOfFitInterval()) < 1e-6 && std::fabs(ko.getEndOfFitInterval() - k1.getEndOfFitInterval()) < 1e-6, log << " epoch off " << ko.getOrbitEpoch() - k1.getOrbitEpoch());
      VF_CHECK("brc.orbit.terms", ko.getCuc() == k1.getCuc() && ko.getCus() == k1.getCus() && ko.getCrc() == k1.getCrc() && ko.getCrs() == k1.getCrs() && ko.getCic() == k1.getCic() && ko.getCis() == k1.getCis() && ko.getM0() == k1.getM0() && ko.getDn() == k1.getDn() && ko.getEcc() == k1.getEcc() && ko.getAhalf() == k1.getAhalf() && ko.getOmega0() == k1.getOmega0() && ko.getI0() == k1.getI0() && ko.getW() == k1.getW() && ko.getOmegaDot() == k1.getOmegaDot() && ko.getIDot() == k1.getIDot() && ko.getURAoe() == k1.getURAoe() && ko.isHealthy() == k1.isHealthy() && ko.getPRNID() == E.prn, log);
      VF_CHECK("brc.clock", std::fabs(cc.getEpochTime() - c1.getEpochTime()) < 1e-6 && cc.getAf0() == c1.getAf0() && cc.getAf1() == c1.getAf1() && cc.getAf2() == c1.getAf2() && cc.getURAoc(0) == c1.getURAoc(0) && cc.getPRNID() == E.prn, log << " epoch off " << cc.getEpochTime() - c1.getEpochTime());
   }
      // the same values entered in engineering units
   { EngEphemeris g; typedef Eph P;
     VF_NOTHROW("eph.set", g.setSF1(E.tlm[0], 6.0 * E.how[0], E.flg[0], E.week, E.cf, E.ura, E.hl, E.iodc, E.l2p, P::S(E.tgd, 8, -31), E.toc * 16.0, P::S(E.af2, 8, -55), P::S(E.af1, 16, -43), P::S(E.af0, 22, -31), E.trk, E.prn), log);
     VF_NOTHROW("eph.set", g.setSF2(E.tlm[1], 6.0 * E.how[1], E.flg[1], E.iode, e.getCrs(), e.getDn(), e.getM0(), e.getCuc(), e.getEcc(), e.getCus(), e.getAhalf(), E.toe * 16.0, E.fit), log);
     VF_NOTHROW("eph.set", g.setSF3(E.tlm[2], 6.0 * E.how[2], E.flg[2], e.getCic(), e.getOmega0(), e.getCis(), e.getI0(), e.getCrc(), e.getW(), e.getOmegaDot(), e.getIDot()), log);
     Eph F = E; F.aodo = 31; F.verify(g, log + " (setSF)", true, E.toeWeek, E.tocWeek);
     EngEphemeris l; unsigned short t[3]; long h[3]; short a[3]; for (int i = 0; i < 3; i++) { t[i] = E.tlm[i]; h[i] = 6L * E.how[i]; a[i] = E.flg[i]; }
     VF_NOTHROW("eph.load", l.loadData("G", t, h, a, E.trk, E.prn, E.week, E.cf, E.ura, E.hl, E.iodc, E.l2p, E.aodo * 900, e.getTgd(), E.toc * 16.0, e.getAf2(), e.getAf1(), e.getAf0(), E.iode, e.getCrs(), e.getDn(), e.getM0(), e.getCuc(), e.getEcc(), e.getCus(), e.getAhalf(), E.toe * 16.0, E.fit, e.getCic(), e.getOmega0(), e.getCis(), e.getI0(), e.getCrc(), e.getW(), e.getOmegaDot(), e.getIDot()), log);
     E.verify(l, log + " (loadData)", true, E.week, E.week); }
}

struct Alm : EngAlmanac { std::string special() const { return special_msg; } };
static void almanac(vf::Case& c)
{
   vf::Rng& r = c.rng; Alm al; int week = (int)r.range(300, 3000);
   struct Orb { uint64_t e, toa, di, omd, hl, ah, om, w, m0, a0, a1; int how; };
   std::map<int, Orb> orb; std::map<int, int> hlth, cfg; int toa51 = -1, wna = -1; bool utc = false; uint64_t u[16]; int wnt = 0, wnl = 0; std::string msg; std::ostringstream lg; lg << "wk " << week;
   { double a_[4], b_[4]; VF_THROWS("alm.noutc", InvalidRequest, al.getIon(a_, b_), ""); }
   int n = 1 + (int)r.below(12); bool haveMsg = false;
   for (int k = 0; k < n; k++)
   {
      SF f; int how = (int)r.range(1, 100799), kind = (int)r.below(8); f.head(kind == 0 ? 5 : 4, (int)rbits(r, 14), how, (int)r.below(4)); randomData(r, f); f.put(61, 2, 1);
      if (kind < 3)
      {
         int prn = (int)r.range(1, 32); Orb o{rbits(r, 16), rbits(r, 8) % 148, rbits(r, 16), rbits(r, 16), rbits(r, 8), rbits(r, 24), rbits(r, 24), rbits(r, 24), rbits(r, 24), rbits(r, 11), rbits(r, 11), how};
         f.put(50, 3, prn <= 24 ? 5 : 4); f.put(63, 6, prn); f.put(69, 16, o.e); f.put(91, 8, o.toa); f.put(99, 16, o.di); f.put(121, 16, o.omd); f.put(137, 8, o.hl); f.put(151, 24, o.ah); f.put(181, 24, o.om); f.put(211, 24, o.w); f.put(241, 24, o.m0); f.put2(271, 8, 290, 3, o.a0); f.put(279, 11, o.a1);
         orb[prn] = o; lg << " orb" << prn;
      }
      else if (kind == 3)
      {
         f.put(50, 3, 5); f.put(63, 6, 51); toa51 = (int)r.below(148); wna = (week + (int)r.range(-127, 127)); f.put(69, 8, toa51); f.put(77, 8, ((wna % 256) + 256) % 256);
         for (int i = 0; i < 24; i++) { int h = (int)rbits(r, 6); hlth[i + 1] = h; f.put(91 + 30 * (i / 4) + 6 * (i % 4), 6, h); } lg << " p51";
      }
      else if (kind == 4)
      {
         f.put(63, 6, 63); int i = 0; for (int p = 1; p <= 32; p++) { int v = (int)rbits(r, 4); cfg[p] = v; int inw[6] = {4, 6, 6, 6, 6, 4}; int wd = 0, k2 = p - 1; while (k2 >= inw[wd]) k2 -= inw[wd++]; f.put(30 * (wd + 2) + (wd == 0 ? 9 : 1) + 4 * k2, 4, v); (void)i; }
         static const int HP[8] = {229, 241, 247, 253, 259, 271, 277, 283}; for (int p = 25; p <= 32; p++) { int h = (int)rbits(r, 6); hlth[p] = h; f.put(HP[p - 25], 6, h); } lg << " p63";
      }
      else if (kind == 5)
      {
         f.put(63, 6, 56); for (auto& x : u) x = rbits(r, 8); u[8] = rbits(r, 32); u[9] = rbits(r, 24); wnt = week + (int)r.range(-127, 127); wnl = week + (int)r.range(-127, 127);
         static const int P[8] = {69, 77, 91, 99, 107, 121, 129, 137}; for (int i = 0; i < 8; i++) f.put(P[i], 8, u[i]);
         f.put(151, 24, u[9]); f.put2(181, 24, 211, 8, u[8]); f.put(219, 8, u[10]); f.put(227, 8, wnt & 255); f.put(241, 8, u[11]); f.put(249, 8, wnl & 255); u[12] = 1 + r.below(7); f.put(257, 8, u[12]); f.put(271, 8, u[13]); utc = true; lg << " p56";
      }
      else if (kind == 6)
      {
         f.put(63, 6, 55); msg = r.str(22, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.'/ :\""); int pos = 0; for (int wd = 2; wd < 10; wd++) { int st = wd == 2 ? 1 : 0, nb = wd == 2 ? 2 : wd == 9 ? 2 : 3; for (int j = 0; j < nb; j++) f.put(30 * wd + 1 + 8 * (j + st), 8, (unsigned char)msg[pos++]); } haveMsg = true; lg << " p55";
      }
      else { f.put(63, 6, r.pick({52, 53, 54, 57, 58, 59, 60, 61, 62, 0, 33, 40, 50})); lg << " other"; }
      uint32_t w[10]; f.words(w, true); short pat = EngNav::getSubframePattern(w); int id = (int)((w[2] >> 22) & 63);
      static const int PAT[13] = {5, 6, 6, 6, 10, 8, 6, 7, 7, 7, 7, 7, 9}; int wp = id <= 32 ? 4 : id >= 51 ? PAT[id - 51] : 0;
      VF_CHECK("alm.pattern", pat == wp, "svid " << id << " got " << pat << " want " << wp); bool ok = true;
      std::string log = lg.str(); c.note(log);
      if (r.chance(0.3)) { long l[10]; for (int i = 0; i < 10; i++) l[i] = w[i]; VF_NOTHROW("alm.add", ok = al.addSubframe(l, week), log); } else VF_NOTHROW("alm.add", ok = al.addSubframe(w, (short)week), log);
      VF_CHECK("alm.add.ok", ok == (wp != 0), log << " svid " << id);
   }
   std::string log = lg.str(); c.distinct(vf::hashStr(log) ^ r.u64()); if (c.idx < 2) c.sample(log);
   typedef Eph P;
   for (int p = 1; p <= 32; p++)
   {
      SatID s(p, SatelliteSystem::GPS); VF_CHECK("alm.isdata", al.isData(s) == (orb.count(p) == 1), log << " prn " << p);
      if (orb.count(p))
      {
         const Orb& o = orb[p]; NEAR("alm.ecc", al.getEcc(s), std::ldexp((double)o.e, -21)); NEAR("alm.toa", al.getToa(s), o.toa * 4096.0); NEAR("alm.ioff", al.getIOffset(s), P::S(o.di, 16, -19) * PI_); NEAR("alm.omegadot", al.getOmegadot(s), P::S(o.omd, 16, -38) * PI_); NEAR("alm.ahalf", al.getAhalf(s), std::ldexp((double)o.ah, -11)); NEAR("alm.a", al.getA(s), std::ldexp((double)o.ah, -11) * std::ldexp((double)o.ah, -11));
         NEAR("alm.omega0", al.getOmega0(s), P::S(o.om, 24, -23) * PI_); NEAR("alm.w", al.getW(s), P::S(o.w, 24, -23) * PI_); NEAR("alm.m0", al.getM0(s), P::S(o.m0, 24, -23) * PI_); NEAR("alm.af0", al.getAf0(s), P::S(o.a0, 11, -20)); NEAR("alm.af1", al.getAf1(s), P::S(o.a1, 11, -38)); VF_CHECK("alm.svhealth", al.getSVHealth(s) == (short)o.hl, log << " prn " << p); NEAR("alm.xmit", al.getXmitTime(s), o.how * 6.0);
         AlmOrbit ao = al.getAlmOrbElem(s); VF_CHECK("alm.elem", ao.getPRNID() == p && ao.getecc() == al.getEcc(s) && ao.getToaSOW() == (long)o.toa * 4096, log);
      }
      else VF_THROWS("alm.absent", SVNotPresentException, al.getEcc(s), log << " prn " << p);
      if (hlth.count(p)) VF_CHECK("alm.health", al.get6bitHealth(s) == hlth[p], log << " prn " << p << " got " << al.get6bitHealth(s) << " want " << hlth[p]); else VF_THROWS("alm.health.absent", SVNotPresentException, al.get6bitHealth(s), log << " prn " << p);
      if (cfg.count(p)) VF_CHECK("alm.config", al.getSVConfig(s) == cfg[p], log << " prn " << p << " got " << al.getSVConfig(s) << " want " << cfg[p]); else VF_THROWS("alm.config.absent", SVNotPresentException, al.getSVConfig(s), log << " prn " << p);
   }
   if (toa51 >= 0) { VF_CHECK("alm.p51", al.getToa() == toa51 * 4096.0 && al.getAlmWeek() == wna, log << " toa " << al.getToa() << " wk " << al.getAlmWeek() << " want " << toa51 * 4096 << " " << wna); }
   if (utc)
   {
      double a0, a1, ls, lsf, a[4], b[4]; long tot; int wt, wl, dn; al.getUTC(a0, a1, ls, tot, wt, wl, dn, lsf); al.getIon(a, b);
      NEAR("alm.utc.a0", a0, P::S(u[8], 32, -30)); NEAR("alm.utc.a1", a1, P::S(u[9], 24, -50));
      VF_CHECK("alm.utc.leap", ls == (double)sgn(u[11], 8) && lsf == (double)sgn(u[13], 8) && dn == (int)u[12] && tot == (long)u[10] * 4096 && wt == wnt && wl == wnl, log << " ls " << ls << " lsf " << lsf << " dn " << dn << " tot " << tot << " wnt " << wt << "/" << wnt << " wnlsf " << wl << "/" << wnl);
         // alpha/beta may be kept per semicircle or per radian power, but consistently
      static const int EA[4] = {-30, -27, -24, -24}, EB[4] = {11, 14, 16, 16};
      for (int i = 0; i < 4; i++) { NEAR("alm.ion.alpha", a[i], P::S(u[i], 8, EA[i]) / std::pow(PI_, i)); NEAR("alm.ion.beta", b[i], P::S(u[4 + i], 8, EB[i]) / std::pow(PI_, i)); }
   }
   std::ostringstream d; VF_NOTHROW("alm.dump", al.dump(d, false), log);
   if (haveMsg) VF_CHECK("alm.msg", al.special() == msg, log << " got '" << al.special() << "' want '" << msg << "'");
}

static void hostile(vf::Case& c)
{
   vf::Rng& r = c.rng; EngEphemeris e; EngAlmanac a; std::ostringstream lg; int n = (int)r.range(3, 9);
   for (int k = 0; k < n; k++)
   {
      uint32_t w[10]; for (auto& x : w) { x = (uint32_t)rbits(r, 30); if (!r.below(20)) x = (uint32_t)r.u64(); }
      if (r.chance(0.7)) w[0] = (0x8bu << 22) | (w[0] & 0x3fffff); if (r.chance(0.7)) w[1] = (w[1] & ~0x700u) | ((1 + (uint32_t)r.below(5)) << 8);
      double out[60]; short wk = (short)r.range(0, 4000); lg << std::hex; for (auto x : w) lg << " " << x; lg << " | "; c.note(lg.str());
      int id = (w[1] >> 8) & 7, sv = (w[2] >> 22) & 63; bool want = id >= 1 && id <= 5 && !(id > 3 && sv > 32 && sv < 51);
      VF_CHECK("hostile.convert", EngNav::subframeConvert(w, wk, out) == want, lg.str());
      try { e.addSubframe(w, wk, 1 + (int)r.below(32), 1); VF_CHECK("hostile.sfid", id >= 1 && id <= 3, lg.str()); } catch (const InvalidParameter&) { VF_CHECK("hostile.refuse", id < 1 || id > 3, lg.str()); } catch (const Exception&) { c.count("eph refused"); }
      try { a.addSubframe(w, wk); } catch (const Exception&) { c.count("alm refused"); }
      uint32_t aodo; CommonTime t1, t2, t3;
      try { EngNav::getNMCTValidity(w, wk, aodo, t1, t2, t3); VF_CHECK("hostile.nmct", id == 2, lg.str()); } catch (const InvalidParameter&) { VF_CHECK("hostile.nmct.refuse", id != 2, lg.str()); } catch (const Exception&) {}
      EngNav::checkParity(w, r.chance(0.5));
   }
   c.distinct(lg.str());
   try { e.isValid(); e.isDataSet(); std::ostringstream s; e.dump(s); } catch (const Exception&) { c.count("dump refused"); }
   try { std::ostringstream s; a.dump(s, false); } catch (const Exception&) { c.count("alm dump refused"); }
}

static void nmct(vf::Case& c)
{
   vf::Rng& r = c.rng; SF f; int wk = (int)r.range(10, 2500); long frame = r.chance(0.3) ? r.pick({0L, 20159L}) : r.range(0, 20159); int how = (int)(frame * 5 + 2);
   f.head(2, 0, how, 0); randomData(r, f); double tx = how * 6.0 - 6; long toe = (long)(std::floor((tx + r.unif(-14400, 14400)) / 16)) * 16; if (r.chance(0.5)) toe = toe / 7200 * 7200; int toeWk = wk; if (toe < 0) { toe += 604800; toeWk--; } if (toe >= 604800) { toe -= 604800; toeWk++; }
   int aodo = (int)r.below(32); f.put(271, 16, toe / 16); f.put(288, 5, aodo); uint32_t w[10], ao; f.words(w, true); CommonTime tn, te, tt; bool ok = EngNav::getNMCTValidity(w, wk, ao, tn, te, tt);
   std::ostringstream lg; lg << "wk " << wk << " how " << how * 6 << " toe " << toe << "@" << toeWk << " aodo " << aodo; c.distinct(lg.str()); if (c.idx < 2) c.sample(lg.str());
   VF_CHECK("nmct.aodo", ao == (uint32_t)aodo * 900 && ok == (aodo != 31), lg.str());
   CommonTime T = GPSWeekSecond(toeWk, toe), X = GPSWeekSecond(wk, tx); VF_CHECK("nmct.toe", std::fabs(te - T) < 1e-6, lg.str() << " off " << te - T); VF_CHECK("nmct.tot", std::fabs(tt - X) < 1e-6, lg.str() << " off " << tt - X);
   long off = toe % 7200; double want = (off ? 7200 - off : 0) - aodo * 900.0; VF_CHECK("nmct.time", std::fabs((tn - T) - want) < 1e-6, lg.str() << " got toe+" << tn - T << " want " << want);
}

int main(int argc, char** argv)
{
   std::vector<vf::Stage> st;
   st.push_back({"parity", 1500, 60000, parity});
   st.push_back({"pages", 3000, 20161, pages});
   st.push_back({"weeks", 3100, 8000, weeks});
   st.push_back({"ephemeris", 3000, 150000, ephemeris});
   st.push_back({"almanac", 2500, 100000, almanac});
   st.push_back({"nmct", 3000, 100000, nmct});
   st.push_back({"hostile", 3000, 200000, hostile});
   return vf::run(argc, argv, st);
}
