// C42: a satellite pass keeps its data in time; iterating a list of passes visits every epoch
#include "vf.hpp"
#include <algorithm>
#include <set>
#include <map>
#include <cmath>
#include "SatPass.hpp"
#include "SatPassIterator.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;
using std::string; using std::vector; using std::set; using std::map;
typedef unsigned short us;
static Epoch base(int week, double sow) { GPSWeekSecond g(week, sow, TimeSystem::GPS); return Epoch(g); }
struct Dat { double nom, t; int n; us flag; unsigned uflag; vector<double> d; vector<us> l, s; };
struct Model
{
   RinexSatID sat; double dt, gap; vector<string> ot; int status; vector<Dat> v; double first;
   int cnt(double t) const { return (int)std::floor((t - first) / dt + 0.5); }
   int good() const { int n = 0; for (auto& x : v) if (x.flag != SatPass::BAD) n++; return n; }
};
static const char* TY[] = {"L1", "L2", "P1", "P2", "C1", "C2", "D1", "D2", "S1", "S2"};
static const us FL[] = {1, 0, 3, 5, 7};
static RinexSatID anySat(vf::Rng& r) { static const SatelliteSystem y[] = {SatelliteSystem::GPS, SatelliteSystem::Glonass, SatelliteSystem::Galileo}; int k = r.below(3); return RinexSatID(r.range(1, 24), y[k]); }
static double tdiff(const Epoch& a, const Epoch& b) { return a - b; }

static void verify(vf::Case& c, SatPass& p, const Model& m, const Epoch& b, const string& w)
{
   VF_CHECK("pass.size", p.size() == m.v.size(), w << ": size " << p.size() << " not " << m.v.size());
   if (p.size() != m.v.size()) return;
   VF_CHECK("pass.ngood", p.getNgood() == m.good(), w << ": ngood " << p.getNgood() << " not " << m.good());
   VF_CHECK("pass.sat", p.getSat() == m.sat && std::fabs(p.getDT() - m.dt) < 1e-9 && p.getStatus() == m.status, w << ": sat/dt/status");
   VF_CHECK("pass.types", p.getObsTypes() == m.ot && p.getObstypes() == m.ot, w << ": obs types differ");
   for (auto& t : m.ot) VF_CHECK("pass.hasType", p.hasType(t), w << ": no " << t);
   VF_CHECK("pass.hasType.not", !p.hasType("Q9"), w);
   int fg = -1, lg = -1;
   for (size_t i = 0; i < m.v.size(); i++)
   {
      const Dat& x = m.v[i];
      VF_CHECK("pass.count", (int)p.getCount(i) == x.n, w << ": count " << p.getCount(i) << " not " << x.n << " at " << i << " of " << m.v.size());
      double e = tdiff(p.time(i), b) - x.t;
      VF_CHECK("pass.time", std::fabs(e) < 1e-6, w << ": time off by " << e << " at " << i << " of " << m.v.size());
      VF_CHECK("pass.offset", std::fabs(p.timeoffset(i) - (x.t - m.first - x.n * m.dt)) < 1e-6, w << ": offset " << p.timeoffset(i));
      VF_CHECK("pass.flag", p.getFlag(i) == x.flag && p.getUserFlag(i) == x.uflag, w << ": flag " << p.getFlag(i) << " " << p.getUserFlag(i) << " not " << x.flag << " " << x.uflag);
      for (size_t k = 0; k < m.ot.size(); k++)
         VF_CHECK("pass.data", p.data(i, m.ot[k]) == x.d[k] && p.LLI(i, m.ot[k]) == x.l[k] && p.SSI(i, m.ot[k]) == x.s[k], w << ": " << m.ot[k] << " " << p.data(i, m.ot[k]) << " not " << x.d[k] << " at " << i);
      if (x.flag & 1) { if (fg < 0) fg = i; lg = i; }
      VF_CHECK("pass.index", p.index(p.time(i)) == (int)i, w << ": index " << p.index(p.time(i)) << " not " << i);
   }
   if (m.v.empty())
   {
      VF_CHECK("pass.empty", !(p.getFirstTime() < p.getLastTime()), w);
      VF_CHECK("pass.empty.good", p.getFirstGoodTime() == CommonTime::END_OF_TIME && p.getLastGoodTime() == CommonTime::BEGINNING_OF_TIME, w);
   }
   else
   {
      double f = m.v[0].t, l = m.v.back().t;
      VF_CHECK("pass.first", std::fabs(tdiff(p.getFirstTime(), b) - f) < 1e-6 && std::fabs(tdiff(p.getLastTime(), b) - l) < 1e-6, w << ": first/last");
      if (fg < 0) { VF_CHECK("pass.good.none", p.getFirstGoodTime() == CommonTime::END_OF_TIME && p.getLastGoodTime() == CommonTime::BEGINNING_OF_TIME, w); }
      else { VF_CHECK("pass.good", std::fabs(tdiff(p.getFirstGoodTime(), b) - m.v[fg].t) < 1e-6 && std::fabs(tdiff(p.getLastGoodTime(), b) - m.v[lg].t) < 1e-6, w); }
      VF_CHECK("pass.index.before", p.index(b + (f - (0.6 + c.rng.unit() * 3) * m.dt)) == -1, w);
      VF_CHECK("pass.index.after", p.index(b + (m.first + (m.v.back().n + 0.6 + c.rng.unit() * 3) * m.dt)) == -1, w);
      double in = c.rng.unif(0.01, 0.99) * m.gap;
      VF_CHECK("pass.includes", p.includesTime(b + (f - in)) && p.includesTime(b + (l + in)) && p.includesTime(b + (f + (l - f) * c.rng.unit())), w);
      VF_CHECK("pass.includes.not", !p.includesTime(b + (f - m.gap - 0.01 - in)) && !p.includesTime(b + (l + m.gap + 0.01 + in)), w);
   }
   size_t n = m.v.size();
   VF_THROWS("pass.range", Exception, p.getCount(n), w); VF_THROWS("pass.range", Exception, p.time(n), w);
   VF_THROWS("pass.range", Exception, p.getFlag(n), w); VF_THROWS("pass.range", Exception, p.data(n, m.ot[0]), w);
   VF_THROWS("pass.range", Exception, p.setFlag(n, 1), w); VF_THROWS("pass.range", Exception, (p.SSI(n, m.ot[0], m.ot[0])), w);
   if (w.size() > 0 && !c.rng.chance(0.08)) return;
   std::ostringstream o; o << p; std::istringstream is(o.str()); size_t a = 0; string sat; int g = -1, st = -1; is >> a >> sat; if (sat.size() < 3) { string q; is >> q; } is >> g >> st;
   VF_CHECK("pass.print", a == n && g == m.good() && st == m.status, w << ": " << o.str());
   if (c.rng.chance(0.5)) return;
   std::ostringstream du; p.dump(du, "X", "Y"); string s = du.str();
   VF_CHECK("pass.dump", (size_t)std::count(s.begin(), s.end(), '\n') == n + 2, w << ": " << std::count(s.begin(), s.end(), '\n') << " lines for " << n);
   string ts = p.toString("msg");
   VF_CHECK("pass.string", ts.substr(0, 3) == "msg" && ts.find(m.ot.back()) != string::npos, w << ": " << ts);
}

static vector<double> values(vf::Rng& r, size_t n, bool zero) { vector<double> d; for (size_t i = 0; i < n; i++) d.push_back(zero && r.chance(0.1) ? 0.0 : std::floor(r.unif(1e3, 1e8) * 1000) / 1000); return d; }

static void st_pass(vf::Case& c)
{
   vf::Rng& r = c.rng;
   Model m; m.sat = anySat(r); m.status = 0; m.first = 0;
   m.dt = r.pick(vector<double>{0.1, 1, 5, 15, 30, 30, 60, 300});
   m.gap = m.dt * r.range(2, 60) + m.dt * 0.5;
   vector<string> all(TY, TY + 10); r.shuffle(all);
   bool dflt = r.chance(0.2);
   if (dflt) m.ot = {"L1", "L2", "P1", "P2"}; else m.ot.assign(all.begin(), all.begin() + r.range(1, 8));
   Epoch b = base(r.range(1000, 2400), (double)r.range(0, 604799));
   SatPass::setMaxGap(m.gap);
   SatPass p = dflt ? SatPass(m.sat, m.dt) : SatPass(m.sat, m.dt, m.ot);
   VF_CHECK("pass.gap", p.getMaxGap() == m.gap, p.getMaxGap());
   string hist;
   int nops = r.range(20, 60);
   bool reg = true;
   for (int op = 0; op < nops; op++)
   {
      int k = r.below(24); const size_t T = m.ot.size(), n = m.v.size();
      if (k < 13)
      {
         double last = n ? m.v.back().t : 0;
         // nominal epoch with a small offset
         int step = r.chance(0.75) ? 1 : r.chance(0.6) ? (int)r.range(2, 20) : (int)r.range(-3, 100);
         double nom = n ? m.v.back().nom + step * m.dt : r.range(0, 50) * m.dt, nt = nom + (r.chance(0.5) ? 0 : r.unif(-0.2, 0.2) * m.dt);
         if (n && r.chance(0.04)) { nt = last; nom = m.v.back().nom; }
         int want;
         if (!n) want = 0; else if (nt - last < 1e-8) want = -2; else if ((m.cnt(nt) - m.v.back().n) * m.dt > m.gap) want = -1; else want = n;
         if (n && nt > last && m.cnt(nt) == m.v.back().n) { continue; }
         if (n && std::fabs((m.cnt(nt) - m.v.back().n) * m.dt - m.gap) < 1e-6) continue;
         Dat x; x.nom = nom; x.t = nt; x.uflag = 0; x.flag = 1; x.d = values(r, T, false); x.l = vector<us>(T, 0); x.s = x.l;
         int got = -9; int how = r.below(3); if (how == 2 && !reg) how = 1;
         if (how == 0) { vector<string> o = m.ot; vector<double> d = x.d; VF_NOTHROW("pass.add", got = p.addData(b + nt, o, d), hist); }
         else if (how == 1)
         {
            for (auto& z : x.l) z = r.below(8);
            for (auto& z : x.s) z = r.below(10);
            x.flag = FL[r.below(5)];
            vector<size_t> ix; for (size_t i = 0; i < T; i++) ix.push_back(i);
            r.shuffle(ix);
            vector<string> o; vector<double> d; vector<us> l, s; for (size_t i : ix) { o.push_back(m.ot[i]); d.push_back(x.d[i]); l.push_back(x.l[i]); s.push_back(x.s[i]); }
            VF_NOTHROW("pass.add", got = p.addData(b + nt, o, d, l, s, x.flag), hist);
         }
         else
         {
            RinexObsData ro; ro.time = b + nt; ro.epochFlag = r.chance(0.9) ? r.below(2) : r.range(2, 6); ro.numSvs = 0; ro.clockOffset = 0;
            bool there = r.chance(0.9);
            x.d = values(r, T, true);
            int ns = r.range(0, 4);
            for (int q = 0; q <= ns; q++)
            {
               RinexSatID s = q == 0 ? m.sat : anySat(r);
               if (q == 0 && !there) continue;
               if (q && s == m.sat) continue;
               for (int z = 0; z < 10; z++) { RinexDatum dd; dd.data = r.unif(1, 9); dd.lli = r.below(4); dd.ssi = r.below(9); ro.obs[s][RinexObsHeader::convertObsType(string(TY[z]))] = dd; }
            }
            if (there) for (size_t i = 0; i < T; i++)
            {
               RinexObsType y = RinexObsHeader::convertObsType(m.ot[i]);
               if (r.chance(0.1)) { ro.obs[m.sat].erase(y); x.d[i] = 0; continue; }
               RinexDatum dd; dd.data = x.d[i]; dd.lli = x.l[i] = r.below(8); dd.ssi = x.s[i] = r.below(10); ro.obs[m.sat][y] = dd;
               if (dd.data == 0) x.flag = 0;
            }
            if (ro.epochFlag > 1) want = -4; else if (!there || ro.obs[m.sat].empty()) { want = ro.obs.count(m.sat) ? want : -3; }
            got = p.addData(ro);
         }
         VF_CHECK("pass.added", got == want, hist << " add at " << nt << " gives " << got << " not " << want);
         hist += " a" + std::to_string(how) + (want < 0 ? std::to_string(want) : "");
         c.count(want >= 0 ? "added" : "rejected");
         if (got != want) return;
         if (want >= 0) { if (!n) m.first = nt; x.n = m.cnt(nt); m.v.push_back(x); }
      }
      else if (k == 13)
      {
         vector<string> o = m.ot; vector<double> d = values(r, T, false); vector<us> l(T, 0), s(T, 0);
         int h = r.below(5); double nt = (n ? m.v.back().t : 0) + m.dt;
         if (h == 0) l.push_back(1); else if (h == 1) s.pop_back(); else if (h == 2) { d.push_back(1); l.push_back(0); s.push_back(0); } else if (h == 3) { d.pop_back(); l.pop_back(); s.pop_back(); o.pop_back(); } else o[r.below(T)] = "Q9";
         VF_THROWS("pass.add.bad", Exception, p.addData(b + nt, o, d, l, s), hist << " kind " << h);
         hist += " b";
      }
      else if (k == 14 && n) { int i = r.below(n); us f = FL[r.below(5)]; p.setFlag(i, f); m.v[i].flag = f; i = r.below(n); unsigned u = r.u64(); p.setUserFlag(i, u); m.v[i].uflag = u; hist += " f"; }
      else if (k == 15 && n)
      {
         int i = r.below(n), q = r.below(T); double d = r.unif(-1e6, 1e6);
         p.data(i, m.ot[q]) = d; m.v[i].d[q] = d; p.LLI(i, m.ot[q]) = m.v[i].l[q] = r.below(8); p.SSI(i, m.ot[q]) = m.v[i].s[q] = r.below(10);
         int q2 = r.below(T);
         const string& A = m.ot[q]; const string& B = m.ot[q2];
         VF_CHECK("pass.two", p.data(i, A, B) == d && p.data(i, A, "Q9") == d && p.data(i, "Q9", B) == m.v[i].d[q2], hist);
         us l1 = 99, l2 = 99, s1 = 99, s2 = 99;
         VF_NOTHROW("pass.two.lli", l1 = p.LLI(i, A, B); l2 = p.LLI(i, "Q9", B), hist);
         VF_NOTHROW("pass.two.ssi", s1 = p.SSI(i, A, B); s2 = p.SSI(i, "Q9", B), hist);
         VF_CHECK("pass.two.lli", l1 == m.v[i].l[q] && l2 == m.v[i].l[q2], hist);
         VF_CHECK("pass.two.ssi", s1 == m.v[i].s[q] && s2 == m.v[i].s[q2], hist);
         VF_THROWS("pass.two.none", Exception, p.data(i, "Q9", "Q8"), hist); VF_THROWS("pass.two.none", Exception, p.LLI(i, "Q9", "Q8"), hist); VF_THROWS("pass.two.none", Exception, p.SSI(i, "Q9", "Q8"), hist);
         VF_THROWS("pass.one.none", Exception, p.data(i, "Q9"), hist); VF_THROWS("pass.one.none", Exception, p.LLI(i, "Q9"), hist); VF_THROWS("pass.one.none", Exception, p.SSI(i, "Q9"), hist);
         hist += " d";
      }
      else if (k == 16 && n > 1 && r.chance(0.5))
      {
         int j = r.below(n), h = r.below(8); double tt = h < 4 ? m.v[j].t : j + 1 < (int)n ? (m.v[j].t + m.v[j + 1].t) / 2 : h == 4 ? m.v[0].t - 1 : m.v.back().t + 1;
         int want = tt <= m.v[0].t ? -1 : tt >= m.v.back().t ? 1 : 0, got = -9;
         Epoch te = h < 4 ? p.time(j) : b + tt;
         VF_NOTHROW("pass.trim", got = p.trimAfter(te), hist);
         VF_CHECK("pass.trim.result", got == want, hist << " trimAfter(" << tt << ") gives " << got << " not " << want);
         if (!want) while (m.v.back().t > tt - 1e-7) m.v.pop_back();
         hist += " t" + std::to_string(j); c.count("trims");
      }
      else if (k == 17 && n && r.chance(0.6))
      {
         int N = r.range(-1, m.v.back().n + 2);
         SatPass q(anySat(r), 7.0);
         bool got = p.split(N, q), want = m.v[0].n < N && m.v.back().n >= N;
         hist += " s" + std::to_string(N);
         VF_CHECK("pass.split.result", got == want, hist << " gives " << got);
         if (got != want) return;
         if (want)
         {
            Model o = m; o.v.clear();
            while (!m.v.empty() && m.v.back().n >= N) { o.v.insert(o.v.begin(), m.v.back()); m.v.pop_back(); }
            o.first = o.v[0].t; for (auto& x : o.v) x.n = o.cnt(x.t);
            verify(c, p, m, b, hist + " [old]"); verify(c, q, o, b, hist + " [new]");
            // overlap of the parts and of one with the other's extension
            VF_CHECK("pass.overlap.not", !p.hasOverlap(q) && !q.hasCommonView(p), hist);
            if (r.chance(0.5)) { p = q; m = o; }
            c.count("splits");
         }
      }
      else if (k == 18 && n && r.chance(0.4) && m.dt < 200)
      {
         int N = r.range(-1, r.chance(0.5) ? 5 : 30);
         bool def = r.chance(0.4);
         int mm = r.range(-500, 500); double ref = m.first + (mm + r.unif(-0.2, 0.2)) * m.dt;
         if (def) { ref = m.first; VF_NOTHROW("pass.decimate", p.decimate(N), hist); } else VF_NOTHROW("pass.decimate", p.decimate(N, b + ref), hist);
         hist += " D" + std::to_string(N) + (def ? "" : "r" + std::to_string(mm));
         if (N > 1)
         {
            long o = def ? 0 : -(long)mm;
            vector<Dat> w; for (auto& x : m.v) if (((o + x.n) % N + N) % N == 0) w.push_back(x);
            m.v = w; m.dt *= N; if (!w.empty()) m.first = w[0].t; for (auto& x : m.v) x.n = m.cnt(x.t);
            c.count("decimations");
         }
      }
      else if (k == 19 && r.chance(0.4))
      {
         map<string, string> su; int q = r.below(T); string nn = string("N") + std::to_string(r.range(0, 999));
         if (std::find(m.ot.begin(), m.ot.end(), nn) != m.ot.end()) continue;
         su[m.ot[q]] = nn; if (r.chance(0.5)) su["Q9"] = "Q7"; if (r.chance(0.3)) su["A0"] = "A1";
         p.renameObstypes(su); m.ot[q] = nn; reg = false; hist += " r";
         VF_CHECK("pass.rename", !p.hasType("Q7") && !p.hasType("A1"), hist);
         c.count("renames");
      }
      else if (k == 20) { p.status() = m.status = r.range(-5, 20); SatPass q(p); SatPass z(anySat(r), 3.0); z = q; if (n) { q.data(0, m.ot[0]) = -1; q.setFlag(0, q.getFlag(0) ? 0 : 1); } p = z; hist += " c"; }
      else if (k == 21 && r.chance(0.15)) { p.clear(); m.v.clear(); hist += " x"; }
      else if (k == 22 && n > 1)
      {
         SatPass q(r.chance(0.6) ? m.sat : anySat(r), m.dt, m.ot);
         double f = m.v[0].t, l = m.v.back().t, a = r.chance(0.2) ? (r.chance(0.5) ? f : l) : r.unif(f - (l - f), l + (l - f)), e;
         if (a == f) a = m.v[0].t;
         e = a + m.gap * r.unif(0.2, 0.9); if (r.chance(0.15) && l > a + m.dt && l - a < m.gap) e = l;
         vector<double> d(T, 1.0); vector<string> o = m.ot;
         Epoch ea = a == f ? p.getFirstTime() : a == l ? p.getLastTime() : b + a, ee = e == l ? p.getLastTime() : b + e;
         q.addData(ea, o, d);
         int ok = q.addData(ee, o, d);
         if (ok != 1) continue;
         double del = -9; Epoch tb, te;
         bool want = std::max(a, f) < std::min(e, l) - 1e-9, got = p.hasOverlap(q, &del, &tb, &te);
         VF_CHECK("pass.overlap", got == want, hist << " [" << f << "," << l << "] and [" << a << "," << e << "] overlap: " << got);
         VF_CHECK("pass.overlap.sym", q.hasOverlap(p) == want, hist);
         VF_CHECK("pass.common", p.hasCommonView(q) == (want && q.getSat() == m.sat), hist);
         if (want && got) VF_CHECK("pass.overlap.times", std::fabs(del - (std::min(e, l) - std::max(a, f))) < 1e-6 && std::fabs(tdiff(tb, b) - std::max(a, f)) < 1e-6 && std::fabs(tdiff(te, b) - std::min(e, l)) < 1e-6, hist << " [" << f << "," << l << "] and [" << a << "," << e << "]: " << del);
         c.count("overlaps");
      }
      if (r.chance(0.25) || k > 15) verify(c, p, m, b, hist);
   }
   verify(c, p, m, b, hist);
   c.distinct(hist); if (c.idx < 2) c.sample(hist);
}

static void st_smooth(vf::Case& c)
{
   vf::Rng& r = c.rng;
   bool one = r.chance(0.35), bad = r.chance(0.6);
   double w1 = L1_WAVELENGTH_GPS, w2 = L2_WAVELENGTH_GPS; RinexSatID sat(r.range(1, 24), SatelliteSystem::GPS);
   if (r.chance(0.5)) { int n = r.range(-7, 6); w1 = C_MPS / (1602e6 + n * 562.5e3); w2 = C_MPS / (1246e6 + n * 437.5e3); sat = RinexSatID(r.range(1, 24), SatelliteSystem::Glonass); }
   bool both = r.chance(0.3), c1 = both || r.chance(0.5), c2 = both || r.chance(0.5);
   vector<string> ot; ot.push_back("L1"); ot.push_back("L2"); if (c1) ot.push_back("C1"); if (!c1 || both) ot.push_back("P1"); if (c2) ot.push_back("C2"); if (!c2 || both) ot.push_back("P2"); r.shuffle(ot);
   string R1 = c1 ? "C1" : "P1", R2 = c2 ? "C2" : "P2";
   SatPass::setMaxGap(1800); double dt = r.pick(vector<double>{1, 15, 30, 120});
   SatPass p(sat, dt, ot);
   double g = (w2 / w1) * (w2 / w1), B1 = r.chance(0.5) ? (double)r.range(-100000000, 100000000) : r.unif(-5e7, 5e7), B2 = r.chance(0.5) ? (double)r.range(-10000, 10000) : r.unif(-5e7, 5e7), noise = r.chance(0.4) ? 0 : r.unif(0, 3), io = one ? 0 : r.unif(0, 30);
   double r0 = r.unif(2e7, 4e7), v = r.unif(-800, 800), a = r.unif(-0.1, 0.1);
   int n = r.range(1, 120), ng = 0; Epoch b = base(2000, (double)r.range(0, 604799));
   vector<double> P1, P2, L1, L2; vector<bool> ok;
   for (int i = 0; i < n; i++)
   {
      double t = i * dt, rho = r0 + v * t + a * t * t, I = io * (1 + 0.3 * std::sin(t / 2000)); map<string, double> d;
      d[R1] = rho + I + noise * r.unif(-1, 1); d[R2] = rho + g * I + noise * r.unif(-1, 1); d["L1"] = (rho - I) / w1 + B1; d["L2"] = (rho - g * I) / w2 + B2;
      bool o = i == 0 && n == 1 ? true : !bad || r.chance(0.8); if (!ng && i == n - 1) o = true;
      if (!o) { d["L1"] = r.unif(-1e9, 1e9); d[R1] = 0; } else ng++;
      P1.push_back(d[R1]); P2.push_back(d[R2]); L1.push_back(d["L1"]); L2.push_back(d["L2"]); ok.push_back(o);
      if (both) { d["P1"] = 1.5; d["P2"] = 2.5; }
      vector<double> x; for (auto& s : ot) x.push_back(d[s]);
      vector<us> z(ot.size(), 0);
      p.addData(b + t, ot, x, z, z, o ? SatPass::OK : SatPass::BAD);
   }
   if ((int)p.size() != n) return;
   bool sp = r.chance(0.7), sl = r.chance(0.7); string msg; int f = r.range(1, 2); 
   std::ostringstream wo; wo << (one ? "SF" + std::to_string(f) : string("dual")) << " n " << n << " B " << B1 << " " << B2 << " noise " << noise << " iono " << io << " PR " << sp << " PH " << sl; string w = wo.str();
   if (one) { VF_NOTHROW("smooth.run", p.smoothSF(sp, sl, msg, f, f == 1 ? w1 : w2), w); } else { VF_NOTHROW("smooth.run", p.smooth(sp, sl, msg, w1, w2), w); }
   std::istringstream is(msg); vector<string> tk; string tok; while (is >> tok) tk.push_back(tok);
   VF_CHECK("smooth.msg", tk.size() >= 18 && tk[0] == "SMT", w << ": " << msg);
   if (tk.size() < 18) return;
   for (int q = 0; q < 2; q++)
   {
      bool act = !one || f == q + 1; const string LT = q ? "L2" : "L1", RT = q ? R2 : R1; double wl = q ? w2 : w1; const vector<double>& P = q ? P2 : P1; const vector<double>& L = q ? L2 : L1;
      // bias (m): average over the good data of phase less what the ranges say the phase should be
      double A = g - 1, D11 = (A + 2) / A, D12 = -2 / A, D21 = (2 * A + 2) / A, D22 = -D11; long double sum = 0, sumP = 0, sumS = 0;
      for (int i = 0; i < n; i++) if (ok[i]) { long double dp = one ? (long double)P[i] : q ? (long double)D21 * P1[i] + (long double)D22 * P2[i] : (long double)D11 * P1[i] + (long double)D12 * P2[i]; sum += (long double)wl * L[i] - dp; sumP += P[i]; }
      double RB = sum / ng / wl, ref = 0; long LB = 0; bool first = true;
      double tol = 2e-6 * (one ? 1 : 5);
      for (int i = 0; i < n; i++)
      {
         double nl = p.data(i, LT), np = p.data(i, RT);
         if (!ok[i] || !act) { VF_CHECK("smooth.bad.kept", nl == L[i] && np == P[i], w << ": datum " << i << " changed"); continue; }
         if (!sl) { VF_CHECK("smooth.phase.kept", nl == L[i], w << " " << LT); }
         else
         {
            double d = L[i] - nl; long k = std::lround(d);
            VF_CHECK("smooth.integer", std::fabs(d - k) < 1e-5, w << " " << LT << " changed by " << d);
            if (first) LB = k;
            VF_CHECK("smooth.integer.same", k == LB, w << " " << LT << " " << k << " and " << LB);
            VF_CHECK("smooth.integer.value", std::fabs(k - RB) < 0.5 + 1e-4, w << " " << LT << " " << k << " for the bias " << RB);
         }
         if (!sp) { VF_CHECK("smooth.range.kept", np == P[i], w << " " << RT); }
         else
         {
            sumS += np;
            long double want = one ? (long double)wl * ((long double)L[i] - RB) : q ? (long double)D21 * w1 * L1[i] + (long double)D22 * w2 * L2[i] : (long double)D11 * w1 * L1[i] + (long double)D12 * w2 * L2[i];
            double k = np - want; if (first) ref = k;
            VF_CHECK("smooth.range.phase", std::fabs(k - ref) < tol, w << " " << RT << " does not follow the phase: " << k - ref);
            if (noise == 0) VF_CHECK("smooth.range.exact", std::fabs(np - P[i]) < tol, w << " " << RT << " " << np - P[i]);
         }
         first = false;
      }
      if (act && sp) VF_CHECK("smooth.range.mean", std::fabs((double)((sumS - sumP) / ng)) < tol, w << " " << RT << " mean changed by " << (double)((sumS - sumP) / ng));
      if (act)
      {
         VF_CHECK("smooth.msg.bias", std::fabs(atof(tk[16 + q].c_str()) - RB) < 0.011, w << ": " << tk[16 + q] << " not " << RB);
         VF_CHECK("smooth.msg.number", atoi(tk[q ? 11 : 6].c_str()) == ng, w << ": " << msg);
      }
   }
   if (both) for (int i = 0; i < n; i++) VF_CHECK("smooth.other", p.data(i, "P1") == 1.5 && p.data(i, "P2") == 2.5, w);
   SatPass q(sat, dt, vector<string>{"L1", "P2", "S1"}); vector<string> o3{"L1", "P2", "S1"}; vector<double> d3{1, 2, 3}; q.addData(b, o3, d3);
   VF_THROWS("smooth.missing", Exception, (q.smooth(true, true, msg)), w); VF_THROWS("smooth.missing.sf", Exception, (q.smoothSF(true, true, msg, r.range(1, 2), w1)), w);
   VF_THROWS("smooth.freq", Exception, (p.smoothSF(true, true, msg, r.chance(0.5) ? 0 : 3, w1)), w);
   c.distinct(w); c.count("passes smoothed"); if (c.idx < 2) c.sample(w);
}

static void st_glo(vf::Case& c)
{
   vf::Rng& r = c.rng;
   int ch = r.range(-7, 6), start = r.chance(0.3) ? ch : r.range(-7, 7); double w1 = C_MPS / (1602e6 + ch * 562.5e3), w2 = C_MPS / (1246e6 + ch * 437.5e3);
   bool c1 = r.chance(0.5), c2 = r.chance(0.5); vector<string> ot{"L1", "L2", c1 ? "C1" : "P1", c2 ? "C2" : "P2"}; r.shuffle(ot);
   SatPass::setMaxGap(1800);
   RinexSatID sat(r.range(1, 24), SatelliteSystem::Glonass); SatPass p(sat, 60, ot); Epoch b = base(2000, 0);
   double B1 = r.unif(-1e6, 1e6), B2 = r.unif(-1e6, 1e6), r0 = r.unif(1.95e7, 2.1e7), am = r.unif(3e6, 5e6), io = r.unif(0, 10), al = 81. / 49., ns = r.unif(0, 0.3), ph = r.unif(-1.2, -0.4);
   int n = r.range(150, 260);
   for (int i = 0; i < n; i++)
   {
      double t = i * 60, rho = r0 + am * (1 - std::cos(ph + t / 8000)); map<string, double> d;
      d[c1 ? "C1" : "P1"] = rho + io + ns * r.unif(-1, 1); d[c2 ? "C2" : "P2"] = rho + al * io + ns * r.unif(-1, 1); d["L1"] = (rho - io) / w1 + B1; d["L2"] = (rho - al * io) / w2 + B2;
      vector<double> x; for (auto& s : ot) x.push_back(d[s]);
      p.addData(b + t, ot, x);
   }
   int k = start; string msg; bool got = false;
   std::ostringstream w; w << "channel " << ch << " from " << start << " noise " << ns << (c1 ? " C1" : " P1") << (c2 ? " C2" : " P2") << " am " << am << " n " << n;
   VF_NOTHROW("glo.run", got = p.getGLOchannel(k, msg), w.str());
   if (start == ch) VF_CHECK("glo.confirmed", got && k == ch, w.str() << " gives " << got << " " << k << " " << msg);
   if (got) { VF_CHECK("glo.value", k == ch, w.str() << " gives " << k << " " << msg); c.count("channels found"); } else c.count("channels not found");
   SatPass q(RinexSatID(3, SatelliteSystem::GPS), 30, ot); k = 2;
   VF_CHECK("glo.gps", !q.getGLOchannel(k, msg) && k == 2, w.str());
   SatPass z(sat, 30, vector<string>{"L1", "L2", "P1"}); VF_THROWS("glo.missing", Exception, z.getGLOchannel(k, msg), w.str());
   c.distinct(w.str());
}

static void st_iter(vf::Case& c)
{
   vf::Rng& r = c.rng;
   double dt = r.pick(vector<double>{1, 30, 60}); SatPass::setMaxGap(1e6); Epoch b = base(r.range(1000, 2300), (double)r.range(0, 604799));
   vector<string> ot{"L1", "P1", "S1"}; if (r.chance(0.3)) ot.push_back("ZZ");
   vector<SatPass> list; set<RinexSatID> sats; int ns = r.range(1, 6);
   while ((int)sats.size() < ns) sats.insert(anySat(r));
   typedef map<int, set<std::pair<int, double> > > Exp; // count -> (sat no., value)
   struct E1 { RinexSatID s; int n; double t, v; bool ok; };
   vector<E1> ex; double id = 0; std::ostringstream w; double f = 1e18, l = -1e18, fg = 1e18, lg = -1e18;
   for (auto& s : sats)
   {
      int at = r.range(0, 60), np = r.range(1, 4);
      for (int k = 0; k < np; k++)
      {
         SatPass p(s, dt, ot); p.status() = r.chance(0.15) ? -(int)r.range(1, 3) : r.range(0, 3);
         int len = r.chance(0.08) ? 0 : r.range(1, 25); if (list.empty() && len == 0) len = 2;
         w << s << "@" << at << "+" << len << (p.getStatus() < 0 ? "- " : " ");
         for (int i = 0; i < len; i++)
         {
            double t = at * dt + (r.chance(0.5) ? 0 : r.unif(-0.08, 0.08) * dt); id += 1;
            vector<double> d(ot.size(), id); d[0] = id + 0.25; bool ok = r.chance(0.85); vector<us> li(ot.size(), (us)r.below(4)), si(ot.size(), (us)r.below(9));
            int a = p.addData(b + t, ot, d, li, si, ok ? SatPass::OK : SatPass::BAD);
            VF_CHECK("iter.add", a == i, a);
            if (p.getStatus() >= 0) ex.push_back({s, at, t, id, ok});
            f = std::min(f, t); l = std::max(l, t); if (ok) { fg = std::min(fg, t); lg = std::max(lg, t); }
            at += r.chance(0.8) ? 1 : r.range(2, 6);
         }
         list.push_back(p); at += r.chance(0.3) ? 0 : r.range(1, 40);
      }
   }
   r.shuffle(list);
   bool rev = r.chance(0.5); w << (rev ? "reverse" : "forward"); string W = w.str();
   SatPassIterator it(list, rev);
   for (size_t i = 1; i < list.size(); i++) VF_CHECK("iter.sorted", !(list[i] < list[i - 1]), W);
   VF_CHECK("iter.limits", std::fabs(tdiff(it.getFirstTime(), b) - f) < 1e-6 && std::fabs(tdiff(it.getLastTime(), b) - l) < 1e-6 && it.getDT() == dt, W);
   if (fg < 1e17) VF_CHECK("iter.good", std::fabs(tdiff(it.getFirstGoodTime(), b) - fg) < 1e-6 && std::fabs(tdiff(it.getLastGoodTime(), b) - lg) < 1e-6, W << " " << tdiff(it.getFirstGoodTime(), b) - fg);
   if (r.chance(0.4)) { map<unsigned, unsigned> im; for (int k = r.range(1, 20); k > 0; k--) it.next(im); rev = r.chance(0.5); it.reset(rev); W += rev ? " reset reverse" : " reset forward"; }
   map<int, set<double> > want, got; map<double, E1> by; for (auto& e : ex) { want[e.n].insert(e.v); by[e.v] = e; }
   bool rin = r.chance(0.4); int last = rev ? 1 << 30 : -(1 << 30); size_t steps = 0;
   for (;;)
   {
      map<unsigned, unsigned> im; RinexObsData ro; int k = -1;
      if (rin) { VF_NOTHROW("iter.next", k = it.next(ro), W); im = it.getIndexes(); } else { VF_NOTHROW("iter.next", k = it.next(im), W); VF_CHECK("iter.indexes", k == 0 || it.getIndexes() == im, W); }
      if (k != 1) { VF_CHECK("iter.end", k == 0, W << " " << k); break; }
      if (++steps > ex.size()) { VF_CHECK("iter.toomany", false, W); break; }
      VF_CHECK("iter.nonempty", !im.empty(), W);
      int n = 1 << 29;
      for (auto& q : im)
      {
         if (q.first >= list.size() || q.second >= list[q.first].size()) { VF_CHECK("iter.index", false, W); return; }
         double v = list[q.first].data(q.second, "P1"); auto e = by.find(v);
         if (e == by.end()) { VF_CHECK("iter.wrong", false, W << ": datum " << v << " of a pass with negative status"); continue; }
         if (n == 1 << 29) { n = e->second.n; VF_CHECK("iter.order", rev ? n < last : n > last, W << ": epoch " << n << " after " << last); last = n; }
         VF_CHECK("iter.epoch", e->second.n == n, W << ": " << e->second.n << " with " << n);
         VF_CHECK("iter.twice", got[e->second.n].insert(v).second, W);
         if (rin)
         {
            RinexObsType P1 = RinexObsHeader::convertObsType(string("P1")), L1 = RinexObsHeader::convertObsType(string("L1"));
            bool th = ro.obs.count(e->second.s) && ro.obs[e->second.s].count(P1);
            VF_CHECK("iter.robs", th && ro.obs[e->second.s][P1].data == v && ro.obs[e->second.s][L1].data == v + 0.25 && ro.obs[e->second.s][P1].lli == list[q.first].LLI(q.second, "P1") && ro.obs[e->second.s][P1].ssi == list[q.first].SSI(q.second, "P1"), W << " " << v);
            VF_CHECK("iter.robs.types", ro.obs[e->second.s].size() == 3, W);
            VF_CHECK("iter.robs.time", std::fabs(tdiff(Epoch(ro.time), b) - e->second.t) < 0.17 * dt, W);
         }
      }
      if (rin) VF_CHECK("iter.robs.number", ro.numSvs == (int)im.size() && ro.obs.size() == im.size() && ro.epochFlag == 0, W << " " << ro.numSvs);
      c.count("epochs");
   }
   VF_CHECK("iter.all", got == want, W << ": " << got.size() << " epochs of " << want.size());
   map<unsigned, unsigned> im; VF_CHECK("iter.stays", it.next(im) == 0, W);
   vector<SatPass> none; VF_THROWS("iter.none", Exception, SatPassIterator{none}, W);
   SatPass odd(*sats.begin(), dt * 2, ot); vector<double> d(ot.size(), 1.0); odd.addData(b, ot, d); list.push_back(odd); VF_THROWS("iter.dt", Exception, SatPassIterator{list}, W);
   c.distinct(W); if (c.idx < 2) c.sample(W);
}

int main(int argc, char** argv) { return vf::run(argc, argv, {{"pass", 2500, 60000, st_pass}, {"smooth", 1500, 40000, st_smooth}, {"glo", 300, 6000, st_glo}, {"iter", 2500, 60000, st_iter}}); }
