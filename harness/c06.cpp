// C06: time intervals (TimeRange) and the interpolating epoch store
#include "timemodel.hpp"
#include "TimeRange.hpp"
#include "EpochDataStore.hpp"
using namespace gpstk; using namespace tm_;

// small integer-time universe: instants k on a grid, doubled so that open ends have room
struct Iv { long a, b; bool ia, ib; };
static bool has2(const Iv& v, long x2)   // x2 = 2*instant (odd: between grid points)
{
   if (x2 > 2 * v.a && x2 < 2 * v.b) return true;
   if (x2 == 2 * v.a && v.ia) return true;
   if (x2 == 2 * v.b && v.ib) return true;
   return false;
}
static CommonTime at(const CommonTime& base, long k, double step) { CommonTime t(base); t.addSeconds(k * step); return t; }

static void range(vf::Case& c)
{
   vf::Rng& r = c.rng;
   TimeSystem ts = r.pick({TimeSystem::GPS, TimeSystem::UTC, TimeSystem::Any});
   CommonTime base = genTime(r, ts, 2000000, 3000000);
   { long d, ms; double fs; base.getInternal(d, ms, fs); base.setInternal(d, ms, 0, ts); }
   double step = r.pick({0.5, 1.0, 86400.0, 0.001, 3600.0});
   std::vector<Iv> iv; std::vector<TimeRange> tr;
   for (int i = 0; i < 3; i++)
   {
      Iv v; v.a = r.range(0, 5); v.b = v.a + (r.chance(0.1) ? 0 : r.range(1, 4)); v.ia = r.chance(0.5); v.ib = r.chance(0.5);
      if (v.a == v.b) v.ia = v.ib = true;
      iv.push_back(v);
      if (r.chance(0.5)) tr.push_back(TimeRange(at(base, v.a, step), at(base, v.b, step), v.ia, v.ib));
      else if (r.chance(0.5)) { TimeRange q; q.set(at(base, v.a, step), at(base, v.b, step), v.ia, v.ib); tr.push_back(q); }
      else tr.push_back(TimeRange(TimeRange::DTPair(at(base, v.a, step), at(base, v.b, step)), v.ia, v.ib));
   }
   std::ostringstream os; os << step << " ";
   for (auto& v : iv) os << (v.ia ? '[' : '(') << v.a << "," << v.b << (v.ib ? ']' : ')') << " ";
   std::string ctx = os.str() + show(base); c.note(ctx); c.distinct(os.str());
   for (int i = 0; i < 3; i++)
   {
      for (long x2 = -2; x2 <= 22; x2++)
         VF_CHECK("range.in", tr[i].inRange(at(base, x2, step / 2)) == has2(iv[i], x2), ctx << " #" << i << " x " << x2 / 2.0);
      for (int j = 0; j < 3; j++)
      {
         const Iv &u = iv[i], &w = iv[j]; bool common = false, prior = true, after = true;
         for (long x2 = -2; x2 <= 22; x2++) for (long y2 = -2; y2 <= 22; y2++)
         {
            if (!has2(u, x2) || !has2(w, y2)) continue;
            if (x2 == y2) common = true;
            if (!(x2 < y2)) prior = false;
            if (!(x2 > y2)) after = false;
         }
         VF_CHECK("range.overlaps", tr[i].overlaps(tr[j]) == common, ctx << i << j << " got " << tr[i].overlaps(tr[j]));
         VF_CHECK("range.prior", tr[i].isPriorTo(tr[j]) == prior, ctx << i << j);
         VF_CHECK("range.after", tr[i].isAfter(tr[j]) == after, ctx << i << j);
         VF_CHECK("range.trichotomy", (int)tr[i].overlaps(tr[j]) + tr[i].isPriorTo(tr[j]) + tr[i].isAfter(tr[j]) == 1, ctx << i << j);
         VF_CHECK("range.subset", tr[i].isSubsetOf(tr[j]) == (u.a >= w.a && u.b <= w.b), ctx << i << j);
         VF_CHECK("range.eq", (tr[i] == tr[j]) == (u.a == w.a && u.b == w.b && u.ia == w.ia && u.ib == w.ib), ctx << i << j);
         bool lt = u.a < w.a || (u.a == w.a && u.ia && !w.ia);
         VF_CHECK("range.lt", (tr[i] < tr[j]) == lt, ctx << i << j << " got " << (tr[i] < tr[j]));
      }
   }
   if (iv[0].a < iv[0].b)
   {
      TimeRange keep(tr[1]);
      VF_THROWS("range.reversed", TimeRange::TimeRangeException, TimeRange(at(base, iv[0].b, step), at(base, iv[0].a, step)), ctx);
      VF_THROWS("range.reversed.set", TimeRange::TimeRangeException, tr[1].set(at(base, iv[0].b, step), at(base, iv[0].a, step), true, false), ctx);
      VF_CHECK("range.set.atomic", tr[1] == keep, ctx);
   }
   TimeRange all; VF_CHECK("range.default", all.inRange(base) && all.inRange(CommonTime::BEGINNING_OF_TIME) && all.inRange(CommonTime::END_OF_TIME), ctx);
      // text form
   if (step >= 1 && r.chance(0.3))
   {
      const char* fmt = "%04Y/%02m/%02d %02H:%02M:%02S %P";
      CommonTime b2(base); long d, ms; double fs; b2.getInternal(d, ms, fs); b2.setInternal(d, ms / 1000 * 1000, 0, TimeSystem::GPS);
      TimeRange o(at(b2, iv[0].a, step), at(b2, iv[0].b, step), iv[0].ia, iv[0].ib);
      std::string s = o.printf(fmt);
      TimeRange in; 
      VF_NOTHROW("range.scan", in.setToString(s, fmt), s);
      VF_CHECK("range.roundtrip", in == o, s << " -> " << in.printf(fmt));
   }
}

struct Store : public EpochDataStore
{
   Store(int n) : EpochDataStore(n) {}
   using EpochDataStore::addData; using EpochDataStore::getData;
};
static void store(vf::Case& c)
{
   vf::Rng& r = c.rng;
   int np = r.pick({2, 4, 6, 8, 10});
   Store s(np);
   if (r.chance(0.3)) s.setInterpolationPoints(np);
   CommonTime base = genTime(r, TimeSystem::UTC, 2400000, 2500000);
   { long d, ms; double fs; base.getInternal(d, ms, fs); base.setInternal(d, ms, 0, TimeSystem::UTC); }
   int n = r.range(1, 40), N = r.range(1, 4); double step = r.pick({1.0, 30.0, 900.0, 86400.0});
   std::vector<long> ks; long k = 0; bool uniform = r.chance(0.6);
   for (int i = 0; i < n; i++) { ks.push_back(k); k += uniform ? 1 : r.range(1, 3); }
   std::vector<long> order(ks); r.shuffle(order);
   int deg = std::max(0, std::min({np - 1, n - 1, 5}));
   std::vector<std::vector<double> > co(N);
   for (auto& v : co) for (int i = 0; i <= deg; i++) v.push_back(r.unif(-1, 1));
   double span = (double)std::max(1L, ks.back());
   auto f = [&](int i, double x) { double u = x / span, p = 0; for (int j = deg; j >= 0; j--) p = p * u + co[i][j]; return p; };
   std::map<long, std::vector<double> > model;
   for (long q : order) { std::vector<double> v; for (int i = 0; i < N; i++) v.push_back(f(i, q)); s.addData(at(base, q, step), v); model[q] = v; }
   std::ostringstream os; os << "np " << np << " n " << n << " N " << N << " deg " << deg << " step " << step << (uniform ? "u" : "n"); c.note(os.str()); c.distinct(vf::hashStr(os.str()) ^ c.idx);
   auto audit = [&](const char* w)
   {
      VF_CHECK(std::string("store.size.") + w, s.size() == model.size() && s.epochList().size() == model.size(), os.str());
      if (!model.empty())
         VF_CHECK(std::string("store.limits.") + w, s.getInitialTime() == at(base, model.begin()->first, step) && s.getFinalTime() == at(base, model.rbegin()->first, step), os.str());
      for (long q = -2; q <= ks.back() + 2; q++)
         VF_CHECK(std::string("store.exist.") + w, s.isEpochExist(at(base, q, step)) == (model.count(q) > 0), os.str() << " q " << q);
   };
   auto probe = [&](const char* w)
   {
      for (auto& m : model) VF_CHECK(std::string("store.stored.") + w, s.getData(at(base, m.first, step)) == m.second, os.str() << " q " << m.first);
      if (model.empty()) { VF_THROWS(std::string("store.empty.") + w, InvalidRequest, s.getData(base), os.str()); return; }
      long lo = model.begin()->first, hi = model.rbegin()->first;
      VF_THROWS(std::string("store.before.") + w, InvalidRequest, s.getData(at(base, lo - 1, step)), os.str());
      VF_THROWS(std::string("store.after.") + w, InvalidRequest, s.getData(at(base, hi + 1, step)), os.str());
      if (hi > lo && (int)model.size() > deg) for (int t = 0; t < 6; t++)
      {
         double x = r.unif(lo, hi); CommonTime q(base); q.addSeconds(x * step);
         std::vector<double> v; VF_NOTHROW(std::string("store.interp.throw.") + w, v = s.getData(q), os.str() << " x " << x);
         for (int i = 0; i < N && (int)v.size() == N; i++)
         {
            double want = f(i, x); c.maximum("interp_err", std::fabs(v[i] - want));
            VF_CHECK(std::string("store.interp.") + w, vf::close(v[i], want, 1e-5), os.str() << " x " << x << " got " << v[i] << " want " << want);
         }
      }
   };
   audit("add"); probe("add");
   if (r.chance(0.6) && ks.back() > 2)
   {
      long a = r.range(0, ks.back()), b = r.range(0, ks.back()); 
      s.edit(at(base, a, step), at(base, b, step));
      if (a > b) std::swap(a, b);
      for (auto it = model.begin(); it != model.end(); ) if (it->first < a || it->first > b) model.erase(it++); else ++it;
      audit("edit"); probe("edit");
   }
   if (r.chance(0.3))
   {
      s.clear(); model.clear(); audit("clear"); probe("clear");
      s.addData(at(base, 3, step), std::vector<double>(N, 2.0)); model[3] = std::vector<double>(N, 2.0); audit("readd"); probe("readd");
   }
}
int main(int argc, char** argv)
{ return vf::run(argc, argv, { {"range", 10000, 1000000, range}, {"store", 4000, 300000, store} }); }
