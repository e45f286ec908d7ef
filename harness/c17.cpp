// C17: broadcast ephemeris stores
#include "vf.hpp"
#include "OrbitEphStore.hpp"
#include "GPSEphemerisStore.hpp"
#include "OrbElemStore.hpp"
#include "OrbElem.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;

static CommonTime at(double tot) { long w = (long)std::floor(tot / 604800); return GPSWeekSecond((int)w, tot - w * 604800.0); }
struct Eph : public OrbitEph            // plain element set with a health flag
{
   bool ok = true;
   OrbitEph* clone() const override { return new Eph(*this); }
   bool isHealthy() const override { return ok; }
};
struct Elem : public OrbElem
{
   double full = 0;
   OrbElem* clone() const override { return new Elem(*this); }
   std::string getName() const override { return "T"; }
   std::string getNameLong() const override { return "test"; }
   void adjustBeginningValidity() override { CommonTime t = ctToe; long s = (long)GPSWeekSecond(ctToe).sow; t += (3600 - s % 3600) % 3600 - 7200.0; beginValid = t; }
   void dumpTerse(std::ostream&) const override {}
};
struct M { int sat, group; double toe, b, e; bool ok; double tag; };        // one broadcast copy
static std::string show(const std::vector<M>& v, double t0)
{
   std::ostringstream o; o.precision(9); for (auto& m : v) o << "[G" << m.sat << " toe " << m.toe - t0 << " " << m.b - t0 << ".." << m.e - t0 << (m.ok ? "" : " bad") << "]"; return o.str();
}
template <class X> static void orbit(X& e, const M& m)
{
   e.dataLoadedFlag = true; e.satID = SatID(m.sat, SatelliteSystem::GPS); e.ctToe = at(m.toe); e.ctToc = at(m.toe); e.beginValid = at(m.b); e.endValid = at(m.e);
   e.af0 = m.tag * 1e-9; e.af1 = e.af2 = 0; e.A = 26.56e6; e.ecc = 0.01; e.M0 = m.tag; e.dn = e.dndot = e.Adot = 0; e.OMEGA0 = 1; e.i0 = 0.96; e.w = 0.3; e.OMEGAdot = -8e-9; e.idot = 0; e.Cuc = e.Cus = e.Crc = e.Crs = e.Cic = e.Cis = 0;
}
// history of one satellite: groups (uploads and cutovers) with several copies of each
static void history(vf::Rng& r, int sat, double t0, std::vector<M>& all, bool uploads)
{
   int n = (int)r.range(1, 9), g = 0; double cut = t0 + 7200.0 * r.range(0, 3); double off = 0; int left = 0;
   for (int i = 0; i < n; i++)
   {
      if (r.chance(0.12)) { cut += 7200.0 * r.range(1, 6); left = 0; }
      double toe, b, e; bool up = uploads && left == 0 && r.chance(0.25);
      if (up) { double o2; do o2 = 16.0 * r.range(1, 100); while (o2 == off); off = o2; left = (int)r.range(1, 3); b = cut + 30.0 * r.range(1, 239); toe = cut + 7200 + (b - cut > 5400 ? 7200 : 0) - off; }
      else if (left > 0) { left--; toe = cut + 7200 - off; b = cut + 30.0 * r.range(0, 40); }
      else { toe = cut + 7200; b = cut; off = 0; }
      e = std::ceil(toe / 3600) * 3600 + 7200;
      if (uploads && off == 0 && r.chance(0.3)) e += 3600.0 * r.range(1, 6); // an extended fit interval
      bool ok = r.chance(0.8); double nextb = up ? std::floor(b / 7200) * 7200 + 7200 : cut + 7200; double k = r.chance(0.5) ? 0 : (double)r.range(1, 3), bb = b;
      for (int j = 0; j <= k; j++) { M m; m.sat = sat; m.group = g; m.toe = toe; m.b = bb; m.e = e; m.ok = ok; m.tag = sat * 1000 + g * 10 + j + 1; all.push_back(m); bb += 30.0 * r.range(1, 60); if (bb >= nextb) break; }
      g++; cut = nextb;
   }
}
static std::vector<M> reduce(const std::vector<M>& all)     // one copy of each group, the earliest
{
   std::map<std::pair<int, int>, M> k; for (auto& m : all) { auto q = std::make_pair(m.sat, m.group); auto i = k.find(q); if (i == k.end() || m.b < i->second.b) k[q] = m; }
   std::vector<M> v; for (auto& p : k) v.push_back(p.second); std::sort(v.begin(), v.end(), [](const M& a, const M& b) { return a.sat != b.sat ? a.sat < b.sat : a.b < b.b; }); return v;
}
static const M* userPick(const std::vector<M>& v, int sat, double t)
{ const M* p = 0; for (auto& m : v) if (m.sat == sat && m.b <= t && (!p || m.b > p->b)) p = &m; return p && t <= p->e ? p : 0; }
static double when(vf::Rng& r, const std::vector<M>& v, double t0)
{
   const M& m = v[r.below(v.size())]; switch (r.below(7)) { case 0: return m.b; case 1: return m.e; case 2: return m.toe; case 3: return m.b - 1; case 4: return m.e + 1; case 5: return m.b + r.range(1, 14000); default: return t0 + r.range(-20000, 90000); }
}
static double base(vf::Rng& r) { return 604800.0 * r.range(1000, 2300) + 7200.0 * (r.chance(0.4) ? 80 : r.range(0, 83)); }
static bool unique(const std::vector<M>& v) { for (size_t i = 1; i < v.size(); i++) if (v[i].sat == v[i-1].sat && (v[i].b <= v[i-1].b || v[i].toe == v[i-1].toe)) return false; return true; }

static void plain(vf::Case& c)
{
   vf::Rng& r = c.rng; double t0 = base(r); std::vector<M> all; int ns = (int)r.range(1, 3); for (int s = 1; s <= ns; s++) history(r, s * 3, t0, all, true);
   std::vector<M> kept = reduce(all); if (!unique(kept)) { c.count("skipped"); return; } r.shuffle(all);
   OrbitEphStore st; bool user = r.chance(0.6); VF_CHECK("mode.set", user ? st.SearchUser() : st.SearchNear(), ""); bool near = !user;
   std::string d = show(all, t0) + (near ? " near" : " user"); c.note(d); c.distinct(d); c.sample(d);
   std::map<std::pair<int, double>, M> nk;     // near mode is keyed by Toe: the first copy wins
   for (auto& m : all)
   {
      Eph e; orbit(e, m); e.ok = m.ok; OrbitEph* q = st.addEphemeris(&e);
      if (near) { auto k = std::make_pair(m.sat, m.toe); bool isNew = !nk.count(k); if (isNew) nk[k] = m; VF_CHECK("add.near", (q != 0) == isNew, d); }
      if (q) VF_CHECK("add.returns", q != &e && q->ctToe == e.ctToe && q->beginValid == e.beginValid && q->satID == e.satID, d);
      VF_CHECK("mode.locked", !st.SearchUser() && !st.SearchNear(), d);
   }
   if (near) { kept.clear(); for (auto& p : nk) kept.push_back(p.second); }
   VF_CHECK("size", st.size() == kept.size(), d << " store has " << st.size() << " want " << kept.size());
   for (int s = 1; s <= ns; s++)
   {
      SatID sat(s * 3, SatelliteSystem::GPS); std::vector<M> mine; for (auto& m : kept) if (m.sat == s * 3) mine.push_back(m);
      VF_CHECK("size.sat", st.size(sat) == mine.size() && st.isPresent(sat), d); const OrbitEphStore::TimeOrbitEphTable& tb = st.getTimeOrbitEphMap(sat); bool same = tb.size() == mine.size();
      for (auto& m : mine) { auto i = tb.find(at(near ? m.toe : m.b)); same = same && i != tb.end() && i->second->af0 == m.tag * 1e-9; VF_CHECK("present.time", st.isPresent(sat, at(near ? m.toe : m.b)), d); }
      VF_CHECK("table", same, d << " sat " << s * 3 << " has " << tb.size() << " entries");
   }
   VF_CHECK("size.system", st.size(SatID(-1, SatelliteSystem::GPS)) == kept.size() && st.size(SatID(-1, SatelliteSystem::Galileo)) == 0, d); VF_CHECK("index", (int)st.getIndexSet().size() == ns && !st.isPresent(SatID(1, SatelliteSystem::GPS)), d);
   double lo = 1e300, hi = -1; for (auto& m : all) { if (near && !(nk[std::make_pair(m.sat, m.toe)].tag == m.tag)) continue; lo = std::min(lo, m.b); hi = std::max(hi, m.e); }
   VF_CHECK("limits", st.getInitialTime() == at(lo) && st.getFinalTime() == at(hi), d);
   for (int edit = 0; edit < 2; edit++)
   {
      for (int i = 0; i < 12; i++)
      {
         if (kept.empty()) break;
         double t = when(r, kept, t0); int s = (int)r.range(1, ns) * 3; SatID sat(s, SatelliteSystem::GPS); CommonTime ct = at(t); const OrbitEph* q = st.findOrbitEph(sat, ct); std::ostringstream w; w << d << " sat " << s << " t " << t - t0 << " after edit " << edit;
         const M* m = 0; for (auto& k : kept) if (q && q->satID.id == k.sat && q->af0 == k.tag * 1e-9) m = &k;
         if (q) { VF_CHECK("find.known", m && m->sat == s, w.str()); VF_CHECK("find.valid", q->isValid(ct), w.str() << " gave [" << (m ? m->b - t0 : 0) << ".." << (m ? m->e - t0 : 0) << "]"); }
         if (!near) { const M* p = userPick(kept, s, t); VF_CHECK("find.user", p == m, w.str() << " gave " << (m ? m->toe - t0 : -1) << " want " << (p ? p->toe - t0 : -1)); }
         else
         {
               // the neighbours by Toe: the closer one when valid, else the other
            const M *pr = 0, *nx = 0; for (auto& k : kept) if (k.sat == s) { if (k.toe < t && (!pr || k.toe > pr->toe)) pr = &k; if (k.toe >= t && (!nx || k.toe < nx->toe)) nx = &k; }
            auto val = [&](const M* k) { return k && t >= k->b && t <= k->e; }; const M *a = pr, *b = nx; if (!a || (b && b->toe - t < t - a->toe)) std::swap(a, b); bool tie = a && b && std::fabs(a->toe - t) == std::fabs(b->toe - t);
            const M* want = val(a) ? a : val(b) ? b : 0; VF_CHECK("find.near", m == want || (tie && m && val(m) && (m == a || m == b)), w.str() << " gave " << (m ? m->toe - t0 : -1) << " want " << (want ? want->toe - t0 : -1));
         }
         Xvt x = st.computeXvt(sat, ct); VF_CHECK("health.found", x.health == (!m ? Xvt::Unavailable : m->ok ? Xvt::Healthy : Xvt::Unhealthy) && st.getSVHealth(sat, ct) == x.health, w.str() << " health " << (int)x.health);
         st.setOnlyHealthyFlag(r.chance(0.5));
         if (!m || (st.getOnlyHealthyFlag() && !m->ok)) VF_THROWS("xvt.refused", InvalidRequest, st.getXvt(sat, ct), w.str());
         else { Xvt y = st.getXvt(sat, ct), z = q->svXvt(ct); bool same = y.health == x.health; for (int k = 0; k < 3; k++) same = same && y.x[k] == z.x[k] && x.x[k] == z.x[k] && y.v[k] == z.v[k]; VF_CHECK("xvt.same", same && y.clkbias == z.clkbias && y.relcorr == z.relcorr, w.str()); }
         VF_CHECK("absent", st.findOrbitEph(SatID(31, SatelliteSystem::GPS), ct) == 0 && st.getSVHealth(SatID(31, SatelliteSystem::GPS), ct) == Xvt::Unavailable, w.str()); VF_THROWS("xvt.absent", InvalidRequest, st.getXvt(SatID(31, SatelliteSystem::GPS), ct), w.str());
      }
      if (!edit)
      {
         double a = t0 + 600.0 * r.range(-10, 60), b = a + 600.0 * r.range(0, 100); st.edit(at(a), at(b)); d += " edit " + std::to_string(a - t0) + ".." + std::to_string(b - t0); std::vector<M> k2; for (auto& m : kept) { double key = near ? m.toe : m.b; if (key >= a && key <= b) k2.push_back(m); } kept.swap(k2); VF_CHECK("edit.size", st.size() == kept.size(), d << " leaves " << st.size());
      }
   }
   std::list<OrbitEph*> li; int n = st.addToList(li); std::set<double> tags; for (auto p : li) { tags.insert(p->af0); delete p; } bool all2 = true; for (auto& m : kept) all2 = all2 && tags.count(m.tag * 1e-9); VF_CHECK("list", n == (int)kept.size() && li.size() == kept.size() && all2, d);
   std::ostringstream os; for (short k = 0; k <= 4; k++) st.dump(os, k); st.clear(); VF_CHECK("clear", st.size() == 0 && st.getIndexSet().empty() && st.SearchNear() && st.SearchUser(), d);
   if (!kept.empty()) { const M& m = kept[r.below((int)kept.size())]; OrbitEphStore f; Eph e; orbit(e, m); e.ok = m.ok; st.addEphemeris(&e); f.addEphemeris(&e); VF_CHECK("clear.span", st.getInitialTime() == f.getInitialTime() && st.getFinalTime() == f.getFinalTime() && st.size() == 1, d << " after clear " << st.getInitialTime() << " to " << st.getFinalTime()); }
}

// after loading, rationalize: an upload ends everything broadcast before it
static void check_rational(vf::Case& c, const std::string& k, const std::vector<M>& kept, const std::vector<M>& now, const std::vector<double>& fullEnd, const std::string& d, double t0)
{
   VF_CHECK(k + ".count", now.size() == kept.size(), d); if (now.size() != kept.size()) return; double poff = 0; int psat = -1;
   for (size_t i = 0; i < kept.size(); i++)
   {
      const M& m = kept[i]; double off = std::fmod(m.toe, 3600); bool first = psat != m.sat; bool prevOff = !first && poff != 0, up = off != 0 && !first && (!prevOff || poff != off);
      VF_CHECK(k + ".noextend", now[i].e <= fullEnd[i], d << " entry " << i << " end grew to " << now[i].e - t0);
      if (up) for (size_t j = 0; j < i; j++) if (kept[j].sat == m.sat) VF_CHECK(k + ".cut", now[j].e <= m.b || now[j].e <= now[i].b, d << " entry " << j << " still valid to " << now[j].e - t0 << " though " << i << " was uploaded at " << m.b - t0);
      if (!(off != 0 && prevOff && poff == off)) VF_CHECK(k + ".begin", now[i].b == m.b, d << " entry " << i << " begins at " << now[i].b - t0);
      psat = m.sat; poff = off;
   }
      // an end is only ever cut back to the begin of a later element set
   for (size_t i = 0; i < now.size(); i++) if (now[i].e != fullEnd[i]) { bool ok = false; for (size_t j = 0; j < now.size(); j++) ok = ok || (now[j].sat == now[i].sat && (now[j].b == now[i].e || kept[j].b == now[i].e) && std::fmod(kept[j].toe, 3600) != 0); VF_CHECK(k + ".cutat", ok, d << " entry " << i << " ends at " << now[i].e - t0); }
   (void)c;
}
static double tot(const CommonTime& t) { GPSWeekSecond g(t); return g.week * 604800.0 + g.sow; }
static void rationalGPS(vf::Case& c)
{
   vf::Rng& r = c.rng; double t0 = base(r); std::vector<M> all; int ns = (int)r.range(1, 3); for (int s = 1; s <= ns; s++) history(r, s * 3, t0, all, true);
   std::vector<M> kept = reduce(all); if (!unique(kept)) { c.count("skipped"); return; } r.shuffle(all); GPSEphemerisStore st; std::string d = show(all, t0); c.note(d); c.distinct(d);
   for (auto& m : all) { GPSEphemeris e; orbit(e, m); e.IODC = 10; e.IODE = 10; e.setFitIntervalFlag(0); e.fitint = 4; e.health = m.ok ? 0 : 1; e.transmitTime = at(m.b); e.HOWtime = (long)(m.b - 604800.0 * std::floor(m.b / 604800)) + 6; e.HOWtime = std::min(604799L, e.HOWtime); M m2 = m; e.adjustValidity(); if (std::fmod(m.toe, 7200) == 0) e.beginValid = at(m.b); e.endValid = at(m.e); if (tot(e.beginValid) != m.b) c.count("begin differs"); st.addEphemeris(e); }
   VF_CHECK("gps.size", st.size() == kept.size(), d << " " << st.size()); std::vector<double> full; for (auto& m : kept) full.push_back(m.e);
   bool emptySat = r.chance(0.15); double ea = 0, eb = 0;
   if (emptySat) { ea = t0 + 600.0 * r.range(0, 60); eb = ea + 600.0 * r.range(0, 60); st.edit(at(ea), at(eb)); std::vector<M> k2; full.clear(); for (auto& m : kept) if (m.b >= ea && m.b <= eb) { k2.push_back(m); full.push_back(m.e); } kept.swap(k2); d += " edited"; c.note(d); }
   st.rationalize(); std::vector<M> now; double lo = 1e300, hi = -1;
   for (auto& m : kept) { bool f = false; for (auto& p : st.getTimeOrbitEphMap(SatID(m.sat, SatelliteSystem::GPS))) if (p.second->af0 == m.tag * 1e-9) { f = true; M n = m; n.b = tot(p.second->beginValid); n.e = tot(p.second->endValid); now.push_back(n); lo = std::min(lo, n.b); hi = std::max(hi, n.e); VF_CHECK("gps.key", p.first == p.second->beginValid, d); } VF_CHECK("gps.kept", f, d << " lost toe " << m.toe - t0); }
   check_rational(c, "gps", kept, now, full, d, t0); if (kept.empty()) return;
   VF_CHECK("gps.limits", tot(st.getInitialTime()) == lo && tot(st.getFinalTime()) == hi, d << " limits " << tot(st.getInitialTime()) - t0 << ".." << tot(st.getFinalTime()) - t0 << " want " << lo - t0 << ".." << hi - t0);
   for (int i = 0; i < 10; i++) { double t = when(r, now, t0); int s = (int)r.range(1, ns) * 3; const OrbitEph* q = st.findOrbitEph(SatID(s, SatelliteSystem::GPS), at(t)); const M* p = userPick(now, s, t); VF_CHECK("gps.find", (q == 0) == (p == 0) && (!p || q->af0 == p->tag * 1e-9), d << " sat " << s << " t " << t - t0);
      if (p) VF_NOTHROW("gps.eph", VF_CHECK("gps.eph", st.findEphemeris(SatID(s, SatelliteSystem::GPS), at(t)).af0 == p->tag * 1e-9, d), d); else VF_THROWS("gps.noeph", InvalidRequest, st.findEphemeris(SatID(s, SatelliteSystem::GPS), at(t)), d); }
   std::list<GPSEphemeris> li; VF_CHECK("gps.list", st.addToList(li) == (int)kept.size() && li.size() == kept.size(), d); 
}
static void rationalElem(vf::Case& c)
{
   vf::Rng& r = c.rng; double t0 = base(r); std::vector<M> all; int ns = (int)r.range(1, 3); for (int s = 1; s <= ns; s++) history(r, s * 3, t0, all, true);
   std::vector<M> kept = reduce(all); if (!unique(kept)) { c.count("skipped"); return; } r.shuffle(all); OrbElemStore st; std::string d = show(all, t0); c.note(d); c.distinct(d);
   for (auto& m : all) { Elem e; orbit(e, m); e.setHealthy(m.ok); e.M0 = m.group; e.af0 = m.group * 1e-9; st.addOrbElem(&e); }   // copies of a group carry the same data
   VF_CHECK("elem.size", st.size() == kept.size(), d << " store has " << st.size() << " want " << kept.size()); SatID other(5, SatelliteSystem::Galileo); { M m = all[0]; Elem e; orbit(e, m); e.satID = other; VF_THROWS("elem.system", InvalidParameter, st.addOrbElem(&e), d); VF_CHECK("elem.untouched", !st.isPresent(other) && (int)st.getIndexSet().size() == ns, d); }
   auto tag = [](const OrbElemBase* b) { return std::floor(dynamic_cast<const OrbElem*>(b)->af0 * 1e9 + 0.5); };
   double lo = 1e300, hi = -1; for (auto& m : all) { lo = std::min(lo, m.b); hi = std::max(hi, m.e); } VF_CHECK("elem.limits0", tot(st.getInitialTime()) == lo && tot(st.getFinalTime()) == hi, d);
   std::vector<M> cur = kept; std::vector<double> full; for (auto& m : kept) full.push_back(m.e);
   for (int pass = 0; pass < 3; pass++)
   {
      for (int i = 0; i < 8 && !cur.empty(); i++)
      {
         double t = when(r, cur, t0); int s = (int)r.range(1, ns) * 3; SatID sat(s, SatelliteSystem::GPS); CommonTime ct = at(t); const M* p = userPick(cur, s, t); std::ostringstream w; w << d << " pass " << pass << " sat " << s << " t " << t - t0; const OrbElemBase* q = 0; bool threw = false; try { q = st.findOrbElem(sat, ct); } catch (InvalidRequest&) { threw = true; }
         VF_CHECK("elem.find", threw ? p == 0 : (p && tag(q) == p->group && q->isValid(ct)), w.str() << (threw ? " refused" : " found") << " want " << (p ? p->toe - t0 : -1));
         Xvt::HealthStatus h = !p ? Xvt::Unavailable : p->ok ? Xvt::Healthy : Xvt::Unhealthy; VF_CHECK("elem.health", st.getSVHealth(sat, ct) == h && st.computeXvt(sat, ct).health == h, w.str());
         st.setOnlyHealthyFlag(r.chance(0.5)); if (!p || (st.getOnlyHealthyFlag() && !p->ok)) VF_THROWS("elem.xvt.refused", InvalidRequest, st.getXvt(sat, ct), w.str()); else if (q) { Xvt x = st.getXvt(sat, ct), y = q->svXvt(ct); VF_CHECK("elem.xvt", x.x[0] == y.x[0] && x.x[2] == y.x[2] && x.clkbias == y.clkbias && x.health == h, w.str()); }
         bool mine = false; for (auto& m : cur) mine = mine || m.sat == s;
         if (mine) { const OrbElemBase* n = st.findNearOrbElem(sat, ct); if (p) VF_CHECK("elem.near.same", tag(n) == p->group, w.str()); else { const M *pr = 0, *nx = 0; for (auto& m : cur) if (m.sat == s) { if (m.b < t && (!pr || m.b > pr->b)) pr = &m; if (m.b >= t && (!nx || m.b < nx->b)) nx = &m; } const M* wnt = !pr ? nx : !nx ? pr : nx->b - t > t - pr->e ? pr : nx; VF_CHECK("elem.near", tag(n) == wnt->group, w.str()); } }
      }
      if (!cur.empty()) { const M& m = cur[r.below(cur.size())]; CommonTime x = at(m.toe); st.setTimeSystem(TimeSystem::GPS); VF_CHECK("elem.toe", tag(st.findToe(SatID(m.sat, SatelliteSystem::GPS), x)) == m.group, d); x += 1; VF_THROWS("elem.notoe", InvalidRequest, st.findToe(SatID(m.sat, SatelliteSystem::GPS), x), d); }
      if (pass == 0 && r.chance(0.2)) { double a = t0 + 600.0 * r.range(0, 60), b = a + 600.0 * r.range(0, 60); st.edit(at(a), at(b)); std::vector<M> k2; full.clear(); for (auto& m : cur) if (m.b >= a && m.b <= b) { k2.push_back(m); full.push_back(m.e); } cur.swap(k2); kept = cur; d += " edited"; c.note(d); VF_CHECK("elem.edit", st.size() == cur.size(), d); }
      if (pass == 1)
      {
         std::streambuf* ob = std::cout.rdbuf(0); try { st.rationalize(); } catch (...) { std::cout.rdbuf(ob); std::cout.clear(); throw; } std::cout.rdbuf(ob); std::cout.clear();
         std::vector<M> now; lo = 1e300; hi = -1; for (auto& m : kept) { bool f = false; for (auto& p : st.getOrbElemMap(SatID(m.sat, SatelliteSystem::GPS))) if (tag(p.second) == m.group) { f = true; M n = m; n.b = tot(p.second->beginValid); n.e = tot(p.second->endValid); now.push_back(n); lo = std::min(lo, n.b); hi = std::max(hi, n.e); VF_CHECK("elem.key", p.first == p.second->beginValid, d); } VF_CHECK("elem.kept", f, d << " lost toe " << m.toe - t0); }
         bool uniq = true; for (size_t i = 0; i < now.size(); i++) for (size_t j = 0; j < i; j++) uniq = uniq && !(now[i].sat == now[j].sat && now[i].b == now[j].b); if (!uniq) { c.count("collided"); return; }
         check_rational(c, "elem", kept, now, full, d, t0); cur = now; if (cur.empty()) break; VF_CHECK("elem.limits", tot(st.getInitialTime()) == lo && tot(st.getFinalTime()) == hi, d << " limits " << tot(st.getInitialTime()) - t0 << ".." << tot(st.getFinalTime()) - t0 << " want " << lo - t0 << ".." << hi - t0);
      }
   }
   std::list<OrbElemBase*> li; int n = st.addToList(li); for (auto p : li) delete p; VF_CHECK("elem.list", n == (int)cur.size(), d); std::ostringstream os; st.dump(os, 0); st.dump(os, 1); st.clear(); VF_CHECK("elem.clear", st.size() == 0, d);
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"plain", 700, 60000, plain}, {"rationalGPS", 2500, 60000, rationalGPS}, {"rationalElem", 800, 60000, rationalElem}}); }
