// C12: satellite, observation and message identifiers and their text codes.
#include "vf.hpp"
#include "RinexObsID.hpp"
#include "RinexSatID.hpp"
#include "SP3SatID.hpp"
#include "NavID.hpp"
#include "RinexObsHeader.hpp"
#include "Rinex3ObsBase.hpp"
using namespace gpstk;
#define B_(x) CarrierBand::x
#define T_(x) TrackingCode::x

struct Row { const char* id; CarrierBand b; TrackingCode t; };
static const Row ROWS[] = {       // RINEX 3.04 tables 4-10: system, band, attribute -> signal
 {"G1C",B_(L1),T_(CA)},{"G1S",B_(L1),T_(L1CD)},{"G1L",B_(L1),T_(L1CP)},{"G1X",B_(L1),T_(L1CDP)},{"G1P",B_(L1),T_(P)},{"G1W",B_(L1),T_(Ztracking)},{"G1Y",B_(L1),T_(Y)},{"G1M",B_(L1),T_(MDP)},{"G1N",B_(L1),T_(YCodeless)},
 {"G2C",B_(L2),T_(CA)},{"G2D",B_(L2),T_(Semicodeless)},{"G2S",B_(L2),T_(L2CM)},{"G2L",B_(L2),T_(L2CL)},{"G2X",B_(L2),T_(L2CML)},{"G2P",B_(L2),T_(P)},{"G2W",B_(L2),T_(Ztracking)},{"G2Y",B_(L2),T_(Y)},{"G2M",B_(L2),T_(MDP)},{"G2N",B_(L2),T_(YCodeless)},
 {"G5I",B_(L5),T_(L5I)},{"G5Q",B_(L5),T_(L5Q)},{"G5X",B_(L5),T_(L5IQ)},
 {"R1C",B_(G1),T_(Standard)},{"R1P",B_(G1),T_(Precise)},{"R4A",B_(G1a),T_(L1OCD)},{"R4B",B_(G1a),T_(L1OCP)},{"R4X",B_(G1a),T_(L1OCDP)},{"R2C",B_(G2),T_(Standard)},{"R2P",B_(G2),T_(Precise)},{"R6A",B_(G2a),T_(L2CSI)},{"R6B",B_(G2a),T_(L2OCP)},{"R6X",B_(G2a),T_(L2CSIL2OCp)},{"R3I",B_(G3),T_(L3OCD)},{"R3Q",B_(G3),T_(L3OCP)},{"R3X",B_(G3),T_(L3OCDP)},
 {"E1A",B_(L1),T_(E1A)},{"E1B",B_(L1),T_(E1B)},{"E1C",B_(L1),T_(E1C)},{"E1X",B_(L1),T_(E1BC)},{"E1Z",B_(L1),T_(E1ABC)},{"E5I",B_(L5),T_(E5aI)},{"E5Q",B_(L5),T_(E5aQ)},{"E5X",B_(L5),T_(E5aIQ)},{"E7I",B_(E5b),T_(E5bI)},{"E7Q",B_(E5b),T_(E5bQ)},{"E7X",B_(E5b),T_(E5bIQ)},{"E8I",B_(E5ab),T_(E5abI)},{"E8Q",B_(E5ab),T_(E5abQ)},{"E8X",B_(E5ab),T_(E5abIQ)},{"E6A",B_(E6),T_(E6A)},{"E6B",B_(E6),T_(E6B)},{"E6C",B_(E6),T_(E6C)},{"E6X",B_(E6),T_(E6BC)},{"E6Z",B_(E6),T_(E6ABC)},
 {"S1C",B_(L1),T_(CA)},{"S5I",B_(L5),T_(L5I)},{"S5Q",B_(L5),T_(L5Q)},{"S5X",B_(L5),T_(L5IQ)},
 {"J1C",B_(L1),T_(CA)},{"J1S",B_(L1),T_(L1CD)},{"J1L",B_(L1),T_(L1CP)},{"J1X",B_(L1),T_(L1CDP)},{"J1Z",B_(L1),T_(L1S)},{"J2S",B_(L2),T_(L2CM)},{"J2L",B_(L2),T_(L2CL)},{"J2X",B_(L2),T_(L2CML)},{"J5I",B_(L5),T_(L5I)},{"J5Q",B_(L5),T_(L5Q)},{"J5X",B_(L5),T_(L5IQ)},{"J5D",B_(L5),T_(L5SI)},{"J5P",B_(L5),T_(L5SQ)},{"J5Z",B_(L5),T_(L5SIQ)},{"J6L",B_(E6),T_(LEXL)},{"J6X",B_(E6),T_(LEXSL)},{"J6E",B_(E6),T_(L6E)},{"J6Z",B_(E6),T_(L6DE)},
 {"C2I",B_(B1),T_(B1I)},{"C2Q",B_(B1),T_(B1Q)},{"C2X",B_(B1),T_(B1IQ)},{"C1D",B_(L1),T_(B1CD)},{"C1P",B_(L1),T_(B1CP)},{"C1X",B_(L1),T_(B1CDP)},{"C1A",B_(L1),T_(B1A)},{"C1N",B_(L1),T_(BCodeless)},{"C5D",B_(L5),T_(B2aI)},{"C5P",B_(L5),T_(B2aQ)},{"C5X",B_(L5),T_(B2aIQ)},{"C7I",B_(B2),T_(B2I)},{"C7Q",B_(B2),T_(B2Q)},{"C7X",B_(B2),T_(B2IQ)},{"C7D",B_(B2),T_(B2bI)},{"C7P",B_(B2),T_(B2bQ)},{"C7Z",B_(B2),T_(B2bIQ)},{"C8D",B_(E5ab),T_(B2abI)},{"C8P",B_(E5ab),T_(B2abQ)},{"C8X",B_(E5ab),T_(B2abIQ)},{"C6I",B_(B3),T_(B3I)},{"C6Q",B_(B3),T_(B3Q)},{"C6X",B_(B3),T_(B3IQ)},{"C6A",B_(B3),T_(B3AIQ)},
 {"I5A",B_(L5),T_(SPSL5)},{"I5B",B_(L5),T_(RSL5D)},{"I5C",B_(L5),T_(RSL5P)},{"I5X",B_(L5),T_(RSL5DP)},{"I9A",B_(I9),T_(SPSS)},{"I9B",B_(I9),T_(RSSD)},{"I9C",B_(I9),T_(RSSP)},{"I9X",B_(I9),T_(RSSDP)} };
static const int NROWS = sizeof ROWS / sizeof *ROWS;
static const ObservationType OTS[4] = { ObservationType::Range, ObservationType::Phase, ObservationType::Doppler, ObservationType::SNR };

static bool legal(const std::string& sid, double ver)      // sid = sys type band code
{
   std::string k; k += sid[0]; k += sid[2]; k += sid[3];
   if (std::string("CLDS").find(sid[1]) == std::string::npos) return false;
   if (sid[0] == 'G' && sid[1] == 'C' && sid[3] == 'N') return false;
   for (int i = 0; i < NROWS; i++) if (k == ROWS[i].id) return true;
   return k == "J6S" || k == "C1I" || k == "C1Q";
}

static void obsid(vf::Case& c)     // every legal code of every system, four observation types
{
   const Row& w = ROWS[c.idx % NROWS]; int k = (int)(c.idx / NROWS) % 4; vf::Rng& r = c.rng;
   std::string id = std::string(1, w.id[0]) + "CLDS"[k] + w.id[1] + w.id[2];
   bool bad = id[0] == 'G' && id[1] == 'C' && id[3] == 'N';
   double ver = r.pick({3.0, 3.01, 3.03, 3.04});
   VF_CHECK("obs.valid", isValidRinexObsID(id) == !bad && isValidRinexObsID(id.substr(1), id[0]) == !bad, id);
   RinexObsID o(id, ver); c.distinct(id + std::to_string(ver));
   VF_CHECK("obs.meaning", o.type == OTS[k] && o.band == w.b && o.code == w.t, id << " reads as " << o << " (" << StringUtils::asString(o.band) << " " << StringUtils::asString(o.code) << ")");
   RinexObsID x(OTS[k], w.b, w.t);
   VF_CHECK("obs.text", x.asString(ver) == id.substr(1) && o.asString(ver) == id.substr(1) && x.asString() == id.substr(1), id << " prints as " << x.asString(ver));
   if (id[0] == 'G') { RinexObsID g(id.substr(1), ver); VF_CHECK("obs.gpsdefault", g == o, id); }
   if (id[0] == 'C' && id[2] == '2')        // 3.02 names the B1 codes with band 1
   {
      std::string id2 = id; id2[2] = '1'; RinexObsID b(id2, 3.02);
      VF_CHECK("obs.bds302", b.band == w.b && b.code == w.t && b.asString(3.02) == id2.substr(1), id2 << " in 3.02 reads " << b);
   }
      // two different codes of one system are two different signals
   const Row& v = ROWS[r.below(NROWS)];
   if (v.id[0] == w.id[0]) { RinexObsID o2(std::string(1, v.id[0]) + id[1] + v.id[1] + v.id[2], ver); VF_CHECK("obs.injective", (o2 == o) == (&v == &w) && (!(o < o2) && !(o2 < o)) == (&v == &w), w.id << " and " << v.id); }
   ObsID any(ObservationType::Any, o.band, o.code), any2(o.type, CarrierBand::Any, o.code), any3(o.type, o.band, TrackingCode::Any), any4(ObservationType::Any, CarrierBand::Any, TrackingCode::Any);
   VF_CHECK("obs.any", o == any && any == o && o == any2 && o == any3 && o == any4 && any2 == o && any3 == o && any4 == o && !(o != any) && ObsID(OTS[(k + 1) % 4], w.b, w.t) != any2, id);
   VF_CHECK("obs.eq", o == x && !(o != x) && ObsID(OTS[(k + 1) % 4], w.b, w.t) != o, id);
}

static void allcodes(vf::Case& c)   // every 4-character string over the printable set, sampled; validity is exactly the table
{
   vf::Rng& r = c.rng; const std::string A = "GRESCJI", A2 = "CLDSXI*- P1QZ", A3 = "123456789* -0A", A4 = "ABCDEILMNPQSWXYZ* -1VT";
   std::string id; id += A[r.below(A.size())]; id += A2[r.below(A2.size())]; id += A3[r.below(A3.size())]; id += A4[r.below(A4.size())];
   c.distinct(id); bool v = isValidRinexObsID(id);
   if (std::string("CLDS").find(id[1]) != std::string::npos && id.find_first_of("*- ") == std::string::npos)
      VF_CHECK("valid.table", v == legal(id, 3.04), id << " valid=" << v);
   if (id.find('-') != std::string::npos) VF_CHECK("valid.undefined", !v, id);
   bool three = false; for (char s : A) three = three || isValidRinexObsID(std::string(1, s) + id.substr(1));
   VF_CHECK("valid.three", isValidRinexObsID(id.substr(1)) == three, id);
   VF_CHECK("valid.length", !isValidRinexObsID(id + "C") && !isValidRinexObsID(id.substr(2)) && !isValidRinexObsID(""), id);
   VF_THROWS("parse.length", InvalidParameter, RinexObsID(id + "C", 3.04), id); VF_THROWS("parse.length", InvalidParameter, RinexObsID(id.substr(2), 3.04), id);
   if (id[1] == 'X') { bool ok = id[2] == '1' && id[3] == ' '; if (!ok) VF_THROWS("parse.channel", InvalidParameter, RinexObsID(id, 3.04), id); else { RinexObsID o(id, 3.04); VF_CHECK("channel", o.type == ObservationType::Channel && o.asString() == "X1 " && v, id << " " << o.asString()); } }
   else if (id[1] == 'I') { bool ok = id[2] >= '1' && id[2] <= '9' && id[3] == ' '; if (!ok) VF_THROWS("parse.iono", InvalidParameter, RinexObsID(id, 3.04), id); else { RinexObsID o(id, 3.04); VF_CHECK("iono", o.type == ObservationType::Iono && o.asString() == id.substr(1), id << " " << o.asString()); } }
   else { VF_NOTHROW("parse.any", RinexObsID(id, 3.04), id); }
}

static void pure(vf::Case& c)       // asking does not change the answer
{
   static std::string first; vf::Rng& r = c.rng;
   if (first.empty()) { std::ostringstream o; RinexObsID::dumpCheck(o); first = o.str(); }
   std::string id = r.str(4, "GRESCJIMXLDSQZWYNABP123456789 *-0/a"); isValidRinexObsID(id); isValidRinexObsID(id.substr(1)); isValidRinexObsID(id.substr(1), id[0]);
   try { RinexObsID o(id, 3.04); } catch (const InvalidParameter&) {}
   std::ostringstream o; RinexObsID::dumpCheck(o); c.distinct(id);
   VF_CHECK("valid.pure", o.str() == first, "table of valid identifiers changed after asking about \"" << id << "\"");
}

template <class E> static void names(const char* what, int last)
{
   std::set<std::string> seen;
   for (int i = 0; i < last; i++)
   {
      E e = (E)i; std::string n = StringUtils::asString(e);
      VF_CHECK(std::string("enum.name.") + what, !n.empty() && n != "???" && n.find(' ') == std::string::npos && seen.insert(n).second, what << " " << i << " is \"" << n << "\"");
   }
}
static void enums(vf::Case& c)
{
   c.distinct(1);
   names<CarrierBand>("band", (int)CarrierBand::Last); names<TrackingCode>("code", (int)TrackingCode::Last); names<ObservationType>("type", (int)ObservationType::Last); names<SatelliteSystem>("system", (int)SatelliteSystem::Last); names<NavType>("nav", (int)NavType::Last);
   for (int i = 0; i < (int)CarrierBand::Last; i++) { CarrierBand e = (CarrierBand)i; VF_CHECK("enum.trip.band", StringUtils::asCarrierBand(StringUtils::asString(e)) == e && ObsID::cbDesc.count(e), StringUtils::asString(e)); }
   for (int i = 0; i < (int)TrackingCode::Last; i++) { TrackingCode e = (TrackingCode)i; VF_CHECK("enum.trip.code", StringUtils::asTrackingCode(StringUtils::asString(e)) == e && ObsID::tcDesc.count(e), StringUtils::asString(e)); }
   for (int i = 0; i < (int)ObservationType::Last; i++) { ObservationType e = (ObservationType)i; VF_CHECK("enum.trip.type", StringUtils::asObservationType(StringUtils::asString(e)) == e && ObsID::otDesc.count(e), StringUtils::asString(e)); }
   for (int i = 0; i < (int)SatelliteSystem::Last; i++) { SatelliteSystem e = (SatelliteSystem)i; VF_CHECK("enum.trip.system", StringUtils::asSatelliteSystem(StringUtils::asString(e)) == e && convertStringToSatelliteSystem(convertSatelliteSystemToString(e)) == e, StringUtils::asString(e)); }
   for (int i = 0; i < (int)NavType::Last; i++) { NavType e = (NavType)i; VF_CHECK("enum.trip.nav", StringUtils::asNavType(StringUtils::asString(e)) == e && NavID(StringUtils::asString(e)).navType == e, StringUtils::asString(e)); }
}

static void satid(vf::Case& c)
{
   vf::Rng& r = c.rng; static const std::string CH = "GRETSJCI"; static const SatelliteSystem SY[8] = { SatelliteSystem::GPS, SatelliteSystem::Glonass, SatelliteSystem::Galileo, SatelliteSystem::Transit, SatelliteSystem::Geosync, SatelliteSystem::QZSS, SatelliteSystem::BeiDou, SatelliteSystem::IRNSS };
   int s = (int)(c.idx % 8), n = 1 + (int)(c.idx / 8) % 99; char ch = CH[s]; char b[16];
   int id = n; if (ch == 'S') id = n + 100; if (ch == 'J') id = n < 83 ? n + 192 : n + 100;
   if (ch == 'J' && n > 87) return;        // not a QZSS number
   c.distinct(ch + std::to_string(n));
   SatID want(id, SY[s]);
   snprintf(b, 16, "%c%02d", ch, n); std::string z = b; snprintf(b, 16, "%c%2d", ch, n); std::string sp = b; snprintf(b, 16, "%c%d", tolower(ch), n); std::string lo = b;
   VF_CHECK("sat.parse", RinexSatID(z) == want && RinexSatID(sp) == want && RinexSatID(lo) == want && RinexSatID("  " + z) == want, z << " reads as " << RinexSatID(z));
   RinexSatID x(want);
   VF_CHECK("sat.print", x.toString() == z && x.systemChar() == ch && RinexSatID(id, SY[s]).toString() == z, want << " prints as " << x.toString());
   char old = x.setfill(' '); std::string f = x.toString(); x.setfill(old);
   VF_CHECK("sat.fill", f == sp && x.toString() == z, f);
   if (ch == 'G') VF_CHECK("sat.default", RinexSatID(std::to_string(n)) == want, n);
   if (std::string("GRECJ").find(ch) != std::string::npos && (ch != 'J' || n < 83))
   {
      VF_CHECK("sp3.parse", (SatID)SP3SatID(z) == want && (SatID)SP3SatID(sp) == want && (SatID)SP3SatID(lo) == want, z << " reads as " << SP3SatID(z));
      VF_CHECK("sp3.print", SP3SatID(want).toString() == z, want << " prints as " << SP3SatID(want).toString());
   }
   if (ch == 'G') { SatID l(n, SatelliteSystem::LEO); snprintf(b, 16, "L%02d", n); VF_CHECK("sp3.leo", SP3SatID(l).toString() == b && (SatID)SP3SatID(std::string(b)) == l, b); VF_CHECK("sat.nonrinex", RinexSatID(l).id == -1 && RinexSatID(l).system == SatelliteSystem::Unknown, b); }
   if (ch == 'S' || ch == 'T' || ch == 'I') VF_CHECK("sp3.non", SP3SatID(want).id == -1, z);
   char badc = r.pick({'X', 'Q', 'Z', '?', '#', 'A', '-', 'b'});
   VF_THROWS("sat.badsys", Exception, RinexSatID(badc + std::to_string(n)), badc); VF_THROWS("sp3.badsys", Exception, SP3SatID(badc + std::to_string(n)), badc);
   VF_CHECK("sat.none", RinexSatID(std::string(1, ch)).id == -1 && RinexSatID(std::string(1, ch) + "00").id == -1 && RinexSatID(std::string("   ")).id == -1, ch);
      // ordering
   SatID o((int)r.range(-1, 200), SY[r.below(8)]), p((int)r.range(-1, 200), SY[r.below(8)]);
   bool lt = o.system < p.system || (o.system == p.system && o.id < p.id), eq = o.system == p.system && o.id == p.id;
   VF_CHECK("sat.order", (o < p) == lt && (o == p) == eq && (o != p) == !eq && (o > p) == (!lt && !eq) && (o <= p) == (lt || eq) && (o >= p) == !lt, o << " vs " << p);
   VF_CHECK("sat.isvalid", o.isValid() == (o.id > 0 && (o.system == SatelliteSystem::GPS ? o.id <= 32 : o.id < 100)), o);
   std::string h = std::string(1, ch) + r.str(r.range(1, 12), "0123456789- +.e");
   int hid = 0; try { hid = RinexSatID(h).id; SP3SatID q(h); } catch (const Exception&) {}
   c.note(h); VF_CHECK("sat.hostile", hid == -1 || hid >= 0, h << " gave " << hid);
}

static void order(vf::Case& c)      // the orderings are strict weak orders usable as map keys
{
   vf::Rng& r = c.rng; std::vector<ObsID> v;
   for (int i = 0; i < 3; i++) v.push_back(ObsID((ObservationType)r.below(5), (CarrierBand)r.below(4), (TrackingCode)r.below(4)));
   const ObsID &a = v[0], &b = v[1], &d = v[2]; std::ostringstream o; o << (int)a.type << (int)a.band << (int)a.code << "/" << (int)b.type << (int)b.band << (int)b.code << "/" << (int)d.type << (int)d.band << (int)d.code; c.distinct(o.str());
   bool same = a.type == b.type && a.band == b.band && a.code == b.code;
   VF_CHECK("order.total", (a < b) + (b < a) + same == 1, o.str());
   VF_CHECK("order.trans", !(a < b && b < d) || a < d, o.str());
   bool any = (a.type == b.type || a.type == ObservationType::Any || b.type == ObservationType::Any) && (a.band == b.band || a.band == CarrierBand::Any || b.band == CarrierBand::Any) && (a.code == b.code || a.code == TrackingCode::Any || b.code == TrackingCode::Any);
   VF_CHECK("order.equal", (a == b) == any && (a != b) == !any && (b == a) == any, o.str());
}

struct NavRow { SatelliteSystem s; int lo, hi; CarrierBand b; TrackingCode t; NavType n; };
static void nav(vf::Case& c)        // which message a signal carries
{
   typedef SatelliteSystem S; typedef NavType N; static std::vector<NavRow> rows;
   if (rows.empty())
   {
      for (CarrierBand b : {B_(L1), B_(L2)}) for (TrackingCode t : {T_(CA), T_(P), T_(Y), T_(Ztracking), T_(YCodeless), T_(Semicodeless)}) rows.push_back({S::GPS, 1, 32, b, t, N::GPSLNAV});
      for (CarrierBand b : {B_(L1), B_(L2)}) rows.push_back({S::GPS, 1, 32, b, T_(MDP), N::GPSMNAV});
      rows.push_back({S::QZSS, 193, 199, B_(L1), T_(CA), N::GPSLNAV});
      for (S s : {S::GPS, S::QZSS}) { int lo = s == S::GPS ? 1 : 193, hi = s == S::GPS ? 32 : 199;
         for (TrackingCode t : {T_(L2CM), T_(L2CL), T_(L2CML)}) rows.push_back({s, lo, hi, B_(L2), t, N::GPSCNAVL2});
         for (TrackingCode t : {T_(L5I), T_(L5Q), T_(L5IQ)}) rows.push_back({s, lo, hi, B_(L5), t, N::GPSCNAVL5});
         for (TrackingCode t : {T_(L1CP), T_(L1CD), T_(L1CDP)}) rows.push_back({s, lo, hi, B_(L1), t, N::GPSCNAV2}); }
      for (auto bt : std::vector<std::pair<CarrierBand, std::vector<TrackingCode> > >{{B_(B1), {T_(B1I), T_(B1Q), T_(B1IQ)}}, {B_(B2), {T_(B2I), T_(B2Q), T_(B2IQ)}}, {B_(B3), {T_(B3I), T_(B3Q), T_(B3IQ)}}})
         for (TrackingCode t : bt.second) { rows.push_back({S::BeiDou, 1, 5, bt.first, t, N::BeiDou_D2}); rows.push_back({S::BeiDou, 6, 37, bt.first, t, N::BeiDou_D1}); }
      for (CarrierBand b : {B_(G1), B_(G2)}) rows.push_back({S::Glonass, 1, 24, b, T_(Standard), N::GloCivilF});
      for (TrackingCode t : {T_(L3OCD), T_(L3OCP), T_(L3OCDP)}) rows.push_back({S::Glonass, 1, 24, B_(G3), t, N::GloCivilC});
      rows.push_back({S::Galileo, 1, 36, B_(L1), T_(E1B), N::GalINAV}); rows.push_back({S::Galileo, 1, 36, B_(E5b), T_(E5bI), N::GalINAV}); rows.push_back({S::Galileo, 1, 36, B_(L5), T_(E5aI), N::GalFNAV});
      for (TrackingCode t : {T_(SPSL5), T_(RSL5D), T_(RSL5P), T_(RSL5DP)}) rows.push_back({S::IRNSS, 1, 14, B_(L5), t, N::IRNSS_SPS});
      rows.push_back({S::GPS, 1, 32, B_(L5), T_(CA), N::Unknown}); rows.push_back({S::GPS, 1, 32, B_(L1), T_(L2CM), N::Unknown}); rows.push_back({S::Galileo, 1, 36, B_(L1), T_(E1C), N::Unknown}); rows.push_back({S::Geosync, 120, 140, B_(L1), T_(CA), N::Unknown}); rows.push_back({S::Glonass, 1, 24, B_(G1), T_(Precise), N::Unknown});
   }
   const NavRow& w = rows[c.idx % rows.size()];
   for (int id = w.lo; id <= w.hi; id++)
   {
      NavID n(SatID(id, w.s), ObsID(ObservationType::NavMsg, w.b, w.t)); c.distinct(c.idx * 1000 + id);
      VF_CHECK("nav.type", n.navType == w.n, SatID(id, w.s) << " " << StringUtils::asString(w.b) << " " << StringUtils::asString(w.t) << " carries " << StringUtils::asString(n.navType));
   }
   c.count("nav_rows", rows.size());
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {{"obsid", NROWS * 4 * 20, NROWS * 4 * 200, obsid}, {"allcodes", 30000, 600000, allcodes}, {"pure", 2000, 20000, pure}, {"enums", 1, 1, enums}, {"satid", 8 * 99 * 4, 8 * 99 * 100, satid}, {"order", 20000, 300000, order}, {"nav", 100, 100, nav}});
}
