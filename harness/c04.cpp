// C04: printing and scanning times
#include "timemodel.hpp"
#include "TimeString.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "GPSWeekSecond.hpp"
#include "StringUtils.hpp"
using namespace gpstk; using namespace tm_;

static const char* MON[] = {"January","February","March","April","May","June","July","August","September","October","November","December"};
static const long EP_GPS = 2444245, EP_GAL = 2451413, EP_BDS = 2453737;

// expected text of one conversion; empty when the time cannot be so represented
static bool expectText(char ch, const std::string& flags, const CommonTime& t, std::string& out)
{
   long day, ms; double fs; TimeSystem ts; t.getInternal(day, ms, fs, ts);
   Ymd c = civil(day); double sod = ms / 1000.0 + fs; char b[400];
   auto I = [&](long long v) { std::string f = "%" + flags + "lld"; snprintf(b, sizeof b, f.c_str(), v); out = b; return true; };
   auto S = [&](const std::string& v) { std::string f = "%" + flags + "s"; snprintf(b, sizeof b, f.c_str(), v.c_str()); out = b; return true; };
   auto F = [&](double v) { std::string f = "%" + flags + "f"; snprintf(b, sizeof b, f.c_str(), v); out = b; return true; };
   auto L = [&](long double v) { std::string f = "%" + flags + "Lf"; snprintf(b, sizeof b, f.c_str(), v); out = b; return true; };
   i128 us = (value(t) + ATTO / 2000000) / (ATTO / 1000000) - (i128)J_UNIX * 86400 * 1000000;
   i128 ns = (value(t) + ATTO / 2000000000) / (ATTO / 1000000000) - (i128)J_UNIX * 86400 * 1000000000;
   auto week = [&](long ep, char full, char mod, char roll, int bits) -> int {
      if (ch != full && ch != mod && ch != roll) return 0;
      if (day < ep) return -1;
      long w = (day - ep) / 7;
      I(ch == full ? w : ch == mod ? (w & ((1L << bits) - 1)) : (w >> bits)); return 1; };
   int k;
   if ((k = week(EP_GPS, 'F', 'G', 'E', 10)) || (k = week(EP_GAL, 'L', 'l', 'T', 12)) || (k = week(EP_BDS, 'D', 'e', 'R', 13))
       || (k = week(EP_GPS, 'h', 'i', 'V', 16)) || (k = week(EP_GAL, 'O', 'o', 'X', 10))) return k > 0;
   long nd = day - EP_GPS;
   switch (ch)
   {
      case 'Y': return I(c.y);
      case 'y': return c.y >= 0 ? I(c.y % 100) : false;
      case 'm': return I(c.m);
      case 'b': return S(std::string(MON[c.m-1]).substr(0, 3));
      case 'B': return S(MON[c.m-1]);
      case 'd': return I(c.d);
      case 'H': return I(ms / 3600000);
      case 'M': return I(ms / 60000 % 60);
      case 'S': return I(ms / 1000 % 60);
      case 'f': return F(ms / 1000 % 60 + ((ms % 1000) / 1000.0 + fs));
      case 'j': return I(doy(c, day));
      case 's': return F(sod);
      case 'w': return day >= EP_GPS ? I(nd % 7) : false;
      case 'g': return day >= EP_GPS ? F((nd % 7) * 86400 + ms / 1000 + ((ms % 1000) / 1000.0 + fs)) : false;
      case 'z': case 'Z': return day >= EP_GPS ? I(nd % 7 * 57600 + ms / 1500) : false;
      case 'c': return day >= EP_GPS ? I((((nd / 7) & 1023) << 19) | (nd % 7 * 57600 + ms / 1500)) : false;
      case 'C': return day >= EP_GPS && nd / 7 < 4096 ? I(((nd / 7) << 19) | (nd % 7 * 57600 + ms / 1500)) : false;
      case 'Q': return L((long double)(day - J_MJD0) + (long double)sod / 86400.0L);
      case 'J': return L((long double)day - 0.5L + (long double)sod / 86400.0L);
      case 'K': if (day < J_UNIX || day > J_UNIX + 24850) return false; return I((long long)((value(t) - (i128)J_UNIX * DAYA) / ATTO));
      case 'U': if (day < J_UNIX) return false; return I((long long)(us / 1000000));
      case 'u': if (day < J_UNIX) return false; return I((long long)(us % 1000000));
      case 'W': if (day < J_UNIX || day > J_UNIX + 24850) return false; return I((long long)(ns / 1000000000));
      case 'N': if (day < J_UNIX || day > J_UNIX + 24850) return false; return I((long long)(ns % 1000000000));
      case 'P': return S(StringUtils::asString(ts));
   }
   return false;
}

static CommonTime genT(vf::Rng& r, bool modern)
{
   TimeSystem ts = r.pick(SYSTEMS);
   CommonTime t = modern ? genTime(r, ts, EP_BDS, J_UNIX + 24800) : genTime(r, ts, 1721424 + 366, J_MAX - 400);
   long d, ms; double fs; t.getInternal(d, ms, fs);
   // keep off the representable edges where one ulp decides the digit
   if (fs > 0.0009999) fs = 0.0009;
   if (ms == 86399999 || ms % 1500 == 1499) fs = 0;
   t.setInternal(d, ms, fs, ts);
   return t;
}

static void print(vf::Case& c)
{
   vf::Rng& r = c.rng;
   CommonTime t = genT(r, r.chance(0.7));
   static const std::string ints = "YymdHMSjwzZcCKUuWNFGELlTDeRhiVOoX", flts = "fsgQJ", strs = "bBP";
   std::string fmt, want; int n = (int)r.range(1, 6);
   double loose = 0; bool any = false;
   for (int i = 0; i < n; i++)
   {
      char ch; std::string fl; int cls = (int)r.below(6);
      if (cls < 4) { ch = r.pick(std::vector<char>(ints.begin(), ints.end())); if (r.chance(0.5)) fl = r.pick({std::string("0"), std::string(""), std::string("-")}) + std::to_string(r.range(1, 12)); }
      else if (cls == 4) { ch = r.pick(std::vector<char>(flts.begin(), flts.end())); int p = (int)r.range(0, ch == 'Q' || ch == 'J' ? 6 : 7); fl = r.pick({std::string("0"), std::string(""), std::string("-")}) + std::to_string(r.range(1, 20)) + "." + std::to_string(p); if (r.chance(0.2)) fl = ""; loose = 1; }
      else { ch = r.pick(std::vector<char>(strs.begin(), strs.end())); if (r.chance(0.5)) fl = r.pick({std::string(""), std::string("-")}) + std::to_string(r.range(1, 12)); }
      std::string tx;
      if (!expectText(ch, fl, t, tx)) continue;
      std::string sep = r.pick({std::string(" "), std::string("/"), std::string(":"), std::string(" week "), std::string(", "), std::string("|")});
      fmt += "%" + fl + std::string(1, ch) + sep; want += tx + sep; any = true;
   }
   if (!any) return;
   c.note(show(t) + " fmt " + fmt); c.distinct(fmt + want);
   if (r.chance(0.001)) c.sample("printTime(" + show(t) + ", \"" + fmt + "\") = \"" + want + "\"");
   std::string got = printTime(t, fmt);
   bool ok = got == want;
   if (!ok && loose)
   {  // a decimal rounding tie may go either way: compare numbers instead of digits
      std::istringstream a(got), b(want); std::string x, y; ok = true;
      while (ok)
      {
         bool ha = bool(a >> x), hb = bool(b >> y);
         if (ha != hb) { ok = false; break; }
         if (!ha) break;
         if (x == y) continue;
         char *e1, *e2; const char *p1 = x.c_str(), *p2 = y.c_str();
         for (;;)
         {
            long double v1 = strtold(p1, &e1), v2 = strtold(p2, &e2);
            if (e1 == p1 || e2 == p2) { if (*p1 != *p2) { ok = false; break; } if (!*p1) break; ++p1; ++p2; continue; }
            size_t d1 = std::string(p1, (const char*)e1).find('.'); int prec = d1 == std::string::npos ? 0 : (int)(std::string(p1, (const char*)e1).size() - d1 - 1);
            if (std::fabs((double)(v1 - v2)) > 1.01 * std::pow(10.0, -prec) ) { ok = false; break; }
            p1 = e1; p2 = e2;
         }
      }
   }
   VF_CHECK("print.text", ok, show(t) << " fmt \"" << fmt << "\" gave \"" << got << "\" want \"" << want << "\"");
   std::string got2 = printTime(t, fmt);
   VF_CHECK("print.stable", got2 == got, fmt);
}

struct Spec { const char* chars; int res; int mixed; };   // res: 0 exact to ~1e-6, 1 whole seconds, 2 1.5 s, 3 day
static const Spec SPECS[] = {
   {"YmdHMf", 0, 1}, {"YbdHMf", 0, 1}, {"YBdHMf", 0, 1}, {"YmdHMS", 1, 1}, {"dbyHMS", 1, 1}, {"ymdHMf", 0, 1}, {"Ymds", 0, 1}, {"mdYs", 0, 1},
   {"Yjs", 0, 1}, {"jYs", 0, 1}, {"yjs", 0, 1}, {"YjHMS", 1, 1}, {"YjHMf", 0, 1}, {"Ymd", 3, 1}, {"Yj", 3, 1},
   {"Fg", 0, 1}, {"EGg", 0, 2}, {"gF", 0, 1}, {"Fws", 0, 1}, {"FwHMS", 1, 1}, {"FwHMf", 0, 1}, {"Fw", 3, 1}, {"FZ", 2, 1}, {"Fz", 2, 1}, {"C", 2, 1}, {"EGz", 2, 2}, {"Ec", 2, 2},
   {"Dg", 0, 1}, {"Reg", 0, 2}, {"Lg", 0, 1}, {"Tlg", 0, 2}, {"hg", 0, 1}, {"Vig", 0, 2}, {"Og", 0, 1}, {"Xog", 0, 2},
   {"Q", 0, 1}, {"J", 0, 1}, {"K", 1, 1}, {"Uu", 0, 1}, {"WN", 0, 1}
};

static std::string mkfmt(vf::Rng& r, const Spec& s, bool widths, bool withP)
{
   std::string f;
   for (const char* p = s.chars; *p; ++p)
   {
      std::string fl;
      switch (*p)
      {
         case 'Y': fl = "04"; break;
         case 'y': case 'm': case 'd': case 'H': case 'M': case 'S': fl = "02"; break;
         case 'f': fl = "09.6"; break;
         case 'j': fl = "03"; break;
         case 's': fl = "012.6"; break;
         case 'g': fl = "013.6"; break;
         case 'Q': fl = "020.11"; break;
         case 'J': fl = "020.11"; break;
         case 'w': fl = "01"; break;
         case 'u': fl = "06"; break;
         case 'N': fl = "09"; break;
         case 'b': fl = "3"; break;
         case 'B': fl = ""; break;
         case 'z': case 'Z': fl = "06"; break;
         default: fl = "010";
      }
      if (!widths && *p != 'Q' && *p != 'J' && r.chance(0.6)) fl = "";
      f += "%" + fl + *p;
      if (p[1] || withP) f += widths && *p != 'B' ? (r.chance(0.5) ? "" : r.pick({std::string("/"), std::string(":"), std::string("_")})) : r.pick({std::string(" "), std::string("/"), std::string(":"), std::string(","), std::string("_")});
   }
   if (withP) f += "%P";
   return f;
}

static void scan(vf::Case& c)
{
   vf::Rng& r = c.rng;
   const Spec& s = SPECS[c.idx % (sizeof SPECS / sizeof *SPECS)];
   std::string chs = s.chars;
   CommonTime t = genT(r, true);
   long d, ms; double fs; TimeSystem ts; t.getInternal(d, ms, fs, ts);
   if (chs.find('y') == std::string::npos && chs[0] == 'Y' && r.chance(0.4)) d = genDay(r, 1721424 + 366, J_MAX - 400);
   if (chs == "Q" || chs == "J") { if (r.chance(0.4)) d = genDay(r, 1721424, J_MAX - 400); }
   if (chs.find_first_of("FEC") != std::string::npos && r.chance(0.4)) d = genDay(r, EP_GPS, EP_GPS + 7 * 4095);
   if (chs == "Lg" || chs == "Tlg" || chs == "Og" || chs == "Xog") { if (d < EP_GAL) d = EP_GAL + r.range(0, 9000); }
   if (s.res == 3) { ms = 0; fs = 0; }
   if (s.res == 2) { ms = ms / 1500 * 1500; fs = 0; }
   if (s.res == 1) { ms = ms / 1000 * 1000; fs = 0; }
   if (s.res == 0) { fs = floor(fs * 1e6) * 1e-6; }
   if (chs == "Q" || chs == "J") fs = 0;
   if (chs.find('w') != std::string::npos || chs.find('g') != std::string::npos) {}   // %w and %g print the GPS day and second of week; all five systems start weeks on Sunday
   t.setInternal(d, ms, fs, ts);
   bool withP = r.chance(0.7), widths = r.chance(0.4);
   std::string fmt = mkfmt(r, s, widths, withP);
   std::string tx = printTime(t, fmt);
   c.note(show(t) + " fmt " + fmt + " text " + tx); c.distinct(fmt + tx);
   if (r.chance(0.0005)) c.sample("scanTime(\"" + tx + "\", \"" + fmt + "\")");
   double tol = chs == "Q" || chs == "J" ? 2e-6 : 1.2e-6;
   std::string key = std::string("scan.") + s.chars;
   CommonTime g;
   VF_NOTHROW(key + ".ok", scanTime(g, tx, fmt), show(t) << " text \"" << tx << "\" fmt \"" << fmt << "\"");
   VF_CHECK(key, std::fabs(secdiff(value(g), value(t))) < tol && normalised(g) && (!withP || g.getTimeSystem() == ts), show(t) << " text \"" << tx << "\" fmt \"" << fmt << "\" scanned " << show(g));
   CommonTime m;
   if (s.mixed == 2) m.setInternal(EP_BDS + 7 * r.range(0, 100), 0, 0, TimeSystem::GPS);
   std::string mk = std::string("mixed.") + s.chars;
   if (s.mixed && chs != "Fg_")
   {
      VF_NOTHROW(mk + ".ok", mixedScanTime(m, tx, fmt), show(t) << " text \"" << tx << "\" fmt \"" << fmt << "\"");
      VF_CHECK(mk, std::fabs(secdiff(value(m), value(t))) < tol && normalised(m), show(t) << " text \"" << tx << "\" fmt \"" << fmt << "\" mixed-scanned " << show(m));
   }
}

static void twoDigit(vf::Case& c)    // every two-digit year against the POSIX pivot, through every reader
{
   vf::Rng& r = c.rng;
   int yy = (int)(c.idx % 100), want = yy >= 69 ? 1900 + yy : 2000 + yy;
   int mo = (int)r.range(1, 12), dd = (int)r.range(1, 28), doy = (int)r.range(1, 365);
   char b[64]; const char* k[] = {"scan.y.civil", "scan.y.doy", "mixed.y.civil", "mixed.y.doy"};
   for (int i = 0; i < 4; i++)
   {
      bool civ = i % 2 == 0; std::string fmt = civ ? "%02y %02m %02d" : "%02y %03j";
      if (r.chance(0.5)) fmt = civ ? "%y/%m/%d" : "%y/%j";
      std::string sep = fmt.find('/') != std::string::npos ? "/" : " ";
      if (civ) snprintf(b, 64, "%02d%s%02d%s%02d", yy, sep.c_str(), mo, sep.c_str(), dd); else snprintf(b, 64, "%02d%s%03d", yy, sep.c_str(), doy);
      CommonTime g; VF_NOTHROW(std::string(k[i]) + ".ok", if (i < 2) scanTime(g, b, fmt); else mixedScanTime(g, b, fmt), b << " fmt " << fmt);
      CivilTime cv(g); YDSTime yd(g);
      VF_CHECK(k[i], civ ? cv.year == want && cv.month == mo && cv.day == dd : yd.year == want && yd.doy == doy, "\"" << b << "\" fmt \"" << fmt << "\" gave " << show(g) << " expected year " << want);
      c.distinct(b + fmt);
   }
}

static void systems(vf::Case& c)     // names of the time systems
{
   TimeSystem ts = SYSTEMS[c.idx % SYSTEMS.size()];
   std::string n = StringUtils::asString(ts);
   VF_CHECK("sys.name", StringUtils::asTimeSystem(n) == ts && !n.empty(), n);
   c.distinct(n);
}

static void hostile(vf::Case& c)     // any text against any format: a time in normal form or a library exception
{
   vf::Rng& r = c.rng;
   const Spec& s = SPECS[r.below(sizeof SPECS / sizeof *SPECS)];
   std::string fmt = mkfmt(r, s, r.chance(0.5), r.chance(0.5));
   CommonTime t = genT(r, true);
   std::string tx = printTime(t, fmt);
   int n = (int)r.range(1, 4);
   for (int i = 0; i < n; i++)
   {
      std::string& x = r.chance(0.75) ? tx : fmt;
      size_t p = r.below(x.size() + 1);
      switch (r.below(6))
      {
         case 0: if (p < x.size()) x.erase(p, r.range(1, 4)); break;
         case 1: x.insert(p, r.str(r.range(1, 4), "0123456789 -+.eE/:%abcYmdHMSfjsFGEgzZUuQJ")); break;
         case 2: if (p < x.size()) x[p] = r.str(1, "0123456789 -+.eE/:%xYn")[0]; break;
         case 3: x = x.substr(0, p); break;
         case 4: x += x.substr(0, p); break;
         default: x.insert(p, &x == &fmt ? r.pick({std::string("99"), std::string("%"), std::string("%5")}) : r.pick({std::string("99999"), std::string("-1"), std::string("4294967296"), std::string("\xff\xfe"), std::string("%"), std::string("%5")}));
      }
   }
   for (size_t i = 0; i < fmt.size(); i++)      // formats stay well formed: %[flag][up to 2 digits][.digit]letter
   {
      if (fmt[i] != '%') continue;
      size_t j = i + 1, dg = 0; if (j < fmt.size() && fmt[j] == '-') ++j;
      while (j < fmt.size() && isdigit(fmt[j])) ++j, ++dg;
      if (j + 1 < fmt.size() && fmt[j] == '.') { ++j; while (j < fmt.size() && isdigit(fmt[j])) ++j, ++dg; }
      if (j >= fmt.size() || !isalpha((unsigned char)fmt[j]) || dg > 5) { fmt = "%Y %j %s"; break; }
   }
   c.note("text " + tx + " fmt " + fmt); c.distinct(tx + "\1" + fmt);
   for (int k = 0; k < 2; k++)
   {
      CommonTime g;
      bool threw = false;
      try { if (k) mixedScanTime(g, tx, fmt); else scanTime(g, tx, fmt); }
      catch (const gpstk::Exception&) { threw = true; }
      VF_CHECK("hostile.outcome", threw || normalised(g), "\"" << tx << "\" fmt \"" << fmt << "\" gave " << show(g));
      c.count(threw ? "hostile_refused" : "hostile_accepted");
   }
   std::string out; 
   try { out = printTime(t, fmt); } catch (const gpstk::Exception&) {}
   if (r.chance(0.1))
   {
      std::string w = std::to_string(r.range(400, 2000)); char ch = r.pick({'Y', 'm', 'F', 'j', 'P', 's'});
      std::string o = printTime(t, "%" + w + ch);
      VF_CHECK("print.wide", o.size() == (size_t)atoi(w.c_str()), "width " << w << " gave " << o.size());
   }
}

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {
      {"print", 8000, 300000, print},
      {"scan", 8000, 300000, scan},
      {"twodigit", 800, 8000, twoDigit},
      {"systems", 96, 96, systems},
      {"hostile", 8000, 300000, hostile}});
}
