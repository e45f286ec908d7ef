// C37: command lines say what was typed.
#include "vf.hpp"
#include "CommandOption.hpp"
#include "CommandOptionParser.hpp"
#include "CommandOptionWithTimeArg.hpp"
#include "CommandOptionWithCommonTimeArg.hpp"
#include "CommandOptionWithPositionArg.hpp"
#include "CommandLine.hpp"
#include "expandtilde.hpp"
#include "logstream.hpp"
#include "YDSTime.hpp"
#include "CivilTime.hpp"
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
using namespace gpstk;
using std::map;
using std::ostringstream;
using std::set;
using std::string;
using std::vector;

namespace {
const string ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const string ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const string DIG = "0123456789";

// arguments live for ever, as those of a process do
std::deque<vector<char>> gArgs;
struct Argv
{
   vector<char*> p;
   explicit Argv(const vector<string>& a)
   {
      if (gArgs.size() > 20000) gArgs.erase(gArgs.begin(), gArgs.begin() + 10000);
      for (const string& s : a) { gArgs.emplace_back(s.c_str(), s.c_str() + s.size() + 1); p.push_back(gArgs.back().data()); }
      p.push_back(nullptr);
   }
   int argc() const { return int(p.size()) - 1; }
   char** argv() { return p.data(); }
};
string show(const vector<string>& a)
{
   string o;
   for (const string& s : a) o += "[" + s + "]";
   return o;
}
vector<string> lines(const string& s)
{
   vector<string> v;
   std::istringstream is(s);
   string l;
   while (std::getline(is, l)) v.push_back(l);
   return v;
}
bool isWordIn(const string& text, const string& w)
{
   for (size_t p = text.find(w); p != string::npos; p = text.find(w, p + 1))
   {
      bool l = p == 0 || !(isalnum((unsigned char)text[p - 1]) || text[p - 1] == '-');
      bool r = p + w.size() >= text.size() || !(isalnum((unsigned char)text[p + w.size()]) || text[p + w.size()] == '-');
      if (l && r) return true;
   }
   return false;
}

// ------------------------------------------------------------ parser
enum Kind { kNo, kAny, kNum, kDec, kStr, kTime, kSimple, kCommon, kPos, kHelp, kSimpleHelp, kMax };
const char* argName(Kind k)
{
   switch (k)
   {
      case kNum: return "NUM";
      case kDec: return "DEC";
      case kStr: return "<alpha>";
      case kTime: case kSimple: case kCommon: return "TIME";
      case kPos: return "POSITION";
      default: return "ARG";
   }
}
struct Opt
{
   Kind k;
   char s;
   string l, desc, help;
   bool req;
   unsigned long maxCount = 0;
   std::unique_ptr<CommandOption> o;
   // expected
   vector<string> val;
   vector<bool> ok;
   vector<CommonTime> times;
   vector<double> pos;
   vector<unsigned long> order;
   unsigned long cnt = 0;
   bool arg() const { return k != kNo && k != kHelp && k != kSimpleHelp; }
   string optStr() const
   {
      string r;
      if (s) r = string("-") + s;
      if (s && !l.empty()) r += " | ";
      if (!l.empty()) r += "--" + l;
      return r;
   }
   string fullStr(const string& an) const
   {
      string r = "  ";
      if (s) r += string("-") + s; else r += "    ";
      if (s && !l.empty()) r += ", ";
      if (!l.empty()) r += "--" + l;
      if (arg()) r += (l.empty() ? "  " : "=") + an;
      return r;
   }
};
string digits(vf::Rng& r, int lo, int hi) { return r.str(int(r.range(lo, hi)), DIG); }
// a value for the option, and whether it is one of its kind
string valueFor(vf::Rng& r, Opt& o, bool& ok)
{
   ok = !r.chance(0.15);
   string sg = r.chance(0.3) ? r.pick(vector<string>{"-", "+"}) : "";
   switch (o.k)
   {
      case kNum:
         if (ok) return sg + digits(r, 1, 9);
         return r.pick(vector<string>{"-", "+", "1.5", "12a", "a", " 1", "1 ", "--1", "0x1f", "+-3"});
      case kDec:
         if (ok)
         {
            int t = int(r.range(0, 3));
            if (t == 0) return sg + digits(r, 1, 9);
            if (t == 1) return sg + digits(r, 1, 6) + "." + digits(r, 1, 6);
            if (t == 2) return sg + "." + digits(r, 1, 6);
            return sg + digits(r, 1, 6) + ".";
         }
         return r.pick(vector<string>{"-", "+", ".", "-.", "1.2.3", "1e5", "a", " 1.0", "..", "1,5"});
      case kStr:
         if (ok) return r.str(int(r.range(1, 9)), ALPHA);
         return r.pick(vector<string>{"a1", "a b", "1", "-a", "a.", "_"});
      case kTime: case kCommon: case kSimple:
      {
         int y = int(r.range(1970, 2060)), d = int(r.range(1, 365)), s = int(r.range(0, 86399));
         if (!ok)
         {
            if (o.k == kSimple) return r.pick(vector<string>{"a b c d", "2001 2 3 4", "  "});
            return r.pick(vector<string>{"x", "hello"});
         }
         int t = o.k == kSimple ? int(r.range(0, 2)) : 2;
         if (t == 2)
         {
            o.times.push_back(YDSTime{y, d, double(s)}.convertToCommonTime());
            return std::to_string(y) + " " + std::to_string(d) + " " + std::to_string(s);
         }
         if (t == 1)
         {
            o.times.push_back(YDSTime{y, d, 0.0}.convertToCommonTime());
            return std::to_string(y) + " " + std::to_string(d);
         }
         int m = int(r.range(1, 12)), dd = int(r.range(1, 28));
         o.times.push_back(CivilTime{y, m, dd, 0, 0, 0.0}.convertToCommonTime());
         return std::to_string(m) + "/" + std::to_string(dd) + "/" + std::to_string(y);
      }
      case kPos:
      {
         ok = true;
         string v;
         for (int i = 0; i < 3; i++)
         {
            double x = r.unif(1e6, 5e6) * (r.chance(0.5) ? 1 : -1);
            char b[40];
            snprintf(b, sizeof b, "%.3f", x);
            o.pos.push_back(atof(b));
            v += (i ? " " : "") + string(b);
         }
         return v;
      }
      default:
         ok = true;
         if (r.chance(0.08)) return "";
         if (r.chance(0.2)) return r.pick(vector<string>{"-5", "--", "-x", "--foo", "=", "a=b", "-"});
         return r.str(int(r.range(1, 8)), ALNUM + " .,=-/");
   }
}
struct Meta
{
   int t;                       // 0 NOf 1 OneOf 2 AllOf 3 Mutex 4 Mutex required 5 Dependent
   unsigned long n, mx;
   vector<int> of;              // options, or groups when >= 1000
   std::unique_ptr<CommandOption> o;
};
struct Group
{
   bool andG;
   vector<int> of;
   std::unique_ptr<CommandOptionGroupOr> o;
};

void stParser(vf::Case& c)
{
   vf::Rng& r = c.rng;
   defaultCommandOptionList.clear();
   if (r.chance(0.5)) unsetenv("COLUMNS");
   else setenv("COLUMNS", std::to_string(r.range(40, 200)).c_str(), 1);
   bool useDefault = r.chance(0.6);
   // ---- options with distinct names
   int n = int(r.range(1, 10));
   vector<Opt> os(n);
   set<char> us;
   set<string> ul;
   for (int i = 0; i < n; i++)
   {
      Opt& o = os[i];
      o.k = Kind(r.range(0, kMax - 1));
      if (r.chance(0.4)) o.k = r.chance(0.5) ? kNo : kAny;
      bool wantS = r.chance(0.7);
      o.s = 0;
      if (wantS)
         do o.s = ALNUM[r.below(ALNUM.size())];
         while (us.count(o.s));
      if (!wantS || r.chance(0.7))
      {
         do {
            o.l = r.str(r.chance(0.1) ? 1 : int(r.range(2, 9)), ALNUM);
            if (r.chance(0.15)) o.l += "-" + r.str(int(r.range(1, 4)), ALNUM);
         } while (ul.count(o.l) || o.l.compare(0, 5, "debug") == 0);  // --debug<n> takes those
      }
      if (o.s) us.insert(o.s);
      if (!o.l.empty()) ul.insert(o.l);
      o.desc = "D" + r.str(6, ALPHA) + (r.chance(0.5) ? " " + r.str(int(r.range(1, 20)), ALPHA) : "");
      o.help = "H" + r.str(6, ALPHA);
      o.req = o.k != kHelp && o.k != kSimpleHelp && r.chance(0.2);
      switch (o.k)
      {
         case kNo: o.o.reset(new CommandOptionNoArg(o.s, o.l, o.desc, o.req)); break;
         case kAny: o.o.reset(new CommandOptionWithAnyArg(o.s, o.l, o.desc, o.req)); break;
         case kNum: o.o.reset(new CommandOptionWithNumberArg(o.s, o.l, o.desc, o.req)); break;
         case kDec: o.o.reset(new CommandOptionWithDecimalArg(o.s, o.l, o.desc, o.req)); break;
         case kStr: o.o.reset(new CommandOptionWithStringArg(o.s, o.l, o.desc, o.req)); break;
         case kTime: o.o.reset(new CommandOptionWithTimeArg(o.s, o.l, "%Y %j %s", o.desc, o.req)); break;
         case kSimple: o.o.reset(new CommandOptionWithSimpleTimeArg(o.s, o.l, o.desc, o.req)); break;
         case kCommon: o.o.reset(new CommandOptionWithCommonTimeArg(o.s, o.l, "%Y %j %s", o.desc, o.req)); break;
         case kPos: o.o.reset(new CommandOptionWithPositionArg(o.s, o.l, "%x %y %z", o.desc, o.req)); break;
         case kHelp: o.o.reset(new CommandOptionHelpUsage(o.s, o.l, o.desc)); break;
         default: o.o.reset(new CommandOptionHelpSimple(o.s, o.l, o.desc, o.help)); break;
      }
      if (r.chance(0.2)) { o.maxCount = (unsigned long)r.range(1, 3); o.o->setMaxCount(o.maxCount); }
      c.count(o.arg() ? "options.with" : "options.without");
   }
   bool rest = r.chance(0.4), restReq = r.chance(0.4);
   string restDesc = "R" + r.str(6, ALPHA);
   std::unique_ptr<CommandOptionRest> ro;
   if (rest) ro.reset(new CommandOptionRest(restDesc, restReq));
   // groups and metas
   vector<Group> gs(r.chance(0.4) ? size_t(r.range(1, 2)) : 0);
   auto someOpts = [&](int lo) {
      vector<int> v;
      int m = int(r.range(lo, std::max(lo, std::min(n, 4))));
      for (int i = 0; i < m; i++) v.push_back(int(r.below(n)));
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
      r.shuffle(v);
      return v;
   };
   for (Group& g : gs)
   {
      g.andG = r.chance(0.5);
      g.of = someOpts(1);
      if (g.andG) g.o.reset(new CommandOptionGroupAnd); else g.o.reset(new CommandOptionGroupOr);
      for (int i : g.of) g.o->addOption(os[i].o.get());
   }
   vector<Meta> ms(r.chance(0.7) ? size_t(r.range(1, 4)) : 0);
   auto ptrOf = [&](int i) -> CommandOption* { return i >= 1000 ? gs[i - 1000].o.get() : os[i].o.get(); };
   for (Meta& m : ms)
   {
      m.t = int(r.range(0, 5));
      m.of = someOpts(m.t == 5 ? 2 : 1);
      if (m.t == 5) { while (m.of.size() < 2) m.of.push_back(int(r.below(n))); m.of.resize(2); }
      if (!gs.empty() && r.chance(0.4)) m.of[r.below(m.of.size())] = 1000 + int(r.below(gs.size()));
      CommandOptionOneOf* p = nullptr;
      switch (m.t)
      {
         case 0:
         {
            m.n = m.mx = (unsigned long)r.range(0, 3);
            CommandOptionNOf* q = new CommandOptionNOf(m.n);
            if (r.chance(0.5)) { m.mx = m.n + (unsigned long)r.range(0, 3); q->setMaxCount(m.mx); }
            for (int i : m.of) q->addOption(ptrOf(i));
            VF_THROWS("null.nof", InvalidParameter, q->addOption(nullptr), "NOf");
            m.o.reset(q);
            break;
         }
         case 1: p = new CommandOptionOneOf; break;
         case 2: p = new CommandOptionAllOf; break;
         case 3: p = new CommandOptionMutex(false); break;
         case 4: p = new CommandOptionMutex(true); break;
         default: m.o.reset(new CommandOptionDependent(ptrOf(m.of[0]), ptrOf(m.of[1])));
      }
      if (p)
      {
         for (int i : m.of) p->addOption(ptrOf(i));
         VF_THROWS("null.oneof", InvalidParameter, p->addOption(nullptr), "OneOf");
         m.o.reset(p);
      }
      c.count("meta");
   }
   // option names which may not be
   if (r.chance(0.2))
   {
      size_t before = defaultCommandOptionList.size();
      VF_THROWS("names.none", InvalidParameter, (CommandOptionNoArg{0, "", "x"}), "no name");
      char bad = r.pick(vector<char>{' ', '\t', '\x01', '\x7f', '\n'});
      VF_THROWS("names.short", InvalidParameter, (CommandOptionNoArg{bad, "okname", "x"}), int(bad));
      string bl = r.str(3, ALNUM);
      bl.insert(bl.begin() + r.below(bl.size() + 1), bad);
      VF_THROWS("names.long", InvalidParameter, (CommandOptionWithAnyArg{'q', bl, "x"}), "long name with " << int(bad));
      VF_CHECK("names.list", defaultCommandOptionList.size() == before, "refused options were listed");
   }
   // ---- the parser
   string text = "T" + r.str(8, ALPHA);
   std::unique_ptr<CommandOptionParser> P;
   vector<int> seq;                     // 0..n-1 opts, 5000 rest, 2000+ metas, 1000+ groups
   for (int i = 0; i < n; i++) seq.push_back(i);
   if (rest) seq.push_back(5000);
   for (size_t i = 0; i < gs.size(); i++) seq.push_back(1000 + int(i));
   for (size_t i = 0; i < ms.size(); i++) seq.push_back(2000 + int(i));
   auto anyPtr = [&](int i) -> CommandOption* { return i == 5000 ? ro.get() : i >= 2000 ? ms[i - 2000].o.get() : ptrOf(i); };
   if (useDefault) P.reset(new CommandOptionParser(text));
   else
   {
      r.shuffle(seq);
      CommandOptionVec v;
      size_t k = r.below(seq.size() + 1);
      for (size_t i = 0; i < k; i++) v.push_back(anyPtr(seq[i]));
      P.reset(new CommandOptionParser(text, v));
      for (size_t i = k; i < seq.size(); i++) P->addOption(*anyPtr(seq[i]));
   }
   // names already in use
   if (r.chance(0.3))
   {
      CommandOptionVec hidden;
      Opt& o = os[r.below(n)];
      CommandOption dupS(CommandOption::noArgument, CommandOption::stdType, o.s ? o.s : '%', o.s ? "zz-unused" : o.l, "dup", false, hidden);
      VF_THROWS("names.used", InvalidParameter, P->addOption(dupS), o.optStr());
      if (!o.l.empty())
      {
         CommandOption dupL(CommandOption::noArgument, CommandOption::stdType, 0, o.l, "dup", false, hidden);
         VF_THROWS("names.used.long", InvalidParameter, P->addOption(dupL), o.optStr());
      }
      if (rest)
      {
         CommandOption second(CommandOption::hasArgument, CommandOption::trailingType, 0, "", "dup", false, hidden);
         VF_THROWS("names.rest", InvalidParameter, P->addOption(second), "second trailing");
      }
   }
   // ---- what is typed
   vector<string> a{r.pick(vector<string>{"prog", "/usr/bin/prog", "./prog", "a.b/prog"})};
   vector<vector<string>> errs;         // tokens of every expected message, in order
   unsigned long order = 0;
   vector<string> helps;
   bool stopped = false;
   int ne = int(r.range(0, 9));
   auto use = [&](Opt& o, const string& v, bool ok) {
      order++;
      o.cnt++;
      o.order.push_back(order);
      if (o.arg()) { o.val.push_back(v); o.ok.push_back(ok); }
      if (o.k == kHelp) helps.push_back("*");
      if (o.k == kSimpleHelp) helps.push_back(o.help);
   };
   auto unusedShort = [&]() {
      char ch;
      do ch = ALNUM[r.below(ALNUM.size())];
      while (us.count(ch));
      return ch;
   };
   auto longName = [&](const Opt& o) {
      if (!r.chance(0.3)) return o.l;
      // the shortest abbreviation nothing else begins with
      for (size_t k = 1; k < o.l.size(); k++)
      {
         string ab = o.l.substr(0, k);
         int m = 0;
         for (const string& x : ul) if (x.compare(0, k, ab) == 0) m++;
         if (m == 1) { c.count("abbreviated"); return o.l.substr(0, size_t(r.range(int(k), int(o.l.size())))); }
      }
      return o.l;
   };
   for (int e = 0; e < ne; e++)
   {
      int t = int(r.range(0, 19));
      if (t < 14)
      {
         Opt& o = os[r.below(n)];
         bool ok = true;
         string v = o.arg() ? valueFor(r, o, ok) : "";
         bool shortForm = o.s && (o.l.empty() || r.chance(0.5));
         if (shortForm)
         {
            if (!o.arg())
            {
               string tok = string("-") + o.s;
               use(o, "", true);
               // a bundle
               while (r.chance(0.4))
               {
                  if (r.chance(0.1))
                  {
                     char ch = unusedShort();
                     tok += ch;
                     order++;
                     errs.push_back({string("Option error: ") + ch});
                     c.count("errors.unknown");
                     continue;
                  }
                  Opt& p = os[r.below(n)];
                  if (!p.s) continue;
                  if (p.arg())
                  {
                     bool ok2 = true;
                     string v2 = valueFor(r, p, ok2);
                     use(p, v2, ok2);
                     tok += p.s;
                     if (!v2.empty() && r.chance(0.5)) { tok += v2; a.push_back(tok); }
                     else { a.push_back(tok); a.push_back(v2); }
                     tok.clear();
                     break;
                  }
                  tok += p.s;
                  use(p, "", true);
                  c.count("bundled");
               }
               if (!tok.empty()) a.push_back(tok);
            }
            else
            {
               use(o, v, ok);
               if (!v.empty() && r.chance(0.5)) a.push_back(string("-") + o.s + v);
               else { a.push_back(string("-") + o.s); a.push_back(v); }
            }
         }
         else
         {
            use(o, v, ok);
            string ln = longName(o);
            if (!o.arg()) a.push_back("--" + ln);
            else if (r.chance(0.5)) a.push_back("--" + ln + "=" + v);
            else { a.push_back("--" + ln); a.push_back(v); }
         }
      }
      else if (t == 14)
      {
         char ch = unusedShort();
         a.push_back(string("-") + ch);
         order++;
         errs.push_back({string("Option error: ") + ch});
         c.count("errors.unknown");
      }
      else if (t == 15)
      {
         string u;
         bool clash;
         do {
            u = "zq" + r.str(4, ALNUM);
            clash = false;
            for (const string& x : ul) if (x.compare(0, u.size(), u) == 0) clash = true;
         } while (clash);
         if (r.chance(0.3)) u += "=v";
         a.push_back("--" + u);
         order++;
         errs.push_back({"Option error: --" + u});
         c.count("errors.unknown");
      }
      else if (t == 16)
      {
         Opt& o = os[r.below(n)];
         if (o.arg() || o.l.empty()) continue;
         string tok = "--" + o.l + "=" + r.str(int(r.range(0, 3)), ALNUM);
         a.push_back(tok);
         order++;
         errs.push_back({tok});
         c.count("errors.argument");
      }
   }
   // the end: a value missing, trailing arguments, or neither
   vector<string> trail;
   vector<unsigned long> trailOrder;
   int end = int(r.range(0, 5));
   if (end == 0)
   {
      Opt& o = os[r.below(n)];
      if (o.arg())
      {
         order++;
         if (o.s && (o.l.empty() || r.chance(0.5))) { a.push_back(string("-") + o.s); errs.push_back({string("Option error: ") + o.s}); }
         else { a.push_back("--" + o.l); errs.push_back({"Option error: --" + o.l}); }
         stopped = true;
         c.count("errors.missing");
      }
   }
   else if (end <= 3)
   {
      bool dd = r.chance(0.5);
      int m = int(r.range(dd ? 0 : 1, 4));
      if (dd) { a.push_back("--"); c.count("dashdash"); }
      for (int i = 0; i < m; i++)
      {
         string v = r.chance(0.3) && (dd || i) ? r.pick(vector<string>{"-a", "--foo", "--", "-", "-5", ""}) : r.str(int(r.range(1, 7)), ALNUM + "./");
         if (i == 0 && !dd && r.chance(0.1)) v = "-";
         a.push_back(v);
         trail.push_back(v);
      }
      if (m)
      {
         if (rest) for (int i = 0; i < m; i++) trailOrder.push_back(++order);
         else errs.push_back({"Excess arguments"});
      }
   }
   (void)stopped;
   string what = show(a);
   Argv av(a);
   VF_NOTHROW("parse.throws", P->parseOptions(av.argc(), av.argv()), what);
   c.distinct(what + text);
   c.count("arguments", long(a.size()));
   // ---- what is wrong with it, in the order of the options
   map<int, unsigned long> cnt;
   for (int i = 0; i < n; i++) cnt[i] = os[i].cnt;
   for (size_t g = 0; g < gs.size(); g++)
   {
      unsigned long s = 0;
      bool all = true;
      for (int i : gs[g].of) { s += os[i].cnt; if (!os[i].cnt) all = false; }
      cnt[1000 + int(g)] = gs[g].andG && !all ? 0 : s;
   }
   auto strOf = [&](int i) {
      if (i < 1000) return os[i].optStr();
      const Group& g = gs[i - 1000];
      string s;
      for (size_t k = 0; k < g.of.size(); k++) s += (k ? "," : "") + os[g.of[k]].optStr();
      return g.of.size() > 1 ? "(" + s + ")" : s;
   };
   for (int i : seq)
   {
      if (i == 5000)
      {
         if (restReq && trail.empty()) errs.push_back({"Required", "trailing"});
      }
      else if (i < 1000)
      {
         Opt& o = os[i];
         if (o.req && !o.cnt) errs.push_back({"Required", o.optStr()});
         else
         {
            vector<string> bad;
            for (size_t k = 0; k < o.val.size(); k++) if (!o.ok[k]) bad.push_back(o.val[k]);
            if (!bad.empty())
            {
               if (o.k == kNum) errs.push_back({o.optStr(), "digit"});
               else if (o.k == kDec) errs.push_back({o.optStr(), "decimal"});
               else if (o.k == kStr) errs.push_back({o.optStr(), "alphabetic"});
               else { vector<string> t; for (const string& b : bad) t.push_back("\"" + b + "\""); t.push_back("time"); errs.push_back(t); }
               c.count("errors.kind");
            }
         }
         if (o.maxCount && o.cnt > o.maxCount) { errs.push_back({o.optStr(), "more times"}); c.count("errors.count"); }
      }
      else if (i >= 2000)
      {
         Meta& m = ms[i - 2000];
         unsigned long sum = 0;
         int some = 0, none = 0;
         vector<string> names;
         for (int k : m.of) { sum += cnt[k]; (cnt[k] ? some : none)++; names.push_back(strOf(k)); }
         bool bad = false;
         string kw;
         switch (m.t)
         {
            case 0: bad = sum < m.n || sum > m.mx; kw = sum < m.n ? "At least " + std::to_string(m.n) : "No more than " + std::to_string(m.mx); break;
            case 1: bad = !some; kw = "One of"; break;
            case 2: bad = some && none; kw = "together"; break;
            case 3: bad = some > 1; kw = "Only one"; break;
            case 4: bad = some != 1; kw = some ? "Only one" : "One of"; break;
            default: bad = cnt[m.of[1]] && !cnt[m.of[0]]; kw = "requires"; std::swap(names[0], names[1]);
         }
         if (bad) { names.insert(names.begin(), kw); errs.push_back(names); c.count("errors.meta"); }
         // who it was
         if (m.t == 0)
         {
            vector<CommandOption*> w = dynamic_cast<CommandOptionNOf&>(*m.o).which(), x;
            for (int k : m.of) if (cnt[k]) x.push_back(ptrOf(k));
            VF_CHECK("meta.which", w == x, what << ": which() has " << w.size() << " not " << x.size());
         }
         else if (m.t == 1 || m.t == 3 || m.t == 4)
         {
            CommandOption* x = nullptr;
            for (int k : m.of) if (cnt[k] && !x) x = ptrOf(k);
            VF_CHECK("meta.whichone", dynamic_cast<CommandOptionOneOf&>(*m.o).whichOne() == x, what);
         }
         else if (m.t == 2)
            VF_CHECK("meta.allof", m.o->getCount() == (none ? 0 : sum), what << ": " << m.o->getCount());
      }
   }
   // ---- what was understood
   ostringstream es;
   P->dumpErrors(es);
   vector<string> el = lines(es.str());
   VF_CHECK("errors.any", P->hasErrors() == !errs.empty(), what << ": hasErrors " << P->hasErrors() << " expected " << errs.size() << ": " << es.str());
   VF_CHECK("errors.number", el.size() == errs.size(), what << ": " << el.size() << " messages, expected " << errs.size() << ": " << es.str());
   if (el.size() == errs.size())
      for (size_t i = 0; i < el.size(); i++)
         for (const string& t : errs[i])
            VF_CHECK("errors.say", el[i].find(t) != string::npos, what << ": '" << el[i] << "' does not say '" << t << "'");
   c.count("errors", long(errs.size()));
   for (Opt& o : os)
   {
      string w = what + " option " + o.optStr();
      VF_CHECK("option.count", o.o->getCount() == o.cnt, w << ": count " << o.o->getCount() << " not " << o.cnt);
      if (o.k == kNo)
      {
         bool b = dynamic_cast<CommandOptionNoArg&>(*o.o);
         VF_CHECK("option.bool", b == (o.cnt > 0), w);
      }
      VF_CHECK("option.values", o.o->getValue() == o.val, w << ": " << show(o.o->getValue()) << " not " << show(o.val));
      ostringstream d, x;
      o.o->dumpValue(d);
      for (const string& s : o.val) x << s << "\n";
      VF_CHECK("option.dump", d.str() == x.str(), w << ": " << d.str());
      VF_CHECK("option.order.last", o.o->getOrder() == (o.order.empty() ? 0 : o.order.back()), w << ": " << o.o->getOrder());
      for (size_t i = 0; i <= o.order.size(); i++)
         VF_CHECK("option.order", o.o->getOrder(i) == (i < o.order.size() ? o.order[i] : 0), w << " use " << i << ": " << o.o->getOrder(i));
      if (o.arg() && !(o.req && !o.cnt))
      {
         vector<CommonTime> ts;
         bool tm = true;
         if (o.k == kTime || o.k == kSimple) ts = dynamic_cast<CommandOptionWithTimeArg&>(*o.o).getTime();
         else if (o.k == kCommon) ts = dynamic_cast<CommandOptionWithCommonTimeArg&>(*o.o).getTime();
         else tm = false;
         if (tm)
         {
            VF_CHECK("option.times", ts.size() == o.times.size(), w << ": " << ts.size() << " times of " << o.times.size());
            for (size_t i = 0; i < ts.size() && i < o.times.size(); i++)
               VF_CHECK("option.time", fabs(ts[i] - o.times[i]) < 1e-6, w << ": " << ts[i] << " not " << o.times[i]);
         }
         if (o.k == kPos)
         {
            vector<Position> ps = dynamic_cast<CommandOptionWithPositionArg&>(*o.o).getPosition();
            VF_CHECK("option.positions", ps.size() * 3 == o.pos.size(), w << ": " << ps.size());
            for (size_t i = 0; i < ps.size() && i * 3 < o.pos.size(); i++)
               for (int k = 0; k < 3; k++)
                  VF_CHECK("option.position", fabs(ps[i][k] - o.pos[3 * i + size_t(k)]) < 1e-3, w << ": " << ps[i]);
         }
      }
      // how it is described
      VF_CHECK("describe.option", o.o->getOptionString() == o.optStr(), w << ": '" << o.o->getOptionString() << "'");
      string an = o.o->getArgString();
      if (o.k != kPos && o.k != kSimple && o.k != kCommon) VF_CHECK("describe.arg", an == argName(o.k), w << ": " << an);
      VF_CHECK("describe.full", o.o->getFullOptionString() == o.fullStr(an), w << ": '" << o.o->getFullOptionString() << "' not '" << o.fullStr(an) << "'");
      string ds = o.o->getDescription();
      VF_CHECK("describe.long", (!o.s || ds.find(string("-") + o.s) != string::npos) && (o.l.empty() || ds.find("--" + o.l) != string::npos) && ds.find(o.desc.substr(0, 7)) != string::npos && (!o.arg() || ds.find(an) != string::npos), w << ": " << ds);
      VF_CHECK("describe.max", (ds.find("Up to " + std::to_string(o.maxCount)) != string::npos) == (o.maxCount != 0), w << ": " << ds);
      if (o.s) VF_CHECK("getopt.short", o.o->toGetoptShortOption() == string(1, o.s) + (o.arg() ? ":" : ""), w << ": " << o.o->toGetoptShortOption());
      struct option lo = o.o->toGetoptLongOption();
      VF_CHECK("getopt.long", o.l == lo.name && lo.has_arg == (o.arg() ? 1 : 0) && !lo.flag && lo.val == 0, w);
   }
   for (size_t g = 0; g < gs.size(); g++)
   {
      VF_CHECK("group.count", gs[g].o->getCount() == cnt[1000 + int(g)], what << ": group " << gs[g].o->getCount() << " not " << cnt[1000 + int(g)]);
      VF_CHECK("group.string", gs[g].o->getOptionString() == strOf(1000 + int(g)), gs[g].o->getOptionString());
   }
   if (rest)
   {
      VF_CHECK("rest.values", ro->getValue() == trail, what << ": " << show(ro->getValue()) << " not " << show(trail));
      VF_CHECK("rest.count", ro->getCount() == trail.size(), what << ": " << ro->getCount());
      for (size_t i = 0; i <= trailOrder.size(); i++)
         VF_CHECK("rest.order", ro->getOrder(i) == (i < trailOrder.size() ? trailOrder[i] : 0), what << " trailing " << i << ": " << ro->getOrder(i));
   }
   // ---- usage
   VF_CHECK("help.asked", P->helpRequested() == !helps.empty(), what);
   ostringstream us1;
   P->displayUsage(us1);
   string usage = us1.str();
   VF_CHECK("usage.head", usage.compare(0, 11, "Usage: prog") == 0 && usage.find(text) != string::npos && (!rest || usage.find(restDesc) != string::npos), usage);
   size_t rq = usage.find("Required arguments:"), op = usage.find("Optional arguments:");
   bool anyR = false, anyO = false;
   for (Opt& o : os) (o.req ? anyR : anyO) = true;
   VF_CHECK("usage.sections", (rq != string::npos) == anyR && (op != string::npos) == anyO && (!(anyR && anyO) || rq < op), usage);
   for (Opt& o : os)
   {
      string f = "\n" + o.fullStr(o.o->getArgString());
      size_t p = usage.find(f), q = usage.find(o.desc.substr(0, 7));
      while (p != string::npos && p + f.size() < usage.size() && !isspace((unsigned char)usage[p + f.size()])) p = usage.find(f, p + 1);
      VF_CHECK("usage.option", p != string::npos && q != string::npos && q > p, "'" << f.substr(1) << "' in " << usage);
      if (p != string::npos && anyR && anyO)
         VF_CHECK("usage.place", o.req ? p > rq && p < op : p > op, "'" << f.substr(1) << "' in " << usage);
   }
   if (!helps.empty())
   {
      ostringstream h1, h2;
      P->printHelp(h1);
      P->printHelp(h2, true, false);
      string x1, x2;
      for (size_t i = 0; i < helps.size(); i++) { string s = helps[i] == "*" ? usage : helps[i]; if (!i) x1 = s; x2 += s; }
      VF_CHECK("help.first", h1.str() == x1, what << ": " << h1.str() << " not " << x1);
      VF_CHECK("help.all", h2.str() == x2, what << ": " << h2.str() << " not " << x2);
      c.count("help");
   }
   c.sample(what + " errors " + std::to_string(errs.size()));
   P.reset();
   defaultCommandOptionList.clear();
}

// ------------------------------------------------------------ CommandLine
enum CT { cBool, cInt, cVInt, cDbl, cStr, cVStr, cSat, cVSat };
struct CO
{
   CT t;
   char s;
   string l, a, desc, pre;
   bool rep, req, doc, toggle = false, expand = true;
   string name;                         // of the scratch files its lists are in
   // targets and their model
   bool b, xb;
   int i, xi;
   vector<int> vi, xvi;
   double d, xd;
   string st, xst;
   vector<string> vs, xvs;
   RinexSatID sat;
   string xsat;
   vector<RinexSatID> vsat;
   vector<string> xvsat;
   vector<string> vals;
   bool bad = false;
   vector<string> badTok;
};
string satText(vf::Rng& r)
{
   int n = int(r.range(1, 36));
   string s = r.pick(vector<string>{"G", "R", "E", "C"});
   return s + (n < 10 ? "0" : "") + std::to_string(n);
}
string join(const vector<string>& v)
{
   string o;
   for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + v[i];
   return o;
}
vector<string> satStr(const vector<RinexSatID>& v)
{
   vector<string> o;
   for (const RinexSatID& s : v) o.push_back(s.toString());
   return o;
}
vector<string> intStr(const vector<int>& v)
{
   vector<string> o;
   for (int i : v) o.push_back(std::to_string(i));
   return o;
}
string dblText(double d)
{
   char b[40];
   double m = fabs(d);
   snprintf(b, sizeof b, d == 0 || m >= 0.1 ? "%.2f" : m >= 0.01 ? "%.3f" : "%.2e", d);
   return b;
}
struct Tok { string s; };
struct Line
{
   vf::Case& c;
   vf::Rng& r;
   string dir;
   int& nf;
   vector<CO> os;
   vector<string> ign0, ign1, on, off;
   vector<std::pair<string, string>> dep;
   vector<string> args;                 // what remains for the options
   vector<string> tokens;               // expected in the errors
   vector<string> files;
   bool help = false, verbose = false;
   int debug = -1;
   LogLevel level = INFO;
   bool ignoring = false, dropNext = false;
   Line(vf::Case& cc, const string& d, int& n) : c(cc), r(cc.rng), dir(d), nf(n) {}

   string word() { return r.str(int(r.range(1, 6)), ALNUM); }
   string newFile(const string& ext)
   {
      string f = dir + "/L" + std::to_string(nf++) + ext;
      files.push_back(f);
      return f;
   }
   // one typed token which counts
   void take(vector<string>& raw, const string& s)
   {
      raw.push_back(s);
      if (dropNext) { dropNext = false; return; }
      if (ignoring) return;
      args.push_back(s);
   }
   // items of a list, and how they are typed
   string list(CO& o, vector<string> items)
   {
      (void)o;
      if (!o.expand) return items[0];
      string out;
      size_t i = 0;
      while (i < items.size())
      {
         if (!out.empty()) out += ",";
         if (r.chance(0.25))
         {
            size_t n = size_t(r.range(0, int(items.size() - i)));
            string f = newFile(".lst"), t;
            if (r.chance(0.3)) t += "# comment, with words\n";
            for (size_t k = 0; k < n; k++)
            {
               t += r.pick(vector<string>{"", "", " ", "   "}) + items[i + k];
               t += r.pick(vector<string>{"\n", "\n", " ", "  \n", " # " + word() + "\n", "\n\n", "\r\n", " #x y\n", " \n  \n"});
            }
            if (!t.empty() && t.back() == '\n' && r.chance(0.3)) t.erase(t.size() - 1);
            vf::spit(f, t);
            bool home = r.chance(0.4);
            out += "@" + (home ? "~" + f.substr(dir.size()) : f);
            i += n;
            c.count(home ? "lists.home" : "lists.file");
            if (!n && r.chance(0.5)) continue;
         }
         else out += items[i++];
      }
      return out;
   }
   string value(CO& o)
   {
      switch (o.t)
      {
         case cInt: case cVInt:
         {
            vector<string> it;
            int n = o.t == cInt || !o.expand ? 1 : int(r.range(1, 4));
            for (int i = 0; i < n; i++)
            {
               if (r.chance(0.1)) it.push_back(r.pick(vector<string>{"12x", "abc", "1.5", "-"}));
               else it.push_back(string(r.chance(0.3) ? "-" : "") + digits(r, 1, 8));
            }
            return o.t == cInt ? it[0] : list(o, it);
         }
         case cDbl:
            if (r.chance(0.1)) return r.pick(vector<string>{"abc", "1.2.3", ".", "1e2e3"});
            return string(r.chance(0.3) ? "-" : "") + digits(r, 1, 5) + (r.chance(0.6) ? "." + digits(r, 1, 5) : "") + (r.chance(0.2) ? "e-" + digits(r, 1, 1) : "");
         case cStr: return r.chance(0.2) ? word() + " " + word() : r.chance(0.1) ? "-" + digits(r, 1, 3) : word() + (r.chance(0.3) ? "," + word() : "");
         case cVStr:
         {
            vector<string> it;
            int n = o.expand ? int(r.range(1, 4)) : 1;
            for (int i = 0; i < n; i++) it.push_back(word());
            if (!o.expand && r.chance(0.5)) return word() + "," + word();
            if (!o.expand && r.chance(0.3)) return "@" + word();
            return list(o, it);
         }
         case cSat: return satText(r);
         case cVSat:
         {
            vector<string> it;
            int n = o.expand ? int(r.range(1, 4)) : 1;
            for (int i = 0; i < n; i++) it.push_back(satText(r));
            return list(o, it);
         }
         default: return "";
      }
   }
   // what is typed in one place: the command line itself (depth 0) or an option file
   vector<string> gen(int depth, int n)
   {
      vector<string> raw;
      for (int e = 0; e < n; e++)
      {
         int t = int(r.range(0, 29));
         if (t < 16 && !os.empty())
         {
            CO& o = os[r.below(os.size())];
            if (o.l == "help" || o.l == "verbose" || o.l == "debug") continue;
            string nm = o.s && r.chance(0.5) ? string("-") + o.s : "--" + o.l;
            for (auto& d : dep) if (d.second == nm && r.chance(0.5))
            {
               raw.push_back(d.first);
               args.push_back(nm);
               nm.clear();
               c.count("deprecated");
               break;
            }
            if (!nm.empty()) take(raw, nm);
            if (o.t != cBool && !r.chance(0.04)) take(raw, value(o));
         }
         else if (t < 18) { take(raw, r.pick(vector<string>{word() + "q", "--zz" + word() + "xx", "-" + digits(r, 2, 3), "a b", "-"})); c.count("unrecognized"); }
         else if (t == 18 && !ign0.empty()) { raw.push_back(r.pick(ign0)); c.count("ignored"); }
         else if (t == 19 && !ign1.empty())
         {
            raw.push_back(r.pick(ign1));
            dropNext = true;
            take(raw, r.pick(vector<string>{"--help", "-v", word(), "--file", "a b"}));
            c.count("ignored.arg");
         }
         else if (t <= 21 && !on.empty() && !off.empty())
         {
            raw.push_back(r.pick(on));
            int m = int(r.range(0, 3));
            for (int i = 0; i < m; i++) raw.push_back(r.pick(vector<string>{"--help", "-v", word(), "--file", "-d3", "--zzunk", "a b", "@x"}));
            bool last = e == n - 1 && depth > 0;      // a file ends what is ignored in it
            if (!last || r.chance(0.5)) raw.push_back(r.pick(off));
            c.count("ignored.block");
         }
         else if (t == 22 && r.chance(0.5))
         {
            raw.push_back(r.pick(vector<string>{"-v", "--verbose"}));
            verbose = true;
            if (debug == -1) level = VERBOSE;
         }
         else if (t == 23 && r.chance(0.5))
         {
            int k = int(r.range(-1, 8));
            string f = r.pick(vector<string>{"-d", "--debug"});
            raw.push_back(k < 0 ? f : f + std::to_string(k));
            debug = std::max(k, 0);
            if (debug <= 7) { verbose = true; level = LogLevel(DEBUG + debug); }
         }
         else if (t == 24 && r.chance(0.2)) { raw.push_back(r.pick(vector<string>{"-h", "--help"})); help = true; }
         else if (t <= 27 && depth < 3)
         {
            string f;
            if (r.chance(0.12))
            {
               f = dir + "/missing" + word();
               tokens.push_back(f);
               c.count("files.missing");
            }
            else
            {
               f = newFile(".opt");
               vf::spit(f, render(gen(depth + 1, int(r.range(0, 5)))));
               ignoring = false;
               c.count("files");
               c.maximum("files.depth", depth + 1);
            }
            int k = int(r.range(0, 2));
            if (k == 2) raw.push_back("-f" + f);
            else { raw.push_back(k ? "-f" : "--file"); raw.push_back(f); }
         }
      }
      return raw;
   }
   string render(const vector<string>& raw)
   {
      string t;
      if (r.chance(0.3)) t += "# an option file, with \"quotes\" and --options\n";
      bool nl = true;
      for (const string& w : raw)
      {
         if (nl && r.chance(0.2)) { t += r.pick(vector<string>{" ", "   "}); c.count("files.indent"); }
         bool q = w.find(' ') != string::npos || (r.chance(0.1) && w.substr(0, 2) != "-f" && w != "--file" && !fileNext);
         t += q ? "\"" + w + "\"" : w;
         fileNext = w == "-f" || w == "--file";
         string sep = r.pick(vector<string>{" ", " ", "  ", "\n", "\n", " # " + word() + " --help\n", "\n\n", "\r\n", "  \n", "\n# x\n", "\n   \n"});
         nl = sep.back() == '\n';
         t += sep;
      }
      fileNext = false;
      if (!t.empty() && t.back() == '\n' && r.chance(0.4)) t.erase(t.size() - 1);
      return t;
   }
   bool fileNext = false;
};

void stLine(vf::Case& c)
{
   vf::Rng& r = c.rng;
   static ostringstream sink;
   sink.str("");
   ConfigureLOG::Stream() = &sink;
   static string dir;
   if (dir.empty())
   {
      dir = vf::scratch();
      setenv("HOME", dir.c_str(), 1);
   }
   int nf = 0;
   vector<string> made;
   int lines_ = int(r.range(1, 3));
   for (int li = 0; li < lines_; li++)
   {
      ConfigureLOG::ReportingLevel() = INFO;
      Line L(c, dir, nf);
      int n = int(r.range(0, 8));
      set<char> us{'f', 'd', 'h', 'v'};
      set<string> ul;
      for (int i = 0; i < n; i++)
      {
         CO o;
         o.t = CT(r.range(0, 7));
         o.s = 0;
         if (r.chance(0.6))
            do o.s = ALNUM[r.below(ALPHA.size())];
            while (us.count(o.s));
         do o.l = r.str(int(r.range(5, 10)), ALPHA);
         while (ul.count(o.l) || o.l.compare(0, 5, "debug") == 0);  // --debug<n> takes those
         if (i == 0 && r.chance(0.1)) { o.l = r.pick(vector<string>{"help", "verbose"}); o.t = cBool; o.s = 0; }
         else if (i == 0 && r.chance(0.05)) { o.l = "debug"; o.t = cInt; o.s = 0; }
         us.insert(o.s);
         ul.insert(o.l);
         o.a = o.t == cBool ? "" : L.word();
         o.desc = "D" + r.str(7, ALPHA) + (r.chance(0.5) ? " " + L.word() : "");
         o.pre = r.chance(0.2) ? "# P" + r.str(7, ALPHA) : "";
         o.rep = r.chance(0.7);
         o.req = (o.l != "help" && o.l != "verbose" && o.l != "debug") && r.chance(0.12);
         o.doc = r.chance(0.85);
         o.b = o.xb = r.chance(0.3);
         o.i = o.xi = r.chance(0.5) ? int(r.range(-50, 50)) : 0;
         o.d = r.chance(0.3) ? 0 : r.logmag(1e-4, 1e4);
         o.xd = o.d;
         o.st = o.xst = r.chance(0.5) ? L.word() : "";
         if (r.chance(0.2)) { o.vi = o.xvi = vector<int>{int(r.range(1, 9)), -3}; o.vs = o.xvs = vector<string>{L.word(), L.word()}; }
         if (r.chance(0.2)) { o.xsat = satText(r); o.sat = RinexSatID(o.xsat); o.xvsat = vector<string>{satText(r)}; o.vsat.push_back(RinexSatID(o.xvsat[0])); }
         L.os.push_back(o);
      }
      for (int i = int(r.range(0, 2)); i > 0; i--) L.ign0.push_back("--ig" + r.str(5, ALPHA));
      for (int i = int(r.range(0, 2)); i > 0; i--) L.ign1.push_back("--ia" + r.str(5, ALPHA));
      if (r.chance(0.5)) { L.on.push_back("--on" + r.str(5, ALPHA)); L.off.push_back("--of" + r.str(5, ALPHA)); }
      if (n && r.chance(0.3))
      {
         CO& o = L.os[r.below(n)];
         L.dep.push_back({"--dp" + r.str(5, ALPHA), o.s && r.chance(0.3) ? string("-") + o.s : "--" + o.l});
      }
      bool noArgs = r.chance(0.6);
      CommandLine* mem = nullptr;
      static char raw[sizeof(CommandLine)];
      memset(raw, 0xa5, sizeof raw);
      mem = new (raw) CommandLine;
      CommandLine& C = *mem;
      VF_CHECK("line.fresh", !C.hasHelp() && !C.hasErrors(), "new CommandLine has help " << C.hasHelp() << " errors " << C.hasErrors());
      if (noArgs) C.noArgsRequired();
      for (CO& o : L.os)
         switch (o.t)
         {
            case cBool: C.Add(o.s, o.l, o.a, o.rep, o.req, &o.b, o.pre, o.desc, o.doc); break;
            case cInt: C.Add(o.s, o.l, o.a, o.rep, o.req, &o.i, o.pre, o.desc, o.doc); break;
            case cVInt: C.Add(o.s, o.l, o.a, o.rep, o.req, &o.vi, o.pre, o.desc, o.doc); break;
            case cDbl: C.Add(o.s, o.l, o.a, o.rep, o.req, &o.d, o.pre, o.desc, o.doc); break;
            case cStr: C.Add(o.s, o.l, o.a, o.rep, o.req, &o.st, o.pre, o.desc, o.doc); break;
            case cVStr: C.Add(o.s, o.l, o.a, o.rep, o.req, &o.vs, o.pre, o.desc, o.doc); break;
            case cSat: C.Add(o.s, o.l, o.a, o.rep, o.req, &o.sat, o.pre, o.desc, o.doc); break;
            default: C.Add(o.s, o.l, o.a, o.rep, o.req, &o.vsat, o.pre, o.desc, o.doc);
         }
      for (CO& o : L.os)
      {
         if (o.t == cBool && o.l != "help" && o.l != "verbose" && r.chance(0.3)) { o.toggle = true; C.setToggle(o.l); }
         if (r.chance(0.25))
         {
            C.noExpansion(o.l);
            if (o.t == cVInt || o.t == cVStr || o.t == cVSat) o.expand = false;
         }
      }
      for (auto& s : L.ign0) C.Add_ignore(s);
      for (auto& s : L.ign1) C.Add_ignore(s, true);
      for (auto& s : L.on) C.Add_ignore_on(s);
      for (auto& s : L.off) C.Add_ignore_off(s);
      for (auto& d : L.dep) C.Add_deprecated(d.first, d.second);
      string head = "prog";
      if (r.chance(0.3)) { head = "X" + r.str(6, ALPHA) + " [options] file"; C.DefineUsageString(head); }
      // a definition which cannot be
      bool invalid = r.chance(0.08) && n > 0;
      string badName;
      if (invalid)
      {
         CO& o = L.os[r.below(n)];
         badName = o.l;
         switch (r.below(6))
         {
            case 0: C.Add_ignore("--" + o.l); break;
            case 1: C.Add_ignore("--" + o.l, true); break;
            case 2: C.Add_ignore_on("--" + o.l); break;
            case 3: C.Add_ignore_off("--" + o.l); break;
            case 4: badName = "--nothere"; C.Add_deprecated("--oldone", badName); break;
            default: { static bool other; C.Add(0, o.l, "", false, false, &other, "", "twice"); }
         }
         c.count("definitions.bad");
      }
      // ---- what is typed
      vector<string> a = L.gen(0, int(r.range(0, 10)));
      bool cut = false;
      switch (r.range(0, 11))
      {
         case 0: if (!L.ign1.empty()) { a.push_back(L.ign1[0]); cut = true; } break;
         case 1: if (!L.on.empty()) { a.push_back(L.on[0]); if (r.chance(0.5)) a.push_back("--help"); cut = true; } break;
         case 2: a.push_back(r.chance(0.5) ? "--file" : "-f"); L.tokens.push_back(a.back()); cut = true; c.count("files.unnamed"); break;
         default: break;
      }
      if (cut) c.count("cut");
      a.insert(a.begin(), "/usr/local/bin/prog");
      string what = show(a);
      for (auto& f : L.files)
      {
         what += " {" + f.substr(f.rfind('/') + 1) + ": " + vf::slurp(f) + "}";
         made.push_back(f);
      }
      c.distinct(what);
      // ---- what it means
      if (invalid) { /* nothing is read */ }
      bool help = L.help;
      if (a.size() == 1 && !noArgs) help = true;
      if (!noArgs && L.args.empty()) help = true;
      vector<string> unrec;
      vector<std::pair<string, bool>> errTok;  // option name
      for (size_t i = 0; i < L.args.size(); i++)
      {
         const string& w = L.args[i];
         CO* m = nullptr;
         for (CO& o : L.os)
            if (w == "--" + o.l || (o.s && w == string("-") + o.s)) { m = &o; break; }
         if (!m) { unrec.push_back(w); continue; }
         if (m->t == cBool) m->vals.push_back("T");
         else if (i + 1 == L.args.size() || L.args[i + 1].compare(0, 2, "--") == 0) { m->badTok.push_back(w); c.count("value.missing"); }
         else m->vals.push_back(L.args[++i]);
      }
      for (CO& o : L.os)
      {
         if (o.l == "help" && help) { o.b = o.b; o.xb = true; o.vals.push_back("T"); }
         if (o.l == "verbose" && L.verbose) { o.xb = true; o.vals.push_back("T"); }
         if (o.l == "debug" && L.debug > -1) { o.xi = L.debug; o.vals.push_back(std::to_string(L.debug)); }
         if (o.req && o.vals.empty()) o.badTok.push_back(o.l);
         if (!o.rep && o.vals.size() > 1) o.badTok.push_back(o.l);
         if (o.vals.empty()) continue;
         vector<string> v;
         bool isList = o.t == cVInt || o.t == cVStr || o.t == cVSat;
         if (!isList || !o.expand) v = o.vals;
         else
            for (const string& x : o.vals)
            {
               std::istringstream is(x);
               string w;
               while (std::getline(is, w, ','))
               {
                  if (w.empty()) continue;
                  if (w[0] != '@') { v.push_back(w); continue; }
                  string f = w.substr(1);
                  if (f[0] == '~') f = dir + f.substr(1);
                  string t = vf::slurp(f), ww;
                  std::istringstream ls(t);
                  while (std::getline(ls, ww))
                  {
                     std::istringstream ws(ww);
                     string item;
                     while (ws >> item) { if (item[0] == '#') break; v.push_back(item); }
                  }
               }
            }
         auto isInt = [](const string& s) {
            size_t k = s[0] == '-' || s[0] == '+';
            return k < s.size() && s.find_first_not_of(DIG, k) == string::npos;
         };
         switch (o.t)
         {
            case cBool: o.xb = o.toggle ? !o.xb : true; break;
            case cInt: if (isInt(v[0])) o.xi = atoi(v[0].c_str()); else { o.badTok.push_back("--" + o.l); o.badTok.push_back(v[0]); } break;
            case cVInt: for (auto& x : v) if (isInt(x)) o.xvi.push_back(atoi(x.c_str())); else { o.badTok.push_back("--" + o.l); o.badTok.push_back(x); } break;
            case cDbl:
            {
               char* e = nullptr;
               double d = strtod(v[0].c_str(), &e);
               if (*e || e == v[0].c_str()) { o.badTok.push_back("--" + o.l); o.badTok.push_back(v[0]); }
               else o.xd = d;
               break;
            }
            case cStr: o.xst = v[0]; break;
            case cVStr: for (auto& x : v) o.xvs.push_back(x); break;
            case cSat: o.xsat = v[0]; break;
            default: for (auto& x : v) o.xvsat.push_back(x);
         }
      }
      // a satellite no value can be read as: how that is said is not specified
      bool satBad = false;
      for (CO& o : L.os)
      {
         auto good = [](const string& s) { return s.size() == 3 && string("GREC").find(s[0]) != string::npos && isdigit(s[1]) && isdigit(s[2]); };
         if (!o.xsat.empty() && !good(o.xsat)) satBad = true;
         for (auto& s : o.xvsat) if (!good(s)) satBad = true;
      }
      if (satBad) { c.count("skipped"); C.~CommandLine(); continue; }
      // ---- what was understood
      string usage, errors;
      vector<string> unr{"left over"};
      usage = errors = "left over";
      Argv av(a);
      int rc = -99;
      string desc = "Prg " + r.str(8, ALPHA);
      VF_NOTHROW("line.throws", rc = C.ProcessCommandLine(av.argc(), av.argv(), desc, usage, errors, unr), what);
      c.count("lines");
      c.count("line.arguments", long(a.size() - 1));
      if (rc == -99) { C.~CommandLine(); continue; }
      if (invalid)
      {
         VF_CHECK("define.refused", rc == -3 && errors.find(badName) != string::npos, "option " << badName << " defined twice or with nothing: " << rc << " " << errors);
         VF_CHECK("define.haserrors", C.hasErrors(), "hasErrors() after " << rc);
         C.~CommandLine();
         continue;
      }
      bool anyErr = !L.tokens.empty();
      for (CO& o : L.os) if (!o.badTok.empty()) anyErr = true;
      int xrc = help ? 1 : anyErr ? -1 : 0;
      VF_CHECK("line.result", rc == xrc, what << ": " << rc << " not " << xrc << ": " << errors);
      VF_CHECK("line.errors", errors.empty() == !anyErr, what << ": expected " << anyErr << ": " << errors);
      VF_CHECK("line.haserrors", rc == 1 || C.hasErrors() == anyErr, what << ": " << C.hasErrors());
      VF_CHECK("line.hashelp", C.hasHelp() == help, what << ": " << C.hasHelp());
      VF_CHECK("line.unrecognized", unr == unrec, what << ": " << show(unr) << " not " << show(unrec));
      for (auto& t : L.tokens) VF_CHECK("line.file", errors.find(t) != string::npos, what << ": '" << t << "' not in '" << errors << "'");
      for (CO& o : L.os)
      {
         if (o.badTok.empty()) VF_CHECK("line.blame", !isWordIn(errors, o.l) && !isWordIn(errors, "--" + o.l), what << ": nothing is wrong with " << o.l << ": " << errors);
         for (auto& t : o.badTok) VF_CHECK("line.say", errors.find(t) != string::npos, what << ": '" << t << "' not in '" << errors << "'");
         VF_CHECK("line.count", C.count(o.l) == o.vals.size(), what << ": " << o.l << " " << C.count(o.l) << " times, not " << o.vals.size());
         string w = what + ": --" + o.l + " ";
         switch (o.t)
         {
            case cBool: VF_CHECK("value.bool", o.b == o.xb, w << o.b); break;
            case cInt: VF_CHECK("value.int", o.i == o.xi, w << o.i << " not " << o.xi); break;
            case cVInt: VF_CHECK("value.ints", o.vi == o.xvi, w << join(intStr(o.vi)) << " not " << join(intStr(o.xvi))); break;
            case cDbl: VF_CHECK("value.double", vf::close(o.d, o.xd, 0, 1e-14), w << o.d << " not " << o.xd); break;
            case cStr: VF_CHECK("value.string", o.st == o.xst, w << o.st << " not " << o.xst); break;
            case cVStr: VF_CHECK("value.strings", o.vs == o.xvs, w << join(o.vs) << " not " << join(o.xvs)); break;
            case cSat: VF_CHECK("value.sat", o.xsat.empty() ? o.sat.id == -1 : o.sat.toString() == o.xsat, w << o.sat.toString() << " not " << o.xsat); break;
            default: VF_CHECK("value.sats", satStr(o.vsat) == o.xvsat, w << join(satStr(o.vsat)) << " not " << join(o.xvsat));
         }
      }
      VF_CHECK("line.nocount", C.count("nosuchoption") == 0, what);
      VF_CHECK("line.level", ConfigureLOG::ReportingLevel() == L.level, what << ": level " << ConfigureLOG::ToString(ConfigureLOG::ReportingLevel()) << " not " << ConfigureLOG::ToString(L.level));
      // ---- what is shown
      VF_CHECK("usage.first", usage.compare(0, 7 + head.size(), "Usage: " + head) == 0 && usage.find(desc) != string::npos, usage);
      for (CO& o : L.os)
      {
         size_t p = usage.find(o.desc);
         VF_CHECK("usage.documented", (p != string::npos) == o.doc, o.l << " documented " << o.doc << ": " << usage);
         if (p == string::npos) continue;
         size_t b = usage.rfind('\n', p), e = usage.find('\n', p);
         string ln = usage.substr(b + 1, e - b - 1);
         VF_CHECK("usage.line", ln.find(" --" + o.l + (o.a.empty() ? "" : " <" + o.a + ">")) == 0 && (ln.find("[repeatable]") != string::npos) == o.rep, o.l << ": " << ln);
         if (!o.pre.empty()) VF_CHECK("usage.before", usage.find(o.pre + "\n" + ln) != string::npos, o.pre << ": " << usage);
      }
      ostringstream ds;
      string tag = r.chance(0.3) ? "TAG" : "";
      C.DumpConfiguration(ds, tag);
      string dump = ds.str();
      for (CO& o : L.os)
      {
         string v;
         switch (o.t)
         {
            case cBool: v = o.xb ? "true" : "false"; break;
            case cInt: v = std::to_string(o.xi); break;
            case cVInt: v = join(intStr(o.xvi)); break;
            case cDbl: v = dblText(o.xd); break;
            case cStr: v = o.xst; break;
            case cVStr: v = join(o.xvs); break;
            case cSat: v = o.xsat; break;
            default: v = join(o.xvsat);
         }
         if (v.empty()) v = "<none>";
         if (v.find(' ') != string::npos) v = "\"" + v + "\"";
         string ln = (tag.empty() ? "" : tag + " ") + "   " + o.desc + " (--" + o.l + ") : " + v + "\n";
         VF_CHECK("dump.line", dump.find(ln) != string::npos, "'" << ln << "' not in " << dump);
      }
      VF_CHECK("dump.auto", dump.find(string("(--verbose) : ") + (L.verbose ? "true" : "false")) != string::npos && dump.find("(--debug<n>) : " + std::to_string(L.debug)) != string::npos && dump.find(string("(--help) : ") + (help ? "true" : "false")) != string::npos, dump);
      c.sample(what);
      C.~CommandLine();
   }
   for (auto& f : made) unlink(f.c_str());
   ConfigureLOG::ReportingLevel() = INFO;
}
} // namespace

int main(int argc, char** argv)
{
   return vf::run(argc, argv, {
      {"parser", 40000, 600000, stParser},
      {"line", 20000, 300000, stLine},
   });
}
