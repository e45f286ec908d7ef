// C27: StringUtils, FormattedDouble, HexDumpDataConfig
#include "vf.hpp"
#include "StringUtils.hpp"
#include "FormattedDouble.hpp"
#include "HexDumpDataConfig.hpp"
#include <set>
using namespace gpstk; using namespace gpstk::StringUtils;
typedef std::string S; typedef std::vector<S> VS; static const size_t NP = S::npos;
static S q(const S& s) { return "'" + s + "'"; }
static S jv(const VS& v) { S o = "["; for (auto& x : v) o += q(x) + " "; return o + "]"; }
static S text(vf::Rng& r, size_t n, const S& a) { return r.str(n, a); }
struct W { size_t b, e; };
static std::vector<W> toks(const S& s, const S& d) { std::vector<W> v; size_t i = 0; while (i < s.size()) { if (d.find(s[i]) != NP) { i++; continue; } size_t b = i; while (i < s.size() && d.find(s[i]) == NP) i++; v.push_back({b, i}); } return v; }
static S rtrim(S s, char d) { while (!s.empty() && s.back() == d) s.pop_back(); return s; }
static S trim(S s, char d = ' ') { s = rtrim(s, d); size_t i = 0; while (i < s.size() && s[i] == d) i++; return s.substr(i); }
static void words_(vf::Case& c)
{
   vf::Rng& r = c.rng; char d = r.pick({' ', ',', ':', 'x'}); S al = S("abc") + S(3, d) + (d == ' ' ? "" : " "); S s = text(r, r.range(0, 18), al); c.note(q(s) + " by " + q(S(1, d))); c.distinct(s + d); c.sample(s);
   std::vector<W> t = toks(s, S(1, d)); size_t n = t.size(); auto sub = [&](size_t a, size_t b) { return s.substr(t[a].b, t[b].e - t[a].b); };
   VF_CHECK("count", numWords(s, d) == (int)n, q(s) << " has " << numWords(s, d) << " words not " << n); VF_CHECK("first", firstWord(s, d) == (n ? sub(0, 0) : ""), q(s) << " first word " << q(firstWord(s, d)));
   VS v = split(s, d), w; for (size_t i = 0; i < n; i++) w.push_back(sub(i, i)); VF_CHECK("split", v == w, q(s) << " by " << d << " split to " << jv(v));
   for (int k = 0; k < 4; k++) { size_t i = r.range(0, n + 2), m = r.chance(0.3) ? NP : r.range(0, n + 2); S g = words(s, i, m, d); S e = m == 0 || i >= n ? "" : sub(i, (m >= n - i ? n : i + m) - 1); VF_CHECK("words", rtrim(g, d) == e && (i >= n || m == NP || m >= n - i || g == e) && !(i >= n && !g.empty()), q(s) << " words " << i << " for " << (long)m << " gives " << q(g) << " not " << q(e)); S o = word(s, i, d); VF_CHECK("word", o == (i < n ? sub(i, i) : ""), q(s) << " word " << i << " gives " << q(o)); }
   { S a = s, f = stripFirstWord(a, d); S rest = n == 0 ? "" : n == 1 ? "" : s.substr(t[1].b); VF_CHECK("stripfirst", f == (n ? sub(0, 0) : "") && a == rest, q(s) << " stripped " << q(f) << " leaves " << q(a)); }
   { size_t i = r.range(0, n + 1), m = r.chance(0.3) ? NP : r.chance(0.1) ? NP - r.range(1, 3) : r.range(0, n + 1); S a = s; removeWords(a, i, m, d); S e; if (i >= n || m == 0) e = s; else if (m >= n - i) e = rtrim(s.substr(0, t[i].b), d); else e = s.substr(0, t[i].b) + s.substr(t[i + m].b); VF_CHECK("remove", a == e, q(s) << " remove " << i << " for " << (long)m << " gives " << q(a) << " not " << q(e)); }
   { S ds = r.pick(VS{", ", ",;", " \t", "x"}); S z = text(r, r.range(0, 20), "ab ,;x\t"); bool tr = r.chance(0.5); VS e, g = split(z, ds, tr, true); for (auto& k : toks(z, ds)) { S x = z.substr(k.b, k.e - k.b); if (tr) x = trim(x); if (!x.empty()) e.push_back(x); } VF_CHECK("splitany", g == e, q(z) << " by " << q(ds) << " split to " << jv(g)); }
}
static void quotes(vf::Case& c)
{
   vf::Rng& r = c.rng; char d = r.pick({' ', ',', ';', '\t'}); bool both = r.chance(0.5), tr = r.chance(0.5), ig = r.chance(0.5); int n = (int)r.range(1, 6); S in; VS want;
   for (int i = 0; i < n; i++) { S t = text(r, r.range(0, 6), "ab ,;.-"); int mode = (int)r.range(0, 2); S f; if (mode == 1) f = "\"" + (both && r.chance(0.3) ? t += "'s", t : t) + "\""; else if (mode == 2 && both) { if (r.chance(0.3)) t += "\"n\"x"; f = "'" + t + "'"; } else { S u; for (char x : t) if (x != d) u += x; t = u; f = t; } if (i) in += d; in += f; if (tr) t = trim(t); if (!t.empty() || !ig) want.push_back(t); }
   c.note(q(in)); c.distinct(in); c.sample(in); VS g = both ? splitWithQuotes(in, d, tr, ig) : splitWithDoubleQuotes(in, d, tr, ig); VF_CHECK("quotes", g == want, q(in) << " by " << q(S(1, d)) << " split to " << jv(g) << " not " << jv(want));
   VF_THROWS("quotes.delimiter", StringException, splitWithQuotes(in, r.pick({'"', '\''})), in); VF_THROWS("quotes.delimiter", StringException, splitWithDoubleQuotes(in, '"'), in);
}
static bool isd(char c) { return c >= '0' && c <= '9'; }
static void edit(vf::Case& c)
{
   vf::Rng& r = c.rng; S s = text(r, r.range(0, 14), "aab b  xX.Z1"), p = text(r, r.range(0, 2), "ab x"); size_t num = r.chance(0.4) ? NP : r.range(0, 3); std::string ds = q(s) + " " + q(p) + " " + std::to_string((long)num); c.note(ds); c.distinct(ds); c.sample(ds);
   auto lead = [&](S a, const S& t) { size_t k = num; while (!t.empty() && k-- > 0 && a.compare(0, t.size(), t) == 0 && a.size() >= t.size()) a.erase(0, t.size()); return a; }; auto trail = [&](S a, const S& t) { size_t k = num; while (!t.empty() && k-- > 0 && a.size() >= t.size() && a.substr(a.size() - t.size()) == t) a.erase(a.size() - t.size()); return a; };
   const S& cs = s; VF_CHECK("strip", stripLeading(cs, p, num) == lead(s, p) && stripTrailing(cs, p, num) == trail(s, p) && strip(cs, p, num) == trail(lead(s, p), p), ds); VF_CHECK("strip.char", stripLeading(cs, 'a', num) == lead(s, "a") && stripTrailing(cs, "b", num) == trail(s, "b") && strip(cs, num) == trail(lead(s, " "), " ") && strip(cs) == trim(s), ds);
   { S in = text(r, r.range(0, 4), "abxX"), out = text(r, r.range(0, 4), "12ab"); char pad = r.pick({' ', '#'}); S e = s; for (auto& x : e) { size_t i = in.find(x); if (i != NP) x = i < out.size() ? out[i] : pad; } S g = translate(s, in, out, pad); VF_CHECK("translate", g == e, q(s) << " " << q(in) << " to " << q(out) << " gives " << q(g)); }
   { S o = text(r, r.range(0, 2), "ab "), n = text(r, r.range(0, 3), "abX"); auto rep = [&](size_t from, size_t cnt) { S a = s; size_t i = from; while (!o.empty() && cnt-- > 0 && (i = a.find(o, i)) != NP) { a.replace(i, o.size(), n); i += n.size(); } return a; }; S a = s; replaceAll(a, o, n); VF_CHECK("replace", a == rep(0, NP), q(s) << " " << q(o) << " by " << q(n) << " gives " << q(a)); size_t st = r.range(0, 6); unsigned k = (unsigned)r.range(0, 3); S b = change(cs, o, n, st, k), e = st > s.size() ? s : rep(st, k); VF_CHECK("change", b == e && change(cs, o, n) == rep(0, NP), q(s) << " " << q(o) << " by " << q(n) << " from " << st << " gives " << q(b)); }
   { size_t L = r.range(0, 20); char pad = r.pick({' ', '0'}); size_t n = s.size(); S R = L < n ? s.substr(n - L) : S(L - n, pad) + s, F = L < n ? s.substr(0, L) : s + S(L - n, pad); VF_CHECK("justify", rightJustify(cs, L, pad) == R && leftJustify(cs, L, pad) == F, ds << " " << L); S g = center(cs, L, pad); bool ok = g.size() == L; if (L < n) ok = g == s.substr(0, L); else { size_t a = (L - n) / 2, b = L - n - a; ok = ok && (g == S(a, pad) + s + S(b, pad) || g == S(b, pad) + s + S(a, pad)); } VF_CHECK("center", ok, q(s) << " centered in " << L << ": " << q(g));
     size_t st = r.range(0, n + 2); S e = st < n ? s.substr(st, L) : ""; e.resize(L, pad); S h = subString(s, st, L, pad); VF_CHECK("substring", h == e, q(s) << " " << st << " " << L << " gives " << q(h)); S w; bool thrown = false; try { w = subString(s, st); } catch (StringException&) { thrown = true; } VF_CHECK("substring.rest", !thrown && w == (st < n ? s.substr(st) : ""), q(s) << " from " << st << (thrown ? " refused" : " gives ") << w); }
   { S u = s, l = s; for (auto& x : u) x = x >= 'a' && x <= 'z' ? x - 32 : x; for (auto& x : l) x = x >= 'A' && x <= 'Z' ? x + 32 : x; VF_CHECK("case", upperCase(cs) == u && lowerCase(cs) == l, ds); }
   { S t = text(r, r.range(1, 7), r.pick(VS{"0123456789", "0123456789+-.", "019.eEdD-+", "abcXYZ", "abcXYZ1"})); size_t i = 0; auto digits = [&](const S& a) { size_t k = !a.empty() && (a[0] == '+' || a[0] == '-'); if (k == a.size()) return false; for (; k < a.size(); k++) if (!isd(a[k])) return false; return true; }; auto has = [&](const S& a) { for (char x : a) if (isd(x)) return true; return false; }; auto dec = [&](const S& a) { if (a.empty()) return false; size_t k = a[0] == '+' || a[0] == '-', dots = 0; for (; k < a.size(); k++) if (a[k] == '.') dots++; else if (!isd(a[k])) return false; return dots < 2; }; i = t.find_first_of("eEdD"); S m = t.substr(0, i), x = i == NP ? "" : t.substr(i + 1); bool al = true; for (char k : t) al = al && ((k >= 'a' && k <= 'z') || (k >= 'A' && k <= 'Z')); VF_CHECK("isalpha", isAlphaString(t) == al, q(t)); if (has(t)) { VF_CHECK("isdigits", isDigitString(t) == digits(t), q(t)); if (i == NP) VF_CHECK("isdecimal", isDecimalString(t) == dec(t), q(t)); if (has(m) && (x.empty() || has(x))) VF_CHECK("isscientific", isScientificString(t) == (dec(m) && (i == NP || x.empty() || digits(x))), q(t)); } VF_CHECK("is.empty", !isDigitString("") && !isDecimalString("") && !isScientificString("") && !isAlphaString(""), ""); }
}
// patterns of letters and wildcards; leftmost, then longest
struct Pat { char ch; bool any; int rep; }; // rep 0 one, 1 *, 2 +
static void match_(vf::Case& c)
{
   vf::Rng& r = c.rng; char z = '*', o = '+', a = '.'; if (r.chance(0.4)) z = '%'; if (r.chance(0.4)) o = '&'; if (r.chance(0.4)) a = '_'; std::vector<Pat> pt; S pat; int n = (int)r.range(1, 4);
   for (int i = 0; i < n; i++) { Pat p; p.any = r.chance(0.25); p.ch = r.pick({'a', 'b', 'c'}); if (!p.any && r.chance(0.15)) { if (z != '*' && i) p.ch = '*'; if (o != '+' && i) p.ch = '+'; if (a != '.') p.ch = '.'; } p.rep = (int)r.range(0, 3); if (p.rep == 3) p.rep = 0; pt.push_back(p); pat += p.any ? a : p.ch; if (p.rep) pat += p.rep == 1 ? z : o; }
   S s = text(r, r.range(0, 10), "aabbc*+."); c.note(q(s) + " like " + q(pat)); c.distinct(s + "|" + pat); c.sample(pat); S want; 
   for (size_t b = 0; b <= s.size(); b++) { std::set<size_t> at = {b}; for (auto& p : pt) { auto ok = [&](size_t i) { return i < s.size() && (p.any || s[i] == p.ch); }; std::set<size_t> nx; for (size_t i : at) { if (p.rep == 1) nx.insert(i); size_t k = i; while (ok(k)) { nx.insert(++k); if (!p.rep) break; } } at = nx; } if (!at.empty()) { want = s.substr(b, *at.rbegin() - b); break; } }
   S g = matches(s, pat, z, o, a); VF_CHECK("matches", g == want, q(s) << " like " << q(pat) << " gives " << q(g) << " not " << q(want)); VF_CHECK("islike", isLike(s, pat, z, o, a) == !want.empty() && isLike(s, pat.c_str(), z, o, a) == !want.empty(), q(s)); VF_THROWS("matches.bad", StringException, matches(s, "a[b"), "");
}
static double anyd(vf::Rng& r) { switch (r.range(0, 9)) { case 0: return r.pick({0.0, -0.0, 1.0, -1.0, 10.0, 0.1}); case 1: return (double)r.range(-1000, 1000); case 2: return r.logmag(1e-300, 1e300); case 3: return std::pow(10.0, (int)r.range(-20, 20)) * (1 + (r.range(-3, 3)) * 2.2e-16); case 4: return 9.99999999999 * std::pow(10.0, (int)r.range(-12, 12)); default: return r.logmag(1e-9, 1e9); } }
template <class T> static T poison(const S& s) { return asData<T>(s); }
static void dirty() { volatile unsigned char b[512]; for (int i = 0; i < 512; i++) b[i] = 0xa5; }
static void numbers(vf::Case& c)
{
   vf::Rng& r = c.rng; double x = anyd(r); std::ostringstream o; o.precision(17); o << x; S ds = o.str(); c.note(ds); c.distinct(ds); c.sample(ds); char b[700]; S pre(r.range(0, 3), ' '), suf = r.pick(VS{"", " ", " foo", "x", ",2"});
   { int p = (int)r.range(0, 20); snprintf(b, sizeof b, "%.*f", p, x); VF_CHECK("asstring", asString(x, p) == b, ds << " precision " << p << ": " << asString(x, p)); snprintf(b, sizeof b, "%.*Lf", p, (long double)x); VF_CHECK("asstring", asString((long double)x, p) == b, ds); }
   snprintf(b, sizeof b, "%.17g", x); VF_CHECK("asdouble", asDouble(pre + b + suf) == x, b); { std::ostringstream f; float y = (float)x; f.precision(9); f << y; if (std::fabs(x) < 3e38 && (x == 0 || std::fabs(x) > 1e-37)) VF_CHECK("asfloat", asFloat(pre + f.str() + (suf == "x" ? "" : suf)) == y, f.str()); VF_CHECK("aslong", asLongDouble(pre + b) == strtold(b, 0) && asData<double>(pre + S(b)) == x, b); }
   long v = r.chance(0.3) ? (long)r.range(-3, 3) : (long)r.range(-2000000000L, 2000000000L) * (r.chance(0.3) ? 1000000007L : 1); VF_CHECK("asint", asInt(pre + std::to_string(v) + suf) == v && asString(v) == std::to_string(v) && asData<long>(pre + std::to_string(v) + suf) == v, v); unsigned long ul = (unsigned long)std::labs(v); VF_CHECK("asunsigned", asUnsigned(pre + std::to_string(ul) + suf) == ul, ul);
   { S e = r.pick(VS{"", " ", "   "}); dirty(); float f = asFloat(e); dirty(); long double l = asLongDouble(e); dirty(); int i = poison<int>(e); dirty(); double d = poison<double>(e); dirty(); unsigned u = x2uint(e); VF_CHECK("blank", f == 0 && l == 0 && i == 0 && d == 0 && u == 0 && asDouble(e) == 0 && asInt(e) == 0 && asUnsigned(e) == 0 && for2doub(e) == 0, q(e) << " read as " << f << " " << (double)l << " " << i << " " << d << " " << u); }
   unsigned u = r.chance(0.3) ? (unsigned)r.range(0, 300) : (unsigned)r.range(0, 0x7fffffff); snprintf(b, sizeof b, "%x", u); VF_CHECK("int2x", int2x(u) == b, u); unsigned U = u * 2u + (unsigned)r.range(0, 1); VF_CHECK("x2uint", x2uint(int2x(U)) == U && x2uint(pre + "0x" + upperCase(int2x(U)) + " z") == U, U);
   { S hx = r.chance(0.5) ? upperCase(int2x(u)) : int2x(u), tail = r.pick(VS{"", " foo", " 12", "\n"}); S z(r.range(0, 2), '0'); if (r.chance(0.5)) z = "0x" + z; S g = x2d(pre + z + hx + tail); VF_CHECK("x2d", g == std::to_string(u) + tail, q(pre + z + hx + tail) << " gives " << q(g)); S sg = r.chance(0.1) ? "+" : ""; snprintf(b, sizeof b, "%lX", (unsigned long)(r.chance(0.2) ? -(long)u : (long)u)); long w = (long)strtoul(b, 0, 16); if (w < 0) sg = ""; S in = pre + sg + (r.chance(0.2) && w >= 0 ? "00" : "") + std::to_string(w) + tail; g = d2x(in); VF_CHECK("d2x", g == b + tail, q(in) << " gives " << q(g)); }
   { S t; for (int i = (int)r.range(0, 8); i > 0; i--) t += (char)r.range(0, 255); S e; for (unsigned char k : t) { snprintf(b, sizeof b, "%02X", k); e += b; } VF_CHECK("c2x", c2x((const S&)t) == e && memToString(t.data(), t.size()) == t, e); }
}
static void sci(vf::Case& c)
{
   vf::Rng& r = c.rng; double x = anyd(r); if (std::fabs(x) > 1e306) x = 1; std::ostringstream o; o.precision(17); o << x; S ds = o.str(); c.note(ds); c.distinct(ds); auto rel = [&](double g, int dig) { return x == 0 ? g == 0 : std::fabs(g - x) <= 0.5000001 * std::pow(10.0L, 1 - dig + floorl(log10l(fabsl((long double)x)) + 1e-12L)) * 1.0L + 4e-16 * std::fabs(x); };
   { size_t L = r.range(12, 24), e = r.range(2, 3); bool big = x != 0 && (std::fabs(x) >= 9.99e97 || std::fabs(x) < 1e-98); S g = doub2for(x, L, e); double v = for2doub(g); int dig = (int)(L - 5 - e) + 1; VF_CHECK("doub2for.value", rel(v, dig), ds << " written " << q(g) << " read " << v); VF_CHECK("doub2for.form", (g[0] == '-' || g[0] == ' ') && g[1] == '.' && g.find('D') != NP && (big || g.size() == L) && (std::signbit(x) ? g[0] == '-' : g[0] == ' '), ds << " written " << q(g) << " for " << L << " " << e); S h = doub2for(x, L, e, false); VF_CHECK("doub2for.switch", rel(for2doub(h), dig) && h.find("0.") == 1, ds << " written " << q(h)); S m = "xy" + g + "  7"; VF_CHECK("for2doub.slice", for2doub(m, 2, g.size()) == v, m); S k = doub2sci(x, L, e); VF_CHECK("doub2sci", rel(asDouble(k), dig), ds << " written " << k); }
   { size_t L = r.range(1, 26), p = r.range(1, 16), e = r.range(1, 3); bool pl = r.chance(0.5); S g = doubleToScientific(x, L, p, e, pl), t = trim(g); double v = asDouble(t); size_t i = t.find('e'); bool ok = rel(v, (int)p + 1) && i != NP && (g.size() == L || (g.size() > L && g[0] != ' ')) && (!pl || std::signbit(x) || t[0] == '+') && t.find('.') + p + 1 == i && t.size() - i - 2 >= e; VF_CHECK("doubletosci", ok, ds << " length " << L << " precision " << p << " exponent " << e << " written " << q(g)); }
   FFLead ld = r.pick({FFLead::Zero, FFLead::Decimal, FFLead::NonZero}); FFSign sg = r.pick({FFSign::NegOnly, FFSign::NegSpace, FFSign::NegPos}); FFAlign al = r.pick({FFAlign::Left, FFAlign::Right}); unsigned m = (unsigned)r.range(2, 18), e = (unsigned)r.range(0, 5), w = (unsigned)r.range(0, 30); char ec = r.pick({'e', 'E', 'D', 'd'}); S g = floatFormat(x, ld, m, e, w, ec, sg, al), t = trim(g); FormattedDouble fd(x, ld, m, e, w, ec, sg, al); S fs = fd; VF_CHECK("ff.same", fs == g && (double)fd == x, ds);
   { unsigned dig = ld == FFLead::Zero ? m - 1 : m; S u = t; bool neg = u[0] == '-', plus = u[0] == '+'; if (neg || plus) u.erase(0, 1); size_t i = u.find(ec); S man = u.substr(0, i), ex = i == NP ? "" : u.substr(i + 1); S all; for (char k : man) if (k != '.') all += k; bool form = i != NP && neg == std::signbit(x) && plus == (sg == FFSign::NegPos && !neg); if (ld == FFLead::Zero) form = form && man.compare(0, 2, "0.") == 0 && all.size() == m; else if (ld == FFLead::Decimal) form = form && man[0] == '.' && all.size() == m; else form = form && isd(man[0]) && all.size() == m; form = form && ex.size() >= 3 && ex.size() >= e + 1 && (ex[0] == '+' || ex[0] == '-'); int need = ex.size() > 1 ? (int)std::to_string(std::labs(asInt(ex))).size() : 0; form = form && (int)ex.size() == 1 + std::max((int)std::max(e, 2u), need); VF_CHECK("ff.form", form, ds << " mantissa " << m << " exponent " << e << " written " << q(g));
     S core = t; if (sg == FFSign::NegSpace && !neg) core = " " + core; S want = core; if (want.size() < w) want = al == FFAlign::Left ? want + S(w - want.size(), ' ') : S(w - want.size(), ' ') + want; VF_CHECK("ff.width", g == want, ds << " width " << w << " written " << q(g) << " not " << q(want));
     FormattedDouble in(g, w, ec); VF_CHECK("ff.read", rel(in.val, (int)dig), ds << " written " << q(g) << " read " << in.val); FormattedDouble in2(w, ec); std::istringstream is(g + " 42"); is >> in2; int nx = 0; is >> nx; if (!(w && t.size() > w)) VF_CHECK("ff.stream", in2.val == in.val && nx == 42, q(g) << " streamed as " << in2.val << " then " << nx); in2 = 5; in2 = g; VF_CHECK("ff.assign", in2.val == in.val, q(g)); FormattedDouble h = fd * 2.0; FormattedDouble k = fd / 4.0; h++; ++h; h--; VF_CHECK("ff.arith", h.val == x * 2 + 1 - 1 + 1 || std::fabs(h.val - (x * 2 + 1)) <= 4e-16 * (2 * std::fabs(x) + 2), ds); VF_CHECK("ff.keepformat", k.val == x / 4 && k.mantissaLen == m && k.exponentLen == e && k.totalLen == w && k.exponentChar == ec && k.leadChar == ld && k.leadSign == sg && k.alignment == al, ds); }
}
static void text_(vf::Case& c)
{
   vf::Rng& r = c.rng; { S t, e; char b[9]; for (int i = (int)r.range(0, 12); i > 0; i--) t += (char)(r.chance(0.5) ? r.range(32, 126) : r.range(0, 255)); for (unsigned char k : t) if (k >= 32 && k < 127) e += (char)k; else if (k < 128) { e += '^'; e += (char)(k ^ 0x40); } else { snprintf(b, 9, "<%02X>", k); e += b; } VF_CHECK("printable", printable(t) == e, e << " printed " << printable(t)); }
   { char wd = r.chance(0.8) ? ' ' : '_'; S ld = r.pick(VS{"\n", "\n", "|", "||"}), in(r.range(0, 4), '>'), fi(r.range(0, 6), '>'); size_t len = r.range(8, 40); S s; VS ws; int n = (int)r.range(0, 14), nl = 0; for (int i = 0; i < n; i++) { S w = text(r, r.range(1, 9), "abcd"); ws.push_back(w); if (i) { if (r.chance(0.1)) { s += ld; nl++; } else s += S(r.range(1, 2), wd); } s += w; } c.note(q(s)); c.distinct(s); c.sample(s); S g = prettyPrint((const S&)s, ld, in, fi, len, wd); VS got; std::vector<S> lines; size_t i = 0; while (i <= g.size()) { size_t k = g.find(ld, i); if (k == NP) { lines.push_back(g.substr(i)); break; } lines.push_back(g.substr(i, k - i)); i = k + ld.size(); } bool ok = !lines.empty() && lines.back().empty(), fit = true, ind = true; if (!lines.empty()) lines.pop_back(); for (size_t j = 0; j < lines.size(); j++) { const S& pf = j ? in : fi; ind = ind && lines[j].compare(0, pf.size(), pf) == 0; S body = lines[j].substr(std::min(pf.size(), lines[j].size())); auto t = toks(body, S(1, wd)); for (auto& k : t) got.push_back(body.substr(k.b, k.e - k.b)); if (t.size() > 1 && lines[j].size() > len) fit = false; } VF_CHECK("pretty.words", ok && got == ws && (int)lines.size() >= nl + 1, q(s) << " printed " << q(g)); VF_CHECK("pretty.width", fit, q(s) << " width " << len << " printed " << q(g)); VF_CHECK("pretty.indent", ind, q(g)); S e = prettyPrint((const S&)s, "", in, fi, len, wd); auto t = toks(e.substr(fi.size()), S(1, wd) + ">"); VF_CHECK("pretty.nodelim", t.size() == ws.size() || nl || !in.empty() || e.size() >= s.size(), q(e)); }
   // dumps are parsed back
   S data; for (int i = (int)r.range(0, 70); i > 0; i--) data += (char)r.range(0, 255); HexDumpDataConfig cfg; bool def = r.chance(0.15); VF_CHECK("hex.defaults", cfg.showIndex && cfg.hexIndex && !cfg.upperHex && cfg.idxDigits == 4 && cfg.indexSep == ": " && cfg.groupBy == 1 && cfg.groupSep == " " && cfg.group2By == 8 && cfg.group2Sep == "  " && cfg.bytesPerLine == 16 && cfg.showText && cfg.preText == "    " && !cfg.showBaseData && !cfg.showBaseIndex, "defaults of HexDumpDataConfig"); if (!def) { unsigned g = (unsigned)r.range(0, 4), k = (unsigned)r.range(0, 3), m = (unsigned)r.range(1, 4); cfg.groupBy = g; unsigned gg = g ? g : 1; cfg.group2By = k * gg; cfg.bytesPerLine = (k ? k * gg : gg) * m; cfg.showIndex = r.chance(0.7); cfg.hexIndex = r.chance(0.5); cfg.upperHex = r.chance(0.5); cfg.idxDigits = (unsigned)r.range(3, 6); cfg.indexSep = S(r.range(1, 3), ':'); cfg.groupSep = S(r.range(1, 2), ' '); cfg.group2Sep = S(r.range(1, 3), '~'); cfg.showText = r.chance(0.6); cfg.preText = S(r.range(1, 3), '|'); cfg.postText = r.chance(0.5) ? "]" : ""; cfg.showBaseData = g && r.chance(0.4); cfg.showBaseIndex = r.chance(0.4); cfg.dataEndSep = r.pick(VS{"", ";", ";;"}); cfg.dataFinal = r.pick(VS{"", ".", "....", "........."}); cfg.prefix = r.pick(VS{"", "# "}); }
   std::ostringstream os; os << std::hex << std::showbase; auto f0 = os.flags(); S cd = "dump of " + std::to_string(data.size()) + " bytes, groups " + std::to_string(cfg.groupBy) + "/" + std::to_string(cfg.group2By) + " line " + std::to_string(cfg.bytesPerLine); bool thrown = false; try { if (def && r.chance(0.5)) hexDumpData(os, data, S("# ")), cfg.prefix = "# "; else if (def) hexDumpData(os, data, 3u), cfg.prefix = "   "; else hexDumpData(data, os, cfg); } catch (std::exception& e) { thrown = true; VF_CHECK("dump", false, cd << " failed " << e.what()); } if (thrown) return; VF_CHECK("dump.stream", os.flags() == f0, cd);
   std::istringstream is(os.str()); S line, back, txt; bool ok = true, idx = true, aligned = true; size_t col = NP, k = 0; unsigned lines = 0; while (getline(is, line)) { lines++; size_t p = 0; auto eat = [&](const S& t) { if (line.compare(p, t.size(), t) != 0) { ok = false; return; } p += t.size(); }; eat(cfg.prefix); if (cfg.showIndex) { if (cfg.showBaseIndex && cfg.hexIndex) { S h = line.substr(std::min(p, line.size()), 2); ok = ok && (h == "0x" || h == "0X"); p += 2; } else if (cfg.showBaseIndex && line.compare(p, 2, cfg.baseIndex()) == 0) p += cfg.baseIndex().size(); if (p > line.size()) { ok = false; break; } S h = line.substr(p, cfg.idxDigits); idx = idx && h.size() == cfg.idxDigits && strtoul(h.c_str(), 0, cfg.hexIndex ? 16 : 10) == k; p += h.size(); eat(cfg.indexSep); } size_t nl = std::min<size_t>(cfg.bytesPerLine, data.size() - k); for (size_t j = 0; j < nl && ok; j++) { if (cfg.groupBy && j % cfg.groupBy == 0 && cfg.showBaseData) { S h = line.substr(std::min(p, line.size()), 2); ok = ok && (h == "0x" || h == "0X"); p += 2; } if (p + 2 > line.size()) { ok = false; break; } S h = line.substr(p, 2); for (char x : h) ok = ok && (isd(x) || (cfg.upperHex ? x >= 'A' && x <= 'F' : x >= 'a' && x <= 'f')); back += (char)strtoul(h.c_str(), 0, 16); p += 2; if (j + 1 < nl) { if (cfg.group2By && j % cfg.group2By == cfg.group2By - 1) eat(cfg.group2Sep); else if (cfg.groupBy && j % cfg.groupBy == cfg.groupBy - 1) eat(cfg.groupSep); } } k += nl; eat(k == data.size() ? cfg.dataFinal : cfg.dataEndSep); if (cfg.showText && ok) { while (p < line.size() && line[p] == ' ') p++; if (def) p -= std::min(p, (size_t)0); S t; for (size_t j = k - nl; j < k; j++) { unsigned char x = data[j]; t += x >= 32 && x < 127 ? (char)x : '.'; } S tail = cfg.preText + t + cfg.postText; aligned = aligned && line.size() >= tail.size() && line.substr(line.size() - tail.size()) == tail; size_t at = line.size() - std::min(line.size(), tail.size()); if (col != NP) aligned = aligned && at == col; col = at; } else if (ok) ok = p == line.size(); if (!ok) break; }
   VF_CHECK("dump.bytes", ok && back == data && lines == (data.size() + cfg.bytesPerLine - 1) / cfg.bytesPerLine, cd << "\n" << os.str()); VF_CHECK("dump.index", idx, cd << "\n" << os.str()); VF_CHECK("dump.text", aligned, cd << "\n" << os.str());
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"words", 12000, 400000, words_}, {"quotes", 12000, 400000, quotes}, {"edit", 12000, 400000, edit}, {"match", 12000, 300000, match_}, {"numbers", 12000, 300000, numbers}, {"scientific", 12000, 400000, sci}, {"text", 8000, 200000, text_}}); }
