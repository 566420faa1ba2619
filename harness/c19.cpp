// C19: texts: words, fields, patterns, numbers.
#include "hx.hpp"
#include "rec.hpp"
#include "StringUtils.hpp"
#include "FormattedDouble.hpp"
using namespace hx; namespace SU = gpstk::StringUtils;
typedef std::string S;
typedef std::vector<std::string> VS;
typedef std::vector<ll> VI;
static const S::size_type ALL = S::npos;
static S text;
static S::size_type cnt(ll n) { return n < 0 ? ALL : (S::size_type)n; }
static S some(Rng& r, const S& al, int lo, int hi) { S s; for (int n = r.in(lo, hi); n > 0; n--) s += al[r.in(0, (ll)al.size() - 1)]; return s; }
static S anyText(Rng& r)
{
   int k = r.in(0, 9);
   if (k < 4) return some(r, "ab ", 0, r.chance(20) ? 14 : 8);
   if (k < 6) return some(r, "abAB ,;", 0, 10);
   if (k < 7) return some(r, "0123456789+-. ", 0, 6);
   if (k < 8) return some(r, "0123.eEdD+-", 0, 6);
   if (k < 9) return some(r, "aZ09", 0, 6);
   return rec::word(r, 20);
}
static S part(Rng& r)      // something likely in the text
{
   if (!text.empty() && r.chance(60)) { int i = r.in(0, (ll)text.size() - 1); return text.substr(i, r.in(1, 2)); }
   return some(r, "ab ", r.chance(10) ? 0 : 1, 2);
}
static char chr(Rng& r) { if (!text.empty() && r.chance(60)) return text[r.in(0, (ll)text.size() - 1)]; return r.pick(std::vector<char>{'a', 'b', ' ', ',', ';', '*'}); }
static void setText(const S& s) { text = s; Ev("set").f("t", text).end(); }
static void op(Rng& r)
{
   S a = text, c; VS s; VI n; S rw, x; const char* fn = "";
   int k = r.in(0, 13);
   ll m = r.chance(60) ? -1 : r.in(0, 3);
   x = guard([&] {
      if (k <= 2)
      {
         fn = k == 0 ? "stripL" : k == 1 ? "stripT" : "strip";
         int how = r.in(0, 3);
         S p = how == 0 ? part(r) : how == 1 ? S(1, chr(r)) : S(" ");
         n = VI{m}; s = VS{p};
         if (how == 3 || (how == 2 && m < 0))
         {
            n[0] = -1;
            c = k == 0 ? SU::stripLeading((const S&)text) : k == 1 ? SU::stripTrailing((const S&)text) : SU::strip((const S&)text);
            if (k == 0) SU::stripLeading(a); else if (k == 1) SU::stripTrailing(a); else SU::strip(a);
         }
         else if (how == 1)
         {
            c = k == 0 ? SU::stripLeading((const S&)text, p[0], cnt(m)) : k == 1 ? SU::stripTrailing((const S&)text, p[0], cnt(m)) : SU::strip((const S&)text, p[0], cnt(m));
            if (k == 0) SU::stripLeading(a, p[0], cnt(m)); else if (k == 1) SU::stripTrailing(a, p[0], cnt(m)); else SU::strip(a, p[0], cnt(m));
         }
         else
         {
            c = k == 0 ? SU::stripLeading((const S&)text, p, cnt(m)) : k == 1 ? SU::stripTrailing((const S&)text, p, cnt(m)) : SU::strip((const S&)text, p, cnt(m));
            if (k == 0) SU::stripLeading(a, p, cnt(m)); else if (k == 1) SU::stripTrailing(a, p, cnt(m)); else SU::strip(a, p, cnt(m));
         }
      }
      else if (k == 3)
      {
         fn = "translate"; S in, out, pad(1, chr(r));
         for (int i = r.in(0, 4); i > 0; i--) in += chr(r);
         out = some(r, "xyzab", 0, (ll)in.size() + 1);
         s = VS{in, out, pad};
         if (pad == " " && r.chance(50)) a = c = SU::translate(text, in, out); else a = c = SU::translate(text, in, out, pad[0]);
      }
      else if (k == 4)
      {
         fn = "change"; s = VS{part(r), some(r, "abx ", 0, 3)}; n = VI{r.chance(50) ? 0 : r.in(0, (ll)text.size() + 1), r.chance(40) ? -1 : r.in(0, 3)};
         if (n[1] < 0) { c = SU::change((const S&)text, s[0], s[1], n[0]); SU::change(a, s[0], s[1], n[0]); }
         else { c = SU::change((const S&)text, s[0], s[1], n[0], n[1]); SU::change(a, s[0], s[1], n[0], n[1]); }
      }
      else if (k == 5)
      {
         fn = "replaceAll"; s = VS{part(r), some(r, "abx ", 0, 3)}; if (s[0].empty()) s[0] = "a";
         SU::replaceAll(a, s[0], s[1]); c = a;
      }
      else if (k <= 8)
      {
         fn = k == 6 ? "left" : k == 7 ? "right" : "center"; n = VI{r.in(0, 14)}; s = VS{S(1, r.chance(40) ? ' ' : chr(r))};
         bool d = s[0] == " " && r.chance(50); const S& t = text;
         if (k == 6) { c = d ? SU::leftJustify(t, n[0]) : SU::leftJustify(t, n[0], s[0][0]); d ? SU::leftJustify(a, n[0]) : SU::leftJustify(a, n[0], s[0][0]); }
         else if (k == 7) { c = d ? SU::rightJustify(t, n[0]) : SU::rightJustify(t, n[0], s[0][0]); d ? SU::rightJustify(a, n[0]) : SU::rightJustify(a, n[0], s[0][0]); }
         else { c = d ? SU::center(t, n[0]) : SU::center(t, n[0], s[0][0]); d ? SU::center(a, n[0]) : SU::center(a, n[0], s[0][0]); }
      }
      else if (k == 9)
      { fn = "subString"; n = VI{r.in(0, 10), r.in(0, 10)}; s = VS{S(1, chr(r))}; a = c = SU::subString(text, n[0], n[1], s[0][0]); }
      else if (k == 10)
      {
         fn = "removeWords"; n = VI{r.in(0, 3), r.chance(30) ? -1 : r.in(0, 3)}; s = VS{S(1, r.chance(60) ? ' ' : chr(r))};
         if (s[0] == " " && r.chance(40)) SU::removeWords(a, n[0], cnt(n[1])); else SU::removeWords(a, n[0], cnt(n[1]), s[0][0]);
         c = a;
      }
      else if (k == 11)
      { fn = "stripFirst"; s = VS{S(1, r.chance(60) ? ' ' : chr(r))}; rw = SU::stripFirstWord(a, s[0][0]); c = a; }
      else if (k == 12) { fn = "upper"; c = SU::upperCase((const S&)text); SU::upperCase(a); }
      else { fn = "lower"; c = SU::lowerCase((const S&)text); SU::lowerCase(a); }
   });
   text = a;
   Ev("op").f("fn", fn).f("s", s).f("n", n).f("x", x).f("t", a).f("c", c).f("r", rw).end();
}
static void ask(Rng& r)
{
   VS s; VI n; S x; int k = r.in(0, 9);
   S rs; ll ri = 0; bool rb = false; VS rv; int kind = 0; const char* fn = "";
   const S d(1, r.chance(60) ? ' ' : chr(r)); bool def = d == " " && r.chance(50);
   x = guard([&] {
      switch (k)
      {
         case 0: fn = "firstWord"; s = VS{d}; rs = def ? SU::firstWord(text) : SU::firstWord(text, d[0]); break;
         case 1: fn = "numWords"; kind = 1; s = VS{d}; ri = def ? SU::numWords(text) : SU::numWords(text, d[0]); break;
         case 2:
            fn = "words"; s = VS{d};
            if (r.chance(40)) { n = VI{r.in(0, 4), 1}; rs = SU::word(text, n[0], d[0]); }
            else { n = VI{r.in(0, 4), r.chance(30) ? -1 : r.in(0, 4)}; rs = SU::words(text, n[0], cnt(n[1]), d[0]); }
            break;
         case 3: fn = "split"; kind = 3; s = VS{d}; rv = def ? SU::split(text) : SU::split(text, d[0]); break;
         case 4:
            fn = "tokens"; kind = 3; s = VS{r.chance(50) ? S(",;") : some(r, "ab ,", 1, 2)}; n = VI{r.in(0, 1), r.in(0, 1)};
            rv = SU::split(text, s[0], n[0] == 1, n[1] == 1); break;
         case 5: fn = "isDigit"; kind = 2; rb = SU::isDigitString(text); break;
         case 6: fn = "isDecimal"; kind = 2; rb = SU::isDecimalString(text); break;
         case 7: fn = "isScientific"; kind = 2; rb = SU::isScientificString(text); break;
         case 8: fn = "isAlpha"; kind = 2; rb = SU::isAlphaString(text); break;
         default: fn = "asInt"; kind = 1; ri = SU::asInt(text); break;
      }
   });
   if (k == 9 && (ri > 9999999 || ri < -9999999)) return;
   Ev e("ask"); e.f("fn", fn).f("s", s).f("n", n).f("x", x);
   if (kind == 0) e.f("r", rs); else if (kind == 1) e.f("r", ri); else if (kind == 2) e.f("r", rb); else e.f("r", rv);
   e.end();
}
static void wrap(Rng& r)
{
   S nl = r.chance(50) ? "/" : "//", ind = r.chance(40) ? S("") : some(r, "> ", 1, 3), first = r.chance(40) ? S("     ") : some(r, ">- ", 0, 4);
   S t; VS w; int n = r.in(1, 9);
   for (int i = 0; i < n; i++)
   {
      if (i > 0 && r.chance(15)) { if (r.chance(50)) t += " "; t += nl; w.push_back(nl); if (r.chance(30)) { t += nl; w.push_back(nl); } if (r.chance(50)) t += " "; }
      else if (i > 0) t += S(r.chance(70) ? 1 : 2, ' ');
      S a = some(r, "abcdefg.", 1, 6); t += a; w.push_back(a);
   }
   ll len = r.in(4, 20); S rs, c;
   S x = guard([&] { rs = SU::prettyPrint((const S&)t, nl, ind, first, len); c = t; SU::prettyPrint(c, nl, ind, first, len); });
   if (c != rs) x = "the two forms differ";
   Ev("ask").f("fn", "wrap").f("s", VS{nl, ind, first}).f("n", VI{len}).f("w", w).f("x", x).f("r", rs).end();
}
static void fields(Rng& r)
{
   S d(1, r.pick(std::vector<char>{',', ';', ' ', '|'})); bool both = r.chance(50), trim = r.chance(50), ign = r.chance(50);
   std::vector<Raw> f; S t; int n = r.in(1, 5);
   for (int i = 0; i < n; i++)
   {
      S q, b;
      if (r.chance(40)) { q = both && r.chance(50) ? "'" : "\""; b = some(r, S("ab ,;|") + (q == "'" ? "\"" : both ? "'" : ""), 0, 5); }
      else
      {
         S al = "abc "; if (d == " ") al = "abc,";
         b = some(r, al, 0, 5);
         if (!b.empty() && b[0] != ' ' && r.chance(15)) b += both ? "'s" : "\"s";
      }
      f.push_back(Raw("[" + J(q) + "," + J(b) + "]"));
      t += (i ? d : S("")) + q + b + q;
   }
   VS v;
   S x = guard([&] { v = both ? SU::splitWithQuotes(t, d[0], trim, ign) : SU::splitWithDoubleQuotes(t, d[0], trim, ign); });
   Ev("fields").f("d", d).f("f", f).f("t", t).f("trim", trim).f("ign", ign).f("x", x).f("r", v).end();
}
static void match(Rng& r)
{
   char z = '*', o = '+', a = '.';
   if (r.chance(50)) { z = r.chance(50) ? '*' : '#'; o = r.chance(50) ? '+' : '@'; a = r.chance(50) ? '.' : '?'; }
   S al = "abc"; if (z != '*') al += "*"; if (o != '+') al += "+"; if (a != '.') al += ".";
   S pat; std::vector<Raw> p;
   for (int i = r.in(1, 4); i > 0; i--)
   {
      S c = r.chance(25) ? S("") : S(1, al[r.in(0, (ll)al.size() - 1)]), q = r.chance(60) ? "1" : r.chance(50) ? "*" : "+";
      pat += (c.empty() ? S(1, a) : c) + (q == "1" ? S("") : S(1, q == "*" ? z : o));
      p.push_back(Raw("[" + J(c) + "," + J(q) + "]"));
   }
   S old = text; if (r.chance(60)) setText(some(r, al, 0, 7));
   S rs; bool like = false;
   S x = guard([&] {
      if (z == '*' && o == '+' && a == '.') { rs = SU::matches(text, pat); like = r.chance(50) ? SU::isLike(text, pat) : SU::isLike(text, pat.c_str()); }
      else { rs = SU::matches(text, pat, z, o, a); like = r.chance(50) ? SU::isLike(text, pat, z, o, a) : SU::isLike(text, pat.c_str(), z, o, a); }
   });
   Ev("match").f("p", p).f("x", x).f("r", rs).f("like", like).end();
}
static void hex(Rng& r)
{
   int k = r.in(0, 3); const char* fn = k == 0 ? "d2x" : k == 1 ? "x2d" : k == 2 ? "x2uint" : "int2x";
   ll v = r.chance(50) ? r.in(0, 300) : r.in(0, 99999999); std::ostringstream os; S t, rs;
   if (k == 0 || k == 3) os << v; else if (r.chance(50)) os << std::hex << v; else os << std::hex << std::uppercase << v;
   if (k == 3) t = os.str();
   else
   {
      t = S(r.chance(30) ? r.in(1, 2) : 0, ' ') + (k != 0 && r.chance(40) ? "0x" : "") + S(r.chance(30) ? r.in(1, 3) : 0, '0') + os.str();
      if (r.chance(40)) t += some(r, k == 0 ? " ghaf" : " ghxG", 1, 1) + some(r, "0 a1", 0, 3);
   }
   S x = guard([&] {
      S b = t;
      if (k == 0) { rs = SU::d2x((const S&)t); SU::d2x(b); }
      else if (k == 1) { rs = SU::x2d((const S&)t); SU::x2d(b); }
      else if (k == 2) { std::ostringstream o; o << SU::x2uint(t); b = rs = o.str(); }
      else b = rs = SU::int2x((unsigned)v);
      if (b != rs) rs = "the two forms differ";
   });
   Ev("hex").f("fn", fn).f("t", t).f("x", x).f("r", rs).end();
}
static void chars(Rng& r)
{
   S t; VI b;
   for (int n = r.in(0, 5); n > 0; n--) { int c = r.chance(40) ? r.in(32, 126) : r.in(0, 255); if (r.chance(10)) c = 127; t += (char)c; b.push_back(c); }
   S h, p; S x = guard([&] { h = SU::c2x((const S&)t); p = SU::printable(t); });
   Ev("chars").f("b", b).f("x", x).f("r", h).f("p", p).end();
}
static double anyDouble(Rng& r, int big)
{
   if (r.chance(6)) return 0;
   S d(1, (char)('0' + r.in(1, 9))); d += ".";
   int nines = r.chance(25) ? r.in(1, 14) : 0;
   for (int i = 1; i < 14; i++) d += i <= nines ? '9' : (char)('0' + (r.chance(20) ? 0 : r.in(0, 9)));
   d += (char)('0' + r.pick(std::vector<int>{1, 2, 3, 4, 6, 7, 8, 9}));
   if (nines && r.chance(50)) d[0] = '9';
   int e = r.chance(30) ? r.in(-2, 2) : r.chance(70) ? r.in(-15, 15) : r.in(-big, big);
   if (r.chance(10)) e = r.pick(std::vector<int>{8, 9, 10, -9, -10, -8});
   if (big > 99 && r.chance(15)) e = r.pick(std::vector<int>{98, 99, 100, -98, -99, -100});
   double v = strtod((d + "e" + std::to_string(e)).c_str(), 0);
   return r.chance(40) ? -v : v;
}
static void number(Rng& r)
{
   int k = r.in(0, 3);
   S t, x; double back = 0;
   if (k <= 1)
   {
      double v = anyDouble(r, 290);
      static const char* L[] = {"zero", "decimal", "nonzero"}; static const char* G[] = {"neg", "space", "pos"}; static const char* A[] = {"left", "right"};
      int li = r.in(0, 2), g = r.in(0, 2), al = r.in(0, 1);
      SU::FFLead lead = li == 0 ? SU::FFLead::Zero : li == 1 ? SU::FFLead::Decimal : SU::FFLead::NonZero;
      SU::FFSign sg = g == 0 ? SU::FFSign::NegOnly : g == 1 ? SU::FFSign::NegSpace : SU::FFSign::NegPos;
      SU::FFAlign fa = al == 0 ? SU::FFAlign::Left : SU::FFAlign::Right;
      int nm = li == 0 ? r.in(3, 15) : li == 1 ? r.in(2, 15) : r.in(1, 15), ne = r.in(1, 4), w = r.chance(50) ? 0 : r.in(8, 26);
      char ch = r.pick(std::vector<char>{'e', 'E', 'D', 'd'});
      bool same = true;
      x = guard([&] {
         t = SU::floatFormat(v, lead, nm, ne, w, ch, sg, fa);
         gpstk::FormattedDouble fd(v, lead, nm, ne, w, ch, sg, fa); std::ostringstream os; os << fd; same = os.str() == t && (S)fd == t;
         if (r.chance(30)) { fd = 0.0; fd = t; back = fd; }
         else if (r.chance(40)) { gpstk::FormattedDouble q(r.chance(50) ? 0 : (unsigned)t.size(), ch); std::istringstream is(t); is >> q; back = q; }
         else back = SU::for2doub(t);
      });
      if (nm == 15 && li != 0) { /* all the digits */ }
      Ev("float").f("v", Raw(rec::sciJ(v))).f("lead", L[li]).f("nm", nm).f("ne", ne).f("w", w).f("ch", S(1, ch)).f("sg", G[g]).f("al", A[al])
         .f("x", x).f("t", t).f("same", same).f("back", Raw(rec::sciJ(back))).end();
   }
   else if (k == 2 && r.chance(50))
   {
      double v = anyDouble(r, 290); int w = r.in(1, 25), p = r.in(1, 14), ne = r.in(1, 3); bool plus = r.chance(50);
      x = guard([&] { t = SU::doubleToScientific(v, w, p, ne, plus); back = SU::asDouble(t); });
      Ev("sci").f("v", Raw(rec::sciJ(v))).f("w", w).f("p", p).f("ne", ne).f("plus", plus).f("x", x).f("t", t).f("back", Raw(rec::sciJ(back))).end();
   }
   else if (k == 2)
   {
      double v = anyDouble(r, 97); int ne = r.in(2, 3), nm = r.in(3, 15);
      x = guard([&] { t = SU::doub2for(v, nm + ne + 4, ne); back = SU::for2doub(t); });
      Ev("fortran").f("v", Raw(rec::sciJ(v))).f("nm", nm).f("ne", ne).f("x", x).f("t", t).f("back", Raw(rec::sciJ(back))).end();
   }
   else
   {
      double v = rec::dec(r, 99999, true); int d = r.in(0, 6);
      char b[40]; snprintf(b, sizeof b, "%.9f", v); S tail = S(b).substr(S(b).find('.') + 1 + d);
      if (tail[0] == '5' && tail.find_first_not_of('0', 1) == S::npos) return;   // a tie
      x = guard([&] { t = r.chance(50) ? SU::asString(v, d) : SU::asString((long double)v, d); back = r.chance(50) ? SU::asDouble(t) : (double)SU::asLongDouble(t); });
      Ev("fixed").f("v", Raw(rec::numJ(v))).f("d", d).f("x", x).f("t", t).f("back", Raw(rec::numJ(back))).end();
   }
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      while (trace().n < args().size)
      {
         Ev("new").end(); text = "";
         for (int j = r.in(2, 6); j > 0; j--)
         {
            int k = r.in(0, 19);
            if (k < 9)
            {
               setText(anyText(r));
               for (int i = r.in(1, 6); i > 0; i--) { if (r.chance(50) && text.size() < 40) op(r); ask(r); }
            }
            else if (k < 10) wrap(r);
            else if (k < 12) fields(r);
            else if (k < 14) match(r);
            else if (k < 15) hex(r);
            else if (k < 16) chars(r);
            else number(r);
         }
      }
   });
}
