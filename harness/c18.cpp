// C18: command lines.
#include "hx.hpp"
#include "rec.hpp"
#include <memory>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include "CommandOption.hpp"
#include "CommandOptionParser.hpp"
#include "CommandLine.hpp"
#include "logstream.hpp"
using namespace gpstk; using namespace hx;
typedef std::string S; typedef std::vector<S> VS;
static S one(Rng& r, const char* s) { return S(1, s[r.in(0, strlen(s) - 1)]); }
static S jo(std::vector<std::pair<S, S>> v) { S o = "{"; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + J(v[i].first) + ":" + v[i].second; return o + "}"; }
struct Argv
{
   std::vector<std::vector<char>> b; std::vector<char*> p;
   Argv(const VS& w, const S& prog) { add(prog); for (auto& s : w) add(s); for (auto& x : b) p.push_back(x.data()); p.push_back(nullptr); }
   void add(const S& s) { std::vector<char> x(s.begin(), s.end()); x.push_back(0); b.push_back(x); }
   int n() { return b.size(); }
};
// ---------------------------------------------------------------------------
struct Decl { S k, s, l; bool a, req; int max, n; std::vector<int> mem; };
static Raw dj(const Decl& d)
{ return Raw(jo({ { "k", J(d.k) }, { "s", J(d.s) }, { "l", J(d.l) }, { "a", J(d.a) }, { "req", J(d.req) }, { "max", J(d.max) }, { "n", J(d.n) }, { "mem", J(d.mem) } })); }
static S value(Rng& r)
{
   static const VS v = { "1", "-1", "+12", "1.5", "-.5", "1.2.3", "abc", "aBc", "a1", "", "-", "+.", "x y", "--", "-a", "a=b", "12a", "." };
   return r.pick(v);
}
static void options(Rng& r)
{
   defaultCommandOptionList.clear();
   Ev("new").end();
   std::vector<Decl> os; std::vector<std::unique_ptr<CommandOption>> ps;
   static const VS longs = { "alpha", "alphabet", "beta", "bet", "gamma", "g", "b", "zeta-one", "zeta-two", "out" };
   static const VS kinds = { "none", "none", "any", "num", "dec", "alpha" };
   int n = r.in(1, 6); bool rest = false;
   std::vector<S> us, ul;
   for (int i = 0; i < n; i++)
   {
      Decl d; d.k = r.pick(kinds); d.s = r.chance(70) ? one(r, "abcgxyz1") : ""; d.l = r.chance(75) || d.s == "" ? r.pick(longs) : "";
      if (r.chance(97)) { for (int t = 0; t < 20 && std::count(us.begin(), us.end(), d.s); t++) d.s = one(r, "abcgxyz1"); for (int t = 0; t < 30 && std::count(ul.begin(), ul.end(), d.l); t++) d.l = r.pick(longs); }
      if (r.chance(2)) d.s = d.l = "";
      if (r.chance(2)) d.l = "a b";
      if (d.s != "") us.push_back(d.s); if (d.l != "") ul.push_back(d.l);
      d.a = d.k != "none"; d.req = r.chance(20); d.max = r.chance(20) ? r.in(1, 3) : 0; d.n = 0;
      char c = d.s == "" ? 0 : d.s[0];
      CommandOption* p = nullptr;
      S x = guard([&] {
         if (d.k == "none") p = new CommandOptionNoArg(c, d.l, "desc", d.req);
         else if (d.k == "any") p = r.chance(50) ? (CommandOption*)new CommandOptionWithAnyArg(c, d.l, "desc", d.req) : new CommandOption(CommandOption::hasArgument, CommandOption::stdType, c, d.l, "desc", d.req);
         else if (d.k == "num") p = new CommandOptionWithNumberArg(c, d.l, "desc", d.req);
         else if (d.k == "dec") p = new CommandOptionWithDecimalArg(c, d.l, "desc", d.req);
         else p = new CommandOptionWithStringArg(c, d.l, "desc", d.req);
         if (d.max) p->setMaxCount(d.max);
      });
      Ev("opt").f("o", dj(d)).f("x", x).end();
      if (p) { os.push_back(d); ps.emplace_back(p); }
   }
   auto group = [&](const S& k) {
      Decl d; d.k = k; d.a = false; d.req = false; d.max = d.n = 0;
      CommandOption* p = nullptr;
      std::vector<int> can; for (size_t i = 0; i < os.size(); i++) if (os[i].k != "nof" && os[i].k != "oneof" && os[i].k != "mutex" && os[i].k != "dep" && (os[i].k != "rest")) can.push_back(i + 1);
      if (can.empty()) return;
      int m = k == "dep" ? 2 : r.in(1, 3);
      for (int i = 0; i < m; i++) d.mem.push_back(r.pick(can));
      if (k != "dep") { std::sort(d.mem.begin(), d.mem.end()); d.mem.erase(std::unique(d.mem.begin(), d.mem.end()), d.mem.end()); r.shuffle(d.mem); }
      auto add = [&](CommandOptionOneOf* g) { for (int i : d.mem) g->addOption(ps[i - 1].get()); p = g; };
      S x = guard([&] {
         if (k == "rest") { d.mem.clear(); d.req = r.chance(30); d.max = r.chance(20) ? 2 : 0; p = new CommandOptionRest("desc", d.req); if (d.max) p->setMaxCount(d.max); }
         else if (k == "nof") { d.n = r.in(1, 3); d.max = d.n; auto* g = new CommandOptionNOf(d.n); if (r.chance(30)) { d.max = d.n + r.in(0, 2); g->setMaxCount(d.max); } for (int i : d.mem) g->addOption(ps[i - 1].get()); p = g; }
         else if (k == "oneof") add(new CommandOptionOneOf);
         else if (k == "allof") add(new CommandOptionAllOf);
         else if (k == "mutex") { d.req = r.chance(50); add(new CommandOptionMutex(d.req)); }
         else if (k == "or") add(new CommandOptionGroupOr);
         else if (k == "and") add(new CommandOptionGroupAnd);
         else p = new CommandOptionDependent(ps[d.mem[0] - 1].get(), ps[d.mem[1] - 1].get());
      });
      Ev("opt").f("o", dj(d)).f("x", x).end();
      if (p) { os.push_back(d); ps.emplace_back(p); }
   };
   static const VS gs = { "or", "and", "allof", "nof", "oneof", "mutex", "dep", "dep" };
   int g = r.chance(50) ? 0 : r.in(1, 3);
   for (int i = 0; i < g; i++) group(r.pick(gs));
   if (r.chance(50)) group("rest"); if (r.chance(2)) group("rest");
   // the words
   VS ws; int nw = r.in(0, 8);
   auto real = [&]() -> const Decl* { std::vector<const Decl*> v; for (auto& d : os) if (d.k == "none" || d.a) v.push_back(&d); return v.empty() ? nullptr : r.pick(v); };
   for (int i = 0; i < nw; i++)
   {
      const Decl* d = real();
      switch (d ? r.in(0, 11) : 11)
      {
         case 0: case 1: case 2: if (d->s != "") { if (d->a && r.chance(50)) { ws.push_back("-" + d->s); if (r.chance(95)) ws.push_back(r.chance(70) ? one(r, "12345") : value(r)); } else ws.push_back("-" + d->s + (d->a ? value(r) : "")); break; }   // fall through
         case 3: case 4: case 5: if (d->l != "")
         {
            S l = d->l;
            if (r.chance(20))
            {
               S p = l.substr(0, r.in(1, l.size())); int c = 0; for (auto& o : os) if ((o.k == "none" || o.a) && o.l.substr(0, p.size()) == p) c++;
               if (c == 1) l = p;
            }
            if (d->a) { if (r.chance(50)) ws.push_back("--" + l + "=" + value(r)); else { ws.push_back("--" + l); if (r.chance(95)) ws.push_back(r.chance(70) ? one(r, "12345") : value(r)); } }
            else ws.push_back("--" + l + (r.chance(4) ? "=1" : ""));
            break;
         }     // fall through
         case 6: case 7:   // a cluster
         { S c = "-"; int m = r.in(1, 4); for (int q = 0; q < m; q++) { const Decl* e = real(); if (e->s != "") c += e->s; } if (r.chance(15)) c += one(r, "q1"); ws.push_back(c); break; }
         case 8: ws.push_back(r.chance(50) ? "-q" : "--nosuch"); break;
         default: if (r.chance(25)) ws.push_back(r.chance(30) ? S("--") : value(r)); break;
      }
   }
   // an abbreviation of several names is not asked for
   for (auto& w : ws) if (w.size() > 2 && w.substr(0, 2) == "--")
   {
      S nm = w.substr(2, w.find('=') == S::npos ? S::npos : w.find('=') - 2); int c = 0; bool ex = false;
      for (auto& o : os) if (o.k == "none" || o.a) { if (o.l == nm) ex = true; if (o.l != "" && o.l.substr(0, nm.size()) == nm) c++; }
      if (!ex && c > 1) w = "--nosuch";
   }
   // getopt looks at the words of the last call when it is called again
   Argv& av = *new Argv(ws, r.chance(50) ? "prog" : "/usr/bin/prog");
   std::unique_ptr<CommandOptionParser> cop; std::ostringstream err; bool has = false;
   note("parse " + J(ws));
   S x = guard([&] { cop.reset(new CommandOptionParser("text")); cop->parseOptions(av.n(), av.p.data()); has = cop->hasErrors(); cop->dumpErrors(err); });
   S rr = "["; S es = err.str(); int ne = std::count(es.begin(), es.end(), '\n');
   if (x == "ok") for (size_t i = 0; i < ps.size(); i++)
   {
      CommandOption* p = ps[i].get(); std::vector<ll> o; std::vector<int> w;
      for (unsigned q = 0; p->getOrder(q); q++) o.push_back(p->getOrder(q));
      auto ix = [&](CommandOption* m) { for (size_t z = 0; z < ps.size(); z++) if (ps[z].get() == m) return (int)z + 1; return 0; };
      if (os[i].k == "nof") for (auto* m : dynamic_cast<CommandOptionNOf*>(p)->which()) w.push_back(ix(m));
      if (os[i].k == "oneof" || os[i].k == "mutex") { CommandOption* m = dynamic_cast<CommandOptionOneOf*>(p)->whichOne(); if (m) w.push_back(ix(m)); }
      VS v = p->getValue();
      if (os[i].k == "none" && v.size()) v.push_back("values of an option without argument");
      S vj = os[i].k == "none" && v.empty() ? "[]" : J(v);
      // an occurrence without argument has an empty value in the model
      rr += (i ? "," : "") + jo({ { "c", J((ll)p->getCount()) }, { "v", vj }, { "o", J(o) }, { "last", J((ll)p->getOrder()) }, { "w", J(w) } });
   }
   Ev("parse").f("ws", ws).f("x", x).f("err", ne).f("has", has).f("r", Raw(rr + "]")).end();
   defaultCommandOptionList.clear();
}
// ---------------------------------------------------------------------------
struct Opt { S s, l, t; bool rep, req, expand, toggle; bool b; int i; double d; S str; std::vector<int> ints; VS strs; RinexSatID sat; std::vector<RinexSatID> sats; };
static S satj(const SatID& s) { return "[" + J(StringUtils::asString(s.system)) + "," + J(s.id) + "]"; }
static S held(const Opt& o)
{
   if (o.t == "bool") return J(o.b); if (o.t == "int") return J(o.i); if (o.t == "dbl") return J((ll)std::floor(o.d * 1000 + .5));
   if (o.t == "str") return J(o.str); if (o.t == "ints") return J(o.ints); if (o.t == "strs") return J(o.strs); if (o.t == "sat") return satj(o.sat);
   S s = "["; for (size_t i = 0; i < o.sats.size(); i++) s += (i ? "," : "") + satj(o.sats[i]); return s + "]";
}
static S ivalue(Rng& r) { static const VS v = { "5", "12", "-7", "007" }; return r.pick(v); }
static S val(Rng& r, const S& t)
{
   static const VS ds = { "1.5", "-2", "3e2", "25D-1", "+7.", ".125", "4E", "0" }, ss = { "abc", "x1", "q", "-5", "a.b", "G05" }, gs = { "G05", "R12", "E1", "7", "J01", "S20", "C33" };
   if (r.chance(4)) return "z z";
   if (t == "int" || t == "ints") return r.chance(92) ? ivalue(r) : S("4x"); if (t == "dbl") return r.chance(92) ? r.pick(ds) : S("1e2e3");
   if (t == "sat" || t == "sats") return r.chance(98) ? r.pick(gs) : S("X09");
   return r.pick(ss);
}
static void line(Rng& r)
{
   Ev("new").end();
   static const VS ts = { "bool", "bool", "int", "ints", "dbl", "str", "strs", "sat", "sats" };
   static const VS longs = { "alpha", "beta", "gamma", "delta", "eps", "zeta", "eta" };
   std::vector<std::unique_ptr<Opt>> os; CommandLine cl;
   VS L = longs; r.shuffle(L); S sh = "abcegij";
   int n = r.in(1, 6);
   std::vector<S> opts;
   S lists = "[", files = "["; int nl = r.in(0, 2), nf = r.in(0, 2);
   for (int i = 0; i < n; i++)
   {
      os.emplace_back(new Opt); Opt& o = *os.back();
      o.t = r.pick(ts); o.l = L[i]; o.s = r.chance(60) ? S(1, sh[i]) : ""; o.rep = r.chance(60); o.req = r.chance(15); o.expand = true; o.toggle = false;
      if (r.chance(5)) { o.l = "verbose"; o.t = "bool"; } else if (r.chance(5)) { o.l = "debug"; o.t = "int"; } else if (r.chance(4)) { o.l = "help"; o.t = "bool"; }
      for (int j = 0; j < i; j++) if (os[j]->l == o.l && o.l != L[i]) o.l = L[i];
      auto sp = [](const S& l) { return l == "verbose" || l == "help" || l == "debug"; };
      if (sp(o.l)) o.s = "";
      if (r.chance(2) && i && !sp(o.l)) o.s = os[0]->s; if (r.chance(1) && i) o.l = os[0]->l;
      o.b = r.chance(30); o.i = r.in(0, 3); o.d = r.in(0, 8) * .125; o.str = r.chance(50) ? "" : "dflt"; if (r.chance(30)) { o.ints = { 1, 2 }; o.strs = { "d1" }; o.sats = { RinexSatID(3, SatelliteSystem::GPS) }; } o.sat = RinexSatID(1, SatelliteSystem::GPS);
      char c = o.s == "" ? 0 : o.s[0];
      if (o.t == "bool") cl.Add(c, o.l, "", o.rep, o.req, &o.b, "", "d"); if (o.t == "int") cl.Add(c, o.l, "n", o.rep, o.req, &o.i, "", "d");
      if (o.t == "ints") cl.Add(c, o.l, "n", o.rep, o.req, &o.ints, "", "d"); if (o.t == "dbl") cl.Add(c, o.l, "x", o.rep, o.req, &o.d, "", "d");
      if (o.t == "str") cl.Add(c, o.l, "s", o.rep, o.req, &o.str, "", "d"); if (o.t == "strs") cl.Add(c, o.l, "s", o.rep, o.req, &o.strs, "", "d");
      if (o.t == "sat") cl.Add(c, o.l, "s", o.rep, o.req, &o.sat, "", "d"); if (o.t == "sats") cl.Add(c, o.l, "s", o.rep, o.req, &o.sats, "", "d");
      bool special = o.l == "verbose" || o.l == "help" || o.l == "debug";
      if (r.chance(20)) { cl.noExpansion(o.l); bool first = true; for (int j = 0; j < i; j++) if (os[j]->l == o.l) first = false; if (first && o.t.back() == 's') o.expand = false; }
      if (r.chance(25) && !special) { cl.setToggle(o.l); bool first = true; for (int j = 0; j < i; j++) if (os[j]->l == o.l) first = false; if (first && o.t == "bool") o.toggle = true; }
      opts.push_back(jo({ { "s", J(o.s) }, { "l", J(o.l) }, { "t", J(o.t) }, { "rep", J(o.rep) }, { "req", J(o.req) }, { "expand", J(o.expand) }, { "toggle", J(o.toggle) }, { "def", held(o) } }));
   }
   VS noarg, witharg, on, off; std::vector<std::pair<S, S>> old; bool once = r.chance(70);
   if (r.chance(40)) { noarg.push_back("--ign"); cl.Add_ignore("--ign"); } if (r.chance(40)) { witharg.push_back("--ignarg"); cl.Add_ignore("--ignarg", true); }
   if (r.chance(40)) { on.push_back("--on"); cl.Add_ignore_on("--on"); off.push_back("--off"); cl.Add_ignore_off("--off"); }
   if (r.chance(2)) { noarg.push_back("--" + os[0]->l); cl.Add_ignore("--" + os[0]->l); }
   if (r.chance(40)) { S to = r.chance(97) ? "--" + r.pick(os)->l : S("--none"); if (to == "--debug" || to == "--help" || to == "--verbose") to = "--" + os[0]->l;
      if (to != "--debug" && to != "--help" && to != "--verbose")
      { old.push_back({ "--old", to }); cl.Add_deprecated("--old", to); } }
   if (!once) cl.noArgsRequired();
   if (r.chance(20)) cl.DefineUsageString("prog");
   auto words = [&](int k, bool file) {
      VS ws;
      for (int i = 0; i < k; i++)
      {
         Opt& o = *r.pick(os);
         switch (r.in(0, 19))
         {
            case 0: ws.push_back(r.chance(50) ? "--nosuch" : "word"); break;
            case 1: if (noarg.size()) ws.push_back("--ign"); break;
            case 2: if (witharg.size()) { ws.push_back("--ignarg"); ws.push_back(r.chance(50) ? "--" + o.l : S("skip")); } break;
            case 3: if (on.size()) { ws.push_back("--on"); } break;
            case 4: if (on.size()) { ws.push_back("--off"); } break;
            case 5: if (old.size()) { ws.push_back("--old"); if (r.chance(50)) ws.push_back(val(r, o.t)); } break;
            case 6: if (nf && !file) { ws.push_back(r.chance(50) ? "-f" : "--file"); ws.push_back(r.chance(95) ? "c" + std::to_string(r.in(0, nf - 1)) : S("cnone")); } break;
            case 7: if (nf && !file && r.chance(50)) ws.push_back("-fc" + std::to_string(r.in(0, nf - 1))); break;
            case 8: if (r.chance(40)) ws.push_back(r.chance(50) ? "-v" : r.chance(50) ? "--verbose" : r.chance(50) ? "-d" : r.chance(50) ? "-d" + std::to_string(r.in(0, 8)) : "--debug" + std::to_string(r.in(0, 9))); break;
            case 9: if (r.chance(25)) ws.push_back(r.chance(50) ? "-h" : "--help"); break;
            default:
            {
               ws.push_back(o.s != "" && r.chance(50) ? "-" + o.s : "--" + o.l);
               if (o.t != "bool" && r.chance(96))
               {
                  S v = val(r, o.t);
                  if (o.t.back() == 's') for (int q = r.in(0, 2); q-- > 0;) v += (r.chance(5) ? ",," : ",") + val(r, o.t);
                  if (o.t.back() == 's' && r.chance(20)) v = (r.chance(50) ? v + "," : S("")) + (nl && r.chance(95) ? "@l" + std::to_string(r.in(0, nl - 1)) : S("@lnone")) + (r.chance(20) ? "," : "");
                  if (file && v.find(' ') != S::npos) v = "\"" + v + "\"";
                  ws.push_back(v);
               }
            }
         }
         if (r.chance(2) && !file) ws.push_back("");
      }
      return ws;
   };
   auto text = [&](const VS& ws) {
      VS ls; S l;
      for (auto& w : ws) { if (r.chance(25)) { if (r.chance(15)) l += " # a comment --alpha"; ls.push_back(l); l = ""; } l += S(l.empty() ? r.in(0, 1) : r.in(1, 2), ' ') + w; }
      ls.push_back(l + (r.chance(20) ? " " : "")); if (r.chance(20)) ls.push_back("# end"); return ls;
   };
   for (int i = 0; i < nl; i++)
   { VS ws; int k = r.in(0, 4); S t = r.pick(ts); for (int q = 0; q < k; q++) ws.push_back(r.chance(80) ? ivalue(r) : "x" + std::to_string(q)); VS ls = text(ws); S nm = "l" + std::to_string(i); rec::put(nm, ls, r.chance(70)); lists += (i ? "," : "") + ("[" + J(nm) + "," + J(ls) + "]"); }
   for (int i = 0; i < nf; i++)
   { VS ws = words(r.in(0, 5), true); if (i && r.chance(40)) { ws.push_back(r.chance(50) ? "-f" : "--file"); ws.push_back("c0"); if (r.chance(50)) ws.push_back("after"); } VS ls = text(ws); S nm = "c" + std::to_string(i); rec::put(nm, ls, r.chance(70)); files += (i ? "," : "") + ("[" + J(nm) + "," + J(ls) + "]"); }
   VS ws = words(r.in(0, 6), false);
   if (r.chance(3)) ws.push_back(r.chance(50) ? "--file" : "-f");
   S oj = "["; for (size_t i = 0; i < opts.size(); i++) oj += (i ? "," : "") + opts[i]; oj += "]";
   S od = "["; for (size_t i = 0; i < old.size(); i++) od += (i ? "," : "") + ("[" + J(old[i].first) + "," + J(old[i].second) + "]"); od += "]";
   S dj = jo({ { "opts", oj }, { "noarg", J(noarg) }, { "witharg", J(witharg) }, { "on", J(on) }, { "off", J(off) }, { "old", od }, { "files", files + "]" }, { "lists", lists + "]" }, { "one", J(once) } });
   Argv& av = *new Argv(ws, "prog"); S usage, errors; VS unrec; int ret = 99;
   ConfigureLOG::ReportingLevel() = ConfigureLOG::Level("ERROR");
   note("line " + J(ws));
   S x = guard([&] { ret = cl.ProcessCommandLine(av.n(), av.p.data(), "desc", usage, errors, unrec); });
   std::vector<int> count; S h = "[";
   for (size_t i = 0; i < os.size(); i++) { count.push_back(cl.count(os[i]->l)); h += (i ? "," : "") + held(*os[i]); }
   Ev("line").f("d", Raw(dj)).f("ws", ws).f("x", x).f("ret", ret).f("help", cl.hasHelp()).f("bad", ret == -3 || x != "ok" ? false : cl.hasErrors()).f("count", count).f("unrec", unrec).f("errs", (int)std::count(errors.begin(), errors.end(), '\n')).f("held", Raw(h + "]")).end();
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      if (chdir(args().scratch.c_str())) _exit(70);
      static std::ofstream null("/dev/null"); ConfigureLOG::Stream() = &null;
      while (trace().n < args().size) if (r.chance(50)) options(r); else line(r);
   });
}
