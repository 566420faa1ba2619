// C21: files are found by their specification.
#include "hx.hpp"
#include <sys/stat.h>
#include <memory>
#include "FileSpec.hpp"
#include "FileSpecFind.hpp"
#include "FileHunter.hpp"
#include "CommonTime.hpp"
using namespace gpstk; using namespace hx;
typedef std::vector<ll> V; typedef std::vector<std::string> SV;
struct El { std::string f; char c; int w, z; };
typedef std::vector<El> Lv; typedef std::vector<Lv> Sp;
static const std::string TIME = "YymdHMSFwj";
static bool isT(char c) { return c && TIME.find(c) != std::string::npos; }
static char kind(char c) { return c == 'y' ? 'Y' : c; }
static const std::map<char, FileSpec::FileSpecType>& types()
{
   static const std::map<char, FileSpec::FileSpecType> m = { {'n',FileSpec::station},{'r',FileSpec::receiver},{'p',FileSpec::prn},{'t',FileSpec::selected},{'I',FileSpec::sequence},
      {'v',FileSpec::version},{'k',FileSpec::clock},{'x',FileSpec::text},{'Y',FileSpec::year},{'m',FileSpec::month},{'d',FileSpec::dayofmonth},{'H',FileSpec::hour},{'M',FileSpec::minute},
      {'S',FileSpec::second},{'F',FileSpec::fullgpsweek},{'w',FileSpec::dayofweek},{'j',FileSpec::day} };
   return m;
}
static std::string txt(const El& e) { return e.c ? "%" + std::string(e.z ? "0" : "") + (e.w ? std::to_string(e.w) : "") + e.c : e.f; }
static std::string txt(const Lv& l) { std::string s; for (auto& e : l) s += txt(e); return s; }
static std::string txt(const Sp& s) { std::string o; for (size_t i = 0; i < s.size(); i++) o += (i ? "/" : "") + txt(s[i]); return o; }
static Raw js(const Sp& s)
{
   std::string o = "[";
   for (size_t i = 0; i < s.size(); i++)
   {
      o += i ? ",[" : "[";
      for (size_t j = 0; j < s[i].size(); j++)
      { const El& e = s[i][j]; o += std::string(j ? "," : "") + "{\"f\":" + esc(e.f) + ",\"c\":" + esc(e.c ? std::string(1, e.c) : "") + ",\"w\":" + J(e.w) + ",\"z\":" + J(e.z) + "}"; }
      o += "]";
   }
   return Raw(o + "]");
}
static Raw paths(const std::vector<SV>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + J(v[i]); return Raw(o + "]"); }
static SV cut(const std::string& s) { SV o; size_t a = 0; while (true) { size_t b = s.find('/', a); o.push_back(s.substr(a, b - a)); if (b == std::string::npos) return o; a = b + 1; } }
static std::string join(const SV& v, size_t n = 99) { std::string o; for (size_t i = 0; i < v.size() && i < n; i++) o += (i ? "/" : "") + v[i]; return o; }
static CommonTime ct(const V& t, TimeSystem ts) { CommonTime c; c.set((long)t[0], t[1] + t[2] * 1e-6, ts); return c; }
static V back(const CommonTime& c) { long d, s; double f; c.get(d, s, f); return V{d, s, fx(f, 1e6)}; }

static int widthOf(char c, Rng& r)
{
   switch (c) { case 'Y': case 'F': return 4; case 'j': return 3; case 'w': return 1; case 'n': return (int)r.in(2, 5); case 'x': return (int)r.in(1, 4);
      case 'v': return (int)r.in(1, 2); case 'p': case 'I': return (int)r.in(1, 3); case 'r': case 't': case 'k': return (int)r.in(1, 2); default: return 2; }
}
static El fld(char c, Rng& r) { int w = widthOf(c, r); return El{"", c, w, isT(c) ? (c == 'w' ? (int)r.in(0, 1) : 1) : (int)r.in(0, 1)}; }
static El fix(Rng& r, bool first)
{
   static const SV f = { "obs", "a", ".", "-", "_", "nav.", "S", ".18", "10", "1", "data", "=", "a.b", "Q-", ".RINEX", "j", "Y", "03" };
   std::string s; do { s = r.pick(f); } while (first && s[0] == '.');
   return El{s, 0, 0, 0};
}
// fields over levels; the time goes from coarse to fine
static Sp genSpec(Rng& r, int nl, bool needTime, bool version, bool bare)
{
   static const SV pats = { "F", "Y", "Yj", "YjH", "YjHM", "YjHMS", "y", "yj", "yjHM", "Ym", "Ymd", "ymd", "YmdH", "YmdHM", "YmdHMS", "Fw", "FwH", "FwHM", "FwHMS" };
   std::string tp = !needTime && r.chance(12) ? "" : r.pick(pats);
   std::string nt; { SV k = {"n","r","p","t","I","k","x"}; r.shuffle(k); int n = (int)r.in(0, 3); for (int i = 0; i < n; i++) nt += k[i]; }
   if (version) nt += 'v';
   Sp sp(nl); size_t used = 0;
   for (int k = 0; k < nl; k++)
   {
      size_t end = k == nl - 1 ? tp.size() : (size_t)r.in((ll)used, (ll)tp.size());
      // F without w stands for a whole week only above
      std::vector<std::string> g;        // groups that stay in order
      std::string t = tp.substr(used, end - used);
      if (used && r.chance(35)) t = tp.substr(0, used) + t;
      used = end;
      for (char c : t) g.push_back(std::string(1, c));
      std::string mine;
      for (size_t i = 0; i < nt.size(); i++)
      { bool here = r.in(0, nl - 1) == k || (k == nl - 1 && r.chance(50)); if (nt[i] == 'v') here = k == nl - 1; if (here) mine += nt[i]; }
      for (char c : mine) g.insert(g.begin() + r.in(0, (ll)g.size()), std::string(1, c));
      Lv lv;
      for (size_t i = 0; i < g.size(); i++)
      {
         if (r.chance(i ? 45 : 40)) { El e = fix(r, lv.empty()); if (!lv.empty() && !lv.back().c) lv.back().f += e.f; else lv.push_back(e); }
         lv.push_back(fld(g[i][0], r));
         if (bare && (g[i] == "x" || g[i] == "t") && r.chance(70)) { lv.back().w = 0; lv.back().z = 0; }
      }
      if (lv.empty() || r.chance(50)) { El e = fix(r, lv.empty()); if (!lv.empty() && !lv.back().c) lv.back().f += e.f; else lv.push_back(e); }
      // a width right after a field of none, or digits at its end, belong to the fixed text: keep them apart
      sp[k] = lv;
   }
   return sp;
}
static bool hasKind(const Sp& s, char c) { for (auto& l : s) for (auto& e : l) if (e.c && kind(e.c) == c) return true; return false; }
static bool hasTime(const Sp& s) { for (auto& l : s) for (auto& e : l) if (isT(e.c)) return true; return false; }
static std::string value(char c, int w, Rng& r)
{
   static const SV st = { "85401", "ABMF", "12", "7", "zz", "00120", "A1" }, se = { "A", "0", "S", "u", "9" }, tx = { "FOO", "a", "XY", "n12" };
   std::string s = c == 'n' ? r.pick(st) : c == 't' ? r.pick(se) : c == 'x' ? r.pick(tx) : std::to_string(r.in(0, r.chance(60) ? 3 : 999));
   return (int)s.size() > w ? s.substr(0, w) : s;
}
static FileSpec::FSTStringMap values(const Sp& s, Rng& r, std::map<char, std::string>& vs)
{
   FileSpec::FSTStringMap m;
   for (auto& l : s) for (auto& e : l) if (e.c && !isT(e.c) && !vs.count(e.c))
   {
      int w = 99; for (auto& l2 : s) for (auto& e2 : l2) if (e2.c == e.c) w = std::min(w, std::max(e2.w, 1));
      vs[e.c] = value(e.c, w, r);
   }
   for (auto& p : vs) m[types().at(p.first)] = p.second;
   return m;
}
static V addS(V t, ll d) { ll s = t[1] + d; ll q = s >= 0 ? s / 86400 : -((-s + 86399) / 86400); return V{t[0] + q, s - q * 86400, t[2]}; }
static V baseT(Rng& r)
{
   static const std::vector<ll> D = { 2458485, 2458484, 2458849, 2451545, 2458179, 2457754, 2451605, 2458483 };    // about the turn of years, February, weeks
   ll d = r.chance(70) ? r.pick(D) + r.in(-1, 1) : r.in(2444300, 2470000);
   return V{d, r.chance(30) ? 0 : r.chance(30) ? 86399 - r.in(0, 120) : r.in(0, 86399), 0};
}
static V near(const V& b, Rng& r)
{
   switch (r.in(0, 7)) { case 0: return b; case 1: return addS(b, r.in(-90, 90)); case 2: return addS(b, r.in(-4000, 4000)); case 3: return addS(b, 86400 * r.in(-3, 3));
      case 4: return addS(b, 86400 * r.in(-400, 400)); case 5: return addS(b, 3600 * r.in(-30, 30)); case 6: return V{b[0] + r.in(-1, 1), 0, 0}; default: return addS(b, r.in(-200000, 200000)); }
}

static std::string esc1(const std::map<char, std::string>& vs)
{ std::string o = "["; bool f = true; for (auto& p : vs) { o += (f ? "[" : ",[") + esc(std::string(1, p.first)) + "," + esc(p.second) + "]"; f = false; } return o + "]"; }

static void specEv(const Sp& sp, FileSpec& fs)
{
   fs.newSpec(txt(sp));
   SV has; for (auto& p : types()) if (fs.hasField(p.second)) has.push_back(std::string(1, p.first));
   Ev("spec").f("sp", js(sp)).f("str", fs.getSpecString()).f("search", fs.createSearchString()).f("has", has).f("ht", fs.hasTimeField()).f("hn", fs.hasNonTimeField()).end();
}
static void nameEv(const Sp& sp, const FileSpec& fs, Rng& r)
{
   std::map<char, std::string> vs; values(sp, r, vs);
   int h = 0, m = 0; for (auto& l : sp) for (auto& e : l) { h += e.c == 'H'; m += e.c == 'M'; }
   if (h && r.chance(12)) vs['H'] = std::to_string(r.in(0, 23));
   if (m && r.chance(12)) vs['M'] = std::to_string(r.in(0, 59));
   FileSpec::FSTStringMap fm; for (auto& p : vs) fm[types().at(p.first)] = p.second;
   V t = baseT(r); if (r.chance(20)) t[2] = 500000;
   static const std::vector<TimeSystem> S = { TimeSystem::Any, TimeSystem::GPS, TimeSystem::UTC, TimeSystem::Unknown };
   std::string out = fs.toString(ct(t, r.pick(S)), fm);
   std::string f = "[";
   for (auto& p : types()) if (fs.hasField(p.second)) { std::string v; std::string e = guard([&]() { v = fs.extractField(out, p.second); }); f += (f.size() > 1 ? ",[" : "[") + esc(std::string(1, p.first)) + "," + esc(e == "ok" ? v : e) + "]"; }
   V at{0, 0, 0}; if (hasTime(sp)) { std::string e = guard([&]() { at = back(fs.extractCommonTime(out)); }); if (e != "ok") at = V{-1, -1, -1}; }
   Ev("name").f("vs", Raw(esc1(vs))).f("t", t).f("out", out).f("fld", Raw(f + "]")).f("at", at).end();
}
static void sortHistory(Rng& r, FileSpec& fs)
{
   Sp sp = genSpec(r, 1, false, r.chance(40), false);
   specEv(sp, fs);
   for (int i = (int)r.in(0, 2); i > 0; i--) nameEv(sp, fs, r);
   bool ver = hasKind(sp, 'v');
   static const SV dirs = { "", "", "a/", "zz/b/", "/x/2018/", "./" };
   bool one = r.chance(30); std::string d0 = r.pick(dirs);
   V b = baseT(r); SV in; std::set<std::string> seen;
   int n = (int)r.in(0, 12);
   for (int i = 0; i < n; i++)
   {
      std::map<char, std::string> vs; FileSpec::FSTStringMap m = values(sp, r, vs);
      std::string s = fs.toString(ct(r.chance(40) ? b : near(b, r), TimeSystem::GPS), m);
      if (ver && !seen.insert(s).second) continue;
      in.push_back((one ? d0 : r.pick(dirs)) + s);
   }
   for (int k = 0; k < 2; k++)
   {
      SV out = in; int dir = (int)r.in(0, 1);
      fs.sortList(out, dir ? FileSpec::ascending : FileSpec::descending);
      Ev("sort").f("in", in).f("dir", dir).f("out", out).end();
      if (r.chance(50)) r.shuffle(in);
   }
}

static int roots = 0;
static void rmTree(const std::string& base, const std::set<SV>& files)
{
   for (auto& f : files)
   {
      remove((base + "/" + join(f)).c_str());
      for (size_t k = f.size() - 1; k > 0; k--) rmdir((base + "/" + join(f, k)).c_str());
   }
   rmdir(base.c_str());
}
static bool mk(const std::string& base, const SV& p)
{
   for (size_t k = 1; k < p.size(); k++) { std::string d = base + "/" + join(p, k); struct stat st; if (stat(d.c_str(), &st) == 0) { if (!S_ISDIR(st.st_mode)) return false; } else if (mkdir(d.c_str(), 0700)) return false; }
   std::string f = base + "/" + join(p); struct stat st; if (stat(f.c_str(), &st) == 0) return false;
   FILE* h = fopen(f.c_str(), "w"); if (!h) return false; fclose(h); return true;
}
// a name that comes near; letters in a time only where the search looks for digits
static bool spoil(SV& p, const Sp& sp, bool hunting, Rng& r)
{
   size_t k = (size_t)r.in(0, (ll)sp.size() - 1);
   switch (r.in(0, 4))
   {
      case 0: p[k] += r.chance(50) ? "0" : "x"; return true;
      case 1: if (p[k].size() < 2) return false; p[k].erase(p[k].size() - 1); return true;
      case 2: p.insert(p.begin() + k, std::string(120, r.chance(50) ? 's' : '2')); return true;
      case 3: { size_t o = 0; std::vector<size_t> c; for (auto& e : sp[k]) { size_t n = e.c ? (e.c == 'Y' ? 4 : std::max(e.w, 1)) : e.f.size(); if (!e.c) for (size_t i = 0; i < n; i++) c.push_back(o + i); o += n; }
                if (c.empty() || o != p[k].size()) return false; size_t i = r.pick(c); p[k][i] = p[k][i] == 'X' ? 'Y' : 'X'; return true; }
      default: { size_t o = 0; std::vector<size_t> c; for (auto& e : sp[k]) { size_t n = e.c ? (e.c == 'Y' ? 4 : std::max(e.w, 1)) : e.f.size(); if (e.c && (!hunting || !isT(e.c))) for (size_t i = 0; i < n; i++) c.push_back(o + i); o += n; }
                if (c.empty() || o != p[k].size()) return false; p[k][r.pick(c)] = 'q'; return true; }
   }
}
static std::vector<SV> rel(const std::string& base, const SV& v)
{
   std::vector<SV> o;
   for (auto& s : v) if (s.compare(0, base.size() + 1, base + "/") == 0) o.push_back(cut(s.substr(base.size() + 1))); else o.push_back(SV{"OUTSIDE", s});
   return o;
}
static void treeHistory(Rng& r, FileSpec& fs)
{
   bool hunting = r.chance(45), bare = !hunting && r.chance(35);
   Sp sp = genSpec(r, (int)r.in(1, 4), hunting && r.chance(85), !hunting && r.chance(10), bare);
   specEv(sp, fs);
   if (r.chance(40)) nameEv(sp, fs, r);
   std::string base = args().scratch + "/r" + std::to_string(roots++);
   if (mkdir(base.c_str(), 0700)) { perror(base.c_str()); exit(3); }
   V b = baseT(r); std::set<SV> files; std::vector<V> times; std::vector<std::map<char, std::string> > used;
   int n = (int)r.in(0, 14);
   std::string text = r.pick(SV{"FOO", "a", "XY", "n12"}), sel = r.pick(SV{"", "A", "0"});
   for (int i = 0; i < n; i++)
   {
      std::map<char, std::string> vs; FileSpec::FSTStringMap m = values(sp, r, vs);
      if (bare)      // what a width is missing for
      {
         m[FileSpec::text] = r.chance(70) ? text : "other";
      }
      V t = near(b, r); if (t[0] < 2444300) continue;
      SV p;
      for (auto& l : sp)
      {
         Lv lv = l; for (auto& e : lv) if (e.c == 'x' && e.w == 0) e = El{m[FileSpec::text], 0, 0, 0};
         FileSpec one(txt(lv)); FileSpec::FSTStringMap m2 = m;
         if (bare) m2[FileSpec::text] = m2[FileSpec::text].substr(0, 1);
         p.push_back(one.toString(ct(t, TimeSystem::GPS), m2));
      }
      bool bad = r.chance(25); if (bad && !spoil(p, sp, hunting, r)) continue;
      bool dot = false; for (auto& s : p) dot = dot || s.empty() || s[0] == '.' || s.find(' ') == 0; if (dot) continue;
      if (!mk(base, p)) continue;
      files.insert(p); times.push_back(t); used.push_back(vs);
   }
   Ev("tree").f("files", paths(std::vector<SV>(files.begin(), files.end()))).end();
   static const std::vector<TimeSystem> S = { TimeSystem::Any, TimeSystem::GPS, TimeSystem::UTC, TimeSystem::Unknown };
   std::string whole = base + "/" + txt(sp);
   std::unique_ptr<FileHunter> h; SV kinds; for (auto& p : types()) if (hasKind(sp, p.first)) kinds.push_back(std::string(1, p.first));
   std::vector<std::pair<char, SV> > hf;
   for (int q = (int)r.in(2, 5); q > 0; q--)
   {
      V a = !times.empty() && r.chance(50) ? r.pick(times) : near(b, r), c = r.chance(15) ? a : !times.empty() && r.chance(40) ? r.pick(times) : near(r.chance(50) ? a : b, r);
      if (r.chance(20)) a = addS(a, r.in(-1, 1)); if (r.chance(20)) c = addS(c, r.in(-1, 1));
      if (r.chance(25)) { a = V{a[0], 0, 0}; } if (r.chance(25)) c = V{c[0], 0, 0};
      if (r.chance(10)) a[2] = 500000; if (r.chance(10)) c[2] = 500000;
      bool lt = c[0] < a[0] || (c[0] == a[0] && (c[1] < a[1] || (c[1] == a[1] && c[2] < a[2])));
      if (lt && r.chance(95)) std::swap(a, c);
      if (a[0] < 2444300 || c[0] < 2444300) continue;
      TimeSystem ts = hunting ? TimeSystem::Any : r.pick(S);     // names do not say in what system their times are
      // what is asked of fields
      std::vector<std::pair<char, SV> > fl;
      if (!kinds.empty() && r.chance(60))
      {
         SV k = kinds; r.shuffle(k); int m = (int)r.in(1, 2);
         for (int i = 0; i < m && i < (int)k.size(); i++)
         {
            char ch = k[i][0]; SV vals; int w = 1; for (auto& l : sp) for (auto& e : l) if (e.c && kind(e.c) == ch) w = std::max(e.w, 1);
            int nv = (int)r.in(1, 3);
            for (int j = 0; j < nv; j++)
            {
               std::string v;
               if (isT(ch)) { char dc = ch; for (auto& l : sp) for (auto& e : l) if (e.c && kind(e.c) == ch) dc = e.c;
                  FileSpec one("%0" + std::to_string(w) + dc); v = one.toString(ct(times.empty() ? b : r.pick(times), TimeSystem::GPS)); }
               else if (!used.empty() && r.chance(80)) { const std::map<char, std::string>& u = r.pick(used); v = u.count(ch) ? u.at(ch) : "0"; }
               else v = value(ch, w, r);
               if (!hunting && r.chance(90)) while ((int)v.size() < w) v = (ch == 'x' ? " " : "0") + v;
               vals.push_back(v);
            }
            fl.push_back(std::make_pair(ch, vals));
         }
      }
      auto fj = [](const std::vector<std::pair<char, SV> >& f) { std::string o = "["; for (size_t i = 0; i < f.size(); i++) o += (i ? ",[" : "[") + esc(std::string(1, f[i].first)) + "," + J(f[i].second) + "]"; return Raw(o + "]"); };
      SV out;
      if (hunting && r.chance(65))
      {
         if (!h || r.chance(20)) { if (h && r.chance(60)) h->newHunt(whole); else h.reset(r.chance(50) ? new FileHunter(whole) : new FileHunter(FileSpec(whole))); hf.clear(); }
         if (hf.size() < 2 && r.chance(40)) for (auto& p : fl) { h->setFilter(types().at(p.first), p.second); hf.push_back(p); }
         static const std::vector<FileHunter::FileChunking> C = { FileHunter::WEEK, FileHunter::DAY, FileHunter::HOUR, FileHunter::MINUTE };
         static const SV CN = { "WEEK", "DAY", "HOUR", "MINUTE" };
         int k = (int)r.in(0, 3), dir = (int)r.in(0, 1);
         std::string absent; for (auto& p : types()) if (!hasKind(sp, p.first)) absent += p.first;
         std::string err; std::vector<std::pair<char, SV> > now = hf;
         if (r.chance(5) && !absent.empty())
         { char ch = absent[r.in(0, (ll)absent.size() - 1)]; now.push_back(std::make_pair(ch, SV{"1"})); err = guard([&]() { h->setFilter(types().at(ch), SV{"1"}); }); }
         else if (!hasTime(sp) || r.chance(4))
         {     // whenever they are of
            a = V{0, 0, 0}; c = V{2900000, 0, 0}; dir = 1; k = 1;
            err = guard([&]() { out = h->find(); });
         }
         else err = guard([&]() { out = h->find(ct(a, ts), ct(c, ts), dir ? FileSpec::ascending : FileSpec::descending, C[k]); });
         Ev("hunt").f("from", a).f("to", c).f("dir", dir).f("chunk", CN[k]).f("filt", fj(now)).f("err", err).f("out", paths(rel(base, out))).end();
      }
      else if (bare)
      {
         FileSpec::FSTStringMap m; std::string tx = r.chance(15) ? std::string() : text; if (!tx.empty()) m[FileSpec::text] = tx; if (!sel.empty()) m[FileSpec::selected] = sel;
         if (r.chance(30)) m[FileSpec::station] = "85401";
         std::string err = guard([&]() { std::list<std::string> l = r.chance(50) ? FileSpecFind::find(whole, ct(a, ts), ct(c, ts), m) : FileSpecFind::find(FileSpec(whole), ct(a, ts), ct(c, ts), m); out.assign(l.begin(), l.end()); });
         Ev("findx").f("from", a).f("to", c).f("text", tx.empty() ? "Z" : tx).f("sel", sel).f("err", err).f("out", paths(rel(base, out))).end();
      }
      else
      {
         FileSpecFind::Filter f; for (auto& p : fl) for (auto& v : p.second) f.insert(std::make_pair(types().at(p.first), v));
         bool none = fl.empty() && r.chance(50);
         std::string err = guard([&]() { std::list<std::string> l = none ? FileSpecFind::find(whole, ct(a, ts), ct(c, ts)) : r.chance(50) ? FileSpecFind::find(whole, ct(a, ts), ct(c, ts), f) : FileSpecFind::find(FileSpec(whole), ct(a, ts), ct(c, ts), f); out.assign(l.begin(), l.end()); });
         Ev("find").f("from", a).f("to", c).f("filt", fj(fl)).f("err", err).f("out", paths(rel(base, out))).end();
      }
   }
   rmTree(base, files);
}

int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      while (trace().n < args().size)
      {
         Ev("new").end();
         FileSpec fs;
         for (int k = (int)r.in(1, 3); k > 0; k--)
         {
            note("file specification");
            if (r.chance(25)) { Sp sp = genSpec(r, (int)r.in(1, 3), false, r.chance(20), r.chance(10)); specEv(sp, fs); for (int i = (int)r.in(1, 3); i > 0; i--) nameEv(sp, fs, r); }
            else if (r.chance(35)) sortHistory(r, fs);
            else treeHistory(r, fs);
         }
      }
   });
}
