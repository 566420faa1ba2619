// loading SP3 and RINEX clock files
#include "tm.hpp"
#include "SP3EphemerisStore.hpp"
#include "CivilTime.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;
using namespace hx;
static CommonTime base;
static CommonTime at(ll ms) { return base + (double)ms / 1000.; }
static ll idx(CommonTime t) { if (t.getDays() > 3000000) return BIG; if (t.getDays() < 1000000) return -BIG; t.setTimeSystem(base.getTimeSystem()); return llround((t - base) * 1000.); }
static const char SYS[] = "GRE";
static SatID sid(int s) { return SatID(s % 100, s < 100 ? SatelliteSystem::GPS : s < 200 ? SatelliteSystem::Glonass : SatelliteSystem::Galileo); }
static int code(const SatID& s) { return s.id + (s.system == SatelliteSystem::GPS ? 0 : s.system == SatelliteSystem::Glonass ? 100 : 200); }
static std::string st(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
static std::string st(const char* fmt, ...) { char b[400]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
struct FileSpec { std::string kind, ver, ts, path; int bpv, bclk; bool vel; std::vector<std::string> text, json; };
static std::string epoch(ll ms)
{
   CivilTime c(at(ms));
   return st("%4d %2d %2d %2d %2d %11.8f", c.year, c.month, c.day, c.hour, c.minute, c.second + 0.0);
}
static void header(FileSpec& f, std::ostream& o, const std::vector<int>& sats)
{
   bool a = f.ver == "a";
   o << "#" << f.ver << (f.vel ? "V" : "P") << epoch(0) << "      24 ORBIT IGS14 FIT  TST\n";
   o << "## 1000 259200.00000000   900.00000000 51000 0.0000000000000\n";
   std::vector<std::string> ids; for (int s : sats) ids.push_back(a ? st("%3d", s % 100) : st("%c%02d", SYS[s / 100], s % 100));
   int rows = 5; size_t k = 0;
   for (int r = 0; r < rows; r++) { o << (r ? "+        " : st("+   %2d   ", (int)ids.size())); for (int i = 0; i < 17; i++, k++) o << (k < ids.size() ? ids[k] : "  0"); o << "\n"; }
   for (int r = 0; r < rows; r++) { o << "++       "; for (int i = 0; i < 17; i++) o << "  0"; o << "\n"; }
   if (a) { o << "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"; }
   else { o << "%c M  cc " << f.ts << " ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"; }
   o << "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n";
   o << st("%%f %10.7f %12.9f  0.00000000000  0.000000000000000\n", (double)f.bpv, (double)f.bclk);
   o << "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n";
   o << "%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n";
   for (int i = 0; i < 4; i++) o << "/* COMMENT LINE\n";
}
static std::string num(ll v, int dec) { return st("%14.6f", v / pow(10., dec)); }
static std::string sg(int g, int w) { return g < -1 ? std::string(w, ' ') : st("%*d", w, g); }
static ll gval(int g) { return g < -1 ? 0 : g; }
static void lineP(Rng& R, FileSpec& f, int s, char k, bool clean)
{
   ll x[3], c; for (auto& q : x) { q = k == 'P' ? R.in(-27000000, 27000000) : R.in(-40000000, 40000000); if (!q) q = 1; }
   if (k == 'P' && !clean && R.chance(12)) x[R.in(0, 2)] = 0;
   if (k == 'P' && !clean && R.chance(3)) x[0] = x[1] = x[2] = 0;
   c = k == 'P' ? R.in(-900000000, 900000000) : R.in(-900000, 900000);
   if (!clean && k == 'P' && R.chance(12)) { static const ll B[] = {999999999, 999999000, 999998999, -999999000, -999998999}; c = B[R.in(0, 4)]; }
   int g[4]; for (int i = 0; i < 4; i++) g[i] = R.chance(20) ? -2 : R.chance(10) ? -1 : R.in(0, 6);
   bool op = k == 'P' && R.chance(30), cp = k == 'P' && R.chance(30);
   bool c4 = f.ver == "c" || f.ver == "d";
   std::string L = std::string(1, k) + (f.ver == "a" ? st("%3d", s % 100) : st("%c%02d", SYS[s / 100], s % 100));
   for (auto q : x) L += num(q, 3);
   L += num(c, 3);
   if (c4)
   {
      L += " " + sg(g[0], 2) + " " + sg(g[1], 2) + " " + sg(g[2], 2) + " " + sg(g[3], 3);
      if (k == 'P') L += std::string(" ") + (R.chance(20) ? "E" : " ") + (cp ? "P" : " ") + "  " + (R.chance(20) ? "M" : " ") + (op ? "P" : " ");
      if (R.chance(50)) while (L.size() > 60 && L.back() == ' ') L.pop_back();
   }
   else { op = cp = false; }
   f.text.push_back(L);
   f.json.push_back("{\"k\":\"" + std::string(1, k) + "\",\"s\":" + J(s) + ",\"x\":" + J(V{x[0], x[1], x[2]}) + ",\"c\":" + J(c) +
      ",\"g\":" + J(V{gval(g[0]), gval(g[1]), gval(g[2]), gval(g[3])}) + ",\"op\":" + J(op) + ",\"cp\":" + J(cp) + "}");
}
static void lineE(Rng& R, FileSpec& f, char k)
{
   ll d[4]; for (auto& q : d) q = R.in(0, 999);
   std::string L = st("E%c  %4lld %4lld %4lld %7lld", k, d[0], d[1], d[2], d[3]); for (int i = 0; i < 6; i++) L += st(" %8lld", R.in(-9999999, 9999999));
   f.text.push_back(L); f.json.push_back("{\"k\":\"E" + std::string(1, k) + "\",\"d\":" + J(V{d[0], d[1], d[2], d[3]}) + "}");
}
static FileSpec sp3(Rng& R, std::string path, const std::vector<int>& all, int style, bool clean)
{
   FileSpec f; f.kind = "sp3"; f.path = path; f.ver = R.chance(15) && !clean ? "a" : R.chance(15) ? "b" : R.chance(60) ? "c" : "d";
   f.ts = f.ver == "a" ? "Any" : R.chance(92) ? "GPS" : "UTC"; f.bpv = R.in(1, 3); f.bclk = R.in(1, 3); f.vel = style > 0;
   std::vector<int> sats; for (int s : all) if (f.ver != "a" || s < 100) if (R.chance(85)) sats.push_back(s);
   if (sats.empty()) sats.push_back(all[0] % 100);
   ll t = R.in(0, 3) * 900000; int n = R.in(1, 5);
   for (int e = 0; e < n; e++, t += R.chance(80) ? 900000 : R.chance(50) ? 900500 : 30250)
   {
      f.text.push_back("*  " + epoch(t)); f.json.push_back("{\"k\":\"*\",\"t\":" + J(t) + "}");
      std::vector<int> here; for (int s : sats) if (R.chance(clean ? 100 : 90)) here.push_back(s);
      if (here.empty()) here.push_back(sats[0]);
      if (R.chance(30)) R.shuffle(here);
      bool c4 = f.ver == "c" || f.ver == "d", mix = R.chance(20);
      for (int s : here)
      {
         bool ep = c4 && R.chance(30), ve = f.vel && (!mix || R.chance(60)), ev = c4 && ve && R.chance(30);
         lineP(R, f, s, 'P', clean); if (ep) lineE(R, f, 'P');
         if (ve) lineP(R, f, s, 'V', clean); if (ev) lineE(R, f, 'V');
      }
   }
   std::ofstream o(path); header(f, o, sats); for (auto& l : f.text) o << l << "\n";
   int end = R.in(0, 9); if (end < 8) o << "EOF\n"; else if (end == 8) o << "EOF";
   return f;
}
static FileSpec clkfile(Rng& R, std::string path, const std::vector<int>& all, bool clean)
{
   FileSpec f; f.kind = "clk"; f.path = path; f.ver = "3"; f.ts = R.chance(92) ? "GPS" : "UTC"; f.bpv = f.bclk = 0;
   std::ofstream o(path); auto H = [&](std::string a, const char* b) { a.resize(60, ' '); o << a << b << "\n"; };
   H("     3.00           CLOCK DATA          MIXED", "RINEX VERSION / TYPE"); H("PGM                 RUN", "PGM / RUN BY / DATE");
   H("   " + f.ts, "TIME SYSTEM ID"); if (R.chance(40)) H("a comment", "COMMENT");
   H("     2    AS    AR", "# / TYPES OF DATA"); H("TST  Test Centre", "ANALYSIS CENTER"); H("     1    ITRF", "# OF SOLN STA / TRF");
   H("ABCD 12345M001           1234567890  1234567890  1234567890", "SOLN STA NAME / NUM"); H("     1", "# OF SOLN SATS"); H("G01", "PRN LIST"); H("", "END OF HEADER");
   ll t = R.in(0, 3) * 900000; int n = R.in(1, 5);
   for (int e = 0; e < n; e++, t += R.chance(80) ? 900000 : 300000)
   {
      if (R.chance(30)) { o << "AR ABCD " << st("%4d %02d %02d %02d %02d %9.6f", CivilTime(at(t)).year, CivilTime(at(t)).month, CivilTime(at(t)).day, CivilTime(at(t)).hour, CivilTime(at(t)).minute, CivilTime(at(t)).second) << "  2   " << st("%19.12E %19.12E\n", 1e-5, 2e-7); f.json.push_back("{\"k\":\"AR\"}"); }
      for (int s : all)
      {
         if (R.chance(10)) continue;
         CivilTime c(at(t)); ll b = R.in(-900000, 900000), sb = R.in(0, 99999), d = R.in(-99999, 99999), sd = R.in(0, 9999);
         int k = clean ? R.in(3, 4) : R.in(2, 6); if (k == 2) d = 0; if (k < 4) sd = 0; if (k >= 3 && d == 0) d = 1;
         o << st("AS %c%02d  %4d %02d %02d %02d %02d %9.6f%3d   %19.12E %19.12E\n", SYS[s / 100], s % 100, c.year, c.month, c.day, c.hour, c.minute, c.second, k, b * 1e-9, sb * 1e-12);
         if (k > 2) { o << st("%19.12E", d * 1e-12); if (k > 3) o << st(" %19.12E", sd * 1e-15); if (k > 4) o << st(" %19.12E", 0.0); if (k > 5) o << st(" %19.12E", 0.0); o << "\n"; }
         f.json.push_back("{\"k\":\"AS\",\"s\":" + J(s) + ",\"t\":" + J(t) + ",\"b\":" + J(b) + ",\"sb\":" + J(sb) + ",\"d\":" + J(d) + ",\"sd\":" + J(sd) + "}");
      }
   }
   return f;
}
static ll tmOf(std::istringstream& is)
{
   double w, g; int d; std::string ymd, hms, ts; is >> w >> d >> g >> ymd >> hms >> ts;
   GPSWeekSecond b(base); return llround(((w - b.week) * 604800. + g - b.sow) * 1000.);
}
static int satOf(std::istringstream& is) { std::string sys; int id; is >> sys >> id; return id + (sys == "GPS" ? 0 : sys == "GLONASS" ? 100 : sys == "Galileo" ? 200 : 900); }
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R) {
      int fno = 0;
      for (ll done = 0; done < args().size / 20; done++)
      {
         SP3EphemerisStore S; bool sp3src = true, clean = R.chance(35); int style = R.chance(60);
         base = CivilTime(R.in(1995, 2030), R.in(1, 12), R.in(1, 28), R.in(0, 23), 15 * R.in(0, 3), 0, TimeSystem::GPS);
         if (R.chance(15)) { base = CommonTime(static_cast<CommonTime>(GPSWeekSecond(R.in(800, 2400), 604800 - 1800, TimeSystem::GPS))); }
         base.setTimeSystem(TimeSystem::Any);
         Ev("new").end();
         std::vector<int> sats{3, 17, 105, 212, 9}; sats.resize(R.in(1, 5));
         std::vector<std::string> paths; std::vector<ll> hot{0, 900000, 1800000, 2700000};
         auto opts = [&] { bool a = R.chance(70), b = R.chance(70), c = R.chance(40), d = R.chance(40);
            S.rejectBadPositions(a); S.rejectBadClocks(b); S.rejectPredPositions(c); S.rejectPredClocks(d);
            Ev("opt").f("badp", a).f("badc", b).f("predp", c).f("predc", d).end(); };
         auto file = [&](FileSpec& f, bool again) -> bool {
            note("load " + f.path);
            int how = R.in(0, 2); if (f.kind == "clk" && sp3src) how = 1;
            std::string x = guard([&]{ if (how == 0) S.loadFile(f.path); else if (f.kind == "clk") S.loadRinexClockFile(f.path); else if (how == 1) S.loadSP3File(f.path); else S.loadFile(f.path); });
            std::string L = "["; for (size_t i = 0; i < f.json.size(); i++) L += (i ? "," : "") + f.json[i];
            if (f.kind == "clk") sp3src = false;
            Ev("file").f("kind", f.kind).f("ver", f.ver).f("ts", f.ts).f("bpv", f.bpv).f("bclk", f.bclk).f("again", again).f("x", x).f("lines", Raw(L + "]")).end(); return x == "ok";
         };
         auto dump = [&] {
            std::ostringstream op, oc; S.dumpPosition(op, 2); S.dumpClock(oc, 2); std::string l; std::vector<Raw> P, C;
            std::istringstream ip(op.str()), ic(oc.str());
            while (std::getline(ip, l))
            {
               size_t k = l.find(" Pos "); if (k == std::string::npos) continue;
               std::istringstream is(l); ll t = tmOf(is); int s = satOf(is); std::string w; double x[12]; V p, sp, v, sv;
               is >> w >> x[0] >> x[1] >> x[2] >> w >> x[3] >> x[4] >> x[5] >> w >> x[6] >> x[7] >> x[8] >> w >> x[9] >> x[10] >> x[11];
               for (int i = 0; i < 3; i++) { p.push_back(fx(x[i], 1000)); sp.push_back(fx(x[3+i])); v.push_back(fx(x[6+i], 1000)); sv.push_back(fx(x[9+i])); }
               P.push_back(Raw("{\"s\":" + J(s) + ",\"t\":" + J(t) + ",\"r\":{\"p\":" + J(p) + ",\"sp\":" + J(sp) + ",\"v\":" + J(v) + ",\"sv\":" + J(sv) + "}}"));
            }
            bool data = false;
            while (std::getline(ic, l))
            {
               if (l.find("   Sat ") == 0) { data = true; continue; }
               if (!data || l.find("End dump") != std::string::npos || l.size() < 60) continue;
               std::istringstream is(l); ll t = tmOf(is); int s = satOf(is); double x[4]; is >> x[0] >> x[1] >> x[2] >> x[3];
               if (sp3src) { x[0] *= 1e3; x[1] *= 1e6; x[2] *= 1e7; x[3] *= 1e10; } else { x[0] *= 1e9; x[1] *= 1e12; x[2] *= 1e12; x[3] *= 1e15; }
               C.push_back(Raw("{\"s\":" + J(s) + ",\"t\":" + J(t) + ",\"r\":{\"b\":" + J(fx(x[0])) + ",\"sb\":" + J(fx(x[1])) + ",\"d\":" + J(fx(x[2])) + ",\"sd\":" + J(fx(x[3])) + "}}"));
            }
            Ev("dump").f("pos", P).f("clk", C).end();
         };
         auto lst = [&](const std::vector<SatID>& v) { std::vector<int> o; for (auto& s : v) o.push_back(code(s)); return o; };
         auto look = [&](int m) {
            for (int i = 0; i < m; i++)
            {
               int k = R.in(0, 9), s = R.chance(95) ? R.pick(sats) : 44;
               if (k == 0) dump();
               else if (k == 1)
               {
                  V lim; CommonTime a, b; guard([&]{ a = S.getInitialTime(); b = S.getFinalTime(); lim = {idx(a), idx(b)}; });
                  auto ix = S.getIndexSet(); std::vector<int> ixs; for (auto& q : ix) ixs.push_back(code(q));
                  Ev("state").f("np", S.ndataPosition()).f("nc", S.ndataClock()).f("sats", lst(S.getSatList())).f("psats", lst(S.getPositionSatList())).f("csats", lst(S.getClockSatList())).f("idx", ixs)
                     .f("ts", sysName(S.getTimeSystem())).f("nf", V{S.nfiles(), S.nSP3files(), S.nClockfiles()}).f("lim", lim).end();
               }
               else if (k == 2)
               {
                  V lim; guard([&]{ ll a = idx(S.getInitialTime(sid(s))), b = idx(S.getFinalTime(sid(s))); lim = {a, b}; });
                  Ev("sat").f("s", s).f("has", S.isPresent(sid(s))).f("np", S.ndataPosition(sid(s))).f("nc", S.ndataClock(sid(s))).f("lim", lim).end();
               }
               else
               {
                  ll t = R.pick(hot) + (R.chance(10) ? R.in(-5, 5) * 900000 : 0); Xvt X, Y; CommonTime ct = at(t); ct.setTimeSystem(S.getTimeSystem());
                  note("xvt"); std::string x = guard([&]{ X = S.getXvt(sid(s), ct); }); Y = S.computeXvt(sid(s), ct);
                  std::ostringstream h; h << Y.health; bool same = true; V p, v;
                  for (int i = 0; i < 3; i++) { p.push_back(fx(X.x[i])); v.push_back(fx(X.v[i], 1e4)); if (X.x[i] != Y.x[i] || X.v[i] != Y.v[i]) same = false; }
                  if (X.clkbias != Y.clkbias || X.clkdrift != Y.clkdrift || X.relcorr != Y.relcorr) same = false;
                  std::string hs = Y.health == Xvt::Unavailable ? "Unavailable" : Y.health == Xvt::Unused ? "Unused" : "other";
                  Ev("xvt").f("s", s).f("t", t).f("hv", S.hasVelocity()).f("hd", S.hasClockDrift()).f("x", x).f("h", hs).f("same", same).f("p", p).f("v", v)
                     .f("b", fx(X.clkbias, 1e9)).f("d", fx(X.clkdrift, sp3src ? 1e13 : 1e12)).end();
               }
            }
         };
         int rounds = R.in(1, 5);
         for (int r = 0; r < rounds; r++)
         {
            if (R.chance(40)) opts();
            int k = R.in(0, 11);
            if (k == 0) { sp3src = R.chance(50); if (sp3src) S.useSP3ClockData(); else S.useRinexClockData(); Ev("src").f("sp3", sp3src).end(); }
            else if (k == 1) { S.clear(); Ev("clear").end(); }
            else if (k == 2) { FileSpec f; f.kind = "missing"; f.path = args().scratch + "/none.sp3"; f.bpv = f.bclk = 0; file(f, true); }
            bool clk = sp3src ? R.chance(6) : R.chance(60);
            std::string path = args().scratch + st("/f%d.%s", fno++, clk ? "clk" : "sp3"); bool again = false, loaded;
            paths.push_back(path);
            FileSpec f = clk ? clkfile(R, path, sats, clean) : sp3(R, path, sats, style, clean);
            loaded = file(f, again); if (R.chance(50)) dump(); look(6);
            if (R.chance(10) && loaded) { file(f, true); dump(); }
            unlink(path.c_str());
         }
         dump(); look(8);
      }
   });
}
