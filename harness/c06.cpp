// printing and scanning times
#include "tm.hpp"
#include "TimeString.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "JulianDate.hpp"
#include "ANSITime.hpp"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
#include "GPSWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
using namespace gpstk;
using namespace hx;
static const TimeSystem SYS[] = { TimeSystem::Unknown, TimeSystem::Any, TimeSystem::GPS, TimeSystem::GLO,
   TimeSystem::GAL, TimeSystem::QZS, TimeSystem::BDT, TimeSystem::IRN, TimeSystem::UTC, TimeSystem::TAI,
   TimeSystem::TT, TimeSystem::TDB };
struct Item { std::string lit, ch, flag; int w; std::string raw;
   std::string json() const { return "{\"lit\":" + J(lit) + ",\"ch\":" + J(ch) + ",\"flag\":" + J(flag) + ",\"w\":" + J(w) + ",\"raw\":" + J(raw) + "}"; } };
static CommonTime mk(const V& v, TimeSystem s)      // day, sec, us
{ CommonTime c; c.setInternal(v[0], v[1] * 1000 + v[2] / 1000, (v[2] % 1000) * 1e-6, s); return c; }
static bool isF(char c) { return strchr("fsg", c) != 0; }
static int need(char c)
{
   switch (c) { case 'Y': return 4; case 'm': case 'd': case 'H': case 'M': case 'S': case 'y': return 2; case 'f': return 9;
      case 's': return 12; case 'g': return 13; case 'j': return 3; case 'w': return 1; case 'Z': case 'z': return 6; case 'c': return 9;
      case 'C': case 'K': case 'U': case 'W': return 10; case 'u': return 6; case 'N': return 9;
      case 'E': case 'R': case 'T': case 'V': case 'X': return 2; case 'Q': return 11; case 'J': return 13; default: return 5; }
}
static const char* LITS[] = { " ", ",", "/", ":", ";", "_", ", ", " / " };
   // a scannable format over the letters, in the order given
static std::string fmtOf(Rng& R, const std::vector<char>& L)
{
   std::string f;
   static const char* head[] = { "", "", "", "t=", "at " };
   f += head[R.in(0, 4)];
   for (size_t i = 0; i < L.size(); i++)
   {
      char c = L[i];
      bool text = c == 'P' || c == 'b' || c == 'B';
      bool wide = !text && R.chance(60);
      f += "%";
      if (wide) { int n = need(c) + (c != 'y' && R.chance(15) ? R.in(1, 3) : 0); f += "0" + std::to_string(n); }
      if (isF(c) && (wide || R.chance(50))) f += ".6";
      if (c == 'Q' || c == 'J') f += ".5";
      f += c;
      if (i + 1 < L.size() && (!wide || R.chance(70))) f += LITS[R.in(0, 7)];
   }
   return f;
}
static const struct { const char *full, *mod, *ep; } WKL[] = { {"F","G","E"}, {"L","l","T"}, {"D","e","R"}, {"h","i","V"}, {"O","o","X"} };
static std::string jl(const std::vector<char>& L)
{ std::vector<std::string> v; for (char c : L) v.push_back(std::string(1, c)); return J(v); }
template <class T> static void tag(const V& v, TimeSystem s, const char* g)
{
   T a, b; CommonTime r;
   std::string txt;
   std::string x = guard([&]{ a.convertFromCommonTime(mk(v, s)); txt = a.asString(); b.scanf(txt, b.getDefaultFormat()); r = b.convertToCommonTime(); });
   Ev("scan").f("how", "tag " + b.getDefaultFormat()).f("txt", txt).f("g", g).f("x", x).f("r", inst(r)).f("s", tsys(r)).end();
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R)
   {
      Args& A = args();
      while (trace().n < A.size)
      {
         // an instant; its range and grain decide which letters are used
         int era = R.in(0, 9);
         ll day = era == 0 ? R.in(2086303, 2444244) : era == 1 ? R.in(2440588, 2453736) : R.in(2453742, 2465442);
         if (R.chance(20)) day = std::vector<ll>{2444244, 2444245, 2451412, 2451411, 2453735, 2453736, 2451412, 2453743, 2459580, 2459581, 2460371, 2460676}[R.in(0, 11)];
         bool coarse = R.chance(25), msec = R.chance(50);
         ll sec = R.chance(30) ? std::vector<ll>{0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399}[R.in(0, 8)] : R.in(0, 86399);
         ll us = R.chance(20) ? std::vector<ll>{0, 1, 999999, 500000, 499999}[R.in(0, 4)] : R.in(0, 999999);
         if (msec) us -= us % 1000;
         if (coarse) { sec = R.in(0, 31) * 2700; us = 0; }
         if (!coarse && (sec * 1000 + us / 1000) % 1500 == 0 && us % 1000 == 0) us += 1000;
         V v{day, sec, us};
         TimeSystem s = SYS[R.in(0, 11)];
         CommonTime t = mk(v, s);
         Ev("new").f("t", v).f("s", sysName(s)).end();
         bool wkok = day >= 2453742, unixok = day >= 2440588 && day < 2465442;
         // printing: any letters
         std::string letters = "YymbBdHMSfjsPEFGRDeTLlVhiXOo";
         if (day >= 2440588) letters += "KUW";
         if (day >= 2440588 && (msec || coarse)) letters += "uN";
         letters += "wg";
         if (!coarse) letters += "Zzc";
         if (!coarse && (day < 2444245 || day < 2444245 + 7 * 4095)) letters += "C";
         if (coarse && day >= 2400001) letters += "QJ";
         for (int k = 0; k < 6; k++)
         {
            std::vector<Item> F; std::string fmt; int n = R.in(1, 8);
            for (int i = 0; i < n; i++)
            {
               Item it; char c = letters[R.in(0, (ll)letters.size() - 1)];
               if (R.chance(60)) it.lit = LITS[R.in(0, 7)];
               it.ch = std::string(1, c); it.w = 0;
               bool text = strchr("PbB", c);
               if (R.chance(60)) { it.w = R.in(1, 14); it.flag = R.chance(20) ? "-" : (R.chance(60) && !text) ? "0" : ""; }
               it.raw = "%" + it.flag + (it.w ? std::to_string(it.w) : "");
               if (isF(c) && R.chance(50)) it.raw += ".6";
               if (c == 'Q' || c == 'J') it.raw += ".5";
               it.raw += c;
               F.push_back(it); fmt += it.lit + it.raw;
            }
            if (R.chance(30)) { Item it; it.lit = R.chance(50) ? " done" : "."; it.w = 0; F.push_back(it); fmt += it.lit; }
            std::string js = "["; for (size_t i = 0; i < F.size(); i++) js += (i ? "," : "") + F[i].json(); js += "]";
            note("print " + fmt);
            std::string text; std::string x = guard([&]{ text = printTime(t, fmt); });
            Ev("print").f("f", fmt).f("fmt", Raw(js)).f("text", x == "ok" ? text : "!" + x).end();
         }
         // complete formats, both scanners and the classes themselves
         for (int k = 0; k < 6; k++)
         {
            std::vector<char> L; const char* g = "us";
            int c = R.in(0, 4), fam = R.in(0, 9);
            bool stdal = false;
            auto tod = [&](bool sod) {
               if (sod && R.chance(40)) { L.push_back('s'); return; }
               L.push_back('H'); L.push_back('M');
               if (R.chance(75)) L.push_back('f'); else { L.push_back('S'); g = "s"; } };
            if (fam <= 2)
            {
               bool yy = day >= 2440223 && day < 2476747 && R.chance(20);   // 1969 .. 2068
               L.push_back(yy ? 'y' : 'Y'); L.push_back("mbB"[R.in(0, 2)]); L.push_back('d'); tod(true);
            }
            else if (fam <= 4) { L.push_back('Y'); L.push_back('j'); tod(true); }
            else if (fam <= 6)
            {
               if (!wkok) continue;
               if (R.chance(60)) L.push_back(WKL[c].full[0]); else { L.push_back(WKL[c].ep[0]); L.push_back(WKL[c].mod[0]); }
               if (R.chance(50)) L.push_back('g'); else { L.push_back('w'); tod(true); }
            }
            else if (fam == 7)
            {
               if (coarse || !wkok || day >= 2444245 + 7 * 4095) continue;
               g = "z";
               switch (R.in(0, 3)) { case 0: L = {'F', R.chance(50) ? 'Z' : 'z'}; break; case 1: L = {'E', 'c'}; break; case 2: L = {'E', 'G', R.chance(50) ? 'Z' : 'z'}; break; default: L = {'C'}; stdal = true; }
            }
            else if (fam == 8)
            {
               if (!unixok) continue;
               stdal = true;
               if (!(msec || coarse)) { L = {'K'}; g = "s"; }
               else switch (R.in(0, 2)) { case 0: L = {'K'}; g = "s"; break; case 1: L = {'U', 'u'}; break; default: L = {'W', 'N'}; }
            }
            else { if (!coarse) continue; stdal = true; L = {R.chance(50) && day >= 2400001 ? 'Q' : 'J'}; }
            if (!stdal) R.shuffle(L);
            L.insert(L.begin() + (R.chance(70) ? (ll)L.size() : R.in(0, (ll)L.size())), 'P');
            std::string fmt = fmtOf(R, L), txt; CommonTime r;
            bool mixed = R.chance(50);
            if (mixed)
            {
               V d{R.in(2453742, 2465000), R.in(0, 86399), R.in(0, 999999)};
               r = mk(d, SYS[R.in(0, 11)]);
            }
            note("scan " + fmt);
            int how = mixed ? 1 : R.in(0, 1) * 2;
            std::string x = guard([&]{ txt = printTime(t, fmt);
               if (how == 1) mixedScanTime(r, txt, fmt); else if (how == 0) scanTime(r, txt, fmt);
               else { UnixTime dummy; CivilTime tt; YDSTime yt; scanTime(r, txt, fmt); (void)dummy; } });
            Ev("scan").f("how", std::string(how == 1 ? "mixed " : "scan ") + fmt).f("txt", txt).f("g", g).f("x", x).f("r", inst(r)).f("s", tsys(r)).end();
         }
         switch (R.in(0, 5))
         {
            case 0: tag<CivilTime>(v, s, "s"); break;
            case 1: tag<YDSTime>(v, s, "us"); break;
            case 2: if (coarse) { if (R.chance(50) && day >= 2400001) tag<MJD>(v, s, "us"); else tag<JulianDate>(v, s, "us"); } break;
            case 3: if (wkok) switch (R.in(0, 4)) { case 0: tag<GPSWeekSecond>(v, s, "us"); break; case 1: tag<GALWeekSecond>(v, s, "us"); break;
                  case 2: tag<BDSWeekSecond>(v, s, "us"); break; case 3: tag<QZSWeekSecond>(v, s, "us"); break; default: tag<IRNWeekSecond>(v, s, "us"); } break;
            case 4: if (unixok) { if (R.chance(33)) tag<ANSITime>(v, s, "s"); else if (msec || coarse) { if (R.chance(50)) tag<UnixTime>(v, s, "us"); else tag<PosixTime>(v, s, "us"); } } break;
            default: if (wkok && !coarse) tag<GPSWeekZcount>(v, s, "z");
         }
         // overriding parts of an instant
         if (wkok && !coarse) for (int k = 0; k < 3; k++)
         {
            V d{R.in(2453742, 2465000), R.in(0, 86399), R.in(0, 999999)};
            std::vector<char> L; int c = R.in(0, 4);
            switch (R.in(0, 5))
            {
               case 0: L = {'Y', "mbB"[R.in(0, 2)], 'd'}; break;
               case 1: L = {'Y', 'j'}; break;
               case 2: L = {WKL[c].full[0]}; break;
               case 3: L = {WKL[c].mod[0]}; break;
               default: ;
            }
            int tk = R.in(0, 5);
            if (tk == 0) L.push_back('s');
            else if (tk == 1 && (L.empty() || L[0] != 'Y')) L.push_back('g');
            else
            {
               if (L.size() == 1 && R.chance(30)) L.push_back('w');
               if (R.chance(50)) L.push_back('H');
               if (R.chance(50)) L.push_back('M');
               if (R.chance(50)) L.push_back(R.chance(70) ? 'f' : 'S');
            }
            if (L.empty()) L.push_back('H');
            R.shuffle(L);
            if (R.chance(50)) L.push_back('P');
            std::string fmt = fmtOf(R, L), txt;
            TimeSystem s2 = SYS[R.in(0, 11)];
            CommonTime r = mk(d, s2);
            note("mixed " + fmt);
            std::string x = guard([&]{ txt = printTime(t, fmt); mixedScanTime(r, txt, fmt); });
            // the specification overrides the target d by the donor v
            Ev("mixed").f("how", fmt).f("txt", txt).f("L", Raw(jl(L))).f("u", d).f("us", sysName(s2)).f("x", x).f("r", inst(r)).f("s", tsys(r)).end();
         }
         if (R.chance(20))
         {
            static const char* F[] = { "%02H:%02M:%02S", "%s", "%02m/%02d", "%j", "%w" };
            std::string fmt = F[R.in(0, 4)], txt = day >= 2444245 ? printTime(t, fmt) : printTime(CommonTime::BEGINNING_OF_TIME + 800.0 * 365 * 86400, "%02H:%02M:%02S");
            if (day < 2444245) fmt = "%02H:%02M:%02S";
            CommonTime r = mk(V{2455555, 4, 5}, TimeSystem::TAI), r0 = r;
            std::string x = guard([&]{ scanTime(r, txt, fmt); });
            Ev("short").f("how", fmt).f("txt", txt).f("x", x).f("kept", r == r0).end();
            CommonTime r2;
            static const char* B[][2] = { {"2010 Foo 03 00:00:00", "%Y %b %d %H:%M:%S"}, {"2010 Fooary 03", "%Y %B %d"}, {"2010 01", "%Y %m %d"}, {"123 01 03", "%y %m %d"} };
            int b = R.in(0, 3);
            {
               std::vector<std::string> hd;
               auto pe = [&](const TimeTag& g){ std::string id = g.getPrintChars(); for (char c : id) {
                  std::string z; std::string x = guard([&]{ z = g.printError(std::string("<%") + c + ">"); });
                  hd.push_back(x == "ok" ? z.substr(0, 4) : x); } };
               pe(CivilTime()); pe(YDSTime()); pe(MJD()); pe(JulianDate()); pe(ANSITime()); pe(UnixTime()); pe(PosixTime());
               pe(GPSWeekSecond()); pe(GPSWeekZcount()); pe(GALWeekSecond()); pe(BDSWeekSecond()); pe(QZSWeekSecond()); pe(IRNWeekSecond());
               Ev("error").f("hd", hd).end();
            }
            x = guard([&]{ mixedScanTime(r0, B[b][0], B[b][1]); });
            Ev("bad").f("how", B[b][1]).f("txt", B[b][0]).f("x", x).end();
         }
      }
   });
}
