// calendar conversions
#include "tm.hpp"
#include "TimeConverters.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "JulianDate.hpp"
#include "ANSITime.hpp"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
using namespace gpstk;
using namespace hx;
static const TimeSystem SYS[] = { TimeSystem::Unknown, TimeSystem::Any, TimeSystem::GPS, TimeSystem::GLO,
   TimeSystem::GAL, TimeSystem::QZS, TimeSystem::BDT, TimeSystem::IRN, TimeSystem::UTC, TimeSystem::TAI,
   TimeSystem::TT, TimeSystem::TDB };
static int len(int y, int m)
{
   int a = y < 0 ? y + 1 : y;
   bool lp = a <= 1582 ? (a % 4 == 0) : (a % 4 == 0 && (a % 100 || a % 400 == 0));
   static const int n[] = {31,28,31,30,31,30,31,31,30,31,30,31};
   return n[m-1] + (m == 2 && lp);
}
template <class T> static std::string J1(const std::string& x, const V& v, const T& c)
{
   CommonTime b; std::string bx = x == "ok" ? guard([&]{ b = c.convertToCommonTime(); }) : x;
   return "{\"x\":" + J(x) + ",\"v\":" + J(v) + ",\"s\":" + J(sysName(c.getTimeSystem())) + ",\"bx\":" + J(bx) +
      ",\"b\":" + J(inst(b)) + ",\"bs\":" + J(tsys(b)) + "}";
}
static V ms_ns(long double sec) { ll ns = llroundl(sec * 1e9L); return V{ns / 1000000, ns % 1000000}; }
static V ldays(long double d)
{ long double f = floorl(d); ll ns = llroundl((d - f) * 86400e9L); V s = span(ns); s[0] += (ll)f; return s; }

static CommonTime mk(const V& t, TimeSystem s)
{ CommonTime c; c.setInternal(t[0], t[1], t[2] * 1e-9, s); return c; }

template <class C> static void ord(const char* cls, const V& a, TimeSystem sa, const V& b, TimeSystem sb)
{
   C A, B;
   std::string x = guard([&]{ A = C(mk(a, sa)); B = C(mk(b, sb)); });
   if (x != "ok") return;
   auto f = [](std::function<bool()> g){ bool v = false; std::string x = guard([&]{ v = g(); });
      return x == "ok" ? std::string(v ? "T" : "F") : x; };
   std::vector<std::string> o = { f([&]{ return A < B; }), f([&]{ return A <= B; }), f([&]{ return A > B; }),
      f([&]{ return A >= B; }), f([&]{ return A == B; }), f([&]{ return A != B; }) };
   Ev("ord").f("c", cls).f("a", a).f("b", b).f("sa", sysName(sa)).f("sb", sysName(sb)).f("o", o).end();
}

int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R)
   {
      // every month of the supported range, split over the shards
      int y0 = -4713, y1 = 4712, sh = args().shard, of = args().of;
      int n = (y1 - y0 + of) / of;
      Ev("new").end();
      for (int y = y0 + sh * n; y < y0 + (sh + 1) * n && y <= y1; y++)
      {
         if (y == 0) continue;
         note("year " + std::to_string(y));
         for (int m = 1; m <= 12; m++)
         {
            bool full = args().thorough() || (y >= 1578 && y <= 1605) || (y >= 1890 && y <= 2110) ||
               (abs(y) % 100 <= 1 && (m <= 3 || m == 12)) || y < -4700 || (y > -6 && y < 6) || y > 4705;
            V d, nn, b, j;
            int L = len(y, m), pick = R.in(2, L - 2);
            for (int k = 1; k <= L; k++)
            {
               if (y == 1582 && m == 10 && k > 4 && k < 15) continue;
               if (!full && !(k == 1 || k >= L - 1 || k == pick)) continue;
               long jd = convertCalendarToJD(y, m, k);
               int yy, mm, dd; convertJDtoCalendar(jd, yy, mm, dd);
               CommonTime ct; ct.set(jd, 0L, 0.0, TimeSystem::GPS);
               d.push_back(k); nn.push_back(jd); b.push_back(yy); b.push_back(mm); b.push_back(dd);
               j.push_back(YDSTime(ct).doy);
            }
            Ev("month").f("y", y).f("m", m).f("d", d).f("n", nn).f("b", b).f("j", j).f("full", full).end();
         }
      }
      ll base = trace().n;
      while (trace().n - base < args().size)
      {
         V t(3);
         switch (R.in(0, 6))
         {
            case 0: t[0] = R.in(0, 3442447); break;
            case 1: t[0] = 2440588 + R.in(-2, 2); break;
            case 2: t[0] = 2440588 + 24855 + R.in(-2, 2); break;
            case 3: t[0] = 2299161 + R.in(-400, 400); break;
            default: t[0] = R.in(2440588, 2470000);
         }
         t[1] = R.chance(30) ? R.in(0, 3) : (R.chance(20) ? 86399999 - R.in(0, 3) : (R.chance(30) ? R.in(0, 86399) * 1000 :
                (R.chance(20) ? 11647000 + R.in(-2, 2) : R.in(0, 86399999))));
         t[2] = R.chance(40) ? 0 : (R.chance(20) ? 999999 : R.in(0, 999999));
         TimeSystem s = SYS[R.in(0, 11)];
         CommonTime ct = mk(t, s);
         note("tag " + J(t));
         Ev e("tag"); e.f("t", t).f("s", sysName(s));
         { CivilTime c; std::string x = guard([&]{ c.convertFromCommonTime(ct); }); V q = ms_ns(c.second);
           e.f("civil", Raw(J1(x, V{c.year, c.month, c.day, c.hour, c.minute, q[0], q[1]}, c))); }
         { YDSTime c; std::string x = guard([&]{ c.convertFromCommonTime(ct); }); V q = ms_ns(c.sod);
           e.f("yds", Raw(J1(x, V{c.year, c.doy, q[0], q[1]}, c))); }
         { MJD c; std::string x = guard([&]{ c.convertFromCommonTime(ct); }); e.f("mjd", Raw(J1(x, ldays(c.mjd), c))); }
         { JulianDate c; std::string x = guard([&]{ c.convertFromCommonTime(ct); });
           e.f("jd", Raw(J1(x, ldays((long double)c.jd + 0.5L), c))); }
         { ANSITime c; std::string x = guard([&]{ c.convertFromCommonTime(ct); });
           e.f("ansi", Raw(J1(x, V{flr(c.time, 86400), c.time - flr(c.time, 86400) * 86400}, c))); }
         { UnixTime c; std::string x = guard([&]{ c.convertFromCommonTime(ct); }); ll v = c.tv.tv_sec;
           e.f("unix", Raw(J1(x, V{flr(v, 86400), v - flr(v, 86400) * 86400, c.tv.tv_usec}, c))); }
         { PosixTime c; std::string x = guard([&]{ c.convertFromCommonTime(ct); }); ll v = c.ts.tv_sec;
           e.f("posix", Raw(J1(x, V{flr(v, 86400), v - flr(v, 86400) * 86400, c.ts.tv_nsec}, c))); }
         e.end();
         // validity of hand-made civil times
         {
            int y = R.chance(20) ? R.in(-4700, 4700) : R.in(1980, 2030), m = R.chance(5) ? 13 : R.in(1, 12), d = R.chance(50) ? R.in(1, 31) : R.in(27, 32);
            if (y == 0) y = 4;
            int h = R.chance(20) ? R.in(-1, 25) : R.in(0, 23), mi = R.chance(20) ? R.in(-1, 61) : R.in(0, 59), sc = R.chance(20) ? R.in(-1, 61) : R.in(0, 59);
            if (R.chance(3)) d = 0;
            bool ok = false; std::string x = guard([&]{ ok = CivilTime(y, m, d, h, mi, sc, s).isValid(); });
            if (x != "ok") ok = false;
            Ev("valid").f("v", V{y, m, d, h, mi, sc}).f("x", x).f("ok", ok).end();
         }
         {
            int h, mi; double sc; double sod = t[1] * 1e-3 + t[2] * 1e-9;
            if (sod < 86399.9999999)
            {
               convertSODtoTime(sod, h, mi, sc);
               V b = ms_ns(convertTimeToSOD(h, mi, sc));
               Ev("sod").f("t", V{0, t[1], t[2]}).f("h", h).f("mi", mi).f("sec", ms_ns(sc)).f("back", V{0, b[0], b[1]}).end();
            }
         }
         // ordering inside each class (whole seconds, in range of all of them)
         {
            V a{R.in(2440588, 2440588 + 24000), R.in(0, 86399) * 1000, 0}, b = a;
            switch (R.in(0, 5))
            { case 0: break; case 1: b[0] += R.in(-1, 1); break; case 2: b[1] = R.in(0, 86399) * 1000; break;
              case 3: b[0] += R.in(0, 800); b[1] = R.in(0, 86399) * 1000; break;
              case 4: b[1] = (a[1] + R.in(0, 1) * 60000) % 86400000; break;
              default: b[1] = (a[1] + 1000) % 86400000; }
            if (b[0] < 2440588) b[0] = 2440588;
            TimeSystem sa = s, sb = R.chance(70) ? s : SYS[R.in(0, 11)];
            switch (R.in(0, 6))
            {
               case 0: ord<CivilTime>("civil", a, sa, b, sb); break;
               case 1: ord<YDSTime>("yds", a, sa, b, sb); break;
               case 2: ord<MJD>("mjd", a, sa, b, sb); break;
               case 3: ord<JulianDate>("jd", a, sa, b, sb); break;
               case 4: ord<ANSITime>("ansi", a, sa, b, sb); break;
               case 5: ord<UnixTime>("unix", a, sa, b, sb); break;
               default: ord<PosixTime>("posix", a, sa, b, sb); break;
            }
         }
      }
   });
}
