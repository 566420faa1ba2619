// leap seconds, time system relations, broadcast time system corrections
#include "tm.hpp"
#include "TimeSystem.hpp"
#include "TimeSystemCorr.hpp"
using namespace gpstk;
using namespace hx;
static const TimeSystem SYS[] = { TimeSystem::Unknown, TimeSystem::Any, TimeSystem::GPS, TimeSystem::GLO,
   TimeSystem::GAL, TimeSystem::QZS, TimeSystem::BDT, TimeSystem::IRN, TimeSystem::UTC, TimeSystem::TAI,
   TimeSystem::TT, TimeSystem::TDB };
static int dim(int y, int m) { return m == 2 ? (y % 4 ? 28 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
static void leap(int y, int m, int d, int f)
{ Ev("leap").f("y", y).f("m", m).f("d", d).f("f", f).f("v", fx(getLeapSeconds(y, m, d + f / 1000.0), 1e7)).end(); }
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R)
   {
      Args& A = args();
      Ev("new").end();
         // every month's first and last day, 1950..2060, split over the shards
      for (int k = A.shard; k < 111 * 12; k += A.of)
      { int y = 1950 + k / 12, m = 1 + k % 12; leap(y, m, 1, 0); leap(y, m, dim(y, m), 999); leap(y, m, R.in(1, dim(y, m)), R.in(0, 999)); }
      for (int i = 0; i < 12; i++)
         Ev("name").f("s", sysName(SYS[i])).f("str", StringUtils::asString(SYS[i]))
            .f("back", sysName(StringUtils::asTimeSystem(StringUtils::asString(SYS[i])))).end();
      static const char* T[] = { "GPUT","GAUT","SBUT","GLUT","GPGA","GLGP","QZGP","QZUT","BDUT","BDGP","IRUT","IRGP","GAGP","XXUT","GPGL","" };
      for (int i = 0; i < 16; i++)
      {
         TimeSystemCorrection c; std::string x = guard([&]{ c.fromString(T[i]); });
         Ev("type").f("s", T[i]).f("x", x).f("back", x == "ok" ? c.asString4() : std::string()).end();
      }
      while (trace().n < A.size)
      {
         Ev("new").end();
         for (int i = 0; i < 6; i++)
         {
            int y = R.chance(10) ? R.in(1955, 1972) : R.in(1972, 2040), m = R.chance(40) ? (R.chance(50) ? 6 : 7) : R.in(1, 12);
            if (R.chance(20)) m = R.chance(50) ? 12 : 1;
            leap(y, m, R.chance(30) ? 1 : R.chance(50) ? dim(y, m) : R.in(1, dim(y, m)), R.in(0, 999));
            if (R.chance(10)) leap(y, R.chance(50) ? 0 : 13, 1, 0);
         }
         for (int i = 0; i < 10; i++)
         {
            int y = R.chance(10) ? R.in(1960, 1972) : R.in(1972, 2040), m = R.chance(50) ? R.in(1, 12) : R.chance(50) ? 7 : 1;
            int d = R.in(1, dim(y, m)), f = R.in(0, 999); double dd = d + f / 1000.0;
            TimeSystem s[3];
            for (int j = 0; j < 3; j++) s[j] = SYS[R.in(R.chance(10) ? 0 : 2, R.chance(25) ? 11 : 10)];
            TimeSystem p[3][2] = { { s[0], s[1] }, { s[1], s[2] }, { s[0], s[2] } };
            std::vector<std::vector<std::string> > pn; std::vector<std::string> x; V v;
            for (int j = 0; j < 3; j++)
            {
               pn.push_back({ sysName(p[j][0]), sysName(p[j][1]) }); double c = 0;
               x.push_back(guard([&]{ c = getTimeSystemCorrection(p[j][0], p[j][1], y, m, dd); })); v.push_back(fx(c, 1e7));
            }
            double l = getLeapSeconds(y, m, dd), l2 = getTimeSystemCorrection(TimeSystem::UTC, TimeSystem::TAI, y, m, dd);
            Ev("tsc").f("y", y).f("m", m).f("d", d).f("f", f).f("p", pn).f("x", x).f("v", v).f("leap", fx(l, 1e7)).f("leap2", fx(l2, 1e7)).end();
         }
         for (int i = 0; i < 12; i++)
         {
            TimeSystemCorrection c(T[i]);
            c.A0 = R.in(-100000, 100000) * 1e-9; int a1 = R.chance(20) ? 0 : R.in(-50, 50); c.A1 = a1 * 1e-12;
            c.refWeek = R.in(0, 2500); c.refSOW = R.chance(30) ? R.in(0, 1) * 604799 : R.in(0, 604799);
            ll a0 = llround(c.A0 * 1e12);
            ll off = R.in(-1000000, 1000000) + c.refSOW;
            ll day = 2444245 + 7 * c.refWeek + flr(off, 86400), sec = off - flr(off, 86400) * 86400;
            if (day < 2444245) day = 2444245;
            TimeSystem a = R.chance(85) ? (R.chance(50) ? c.frTS : c.toTS) : SYS[R.in(0, 11)];
            CommonTime ct; ct.setInternal(day, sec * 1000, 0.0, a);
            double v = 0, bk = 0; std::string x = guard([&]{ v = c.Correction(ct); });
            if (x == "ok") { CommonTime o(ct); o.setTimeSystem(a == c.frTS ? c.toTS : c.frTS); bk = c.Correction(o); }
            Ev("tsx").f("t", T[i]).f("names", std::vector<std::string>{ sysName(c.frTS), sysName(c.toTS) }).f("sys", sysName(a))
               .f("a0", a0).f("a1", a1).f("w", (ll)c.refWeek).f("sow", (ll)c.refSOW).f("ct", inst(ct)).f("x", x).f("v", fx(v, 1e12)).f("back", fx(bk, 1e12)).end();
            TimeSystem p = SYS[R.in(0, 11)], q = R.chance(40) ? c.toTS : SYS[R.in(0, 11)]; if (R.chance(40)) p = c.frTS;
            if (R.chance(50)) std::swap(p, q);
            bool r = false; x = guard([&]{ r = c.isConverterFor(p, q); });
            Ev("conv").f("t", T[i]).f("a", sysName(p)).f("b", sysName(q)).f("x", x).f("v", r).end();
         }
      }
   });
}
