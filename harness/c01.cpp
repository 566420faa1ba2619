// CommonTime: random register histories of the real class
#include "tm.hpp"
using namespace gpstk;
using namespace hx;
static const TimeSystem SYS[] = { TimeSystem::Unknown, TimeSystem::Any, TimeSystem::GPS, TimeSystem::GLO,
   TimeSystem::GAL, TimeSystem::QZS, TimeSystem::BDT, TimeSystem::IRN, TimeSystem::UTC, TimeSystem::TAI,
   TimeSystem::TT, TimeSystem::TDB };
static CommonTime reg[5];
static void holds(Ev& e, int r)
{ e.f("r", r).f("v", inst(reg[r])).f("nf", normal(reg[r])).f("s", tsys(reg[r])).end(); }

template <class F> static std::string b(F f)
{ bool v = false; std::string x = guard([&]{ v = f(); }); return x == "ok" ? (v ? "T" : "F") : x; }

// a number of ms, often on or beside a boundary
static ll edgeMs(Rng& R)
{
   switch (R.in(0, 5))
   {
      case 0: return R.in(0, 3);
      case 1: return 86400000 - 1 - R.in(0, 3);
      case 2: return R.in(0, 86399) * 1000;
      case 3: return 43200000 + R.in(-2, 2);
      default: return R.in(0, 86399999);
   }
}
static ll edgeNs(Rng& R)
{
   switch (R.in(0, 4))
   { case 0: return 0; case 1: return R.in(0, 2); case 2: return 999999 - R.in(0, 2); case 3: return 500000;
     default: return R.in(0, 999999); }
}
static ll edgeDay(Rng& R)
{
   switch (R.in(0, 4))
   { case 0: return R.in(0, 2); case 1: return 3442448 - R.in(0, 2); default: return 2450000 + R.in(0, 9); }
}

int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R)
   {
      while (trace().n < args().size)
      {
         Ev("new").end();
         for (int i = 1; i <= 4; i++) reg[i] = CommonTime();
         TimeSystem base = SYS[R.in(2, 11)];
         bool mixed = R.chance(30);
         auto sys = [&]{ return mixed ? SYS[R.in(0, 11)] : (R.chance(5) ? TimeSystem::Any : base); };
         for (int i = 1; i <= 4; i++)
         {
            ll d = edgeDay(R), ms = edgeMs(R), ns = edgeNs(R); TimeSystem s = sys();
            if (i > 1 && R.chance(60)) { V v = inst(reg[i-1]); d = v[0]; if (R.chance(50)) ms = v[1]; }
            std::string x = guard([&]{ reg[i].setInternal(d, ms, ns * 1e-9, s); });
            Ev e("set"); e.f("x", x).f("w", V{d, ms, ns}).f("ws", sysName(s)); holds(e, i);
         }
         for (int step = 0; step < 26; step++)
         {
            int r = R.in(1, 4), q = R.in(1, 4);
            int op = R.in(0, 19);
            note("op " + std::to_string(op));
            if (op == 0)
            {  // set in integer fields
               ll d = edgeDay(R), sod = edgeMs(R) / 1000; TimeSystem s = sys();
               std::string x = guard([&]{ reg[r].set((long)d, (long)sod, 0.0, s); });
               Ev e("set"); e.f("x", x).f("w", V{d, sod * 1000, 0}).f("ws", sysName(s)); holds(e, r);
            }
            else if (op == 1)
            {
               ll d = edgeDay(R), ms = edgeMs(R), ns = edgeNs(R); TimeSystem s = sys();
               double fsod = (ms % 1000) * 1e-3 + ns * 1e-9;
               bool two = R.chance(50);
               std::string x = guard([&]{
                  if (two) reg[r].set((long)d, (long)(ms / 1000), fsod, s);
                  else reg[r].set((long)d, ms / 1000 + fsod, s); });
               Ev e("setf"); e.f("x", x).f("w", V{d, ms, ns}).f("ws", sysName(s)); holds(e, r);
            }
            else if (op == 2)
            {
               ll d = R.in(0, 1) ? edgeDay(R) : 2450000; ll ms = edgeMs(R); TimeSystem s = sys();
               if (d >= 3442448) d = 3442447;
               double dd = d + ms / 86400000.0;
               ll di = (ll)floor(dd), mi = llround((dd - di) * 86400000.0);
               std::string x = guard([&]{ reg[r].set(dd, s); });
               Ev e("setd"); e.f("x", x).f("w", V{di, mi, 0}).f("ws", sysName(s)); holds(e, r);
            }
            else if (op == 3)
            {  // invalid sets leave the value alone
               long d = edgeDay(R), ms = edgeMs(R), sod = ms / 1000; double fs = edgeNs(R) * 1e-9;
               int form = R.in(0, 2), which = R.in(0, 2); bool low = R.chance(50);
               bool tiny = R.chance(50);
               if (which == 0) d = low ? -1 - (tiny ? 0 : R.in(0, 5000000)) : 3442449 + (tiny ? 0 : R.in(0, 5000000));
               std::string x;
               if (form == 0)
               {
                  if (which == 1) ms = low ? -1 - (tiny ? 0 : R.in(0, 90000000)) : 86400000 + (tiny ? 0 : R.in(0, 90000000));
                  if (which == 2) fs = low ? (tiny ? -1e-12 : -0.5) : (tiny ? 0.001 : 0.5);
                  x = guard([&]{ reg[r].setInternal(d, ms, fs, sys()); });
               }
               else if (form == 1)
               {
                  if (which == 1) sod = low ? -1 - (tiny ? 0 : R.in(0, 90000)) : 86400 + (tiny ? 0 : R.in(0, 90000));
                  if (which == 2) fs = low ? (tiny ? -1e-12 : -0.5) : (tiny ? 1.0 : 7.5);
                  x = guard([&]{ reg[r].set(d, sod, fs, sys()); });
               }
               else
               {
                  double ds = sod;
                  if (which) ds = low ? (tiny ? -1e-6 : -100.0) : (tiny ? 86400.0 : 1e6);
                  x = guard([&]{ reg[r].set(d, ds, sys()); });
               }
               Ev e("setbad"); e.f("x", x); holds(e, r);
            }
            else if (op == 4)
            {
               long k = R.chance(50) ? R.in(-3, 3) : R.in(-300000, 300000);
               reg[r].addDays(k);
               Ev e("add"); e.f("w", V{k, 0, 0}).f("ex", true); holds(e, r);
            }
            else if (op == 5)
            {
               long k;
               switch (R.in(0, 4)) { case 0: k = R.in(-3, 3); break; case 1: k = 86400 * R.in(-3, 3) + R.in(-1, 1); break;
                  case 2: k = R.in(-2000000000, 2000000000); break; case 3: k = R.chance(50) ? 604800 : -604800; break;
                  default: k = R.in(-200000, 200000); }
               reg[r].addSeconds(k);
               Ev e("add"); e.f("w", V{flr(k, 86400), (k - flr(k, 86400) * 86400) * 1000, 0}).f("ex", true); holds(e, r);
            }
            else if (op == 6)
            {
               long k;
               switch (R.in(0, 3)) { case 0: k = R.in(-3, 3); break; case 1: k = 86400000L * R.in(-3, 3) + R.in(-1, 1); break;
                  case 2: k = R.in(-100000000000LL, 100000000000LL); break; default: k = R.in(-100000000, 100000000); }
               reg[r].addMilliseconds(k);
               Ev e("add"); e.f("w", V{flr(k, 86400000), k - flr(k, 86400000) * 86400000, 0}).f("ex", true); holds(e, r);
            }
            else if (op >= 7 && op <= 10)
            {
               ll ns;
               switch (R.in(0, 7))
               {
                  case 0: ns = R.in(-2000000, 2000000); break;
                  case 1: ns = 1000000LL * R.in(-1000, 1000) + R.in(-2, 2); break;
                  case 2: ns = 86400000000000LL * R.in(-3, 3) + 1000000LL * R.in(-1, 1) + R.in(-1, 1) * R.in(0, 999999); break;
                  case 3: ns = 1000000000LL * R.in(-1000000, 1000000); break;
                  case 4: ns = R.in(-90000000000000LL, 90000000000000LL); break;
                  case 5: ns = R.in(-999999, 999999); break;
                  case 6: ns = 1000000000LL * R.in(-2000000000, 2000000000); break;
                  default: ns = R.in(-1000000000000LL, 1000000000000LL);
               }
               double v = ns / 1000000000 + (ns % 1000000000) * 1e-9;
               V w = span(ns);
               if (op == 7) reg[r].addSeconds(v);
               else if (op == 8) reg[r] += v;
               else if (op == 9) { reg[r] -= v; w = span(-ns); }
               else
               {
                  bool add = R.chance(50);
                  CommonTime before(reg[q]);
                  CommonTime t = add ? reg[q] + v : reg[q] - v;
                  if (!add) w = span(-ns);
                  { Ev k("keep"); holds(k, q); }
                  reg[r] = t;
                  Ev e("plus"); e.f("w", w).f("q", q).f("ex", false); holds(e, r);
                  continue;
               }
               Ev e("add"); e.f("w", w).f("ex", false); holds(e, r);
            }
            else if (op == 11)
            {
               if (R.chance(50)) reg[r] = reg[q]; else { CommonTime c(reg[q]); reg[r] = c; }
               Ev e("copy"); e.f("q", q); holds(e, r);
            }
            else if (op == 12)
            { TimeSystem s = sys(); reg[r].setTimeSystem(s); Ev e("sys"); e.f("ws", sysName(s)); holds(e, r); }
            else if (op == 13 && R.chance(15))
            { reg[r].reset(); Ev e("reset"); holds(e, r); }
            else if (op == 14 || op == 15)
            {
               std::string x; double v = 0;
               x = guard([&]{ v = reg[r] - reg[q]; });
               bool fine; V w = spanSec(v, fine);
               Ev("diff").f("a", r).f("b", q).f("x", x).f("v", w).f("fine", fine).end();
            }
            else if (op == 16)
            {
               long d, sod; double fs, s2, dd; TimeSystem t1, t2, t3; long d2;
               reg[r].get(d, sod, fs, t1);
               reg[r].get(d2, s2, t2);
               reg[r].get(dd, t3);
               long d4, sod4; double fs4; reg[r].get(d4, sod4, fs4);
               long d5; double s5; reg[r].get(d5, s5);
               double d6; reg[r].get(d6);
               bool agree = d4 == d && sod4 == sod && fs4 == fs && d5 == d2 && s5 == s2 && d6 == dd && t3 == t1;
               auto sp = [](ll day, double sec){ ll ns = llround(sec * 1e9); V w = span(ns); w[0] += day; return w; };
               V w1 = sp(d, 0); ll f = llround(fs * 1e9); w1[1] = sod * 1000 + flr(f, 1000000); w1[2] = f - flr(f, 1000000) * 1000000;
               ll g5 = llround(reg[r].getSecondOfDay() * 1e9);
               ll sd = 0, sm = 0; std::istringstream is(reg[r].asString()); is >> sd >> sm;
               Ev("read").f("r", r).f("g1", w1).f("s1", agree ? sysName(t1) : std::string("overloads disagree")).f("g2", sp(d2, s2)).f("s2", sysName(t2))
                  .f("g3", spanDays(dd)).f("g4", spanDays(reg[r].getDays())).f("g5", V{g5 / 1000000, g5 % 1000000})
                  .f("str", V{sd, sm}).end();
            }
            else if (op == 17 && step % 5 == 0)
            {
               long d, ms; double fs; reg[r].getInternal(d, ms, fs);
               bool in = d >= 0 && d < 3442448;
               Ev("lim").f("o", std::vector<bool>{ !in || CommonTime::BEGINNING_OF_TIME <= reg[r], !in || reg[r] < CommonTime::END_OF_TIME }).end();
            }
            else
            {
               const CommonTime &A = reg[r], &B = reg[q];
               std::vector<std::string> o = { b([&]{ return A < B; }), b([&]{ return A <= B; }), b([&]{ return A > B; }),
                  b([&]{ return A >= B; }), b([&]{ return A == B; }), b([&]{ return A != B; }) };
               Ev("cmp").f("a", r).f("b", q).f("o", o).end();
            }
         }
      }
   });
}
