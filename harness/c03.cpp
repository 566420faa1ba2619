// GNSS weeks, rollovers and Z-counts
#include "tm.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSZcount.hpp"
using namespace gpstk;
using namespace hx;
static const TimeSystem SYS[] = { TimeSystem::Unknown, TimeSystem::Any, TimeSystem::GPS, TimeSystem::GLO,
   TimeSystem::GAL, TimeSystem::QZS, TimeSystem::BDT, TimeSystem::IRN, TimeSystem::UTC, TimeSystem::TAI };
static V sow3(double s) { return span(llround(s * 1e9)); }
static std::vector<std::string> six(std::function<bool(int)> g)
{
   std::vector<std::string> o;
   for (int i = 0; i < 6; i++)
   { bool v = false; std::string x = guard([&]{ v = g(i); }); o.push_back(x == "ok" ? (v ? "T" : "F") : x); }
   return o;
}
template <class C> static void weeks(Rng& R, const char* c, long ep)
{
   Ev("new").f("c", c).end();
   int roll = C().rollover();
   for (int i = 0; i < 8; i++)
   {
      V t(3);
      switch (R.in(0, 4))
      {
         case 0: t[0] = 2400001 + ep + R.in(-2, 2); break;
         case 1: t[0] = 2400001 + ep + 7LL * roll * R.in(0, 2) + R.in(-8, 8); break;
         case 2: t[0] = R.in(2444000, 2480000); break;
         case 3: t[0] = 2400001 + ep + 7 * R.in(0, 3000) + R.in(-1, 1); break;
         default: t[0] = R.in(0, 3442447);
      }
      if (t[0] >= 3442448 || t[0] < 0) t[0] = 2450000;
      t[1] = R.chance(40) ? R.in(0, 86399) * 1000 : (R.chance(20) ? 86399999 : R.chance(20) ? 0 : R.in(0, 86399999));
      t[2] = R.chance(50) ? 0 : R.in(0, 999999);
      TimeSystem s = SYS[R.in(0, 9)];
      CommonTime ct; ct.setInternal(t[0], t[1], t[2] * 1e-9, s);
      C w; std::string x = guard([&]{ w.convertFromCommonTime(ct); });
      CommonTime b; std::string bx = x == "ok" ? guard([&]{ b = w.convertToCommonTime(); }) : x;
      Ev("ws").f("c", c).f("t", t).f("x", x).f("s", sysName(s)).f("w", w.week).f("sow", sow3(w.sow)).f("dow", w.getDayOfWeek())
         .f("mod", w.getModWeek()).f("ep", w.getEpoch()).f("roll", w.rollover()).f("mjd", (ll)w.MJDEpoch())
         .f("bx", bx).f("b", inst(b)).f("bs", tsys(b)).end();
   }
   C w; int maxep = 70000 / roll; if (maxep < 1) maxep = 1;
   for (int i = 0; i < 14; i++)
   {
      int op = R.in(0, 5);
      auto fin = [&](Ev& e){ unsigned e1, m1; w.getEpochModWeek(e1, m1);
         e.f("w", w.week).f("mod", w.getModWeek() == m1 ? (ll)m1 : -1).f("ep", w.getEpoch() == e1 ? (ll)e1 : -1).end(); };
      if (op == 0) { int a = R.in(0, 100000); w.week = a; Ev e("wset"); e.f("a", a); fin(e); }
      else if (op == 1) { unsigned a = R.in(0, maxep); w.setEpoch(a); Ev e("wep"); e.f("a", a); fin(e); }
      else if (op == 2) { unsigned a = R.chance(20) ? R.in(0, 1) * (roll - 1) : R.in(0, roll - 1); w.setModWeek(a); Ev e("wmod"); e.f("a", a); fin(e); }
      else if (op == 3) { unsigned a = R.in(0, maxep), b = R.in(0, roll - 1); w.setEpochModWeek(a, b); Ev e("wboth"); e.f("a", a).f("b", b); fin(e); }
      else
      {
         int y = R.in(2007, 2200);
         if (R.chance(60))
         {  // a short week that really occurs in year y
            CommonTime j; j.set((long)(2400001 + ep), 0L, 0.0, TimeSystem::Any);
            long d = (long)((y - 1858) * 365.2425) - 320 + R.in(0, 365) - ep;
            if (d < 0) d = 0;
            w.week = (d / 7) % roll;
            Ev e("wset"); e.f("a", w.week); fin(e);
         }
         w.adjustToYear(y); Ev e("wadj"); e.f("y", y); fin(e);
      }
   }
   for (int i = 0; i < 4; i++)
   {
      int wa = R.in(0, 3000), wb = wa + (R.chance(60) ? 0 : R.in(-1, 1)); if (wb < 0) wb = 0;
      int sa = R.in(0, 604799), sb = R.chance(40) ? sa : R.in(0, 604799);
      TimeSystem s1 = R.chance(70) ? TimeSystem::GPS : SYS[R.in(0, 9)], s2 = R.chance(70) ? TimeSystem::GPS : SYS[R.in(0, 9)];
      bool same = s1 == s2 || s1 == TimeSystem::Any || s2 == TimeSystem::Any;
      C A(wa, sa, s1), B(wb, sb, s2);
      Ev("word").f("a", V{wa, sa}).f("b", V{wb, sb}).f("same", same).f("o", six([&](int k){
         switch (k) { case 0: return A < B; case 1: return A <= B; case 2: return A > B; case 3: return A >= B;
            case 4: return A == B; default: return A != B; } })).end();
   }
}

static ll pickN(Rng& R)
{
   switch (R.in(0, 5))
   { case 0: return R.in(-2, 2); case 1: return 403200LL * R.in(-3, 3) + R.in(-2, 2); case 2: return R.in(-403200, 403200);
     case 3: return R.chance(50) ? 403199 : -403199; case 4: return 57600 * R.in(-9, 9); default: return R.in(-100000000, 100000000); }
}
static V nn(ll n) { return V{flr(n, 403200), n - flr(n, 403200) * 403200}; }

struct WZ   // GPSWeekZcount
{
   GPSWeekZcount z;
   V p() const { return V{z.week, (ll)z.zcount}; }
   std::string set(ll w, ll c) { return guard([&]{ z = GPSWeekZcount(w, c, TimeSystem::GPS); }); }
   static const bool hasBad = false;
   std::string bad(Rng&) { return ""; }
   std::string full(ll w, ll c, bool& keep, V& a, Rng& R)
   { if (R.chance(50)) { keep = true; a = V{w % 1024, c}; return guard([&]{ z.setZcount29(((w % 1024) << 19) | c); }); }
     keep = false; a = V{w % 8192, c}; return guard([&]{ z.setZcount32(((w % 8192) << 19) | c); }); }
   V getFull() const { ll f = z.getZcount29(); return V{f >> 19, f & 0x7ffff}; }
   V total() const { ll f = z.getTotalZcounts(); return V{f / 403200, f % 403200}; }
   ll dow() const { return z.getDayOfWeek(); }
   V diff(const WZ& o) const { ll d = z - o.z; return nn(d); }
};
struct GZ   // GPSZcount
{
   GPSZcount z;
   GZ() : z((short)0, 0) {}
   V p() const { return V{z.getWeek(), z.getZcount()}; }
   std::string set(ll w, ll c) { return guard([&]{ z.setWeek(w); z.setZcount(c); }); }
   static const bool hasBad = true;
   std::string bad(Rng& R)
   { switch (R.in(0, 3)) { case 0: return guard([&]{ z.setWeek(-1 - R.in(0, 5)); }); case 1: return guard([&]{ z.setZcount(-1 - R.in(0, 5)); });
      case 2: return guard([&]{ z.setZcount(403200 + R.in(0, 5)); });
      default: return guard([&]{ z.setFullZcount(((ll)R.in(0, 1023) << 19) | R.in(403200, 524287)); }); } }
   std::string full(ll w, ll c, bool& keep, V& a, Rng&)
   { keep = false; a = V{w % 1024, c}; return guard([&]{ z.setFullZcount(((w % 1024) << 19) | c); }); }
   V getFull() const { ll f = z.getFullZcount(); return V{f >> 19, f & 0x7ffff}; }
   V total() const { ll f = llround(z.getTotalZcounts()); return V{f / 403200, f % 403200}; }
   ll dow() const { return z.getZcount() / 57600; }
   V diff(const GZ& o) const { return nn(llround(z - o.z)); }
};
template <class Z> static void zcounts(Rng& R)
{
   Ev("new").f("c", "GPS").end();
   Z z[4];
   for (int i = 1; i <= 3; i++) { std::string x = z[i].set(0, 0); Ev("zset").f("r", i).f("a", V{0, 0}).f("x", x).f("p", z[i].p()).end(); }
   for (int k = 0; k < 40; k++)
   {
      int r = R.in(1, 3), q = R.in(1, 3);
      switch (R.in(0, 12))
      {
         case 0: case 1:
         {
            ll w = R.chance(30) ? R.in(0, 2) : R.in(0, 3000), c = R.chance(30) ? R.in(0, 40) : (R.chance(30) ? 403199 - R.in(0, 40) : R.in(0, 403199));
            if (R.chance(30)) { w = z[q].p()[0]; if (R.chance(50)) c = z[q].p()[1]; }
            std::string x = z[r].set(w, c); Ev("zset").f("r", r).f("a", V{w, c}).f("x", x).f("p", z[r].p()).end(); break;
         }
         case 2: case 3: case 4:
         {
            ll n = pickN(R); V w = nn(n); std::string x; int how = R.in(0, 3);
            if (how == 0) x = guard([&]{ z[r].z.addZcounts(n); });
            else if (how == 1) x = guard([&]{ z[r].z += n; });
            else if (how == 2) { x = guard([&]{ z[r].z -= n; }); w = nn(-n); }
            else { ll k = R.in(-3, 3); x = guard([&]{ z[r].z.addWeeks(k); }); w = V{k, 0}; }
            Ev("zadd").f("r", r).f("n", w).f("x", x).f("p", z[r].p()).end(); break;
         }
         case 5:
         {
            int how = R.in(0, 3); std::string x; V n{0, how & 1 ? 1 : -1};
            if (how == 0) { x = guard([&]{ --z[r].z; }); Ev("zadd").f("r", r).f("n", n).f("x", x).f("p", z[r].p()).end(); }
            else if (how == 1) { x = guard([&]{ ++z[r].z; }); Ev("zadd").f("r", r).f("n", n).f("x", x).f("p", z[r].p()).end(); }
            else { Z old; x = guard([&]{ if (how == 3) old.z = z[r].z++; else old.z = z[r].z--; });
               Ev("zpost").f("r", r).f("n", n).f("x", x).f("p", z[r].p()).f("old", old.p()).end(); }
            break;
         }
         case 6:
         {
            if (r == q) break;
            ll n = pickN(R); bool add = R.chance(50);
            std::string x = guard([&]{ auto t = add ? z[q].z + n : z[q].z - n; z[r].z = t; });
            Ev("zplus").f("r", r).f("q", q).f("n", nn(add ? n : -n)).f("x", x).f("p", z[r].p()).f("pq", z[q].p()).end(); break;
         }
         case 7:
         {
            if (!Z::hasBad) break;
            std::string x = z[r].bad(R);
            V p = z[r].p();
            Ev("zbad").f("r", r).f("x", x).f("p", p).end(); break;
         }
         case 8:
         {
            bool keep; V a; std::string x = z[r].full(R.in(0, 8191), R.in(0, 403199), keep, a, R);
            Ev("zfull").f("r", r).f("a", a).f("keep", keep).f("x", x).f("p", z[r].p()).end(); break;
         }
         case 9: Ev("zget").f("r", r).f("dow", z[r].dow()).f("full", z[r].getFull()).f("tot", z[r].total()).end(); break;
         case 10: Ev("zdiff").f("a", r).f("b", q).f("v", z[r].diff(z[q])).end(); break;
         case 11:
            Ev("zcmp").f("a", r).f("b", q).f("o", six([&](int k){
               switch (k) { case 0: return z[r].z < z[q].z; case 1: return z[r].z <= z[q].z; case 2: return z[r].z > z[q].z;
                  case 3: return z[r].z >= z[q].z; case 4: return z[r].z == z[q].z; default: return z[r].z != z[q].z; } })).end(); break;
         default:
         {
            static const ll B[] = { 4, 20, 40, 2400, 57600, 403199, 403200, 806400 };
            ll b = B[R.in(0, 7)], o = R.chance(50) ? 0 : R.in(0, b - 1);
            if (z[r].p()[0] > 4000 || z[q].p()[0] > 4000) break;
            if (R.chance(60)) { ll w = z[q].p()[0], c = z[q].p()[1] + R.in(-b, b); if (c < 0) c = 0; if (c > 403199) c = 403199;
               std::string x = z[r].set(w, c); Ev("zset").f("r", r).f("a", V{w, c}).f("x", x).f("p", z[r].p()).end(); }
            bool ok = z[r].z.inSameTimeBlock(z[q].z, b, o);
            Ev("zblock").f("a", r).f("b", q).f("bl", b).f("off", o).f("ok", ok).end();
         }
      }
   }
}

int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R)
   {
      while (trace().n < args().size)
      {
         weeks<GPSWeekSecond>(R, "GPS", 44244);
         weeks<GALWeekSecond>(R, "GAL", 51412);
         weeks<BDSWeekSecond>(R, "BDS", 53736);
         weeks<QZSWeekSecond>(R, "QZS", 44244);
         weeks<IRNWeekSecond>(R, "IRN", 51412);
         for (int i = 0; i < 8; i++)
         {
            V t{R.chance(20) ? 2444245 + R.in(-2, 2) : R.in(2444240, 2470000), R.chance(50) ? 1500 * R.in(0, 57599) + R.in(-1, 1) : R.in(0, 86399999),
                R.chance(60) ? 0 : R.in(0, 999999)};
            if (t[1] < 0) t[1] = 0;
            CommonTime ct; ct.setInternal(t[0], t[1], t[2] * 1e-9, TimeSystem::GPS);
            GPSWeekZcount w; std::string x = guard([&]{ w.convertFromCommonTime(ct); });
            CommonTime b; std::string bx = x == "ok" ? guard([&]{ b = w.convertToCommonTime(); }) : x;
            Ev("wz").f("t", t).f("x", x).f("w", w.week).f("z", (ll)w.zcount).f("dow", w.getDayOfWeek()).f("bx", bx).f("b", inst(b)).end();
         }
         zcounts<WZ>(R); zcounts<GZ>(R);
      }
   });
}
