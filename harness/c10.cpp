// tables of positions and clocks against time
#include "tm.hpp"
#include "PositionSatStore.hpp"
#include "ClockSatStore.hpp"
#include "CivilTime.hpp"
using namespace gpstk;
using namespace hx;
static CommonTime base;
static CommonTime at(ll i) { return base + (double)i; }
static ll idx(CommonTime t)
{
   if (t.getDays() > 3000000) return BIG;
   if (t.getDays() < 1000000) return -BIG;
   t.setTimeSystem(base.getTimeSystem()); return llround(t - base);
}
static SatID sid(int s) { return SatID(s % 100, s > 100 ? SatelliteSystem::Glonass : SatelliteSystem::GPS); }
static int code(const SatID& s) { return s.id + (s.system == SatelliteSystem::GPS ? 0 : 100); }
struct Vals { double p, v, a; Vals() : p(0), v(0), a(0) {} };
static Triple tr(int i, double x) { Triple t(7, 7, 7); t[i] = x; return t; }
static const int AX = 1;   // the axis that carries the model's values; the others are scaled copies
static Triple T3(double x) { return Triple(2 * x, x, -x); }
static bool same3(const Triple& t, double tol) { return fabs(t[0] - 2 * t[1]) <= tol && fabs(t[2] + t[1]) <= tol; }
struct PosF
{
   PositionSatStore s; int n;
   void add(const char* m, int sat, CommonTime t, double p, double v, double a)
   {
      std::string k = m;
      if (k == "rec") { PositionRecord r; r.Pos = T3(p); r.Vel = T3(v); r.Acc = T3(a); r.sigPos = r.sigVel = r.sigAcc = Triple(1, 1, 1); s.addPositionRecord(sid(sat), t, r); }
      else if (k == "p") s.addPositionData(sid(sat), t, T3(p));
      else if (k == "v") s.addVelocityData(sid(sat), t, T3(v));
      else s.addAccelerationData(sid(sat), t, T3(a));
   }
   Vals val(const std::string& q, int sat, CommonTime t)
   {
      Vals o;
      if (q == "value") { PositionRecord r = s.getValue(sid(sat), t); o.p = r.Pos[AX]; o.v = r.Vel[AX]; o.a = r.Acc[AX]; if (!same3(r.Pos, 1e-3)) o.p = 1e7; }
      else if (q == "p") { Triple r = s.getPosition(sid(sat), t); o.p = r[AX]; if (!same3(r, 1e-3)) o.p = 1e7; }
      else if (q == "v") o.v = s.getVelocity(sid(sat), t)[AX];
      else o.a = s.getAcceleration(sid(sat), t)[AX];
      return o;
   }
   bool hv() { return s.hasVelocity(); }
   bool ha() { return s.hasAccleration(); }
   void order(int n, bool) { s.setInterpolationOrder(2 * n - (n % 2)); }
};
struct ClkF
{
   ClockSatStore s;
   void add(const char* m, int sat, CommonTime t, double p, double v, double a)
   {
      std::string k = m;
      if (k == "rec") { ClockRecord r; r.bias = p; r.drift = v; r.accel = a; r.sig_bias = r.sig_drift = r.sig_accel = 1; s.addClockRecord(sid(sat), t, r); }
      else if (k == "p") s.addClockBias(sid(sat), t, p);
      else if (k == "v") s.addClockDrift(sid(sat), t, v);
      else s.addClockAcceleration(sid(sat), t, a);
   }
   Vals val(const std::string& q, int sat, CommonTime t)
   {
      Vals o;
      if (q == "value") { ClockRecord r = s.getValue(sid(sat), t); o.p = r.bias; o.v = r.drift; o.a = r.accel; }
      else if (q == "p") o.p = s.getClockBias(sid(sat), t);
      else o.v = s.getClockDrift(sid(sat), t);
      return o;
   }
   bool hv() { return s.hasClockDrift(); }
   bool ha() { return s.hasClockAccel(); }
   void order(int n, bool lin) { if (lin) s.setLinearInterp(); else { s.setLagrangeInterp(); s.setInterpolationOrder(2 * n - (n % 2)); } }
};
template <class F> static void history(Rng& R, const char* kind)
{
   F f; bool clk = std::string(kind) == "clk";
   bool lin = clk && R.chance(40); int n = lin ? 1 : R.in(2, 5);
   base = CivilTime(R.in(1995, 2030), R.in(1, 12), R.in(1, 28), R.in(0, 23), R.in(0, 59), 0, TimeSystem::GPS);
   f.s.setTimeSystem(TimeSystem::GPS); f.order(n, lin);
   Ev("new").f("kind", kind).f("n", n).f("lin", lin).end();
   int style = R.in(0, 3);              // which fields are given
   int step = R.pick(std::vector<int>{5, 10, 30}), cnt = R.in(1, 4 * n + 4); std::vector<int> sats{3, 17, 105}; sats.resize(R.in(1, 3));
   struct A { int s; ll t; double p, v, a; }; std::vector<A> pool;
   for (int s : sats)
   {
      int p0 = R.in(-50, 50), p1 = R.in(-3, 3), v0 = R.in(-50, 50), v1 = R.in(-3, 3), a0 = R.in(-50, 50), a1 = R.in(-3, 3), bump = R.chance(30) ? R.in(0, 30) : 999; bool jit = R.chance(25);
      for (int i = 0; i < cnt; i++)
      {
         if (R.chance(12)) continue;
         ll t = step * i + (jit ? R.in(0, step - 1) : 0);
         A x = { s, t, (double)(p0 + p1 * t), (double)(v0 + v1 * t), (double)(a0 + a1 * t) };
         if (i == bump) { x.p += R.in(1, 9); x.v -= 4; }
         pool.push_back(x);
         if (R.chance(8)) { if (R.chance(50)) pool.back().p += 5; pool.push_back(x); }
      }
   }
   if (R.chance(50)) R.shuffle(pool);
   std::vector<ll> hot(1, 0); ll span = (ll)step * cnt;
   auto state = [&] {
      std::vector<int> sats; for (auto& s : f.s.getSatList()) sats.push_back(code(s));
      Ev("state").f("n", f.s.ndata()).f("nsats", f.s.nsats()).f("sats", sats).f("all", V{idx(f.s.getInitialTime()), idx(f.s.getFinalTime())}).f("hv", f.hv()).f("ha", f.ha()).f("odd", f.s.ndata(SatelliteSystem::Glonass)).end();
   };
   auto sat = [&](int s) {
      Ev("sat").f("s", s).f("n", f.s.ndata(sid(s))).f("has", f.s.isPresent(sid(s))).f("lim", V{idx(f.s.getInitialTime(sid(s))), idx(f.s.getFinalTime(sid(s)))}).f("dt", llround(f.s.nomTimeStep(sid(s)))).end();
   };
   auto look = [&](int m) {
      for (int i = 0; i < m; i++)
      {
         int s = R.chance(97) ? R.pick(sats) : 31, k = R.in(0, 19);
         ll t = R.chance(60) ? R.pick(hot) + (R.chance(60) ? 0 : R.in(-1, 1)) : R.in(-2, span + 2);
         bool own = R.chance(97); CommonTime ct = at(t); if (!own) ct.setTimeSystem(R.chance(50) ? TimeSystem::GLO : TimeSystem::UTC);
         if (k < 7)
         {
            bool c = R.chance(60), ex = R.chance(40), mt = false; int nn = R.chance(60) ? n : R.in(1, 5); V w;
            typename F::Tab::const_iterator a, b; std::string x = guard([&]{ mt = c ? f.s.getTableInterval(sid(s), ct, nn, a, b, ex) : f.s.getNonCenteredTableInterval(sid(s), ct, nn, a, b, ex); });
            if (x == "ok") { w.push_back(idx(a->first)); if (!(mt && ex)) w.push_back(idx(b->first)); }
            Ev("win").f("s", s).f("t", t).f("own", own).f("c", c).f("exact", ex).f("n", nn).f("x", x).f("m", mt).f("w", w).end();
         }
         else if (k < 18)
         {
            int qi = R.in(0, clk ? 2 : 3); static const char* Q[] = {"value", "p", "v", "a"}; Vals o;
            note(std::string("val ") + Q[qi]);
            std::string x = guard([&]{ o = f.val(Q[qi], s, ct); });
            bool slope = !clk && !f.hv();
            Ev("val").f("q", Q[qi]).f("s", s).f("t", t).f("own", own).f("x", x).f("p", fx(o.p, 1000)).f("v", fx(o.v, slope ? 1 : 1000)).f("a", fx(o.a, 1000)).end();
         }
         else if (k == 18) sat(s);
         else state();
      }
   };
   for (auto& x : pool)
   {
      std::vector<const char*> M;
      if (style == 0) M = {"p"};
      else if (style == 1) { if (R.chance(50)) M = {"rec"}; else M = {"p", "v"}; x.a = 0; }
      else if (style == 2) { M = {"rec"}; }
      else { if (R.chance(30)) M = {"p"}; else if (R.chance(50)) M = {"p", "v", "a"}; else M = {"rec"}; }
      for (auto m : M)
      {
         bool own = R.chance(98); CommonTime ct = at(x.t); if (!own) ct.setTimeSystem(TimeSystem::UTC);
         std::string e = guard([&]{ f.add(m, x.s, ct, x.p, x.v, x.a); });
         Ev("add").f("m", m).f("s", x.s).f("t", x.t).f("own", own).f("x", e).f("p", fx(x.p)).f("v", fx(x.v)).f("a", fx(x.a)).end();
      }
      hot.push_back(x.t);
      if (R.chance(12)) look(R.in(1, 3));
   }
   state(); for (int s : sats) sat(s);
   int rounds = R.in(1, 3);
   for (int r = 0; r < rounds; r++)
   {
      look(14);
      int k = R.in(0, 4);
      if (k == 0) { ll g = R.chance(80) ? step * R.in(1, 2) + R.in(-1, 1) : -1; if (g < 0) f.s.disableDataGapCheck(); else f.s.setGapInterval((double)g); Ev("gap").f("g", g).end(); }
      else if (k == 1) { ll g = R.chance(80) ? step * (2 * n - 1) + R.in(-1, 1) : -1; if (g < 0) f.s.disableIntervalCheck(); else f.s.setMaxInterval((double)g); Ev("max").f("m", g).end(); }
      else if (k == 2) { lin = clk && R.chance(40); n = lin ? 1 : R.in(2, 5); f.order(n, lin); Ev("order").f("n", n).f("lin", lin).end(); }
      else if (k == 3) { ll lo = R.pick(hot) + R.in(-1, 1), hi = lo + R.in(0, span); if (R.chance(25)) { hi = 100000000; f.s.edit(at(lo)); } else f.s.edit(at(lo), at(hi)); Ev("edit").f("lo", lo).f("hi", hi).end(); state(); for (int s : sats) sat(s); }
      else if (R.chance(15)) { f.s.clear(); Ev("clear").end(); state(); }
      look(8);
   }
}
struct PosG : PosF { typedef PositionSatStore::DataTable Tab; };
struct ClkG : ClkF { typedef ClockSatStore::DataTable Tab; };
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R) {
      for (ll done = 0; done < args().size / 40; done++)
      { if (R.chance(50)) history<PosG>(R, "pos"); else history<ClkG>(R, "clk"); }
   });
}
