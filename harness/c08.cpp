// orbit-element store
#include "tm.hpp"
#include "OrbElemStore.hpp"
#include "OrbElem.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;
using namespace hx;
static CommonTime base;
static CommonTime at(ll i) { return base + 6.0 * i; }
static ll idx(CommonTime t)
{
   if (t.getDays() > 3000000) return BIG;
   if (t.getDays() < 1000000) return -BIG;
   t.setTimeSystem(base.getTimeSystem());
   double d = (t - base) / 6.0; ll n = llround(d);
   return fabs(d - n) < 1e-6 ? n : 777777777;
}

struct Elem : public OrbElem
{
   int fit;
   Elem* clone() const { return new Elem(*this); }
   std::string getName() const { return "T"; }
   std::string getNameLong() const { return "Test"; }
   void adjustBeginningValidity() { beginValid = ctToc - 3600.0 * (fit / 2); }
   void dumpTerse(std::ostream&) const {}
};
struct R { ll b, toe, toc, e; int fit, id; bool h; };
static SatelliteSystem sysOf(int y) { return y == 1 ? SatelliteSystem::GPS : y == 2 ? SatelliteSystem::Galileo : y == 4 ? SatelliteSystem::BeiDou : SatelliteSystem::QZSS; }
static SatID sid(int s) { return SatID(s % 100, sysOf(s / 100)); }
static int code(const SatID& s)
{ int y = s.system == SatelliteSystem::GPS ? 1 : s.system == SatelliteSystem::Galileo ? 2 : s.system == SatelliteSystem::BeiDou ? 4 : 5; return y * 100 + s.id; }
static Elem elem(int s, const R& r)
{
   Elem g; g.dataLoadedFlag = true; g.satID = sid(s); g.fit = r.fit;
   g.ctToe = at(r.toe); g.ctToc = at(r.toc); g.beginValid = at(r.b); g.endValid = at(r.e); g.setHealthy(r.h);
   g.af0 = r.id * 1e-6; g.af1 = g.af2 = 0; g.A = 2.656e7; g.i0 = 0.96; g.M0 = 0.1 * r.id; g.ecc = 0.01;
   g.Cuc = g.Cus = g.Crc = g.Crs = g.Cic = g.Cis = g.dn = g.dndot = g.Adot = g.OMEGA0 = g.w = g.OMEGAdot = g.idot = 0;
   return g;
}
static int idOf(const OrbElemBase* e) { return e ? (int)llround(dynamic_cast<const OrbElem*>(e)->af0 * 1e6) : 0; }
static std::string hs(Xvt::HealthStatus h)
{ return h == Xvt::Healthy ? "Healthy" : h == Xvt::Unhealthy ? "Unhealthy" : h == Xvt::Unavailable ? "Unavailable" : "?"; }
static void logState(OrbElemStore& f)
{
   std::set<SatID> is = f.getIndexSet(); std::vector<int> sats, lst, ids; std::string tab = "[";
   for (auto& s : is)
   {
      if (!sats.empty()) tab += ",";
      sats.push_back(code(s));
      std::string t = "[";
      for (auto& p : f.getOrbElemMap(s))
      { if (t.size() > 1) t += ","; t += J(V{idx(p.first), idx(p.second->beginValid), idx(p.second->endValid), idOf(p.second)}); }
      tab += t + "]";
   }
   for (auto& s : f.getSatIDList()) lst.push_back(code(s));
   std::list<OrbElemBase*> L; int n = f.addToList(L);
   for (auto e : L) { ids.push_back(idOf(e)); delete e; }
   Ev("state").f("size", f.size()).f("sats", sats).f("list", lst).f("tab", Raw(tab + "]")).f("all", V{idx(f.getInitialTime()), idx(f.getFinalTime())}).f("n", n).f("ids", ids).end();
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R) {
      std::cout.rdbuf((new std::ostringstream)->rdbuf());
      for (ll done = 0; done < args().size / 40; done++)
      {
         OrbElemStore f;
         int sys = R.chance(70) ? 1 : R.pick(std::vector<int>{2, 4, 5}); bool own = R.chance(70);
         { GPSWeekSecond w(R.in(900, 2300), R.chance(40) ? 597600.0 : 7200.0 * R.in(0, 83), TimeSystem::GPS); base = w; }
         Ev("new").end();
         if (own) f.setTimeSystem(TimeSystem::GPS);
         if (R.chance(40)) { f.addSatSys(sysOf(sys)); Ev("sys").f("y", sys).end(); }
         if (R.chance(40)) { bool on = R.chance(50); f.setOnlyHealthyFlag(on); Ev("only").f("on", on).end(); }
         std::vector<int> sats; int ns = R.in(1, 3);
         for (int i = 0; i < ns; i++) sats.push_back(sys * 100 + 1 + 4 * i);
         bool real = R.chance(50); ll span; int nid = 0;
         std::vector<std::pair<int, struct R> > pool;
         if (real)
         {
            int cycles = R.in(3, 8); span = 1200 * (cycles + 3);
            for (int s : sats)
            {
               ll off = 0;
               for (int c = 2; c < cycles + 2; c++)
               {
                  struct R r; bool up = R.chance(25);
                  if (up) off = R.chance(80) ? 3 * R.in(1, 4) - (R.chance(50) ? 0 : 1) : 0;
                  else if (R.chance(35)) off = 0;
                  if (R.chance(10)) continue;
                  ll h = 1200LL * c;
                  r.toe = h - off; r.toc = r.toe; r.fit = R.chance(80) ? 4 : 6 + 2 * R.in(0, 1);
                  r.b = off ? h - 1200 + (up ? R.in(10, 900) : 5 * R.in(0, 20)) : h - 1200;
                  r.e = h + r.fit * 300; r.h = R.chance(85); r.id = 0;
                  pool.push_back(std::make_pair(s, r));
                  if (R.chance(25)) { struct R q = r; q.b = std::min(q.toe, q.b + R.in(1, 300)); pool.push_back(std::make_pair(s, q)); }
               }
            }
         }
         else
         {
            span = 24; int n = R.in(4, 26);
            for (int i = 0; i < n; i++)
            {
               struct R r; r.toe = 3 * R.in(1, 7); r.toc = r.toe; r.b = R.chance(50) ? std::max<ll>(0, r.toe - R.in(0, 5)) : R.in(0, r.toe);
               r.fit = 4; r.h = R.chance(80); r.e = r.toe + (R.chance(70) ? 4 : R.in(0, 6)); r.id = 0;
               pool.push_back(std::make_pair(R.pick(sats), r));
            }
         }
         if (pool.empty()) continue;
         if (R.chance(60)) R.shuffle(pool);
         std::vector<ll> hot;
         auto look = [&](int n) {
            for (int i = 0; i < n; i++)
            {
               int s = R.chance(95) ? R.pick(sats) : sys * 100 + 31;
               ll t = R.chance(60) && !hot.empty() ? R.pick(hot) + R.in(-1, 1) : R.in(-2, span + 3);
               SatID id = sid(s); CommonTime ct = at(t); const OrbElemBase* e = 0; std::string x;
               int k = R.in(0, 19);
               if (k < 5) { x = guard([&]{ e = f.findOrbElem(id, ct); }); Ev("find").f("m", "user").f("s", s).f("t", t).f("x", x).f("id", idOf(e)).end(); }
               else if (k < 10) { x = guard([&]{ e = f.findNearOrbElem(id, ct); }); Ev("find").f("m", "near").f("s", s).f("t", t).f("x", x).f("id", idOf(e)).end(); }
               else if (k < 12) { x = guard([&]{ e = f.findToe(id, ct); }); Ev("toe").f("s", s).f("t", t).f("own", own).f("x", x).f("id", idOf(e)).end(); }
               else if (k < 17)
               {
                  int rid = 0, cid = 0; Xvt c;
                  x = guard([&]{ Xvt v = f.getXvt(id, ct); rid = (int)llround(v.clkbias * 1e6); });
                  c = f.computeXvt(id, ct); std::string ch = hs(c.health); if (ch != "Unavailable") cid = (int)llround(c.clkbias * 1e6);
                  Ev("xvt").f("s", s).f("t", t).f("x", x).f("id", rid).f("cid", cid).f("ch", ch).f("sh", hs(f.getSVHealth(id, ct))).end();
               }
               else if (k == 17) Ev("has").f("s", s).f("sat", f.isPresent(id)).end();
               else if (k == 18) { x = guard([&]{ f.getOrbElemMap(id); }); Ev("map").f("s", s).f("x", x).end(); }
               else logState(f);
            }
         };
         auto rat = [&] { note("rationalize"); std::string x = guard([&]{ f.rationalize(); }); Ev("rat").f("x", x).end(); logState(f); };
         for (auto& p : pool)
         {
            struct R r = p.second; r.id = ++nid; int s = p.first; bool a = false;
            if (nid > 1 && R.chance(4)) s = (sys == 1 ? 200 : 100) + s % 100;
            Elem e = elem(s, r);
            std::string x = guard([&]{ a = f.addOrbElem(&e); });
            std::string js = "{\"b\":" + J(r.b) + ",\"toe\":" + J(r.toe) + ",\"toc\":" + J(r.toc) + ",\"e\":" + J(r.e) + ",\"fit\":" + J(r.fit) + ",\"id\":" + J(r.id) + ",\"h\":" + J(r.h) + "}";
            Ev("add").f("s", s).f("r", Raw(js)).f("x", x).f("added", a).end();
            hot.push_back(r.b); hot.push_back(r.toe); hot.push_back(r.e);
            if (R.chance(30)) look(R.in(1, 4));
            if (R.chance(3)) { ll lo = R.pick(hot) + R.in(-1, 1), hi = R.chance(80) ? lo + R.in(0, span) : 10000000; f.edit(at(lo), at(hi)); Ev("edit").f("lo", lo).f("hi", hi).end(); look(3); logState(f); }
            if (R.chance(1)) { f.clear(); Ev("clear").end(); logState(f); }
            if (R.chance(2)) rat();
            if (R.chance(3)) { bool on = R.chance(50); f.setOnlyHealthyFlag(on); Ev("only").f("on", on).end(); }
         }
         logState(f); look(12); rat(); look(14);
         if (R.chance(30)) { ll lo = R.pick(hot) + R.in(-1, 1), hi = lo + R.in(0, span); f.edit(at(lo), at(hi)); Ev("edit").f("lo", lo).f("hi", hi).end(); logState(f); rat(); look(8); }
         logState(f);
      }
   });
}
