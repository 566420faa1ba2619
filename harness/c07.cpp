// broadcast ephemeris stores keyed by time
#include "tm.hpp"
#include "OrbitEphStore.hpp"
#include "GPSEphemerisStore.hpp"
#include "GalEphemerisStore.hpp"
#include "BDSEphemerisStore.hpp"
#include "QZSEphemerisStore.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;
using namespace hx;
struct TestEph : public OrbitEph
{
   bool ok; TestEph() : ok(true) {}
   TestEph* clone() const { return new TestEph(*this); }
   bool isHealthy() const { return ok; }
};
static CommonTime base;
static CommonTime at(ll i) { return base + 6.0 * i; }
static ll idx(CommonTime t)
{
   if (t.getDays() > 3000000) return BIG;
   if (t.getDays() < 1000000) return -BIG;
   t.setTimeSystem(base.getTimeSystem());
   double d = (t - base) / 6.0; ll n = llround(d);
   return fabs(d - n) < 1e-6 ? n : 777777777;
}
struct R { ll b, toe, toc, e, x; int fit, id; bool h; };
template <class E> static void fill(E& g, int sat, const R& r)
{
   static const SatelliteSystem S[] = { SatelliteSystem::Unknown, SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::Glonass, SatelliteSystem::BeiDou, SatelliteSystem::QZSS };
   g.dataLoadedFlag = true; g.satID = SatID(sat % 100, S[sat / 100]);
   g.ctToe = at(r.toe); g.ctToc = at(r.toc); g.beginValid = at(r.b); g.endValid = at(r.e);
   g.af0 = r.id * 1e-6; g.A = 2.656e7; g.i0 = 0.96; g.M0 = 0.1 * r.id; g.ecc = 0.01;
}
static int idOf(const OrbitEph* e) { return e ? (int)llround(e->af0 * 1e6) : 0; }
static SatID sid(int s)
{ OrbitEph o; R r = {0,0,0,0,0,4,1,true}; fill(o, s, r); return o.satID; }
static int code(const SatID& s)
{
   int y = s.system == SatelliteSystem::GPS ? 1 : s.system == SatelliteSystem::Galileo ? 2 : s.system == SatelliteSystem::Glonass ? 3 : s.system == SatelliteSystem::BeiDou ? 4 : s.system == SatelliteSystem::QZSS ? 5 : 0;
   return y * 100 + s.id;
}
static SatelliteSystem sysOf(int y)
{ return y == 0 ? SatelliteSystem::Unknown : y == 9 ? SatelliteSystem::Mixed : sid(y * 100 + 1).system; }
static std::string hs(Xvt::HealthStatus h)
{
   return h == Xvt::Healthy ? "Healthy" : h == Xvt::Unhealthy ? "Unhealthy" : h == Xvt::Unavailable ? "Unavailable" : h == Xvt::Degraded ? "Degraded" : h == Xvt::Uninitialized ? "Uninitialized" : "Unknown";
}
struct Face
{
   OrbitEphStore* s; std::string kind; int sys;
   std::function<const OrbitEph*(int, const R&)> add;
   std::function<const OrbitEph*(const SatID&, const CommonTime&)> find;
   std::function<int(SatID, std::vector<int>&)> list;
   TimeSystem ts;
};
template <class S, class E> static Face face(const char* k, int sys, TimeSystem ts, std::function<void(E&, const R&)> extra)
{
   S* s = new S; Face f; f.s = s; f.kind = k; f.sys = sys; f.ts = ts;
   f.add = [s, extra](int sat, const R& r) -> const OrbitEph* { E e; fill(e, sat, r); extra(e, r); return s->addEphemeris(e); };
   f.find = [s](const SatID& id, const CommonTime& t) -> const OrbitEph* { return &s->findEphemeris(id, t); };
   f.list = [s](SatID id, std::vector<int>& v) { std::list<E> l; int n = s->addToList(l, id); for (auto& e : l) v.push_back(idOf(&e)); return n; };
   return f;
}
static Face make(int k)
{
   switch (k)
   {
      case 1: return face<GPSEphemerisStore, GPSEphemeris>("gps", 1, TimeSystem::GPS, [](GPSEphemeris& g, const R& r) {
         g.transmitTime = at(r.x); g.HOWtime = (long)static_cast<GPSWeekSecond>(g.transmitTime).sow; g.health = r.h ? 0 : 1 + r.id % 63; g.fitDuration = r.fit;
         g.IODC = g.IODE = r.id; g.accuracyFlag = 0; g.accuracy = 2; });
      case 2: return face<GalEphemerisStore, GalEphemeris>("gal", 2, TimeSystem::GAL, [](GalEphemeris& g, const R& r) { g.health = r.h ? Xvt::Healthy : Xvt::Unhealthy; });
      case 4: return face<BDSEphemerisStore, BDSEphemeris>("bds", 4, TimeSystem::BDT, [](BDSEphemeris& g, const R& r) { g.health = r.h ? 0 : 1; });
      case 5: return face<QZSEphemerisStore, QZSEphemeris>("qzs", 5, TimeSystem::QZS, [](QZSEphemeris& g, const R& r) { g.health = r.h ? 0 : 2 << (r.id % 4); });
   }
   OrbitEphStore* s = new OrbitEphStore; Face f; f.s = s; f.kind = "orb"; f.sys = 0; f.ts = TimeSystem::GPS;
   f.add = [s](int sat, const R& r) -> const OrbitEph* { TestEph e; fill(e, sat, r); e.ok = r.h; return s->addEphemeris(&e); };
   f.list = [s](SatID id, std::vector<int>& v) { std::list<OrbitEph*> l; int n = s->addToList(l, id); for (auto e : l) { v.push_back(idOf(e)); delete e; } return n; };
   return f;
}
static void logState(Face& f)
{
   std::set<SatID> is = f.s->getIndexSet(); std::vector<int> sats; std::string tab = "[", lim = "[";
   for (auto& s : is)
   {
      if (!sats.empty()) { tab += ","; lim += ","; }
      sats.push_back(code(s));
      std::string t = "[";
      for (auto& p : f.s->getTimeOrbitEphMap(s))
      { if (t.size() > 1) t += ","; t += J(V{idx(p.first), idx(p.second->beginValid), idx(p.second->endValid), idOf(p.second)}); }
      tab += t + "]"; lim += J(V{idx(f.s->getInitialTime(s)), idx(f.s->getFinalTime(s))});
   }
   Ev("state").f("size", f.s->size()).f("sats", sats).f("tab", Raw(tab + "]")).f("lim", Raw(lim + "]")).f("all", V{idx(f.s->getInitialTime()), idx(f.s->getFinalTime())}).end();
}
static void logFind(Rng& R, Face& f, int s, ll t, bool near)
{
   SatID id = sid(s); CommonTime ct = at(t);
   if (R.chance(50))
   {
      int rid = 0, cid = 0; std::string h = "", ch, sh; Xvt c;
      std::string x = guard([&]{ Xvt v = f.s->getXvt(id, ct); rid = (int)llround(v.clkbias * 1e6); h = hs(v.health); });
      c = f.s->computeXvt(id, ct); ch = hs(c.health); if (ch != "Unavailable") cid = (int)llround(c.clkbias * 1e6);
      sh = hs(f.s->getSVHealth(id, ct));
      Ev("xvt").f("s", s).f("t", t).f("x", x).f("id", rid).f("h", h).f("cid", cid).f("ch", ch).f("sh", sh).end();
      return;
   }
   int k = R.in(0, 3); const OrbitEph* e = 0; std::string m, x; bool own = true;
   if (k == 0 || (k == 1 && !f.find)) { m = "cur"; x = guard([&]{ e = f.s->findOrbitEph(id, ct); }); }
   else if (k == 1)
   {
      m = "eph";
      if (R.chance(10)) { int y = f.sys == 1 ? 2 : 1; id = sid(y * 100 + s % 100); own = false; }
      x = guard([&]{ e = f.find(id, ct); });
   }
   else if (k == 2 && !near) { m = "user"; x = guard([&]{ e = f.s->findUserOrbitEph(id, ct); }); }
   else { m = "near"; x = guard([&]{ e = f.s->findNearOrbitEph(id, ct); }); }
   Ev("find").f("s", s).f("t", t).f("m", m).f("own", own).f("x", x).f("id", idOf(e)).end();
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R) {
      ll done = 0;
      static const int K[] = { 0, 1, 1, 1, 2, 4, 5 };
      while (done < args().size / 40)
      {
         done++;
         Face f = make(K[R.in(0, 6)]);
         {
            GPSWeekSecond w(R.in(900, 2300), R.chance(40) ? 597600.0 : 7200.0 * R.in(0, 83), f.ts);
            base = w;
         }
         std::vector<int> sats; int ns = R.in(1, 3);
         if (f.sys) for (int i = 0; i < ns; i++) sats.push_back(f.sys * 100 + 1 + 4 * i);
         else sats = std::vector<int>{ 101, 105, 201, 305, 405 };
         if (!f.sys) { R.shuffle(sats); sats.resize(ns + 1); }
         Ev("new").f("kind", f.kind).end();
         bool near = false, real = f.kind == "gps" ? R.chance(75) : R.chance(20);
         if (R.chance(30)) { bool n = R.chance(80); bool ok = n ? f.s->SearchNear() : f.s->SearchUser(); Ev("search").f("near", n).f("ok", ok).end(); if (ok) near = n; }
         if (R.chance(30)) { bool on = R.chance(70); f.s->setOnlyHealthyFlag(on); Ev("only").f("on", on).end(); }
         int nid = 0;
         std::map<std::string, ll> endOf;   // one end time for each toe
            // realistic sequence of broadcasts for the rationalizing runs
         std::vector<std::pair<int, struct R> > pool;
         ll span;
         if (real)
         {
            int cycles = R.in(3, 8); span = 1200 * (cycles + 3);
            for (int s : sats)
            {
               ll off = 0;
               for (int c = 2; c < cycles + 2; c++)
               {
                  struct R r; bool up = R.chance(25);
                  if (up) off = R.chance(80) ? 3 * R.in(1, 4) - (R.chance(50) ? 0 : 1) : 0;
                  else if (R.chance(35)) off = 0;
                  ll h = 1200LL * c;
                  r.toe = h - off; r.toc = R.chance(15) ? h : r.toe; r.fit = R.chance(80) ? 4 : 6 + 2 * R.in(0, 1);
                  r.b = off ? h - 1200 + (up ? R.in(10, 900) : 5 * R.in(0, 20)) : h - 1200;
                  if (off && R.chance(70)) r.b -= r.b % 5;
                  r.x = r.b + (off ? R.in(0, 4) : R.in(0, 60)); r.e = h + r.fit * 300; r.h = R.chance(85); r.id = 0;
                  if (r.b > r.toe) r.b = r.toe - 10;
                  pool.push_back(std::make_pair(s, r));
                  if (R.chance(25)) { struct R q = r; q.b += R.in(1, 300); q.x = q.b; pool.push_back(std::make_pair(s, q)); }
               }
            }
         }
         else
         {
            span = 24;
            int n = R.in(4, 26);
            for (int i = 0; i < n; i++)
            {
               struct R r; r.toe = 3 * R.in(1, 7); r.toc = r.toe; r.b = R.chance(50) ? std::max<ll>(0, r.toe - R.in(0, 5)) : R.in(0, r.toe);
               r.x = r.b; r.fit = 4; r.h = R.chance(80);
               std::string key = J(r.toe);
               if (!endOf.count(key)) endOf[key] = r.toe + R.in(0, 6);
               r.e = std::max(endOf[key], (ll)0); r.id = 0;
               pool.push_back(std::make_pair(R.pick(sats), r));
            }
         }
         if (R.chance(60)) R.shuffle(pool);
         std::vector<ll> interesting;
         auto look = [&](int n) {
            for (int i = 0; i < n; i++)
            {
               int s = R.chance(95) ? R.pick(sats) : (f.sys ? f.sys * 100 + 31 : 131);
               ll t = R.chance(60) && !interesting.empty() ? R.pick(interesting) + R.in(-1, 1) : R.in(-2, span + 3);
               int k = R.in(0, 19);
               if (k < 14) logFind(R, f, s, t, near);
               else if (k < 16) { bool a = f.s->isPresent(sid(s)), b = f.s->isPresent(sid(s), at(t)); Ev("has").f("s", s).f("t", t).f("sat", a).f("at", b).end(); }
               else if (k == 16) { int y = R.chance(30) ? 9 : R.chance(80) ? s / 100 : 1, id = R.chance(50) && y != 9 ? s % 100 : -1; Ev("count").f("y", y).f("id", id).f("n", f.s->size(SatID(id, sysOf(y)))).end(); }
               else if (k == 17)
               {
                  int y = f.sys ? f.sys : R.chance(40) ? 0 : s / 100, id = R.chance(50) ? -1 : s % 100; std::vector<int> v;
                  int n = f.list(SatID(id, sysOf(y)), v); Ev("list").f("y", y).f("id", id).f("n", n).f("ids", v).end();
               }
               else logState(f);
            }
         };
         auto rat = [&] {
            GPSEphemerisStore* g = dynamic_cast<GPSEphemerisStore*>(f.s);
            if (!g || near) return;
            note("rationalize"); g->rationalize(); Ev("rat").end(); logState(f);
         };
         for (auto& p : pool)
         {
            struct R r = p.second; r.id = ++nid; const OrbitEph* e = 0;
            std::string x = guard([&]{ e = f.add(p.first, r); });
            std::string js = "{\"b\":" + J(r.b) + ",\"toe\":" + J(r.toe) + ",\"toc\":" + J(r.toc) + ",\"e\":" + J(r.e) + ",\"x\":" + J(r.x) + ",\"fit\":" + J(r.fit) + ",\"id\":" + J(r.id) + ",\"h\":" + J(r.h) + "}";
            Ev("add").f("s", p.first).f("r", Raw(js)).f("x", x).f("added", e != 0).end();
            interesting.push_back(r.b); interesting.push_back(r.toe); interesting.push_back(r.e);
            if (R.chance(30)) look(R.in(1, 4));
            if (R.chance(3)) { bool n = R.chance(50); bool ok = n ? f.s->SearchNear() : f.s->SearchUser(); Ev("search").f("near", n).f("ok", ok).end(); if (ok) near = n; }
            if (R.chance(3)) { ll lo = R.pick(interesting) + R.in(-1, 1), hi = R.chance(80) ? lo + R.in(0, span) : 10000000; f.s->edit(at(lo), at(hi)); Ev("edit").f("lo", lo).f("hi", hi).end(); look(3); logState(f); }
            if (R.chance(1)) { f.s->clear(); Ev("clear").end(); logState(f); }
            if (R.chance(3)) rat();
            if (R.chance(3)) { bool on = R.chance(50); f.s->setOnlyHealthyFlag(on); Ev("only").f("on", on).end(); }
         }
         logState(f); look(12);
         rat(); look(14);
         if (R.chance(30)) { ll lo = R.pick(interesting) + R.in(-1, 1), hi = lo + R.in(0, span); f.s->edit(at(lo), at(hi)); Ev("edit").f("lo", lo).f("hi", hi).end(); logState(f); rat(); look(8); }
         logState(f);
         delete f.s;
      }
   });
}
