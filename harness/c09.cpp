// GLONASS ephemeris store
#include "tm.hpp"
#include "GloEphemerisStore.hpp"
#include "Rinex3NavData.hpp"
#include "CivilTime.hpp"
using namespace gpstk;
using namespace hx;
static CommonTime base;
static CommonTime at(ll i) { return base + (double)i; }
static ll idx(CommonTime t)
{
   if (t.getDays() > 3000000) return BIG;
   if (t.getDays() < 1000000) return -BIG;
   t.setTimeSystem(TimeSystem::GLO); return llround(t - base);
}
static std::string hs(Xvt::HealthStatus h)
{ return h == Xvt::Healthy ? "Healthy" : h == Xvt::Unhealthy ? "Unhealthy" : h == Xvt::Unavailable ? "Unavailable" : "?"; }
static SatID sid(int s) { return SatID(s, SatelliteSystem::Glonass); }
static void logState(GloEphemerisStore& f)
{
   std::vector<int> sats, ids; std::string lim = "[";
   for (auto& s : f.getIndexSet())
   { if (!sats.empty()) lim += ","; sats.push_back(s.id); lim += J(V{idx(f.getInitialTime(s)), idx(f.getFinalTime(s))}); }
   std::list<GloEphemeris> L; int n = f.addToList(L);
   for (auto& e : L) ids.push_back((int)llround(e.getTauN() * 1e6));
   V all{0, 0};
   std::string x = guard([&]{ all = V{idx(f.getInitialTime()), idx(f.getFinalTime())}; });
   Ev("state").f("size", f.size()).f("sats", sats).f("lim", Raw(lim + "]")).f("n", n).f("ids", ids).f("x", x).f("all", all).end();
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R) {
      for (ll done = 0; done < args().size / 40; done++)
      {
         base = CivilTime(R.in(2001, 2030), R.in(1, 12), R.in(1, 28), R.chance(40) ? 23 : R.in(0, 23), 15 * R.in(0, 3), 0, TimeSystem::GLO);
         bool only = false; GloEphemerisStore* f;
         if (R.chance(50)) f = new GloEphemerisStore;
         else { only = R.chance(50); f = new GloEphemerisStore(60.0, only); }
         Ev("new").f("only", only).end();
         int ns = R.in(1, 3); std::vector<int> sats;
         for (int i = 0; i < ns; i++) sats.push_back(1 + 5 * i);
         std::vector<std::pair<int, ll> > pool;
         int kind = R.in(0, 2), cnt = R.in(1, 7);
         for (int s : sats) for (int c = 0; c < cnt; c++)
         {
            if (R.chance(15)) continue;
            ll t = kind == 0 ? 1800 * c : kind == 1 ? 900 * R.in(0, 8) : R.in(0, 7200);
            pool.push_back(std::make_pair(s, t));
            if (R.chance(15)) pool.push_back(std::make_pair(s, t));
         }
         if (R.chance(70)) R.shuffle(pool);
         std::vector<ll> hot(1, 0); int nid = 0;
         auto look = [&](int n) {
            for (int i = 0; i < n; i++)
            {
               int s = R.chance(95) ? R.pick(sats) : 24, k = R.in(0, 9);
               ll t = R.chance(70) ? R.pick(hot) + 900 * R.in(-1, 1) + R.in(-1, 1) : R.in(-1000, 13000);
               bool own = R.chance(96); CommonTime ct = at(t); if (!own) ct.setTimeSystem(R.chance(50) ? TimeSystem::GPS : TimeSystem::UTC);
               if (k < 4)
               {
                  int rid = 0, cid = 0;
                  std::string x = guard([&]{ rid = (int)llround(f->getXvt(sid(s), ct).clkbias * 1e6); });
                  Xvt c = f->computeXvt(sid(s), ct); std::string ch = hs(c.health); if (ch != "Unavailable") cid = (int)llround(c.clkbias * 1e6);
                  Ev("xvt").f("s", s).f("t", t).f("own", own).f("x", x).f("id", rid).f("cid", cid).f("ch", ch).f("sh", hs(f->getSVHealth(sid(s), ct))).end();
               }
               else if (k < 8)
               {
                  int id = 0, m = R.in(0, 2); std::string x = guard([&]{
                     const GloEphemeris& e = m == 0 ? f->findEphemeris(sid(s), ct) : m == 1 ? f->findUserEphemeris(sid(s), ct) : f->findNearEphemeris(sid(s), ct);
                     id = (int)llround(e.getTauN() * 1e6); });
                  Ev("find").f("s", s).f("t", t).f("own", own).f("x", x).f("id", id).end();
               }
               else if (k == 8) Ev("has").f("s", s).f("sat", f->isPresent(sid(s))).end();
               else logState(*f);
            }
         };
         for (auto& p : pool)
         {
            Rinex3NavData d; d.time = at(p.second); d.sat = RinexSatID(p.first, SatelliteSystem::Glonass); d.satSys = "R"; d.PRNID = p.first;
            bool h = R.chance(80); int id = ++nid;
            d.health = h ? 0 : 1; d.TauN = id * 1e-6; d.GammaN = 0.0; d.MFtime = 0.0; d.freqNum = 1; d.ageOfInfo = 0.0;
            d.px = 25500.0; d.py = 0.0; d.pz = 0.0; d.vx = 0.0; d.vy = 2.5; d.vz = 2.5; d.ax = d.ay = d.az = 0.0;
            bool ok = f->addEphemeris(d);
            Ev("add").f("s", p.first).f("t", p.second).f("id", id).f("h", h).f("ok", ok).end();
            hot.push_back(p.second);
            if (R.chance(30)) look(R.in(1, 3));
            if (R.chance(3)) { bool on = R.chance(50); f->setCheckHealthFlag(on); Ev("only").f("on", on).end(); }
            if (R.chance(2)) { f->clear(); Ev("clear").end(); logState(*f); }
         }
         logState(*f); look(10);
         if (R.chance(60))
         {
            ll lo = R.pick(hot) + R.in(-1, 1), hi = R.chance(50) ? lo + R.in(0, 8000) : R.pick(hot) + R.in(-1, 1);
            if (hi < lo) std::swap(lo, hi);
            f->edit(at(lo), at(hi)); Ev("edit").f("lo", lo).f("hi", hi).end(); logState(*f); look(8);
         }
         delete f;
      }
   });
}
