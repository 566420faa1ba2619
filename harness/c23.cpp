// C23: what is in force at a time.
#include "hx.hpp"
#include <fstream>
#include "WxObsMap.hpp"
#include "IonoModelStore.hpp"
#include "SVNumXRef.hpp"
#include "SatMetaDataStore.hpp"
#include "YDSTime.hpp"
#include "CivilTime.hpp"
using namespace gpstk; using namespace hx;
static CommonTime at(ll s) { CommonTime t = CivilTime(2000, 1, 1, 0, 0, 0.0, TimeSystem::Any).convertToCommonTime(); t += (double)s; return t; }
static ll since(const CommonTime& t) { return llround(t - CivilTime(2000, 1, 1, 0, 0, 0.0, TimeSystem::Any).convertToCommonTime()); }
static Raw wxJ(const WxObservation& o)
{
   bool any = o.temperatureSource != WxObservation::noWx;
   return Raw("{\"t\":" + hx::J(any ? since(o.t) : 0) + ",\"temp\":" + hx::J((ll)llround(o.temperature * 64)) + ",\"pres\":" + hx::J((ll)llround(o.pressure * 64)) + ",\"hum\":" + hx::J((ll)llround(o.humidity * 64)) + ",\"ok\":" + hx::J(o.isAllValid()) + "}");
}
static void weather(Rng& r)
{
   WxObsData w; ll span = r.pick(std::vector<ll>{10, 100, 3000}); ll base = r.in(0, 700000000);
   auto spans = [&](Ev& e) { bool any = w.firstTime <= w.lastTime; e.f("n", (ll)w.obs.size()).f("any", any).f("first", any ? since(w.firstTime) : 0).f("last", any ? since(w.lastTime) : 0); };
   int n = r.in(2, 30);
   for (int k = 0; k < n; k++)
   {
      ll t = base + r.in(0, span);
      if (r.chance(30) && !w.obs.empty()) { auto i = w.obs.begin(); std::advance(i, r.in(0, w.obs.size() - 1)); t = since(i->first) + r.in(-1, 1); }
      switch (r.in(0, 4))
      {
         case 0: case 1:
         {
            ll a = r.in(-40, 50), b = r.in(900, 1100), c = r.in(0, 100);
            WxObservation o(at(t), a, b, c); note("insertObservation"); w.insertObservation(o);
            Ev e("wxadd"); e.f("o", Raw("{\"t\":" + hx::J(t) + ",\"temp\":" + hx::J(a) + ",\"pres\":" + hx::J(b) + ",\"hum\":" + hx::J(c) + ",\"ok\":true}")); spans(e); e.end(); break;
         }
         case 2:
         {
            if (r.chance(70)) { note("getMostRecent"); WxObservation o = w.getMostRecent(at(t)); Ev("wxrecent").f("t", t).f("r", wxJ(o)).end(); break; }
            if (r.chance(60)) t = base + r.in(0, span / 4);
            if (r.chance(8)) t = base + 2 * span;
            note("flush"); w.flush(at(t)); Ev e("wxflush"); e.f("t", t); spans(e); e.end(); break;
         }
         default:
         {
            unsigned iv = r.chance(20) ? 0 : r.chance(30) ? 3600 : r.in(0, span); bool ip = r.chance(50); WxObservation o;
            if (r.chance(30) && !w.obs.empty()) { auto i = w.obs.begin(); std::advance(i, r.in(0, w.obs.size() - 1)); ll q = since(i->first) - t; iv = std::max<ll>(0, std::abs(q) + r.in(-1, 1)); }
            note("getWxObservation"); std::string x = guard([&] { o = w.getWxObservation(at(t), iv, ip); });
            Ev("wxget").f("t", t).f("iv", (ll)iv).f("interp", ip).f("x", x).f("r", wxJ(o)).end();
         }
      }
   }
}
static void iono(Rng& r)
{
   IonoModelStore st; std::vector<IonoModel> pool; ll base = r.in(0, 700000000), span = r.pick(std::vector<ll>{5, 20, 100000});
   int m = r.in(2, 4);
   double a[4], b[4];
   for (int k = 0; k < m; k++)
   {
         // models that differ in one number, or in all
      if (k == 0 || r.chance(50)) for (int i = 0; i < 4; i++) { a[i] = r.in(1, 40) * 1e-8 * (i ? 1 : 5) + k * 1e-7; b[i] = 90000.0 + r.in(0, 60) * 1000.0 + 100000.0 * k; }
      else { int i = r.in(0, 3); if (r.chance(50)) a[i] += 3e-8 * (k + 1); else b[i] += 11000.0 * (k + 1); }
      pool.push_back(IonoModel(a, b));
   }
   Position rx(r.in(-80, 80), r.in(0, 359), 100.0, Position::Geodetic);
   int n = r.in(3, 30);
   for (int k = 0; k < n; k++)
   {
      ll t = base + r.in(0, span);
      switch (r.in(0, 5))
      {
         case 0: case 1: { bool bad = r.chance(10); ll i = r.in(0, m - 1); note("addIonoModel"); bool ret = st.addIonoModel(at(t), bad ? IonoModel() : pool[i]); Ev("ionoadd").f("t", t).f("m", i + 1).f("valid", !bad).f("ret", ret).end(); break; }
         case 2: if (r.chance(30)) { ll a = base + r.in(-1, span), b = a + r.in(0, span); note("edit"); st.edit(at(a), at(b)); Ev("ionoedit").f("a", a).f("b", b).end(); break; }
         default:
         {
            double el = r.in(5, 90), az = r.in(0, 359); CarrierBand cb = r.chance(50) ? CarrierBand::L1 : CarrierBand::L2; CommonTime q = at(t); std::string v; char buf[60];
            std::vector<std::string> vs; for (auto& p : pool) { snprintf(buf, sizeof buf, "%.17g", p.getCorrection(q, rx, el, az, cb)); vs.push_back(buf); }
            note("getCorrection"); std::string x = guard([&] { snprintf(buf, sizeof buf, "%.17g", st.getCorrection(q, rx, el, az, cb)); v = buf; });
            Ev("iono").f("t", t).f("x", x).f("val", v).f("vals", vs).end();
         }
      }
   }
}
struct X : SVNumXRef
{
   void add(int svn, int prn, const CommonTime& a, const CommonTime& b) { NtoPMap.insert(std::make_pair(svn, XRefNode(prn, a, b))); PtoNMap.insert(std::make_pair(prn, XRefNode(svn, a, b))); }
   std::vector<CommonTime> ends() { std::vector<CommonTime> v; for (auto& p : NtoPMap) { v.push_back(p.second.getBeginTime()); v.push_back(p.second.getEndTime()); } return v; }
};
static Raw dt(const CommonTime& t) { long d; double s; TimeSystem ts; t.get(d, s, ts); return Raw("[" + hx::J((ll)d) + "," + hx::J((ll)llround(s * 10)) + "]"); }
static void numbers(Rng& r)
{
   X x; std::vector<CommonTime> e = x.ends();
   auto when = [&]
   {
      CommonTime t = CivilTime(r.in(1977, 2026), r.in(1, 12), r.in(1, 28), r.in(0, 23), r.in(0, 59), r.in(0, 59), TimeSystem::GPS).convertToCommonTime();
      if (r.chance(60)) { t = e[r.in(0, e.size() - 1)]; if (t == CommonTime::END_OF_TIME) t = CivilTime(2030, 1, 1, 0, 0, 0.0, TimeSystem::GPS).convertToCommonTime(); else t += (double)r.in(-1, 1); }
      return t;
   };
   for (int k = r.in(10, 60); k-- > 0; )
   {
      int c = r.in(0, 9);
      if (c < 4)
      {
         int svn = r.in(1, 79), prn = 0; CommonTime t = when(); std::string g = guard([&] { prn = x.getPRNID(svn, t); });
         Ev("prn").f("svn", (ll)svn).f("t", dt(t)).f("x", g).f("prn", (ll)prn).f("av", x.PRNIDAvailable(svn, t)).f("act", x.NAVSTARIDActive(svn, t)).end();
      }
      else if (c < 8)
      {
         int prn = r.in(0, 33), svn = 0; CommonTime t = when(); std::string g = guard([&] { svn = x.getNAVSTAR(prn, t); });
         Ev("svn").f("prn", (ll)prn).f("t", dt(t)).f("x", g).f("svn", (ll)svn).f("av", x.NAVSTARIDAvailable(prn, t)).end();
      }
      else if (c == 8 || k > 3)
      {
         int svn = r.in(0, 79); SVNumXRef::BlockType b = SVNumXRef::I; std::string g = guard([&] { b = x.getBlockType(svn); });
         static const char* nm[] = { "Block I", "Block II", "Block IIA", "Block IIR", "Block IIR_M", "Block IIF", "GPS III" };
         std::string s = x.getBlockTypeString(svn); if (g == "ok" && s != nm[(int)b]) s = "other than the type";
         Ev("block").f("svn", (ll)svn).f("x", g).f("av", x.BlockTypeAvailable(svn)).f("text", s).end();
      }
      else
      {
         if (r.chance(60))
         {
            CommonTime a = when(), b = a + (double)r.in(0, 90000000); int svn = r.chance(50) ? r.in(80, 85) : r.in(1, 77), prn = r.chance(50) ? r.in(34, 40) : r.in(1, 32);
            x.add(svn, prn, a, b); Ev("row").f("r", std::vector<Raw>{Raw(hx::J((ll)svn)), Raw(hx::J((ll)prn)), dt(a), dt(b)}).end(); e.push_back(a); e.push_back(b);
         }
         note("isConsistent"); Ev("consistent").f("yes", x.isConsistent()).end();
      }
   }
}
static std::string yds(ll s) { YDSTime y(at(s)); char b[60]; snprintf(b, sizeof b, "%d,%03d,%05d", y.year, y.doy, (int)llround(y.sod)); return b; }
static void meta(Rng& r)
{
   SatMetaDataStore st;
   static const std::vector<std::string> sys = { "GPS", "GLONASS", "Galileo", "BeiDou" }, types = { "M", "K1", "IIF", "IIR-M" }, svns = { "701", "702", "41", "E11", "7" },
      clk = { "Unknown", "Crystal", "Cesium", "Rubidium", "Hydrogen", "USNO" }, stat = { "Operational", "Decommissioned", "Test", "Unknown" }, words = { "A", "1", "GPS IIF", "unk", "G2" };
   struct S { std::string sys, svn; ll prn, chl, slot, a, b; }; std::vector<S> sats; ll year = 31557600, chance = r.in(2, 12); ll nsys = r.in(1, 4), nsvn = r.in(1, 5);
   int files = r.in(1, 3);
   for (int f = 0; f < files; f++)
   {
      std::vector<std::string> text; std::vector<Raw> lines;
      auto out = [&](const std::vector<std::string>& v)
      {
         std::string s; for (size_t i = 0; i < v.size(); i++) { std::string c = v[i]; if (i == 0 && r.chance(20)) for (auto& z : c) z = tolower(z); if (i && r.chance(10)) c = " " + c; if (r.chance(10)) c += " "; s += (i ? "," : "") + c; }
         text.push_back(s); if (r.chance(10)) text.push_back(r.chance(50) ? "" : "# SAT,GPS,1");
      };
      std::vector<int> kinds;
      for (int i = r.in(0, 12); i-- > 0; ) kinds.push_back(r.in(0, 2));
      for (int i = r.in(0, 10); i-- > 0; ) kinds.push_back(3);
      for (int i = r.in(0, 2); i-- > 0; ) kinds.push_back(r.in(4, 5));
      if (r.chance(30)) r.shuffle(kinds);
         // mostly complete
      if (f == 0 && r.chance(80)) { std::vector<int> k(60, 9); for (size_t i = 0; i < k.size(); i++) k[i] = 10 + i; kinds.insert(kinds.begin(), k.begin(), k.end()); }
      for (int kind : kinds)
      {
         std::string s = sys[r.in(0, nsys - 1)], v = svns[r.in(0, nsvn - 1)], ty = r.pick(types); int q = kind >= 10 ? kind - 10 : -1;
         if (q >= 0)
         {
            if (q < 16) { kind = 2; s = sys[q / 4]; ty = types[q % 4]; if (q / 4 >= nsys) continue; }
            else if (q < 36) { kind = 0; s = sys[(q - 16) / 5]; v = svns[(q - 16) % 5]; if ((q - 16) / 5 >= nsys || (q - 16) % 5 >= nsvn) continue; }
            else if (q < 56) { kind = 1; s = sys[(q - 36) / 5]; v = svns[(q - 36) % 5]; if ((q - 36) / 5 >= nsys || (q - 36) % 5 >= nsvn) continue; }
            else kind = 3;
         }
         bool bad = r.chance(chance); int how = r.in(0, 2); std::string o; std::vector<std::string> w; ll t = r.in(0, 40) * year + r.in(0, 400) * 86400 + (r.chance(50) ? 0 : r.in(0, 86399));
         auto T = [&](ll x, bool wrong) { std::string y = yds(x); w.push_back(y.substr(0, 4)); w.push_back(y.substr(5, 3)); w.push_back(wrong ? "86400" : y.substr(9)); };
         auto q2 = [&](const std::string& z) { return hx::J(z); };
         if (kind == 0)
         {
            bool wrong = bad && how == 0; std::string mi = r.pick(words); w = { "LAUNCH", s, v }; T(t, wrong); w.push_back(ty); w.push_back(mi); if (bad && how == 1) w.pop_back(); if (bad && how == 2) w.push_back("x");
            o = "{\"k\":\"LAUNCH\",\"sys\":" + q2(s) + ",\"svn\":" + q2(v) + ",\"t\":" + hx::J(t) + ",\"type\":" + q2(ty) + ",\"mission\":" + q2(mi);
         }
         else if (kind == 1)
         {
            ll n = r.in(1, 99999); w = { "NORAD", s, v, std::to_string(n) }; if (bad && how) w.pop_back(); else if (bad) w.push_back("1");
            o = "{\"k\":\"NORAD\",\"sys\":" + q2(s) + ",\"svn\":" + q2(v) + ",\"num\":" + hx::J(n);
         }
         else if (kind == 2)
         {
            std::vector<std::string> c; for (int i = 0; i < 4; i++) c.push_back(r.pick(clk));
            w = { "CLOCK", s, ty }; for (auto& z : c) w.push_back(z); if (bad && how) w.pop_back(); else if (bad) w.push_back("Cesium");
            o = "{\"k\":\"CLOCK\",\"sys\":" + q2(s) + ",\"type\":" + q2(ty) + ",\"clocks\":" + hx::J(c);
         }
         else if (kind == 3)
         {
            S x; x.sys = s; x.svn = v; x.prn = r.in(1, 4); bool g = s == "GLONASS"; x.chl = g ? r.in(-7, 6) : 0; x.slot = g ? r.in(1, 3) : 0; x.a = t; x.b = r.chance(5) ? t : t + (r.chance(50) ? r.in(1, 5) * year : r.in(1, 900000));
            if (!sats.empty() && r.chance(40)) { S p = r.pick(sats); x.prn = p.prn; if (r.chance(70)) { x.a = p.b; x.b = x.a + r.in(1, 3) * year; } if (x.a > 45 * year) { x.a = 5 * year; x.b = 6 * year; } if (g && r.chance(60)) { x.slot = p.slot; x.chl = p.chl; } }
            std::string pl = r.pick(words), sl = r.pick(words), sg = r.pick(words), su = r.pick(stat); ll ac = r.in(0, 4); if (r.chance(10)) ac = 255;
            bool wrong = bad && how == 0, wrong2 = wrong && r.chance(50);
            w = { "SAT", s, v, std::to_string(x.prn), std::to_string(x.chl), std::to_string(x.slot) };
            if (bad && how == 1) w[3 + r.in(0, 2)] = r.chance(50) ? "x" : "1a";
            T(x.a, wrong && !wrong2); T(x.b, wrong2); for (auto& z : { pl, sl, sg, su, std::to_string(ac) }) w.push_back(z);
            if (bad && how == 2) w.pop_back();
            o = "{\"k\":\"SAT\",\"sys\":" + q2(s) + ",\"svn\":" + q2(v) + ",\"prn\":" + hx::J(x.prn) + ",\"chl\":" + hx::J(x.chl) + ",\"slotid\":" + hx::J(x.slot) + ",\"from\":" + hx::J(x.a) + ",\"until\":" + hx::J(x.b)
               + ",\"plane\":" + q2(pl) + ",\"slot\":" + q2(sl) + ",\"signals\":" + q2(sg) + ",\"status\":" + q2(su) + ",\"active\":" + hx::J(ac);
            sats.push_back(x);
         }
         else if (kind == 4) { bad = r.chance(40); w = { "SIG", "GPS IIF", "L1", "CA", "LNAV" }; if (bad) w.pop_back(); o = "{\"k\":\"SIG\""; }
         else { bad = true; w = { r.chance(50) ? "SATS" : "X", "GPS", "1" }; o = "{\"k\":\"X\""; }
         out(w); lines.push_back(Raw(o + ",\"good\":" + hx::J(!bad) + "}"));
      }
      std::string path = args().scratch + "/meta.csv"; bool missing = r.chance(3);
      { std::ofstream os(path.c_str()); for (auto& s : text) os << s << "\n"; }
      if (missing) { path += ".none"; lines.clear(); }
      note("loadData"); bool ret = st.loadData(path); ll ns = 0; for (auto& m : st.satMap) ns += m.second.size();
      Ev("load").f("lines", lines).f("missing", missing).f("ret", ret).f("n", std::vector<ll>{(ll)st.launchMap.size(), (ll)st.noradMap.size(), (ll)st.clkMap.size(), ns}).end();
      if (sats.empty()) continue;
      for (int k = r.in(3, 25); k-- > 0; )
      {
         S x = r.pick(sats); ll t = r.chance(30) ? x.a + r.in(-1, 1) : r.chance(40) ? x.b + r.in(-1, 1) : (x.a + x.b) / 2; if (r.chance(10)) t = r.in(0, 50) * year; if (t < 0) t = 0;
         SatMetaData m; bool ok = false; SatelliteSystem ss = convertStringToSatelliteSystem(x.sys); CommonTime w = at(t); if (r.chance(30)) w.setTimeSystem(TimeSystem::GPS);
         auto full = [&]
         {
            if (!ok) return Raw("[]");
            std::string o = "[" + hx::J(convertSatelliteSystemToString(m.sys)) + "," + hx::J(m.svn) + "," + hx::J((ll)m.prn) + "," + hx::J((ll)m.chl) + "," + hx::J((ll)m.slotID) + "," + hx::J(since(m.startTime)) + "," + hx::J(since(m.endTime)) + "," + hx::J(m.plane) + "," + hx::J(m.slot)
               + "," + hx::J(m.signals) + "," + hx::J(SatMetaData::asString(m.status)) + "," + hx::J((ll)m.activeClock) + "," + hx::J(since(m.launchTime)) + "," + hx::J(m.type) + "," + hx::J(m.mission) + "," + hx::J((ll)m.norad);
            std::vector<std::string> c; for (auto& z : m.clocks) c.push_back(SatMetaData::asString(z));
            return Raw(o + "," + hx::J(c) + "]");
         };
         int c = r.in(0, 2);
         if (c == 0)
         {
            ll prn = r.chance(10) ? r.in(0, 6) : x.prn; std::string sv; note("findSat"); ok = r.chance(50) ? st.findSat(ss, prn, w, m) : st.findSat(SatID(prn, ss), w, m); bool got = st.getSVN(SatID(prn, ss), w, sv);
            Ev("sat").f("sys", x.sys).f("prn", prn).f("t", t).f("ret", ok).f("r", full()).f("got", got).f("svn", sv).end();
         }
         else if (c == 1)
         {
            uint32_t prn = 0; note("findSatBySVN"); ok = st.findSatBySVN(ss, x.svn, w, m); bool got = st.getPRN(ss, x.svn, w, prn);
            Ev("satsvn").f("sys", x.sys).f("svn", x.svn).f("t", t).f("ret", ok).f("r", full()).f("got", got).f("prn", (ll)prn).end();
         }
         else
         {
            ll sl = r.chance(10) ? r.in(0, 4) : x.slot, ch = r.chance(10) ? r.in(-7, 6) : x.chl; note("findSatBySlotFdma"); ok = st.findSatBySlotFdma(sl, ch, w, m);
            Ev("satslot").f("slot", sl).f("chl", ch).f("t", t).f("ret", ok).f("r", full()).end();
         }
      }
   }
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r)
   {
      while (trace().n < args().size)
      {
         Ev("new").end();
         switch (r.in(0, 3)) { case 0: weather(r); break; case 1: iono(r); break; case 2: numbers(r); break; default: meta(r); }
      }
   });
}
