// C16: PackedNavBits as a sequence of bits with metadata.
#include "hx.hpp"
#include <cmath>
#include <memory>
#include "PackedNavBits.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace hx;
typedef PackedNavBits P;
static std::string b64(uint64_t v) { std::string o; for (int i = 63; i >= 0; i--) o += (v >> i) & 1 ? '1' : '0'; return o; }
static std::string content(const P& p)
{ std::string o; for (size_t i = 0; i < p.getNumBits(); i++) o += p.asBool(i) ? '1' : '0'; return o; }
struct Meta { int sat, obs, rx, time, nav; };
static const std::vector<SatID> sats = { SatID(), SatID(1, SatelliteSystem::GPS), SatID(2, SatelliteSystem::GPS), SatID(1, SatelliteSystem::Galileo) };
static const std::vector<ObsID> obss = { ObsID(), ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA),
   ObsID(ObservationType::NavMsg, CarrierBand::L2, TrackingCode::L2CML), ObsID(ObservationType::NavMsg, CarrierBand::L5, TrackingCode::L5I) };
static const std::vector<std::string> rxs = { "", "rx1", "rx2", "rx10" };
static const std::vector<NavType> navs = { NavType::Unknown, NavType::GPSLNAV, NavType::GPSCNAVL2, NavType::GPSCNAVL5 };
static CommonTime tm(int i)
{
   CommonTime t = CommonTime::BEGINNING_OF_TIME; t.setTimeSystem(TimeSystem::GPS);
   if (i == 1) t = GPSWeekSecond(1600, 518400, TimeSystem::GPS).convertToCommonTime();
   if (i == 2) t = GPSWeekSecond(1600, 518400.5, TimeSystem::GPS).convertToCommonTime();
   if (i == 3) { t = GPSWeekSecond(1600, 518400, TimeSystem::GPS).convertToCommonTime(); t.setTimeSystem(TimeSystem::BDT); }
   return t;
}
template <class T> static int idx(const std::vector<T>& v, const T& x) { for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return i; return -1; }
static Raw mj(const Meta& m) { std::string o = "{"; o += "\"sat\":" + J(m.sat) + ",\"obs\":" + J(m.obs) + ",\"rx\":" + J(m.rx) + ",\"time\":" + J(m.time) + ",\"nav\":" + J(m.nav) + "}"; return Raw(o); }
static Raw got(const P& p)
{
   Meta m = { idx(sats, p.getsatSys()), idx(obss, p.getobsID()), idx(rxs, p.getRxID()), -1, idx(navs, p.getNavID().navType) };
   for (int i = 0; i < 4; i++)
   {
      CommonTime a = tm(i), b = p.getTransmitTime();
      if (a.getTimeSystem() == b.getTimeSystem() && a == b) m.time = i;
   }
   return mj(m);
}
static uint64_t value(Rng& r, int n)    // around the limits of n bits, or anywhere
{
   uint64_t top = n >= 64 ? 0 : 1ULL << n;
   switch (r.in(0, 7))
   {
      case 0: return top - 1;
      case 1: return top;
      case 2: return (top >> 1) - (n == 64 ? 0 : 0);
      case 3: return (n == 64 ? 1ULL << 63 : top >> 1) - 1;
      case 4: return r.in(0, 3);
      case 5: return top + r.next() % 1000;
      default: return n >= 64 ? r.next() : r.next() % top;
   }
}
static Raw parts(const std::vector<unsigned>& b, const std::vector<unsigned>& n)
{ std::string o = "["; for (size_t i = 0; i < b.size(); i++) o += (i ? "," : "") + ("[" + J((ll)(int)b[i]) + "," + J((ll)n[i]) + "]"); return Raw(o + "]"); }
static std::vector<std::string> hexes(const std::string& s, size_t from)
{
   std::vector<std::string> o; size_t p = from;
   while ((p = s.find("0x", p)) != std::string::npos) { size_t e = s.find_first_not_of("0123456789ABCDEFabcdef", p + 2); std::string h = s.substr(p + 2, e == std::string::npos ? e : e - p - 2); for (auto& c : h) c = toupper(c); o.push_back(h); p += 2; }
   return o;
}
static void history(Rng& r)
{
   Ev("new").end();
   std::vector<std::unique_ptr<P>> M(5);
   std::vector<Meta> meta(5, Meta{0, 0, 0, 0, 0});
   for (int o = 1; o <= 4; o++) { M[o].reset(new P); }
   auto mk = [&](int o)
   {
      Meta m = { (int)r.in(0, 3), (int)r.in(0, 3), (int)r.in(0, 3), (int)r.in(0, 3), (int)r.in(0, 3) };
      if (o > 1 && r.chance(60)) { m = meta[1]; if (r.chance(50)) switch (r.in(0, 4)) { case 0: m.sat = r.in(0, 3); break; case 1: m.obs = r.in(0, 3); break; case 2: m.rx = r.in(0, 3); break; case 3: m.time = r.in(0, 3); break; default: m.nav = r.in(0, 3); } }
      switch (r.in(0, 3))
      {
         case 0: M[o].reset(new P(sats[m.sat], obss[m.obs], NavID(navs[m.nav]), rxs[m.rx], tm(m.time))); break;
         case 1: m.nav = 0; M[o].reset(new P(sats[m.sat], obss[m.obs], rxs[m.rx], tm(m.time))); break;
         case 2: m.nav = m.rx = 0; M[o].reset(new P(sats[m.sat], obss[m.obs], tm(m.time))); break;
         default: M[o].reset(new P()); m = Meta{0, 0, 0, 0, 0};
      }
      meta[o] = m;
      Ev("mk").f("o", o).f("meta", mj(m)).f("got", got(*M[o])).f("c", content(*M[o])).f("len", (ll)M[o]->getNumBits()).end();
   };
   for (int o = 1; o <= 4; o++) mk(o);
   int n = r.in(8, 40);
   bool wide = r.chance(15);
   for (int i = 0; i < n; i++)
   {
      int o = r.in(1, 4), q = r.in(1, 4); P& p = *M[o];
      int len = p.getNumBits();
      int what = r.in(0, 99);
      if (len == 0 && r.chance(50)) what = r.in(0, 30);
      if (what < 24)
      {
         int k = r.in(0, 4), w = r.chance(70) ? r.in(1, 33) : r.in(1, 64); std::string x;
         if (wide && r.chance(50)) w = 64;
         Ev e("add");
         if (k == 0)
         {
            int sc = r.chance(70) ? 1 : r.pick(std::vector<int>{2, 3, 6, 16, 300, 4096});
            uint64_t v = value(r, w); if (sc > 1 && v < (1ULL << 50)) v = v * sc + r.in(0, sc - 1);
            note("addUnsignedLong"); x = guard([&] { p.addUnsignedLong(v, w, sc); });
            e.f("op", "u").f("v", b64(v)).f("sc", sc);
         }
         else if (k == 1)
         {
            int sc = r.chance(70) ? 1 : r.pick(std::vector<int>{2, 3, 6, 16, 300, 4096});
            int64_t v = (int64_t)value(r, r.chance(50) ? w : std::max(1, w - 1)); if (r.chance(50)) v = (int64_t)(0 - (uint64_t)v);
            if (sc > 1 && std::llabs(v) < (1LL << 50)) v = v * sc + (v < 0 ? -r.in(0, sc - 1) : r.in(0, sc - 1));
            note("addLong"); x = guard([&] { p.addLong(v, w, sc); });
            e.f("op", "s").f("v", b64((uint64_t)v)).f("sc", sc);
         }
         else if (k < 4)
         {
            int pw = r.in(-60, 12), d = r.chance(20) ? 0 : r.in(-20, 4); w = std::min(w, 40);
            int64_t u = (int64_t)(value(r, w) & ((1ULL << 42) - 1));
            int64_t m = d >= 0 ? u >> d : (u << -d >> std::max(0, -d + 42 - 51)) + r.in(-(1LL << std::min(-d, 3)), 1LL << std::min(-d, 3));
            if (m < 0) m = 0;
            if (m >= (1LL << 48)) m >>= 10;
            if (k == 3 && r.chance(50)) m = -m;
            double v = std::ldexp((double)m, pw + d);
            note("addDouble"); x = guard([&] { if (k == 2) p.addUnsignedDouble(v, w, pw); else p.addSignedDouble(v, w, pw); });
            e.f("op", k == 2 ? "ud" : "sd").f("v", b64((uint64_t)m)).f("k", pw + d).f("p", pw);
         }
         else
         {
            int pw = r.in(-50, 0); w = std::min(w, 40);
            int64_t u = (int64_t)(value(r, r.chance(50) ? w : std::max(1, w - 1)) & ((1ULL << 41) - 1)); if (r.chance(50)) u = -u;
            double v = std::ldexp((double)u + 0.3 * r.in(-1, 1), pw) * M_PI;
            note("addDoubleSemiCircles"); x = guard([&] { p.addDoubleSemiCircles(v, w, pw); });
            e.f("op", "sc").f("v", b64((uint64_t)u));
         }
         e.f("o", o).f("n", w).f("x", x).f("c", content(p)).end();
      }
      else if (what < 28)
      {
         static const std::string ok = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789: \"'+-./\xf8", bad = "abz;,*&@[!#\n\xf7\x7f";
         std::string s; int k = r.in(0, 12); for (int j = 0; j < k; j++) s += r.chance(98) ? ok[r.in(0, ok.size() - 1)] : bad[r.in(0, bad.size() - 1)];
         int nc = r.chance(40) ? k : r.in(0, 14);
         note("addString"); std::string x = guard([&] { p.addString(s, nc); });
         std::vector<int> cs; for (unsigned char c : s) cs.push_back(c);
         Ev("text").f("o", o).f("codes", cs).f("n", nc).f("x", x).f("c", content(p)).end();
      }
      else if (what < 33)
      {
         if (len + (int)M[q]->getNumBits() > 2000) continue;
         note(o == q ? "addPackedNavBits self" : "addPackedNavBits"); std::string x = guard([&] { p.addPackedNavBits(*M[q]); });
         Ev("app").f("o", o).f("q", q).f("x", x).f("c", content(p)).end();
      }
      else if (what < 37)
      {
         int w = r.in(1, 40), b = r.in(0, std::max(0, len - w + (r.chance(15) ? 3 : 0))), sc = r.chance(70) ? 1 : 6; uint64_t v = value(r, w);
         note("insertUnsignedLong"); std::string x = guard([&] { p.insertUnsignedLong(v, b, w, sc); });
         Ev("ins").f("o", o).f("v", b64(v)).f("b", b).f("n", w).f("sc", sc).f("x", x).f("c", content(p)).end();
      }
      else if (what < 40)
      {
         if (len == 0) continue;
         int b = r.chance(30) ? 0 : r.in(0, len - 1), e = r.chance(25) ? -1 : r.chance(35) ? b : r.in(b, len - 1);
         int q2 = q; for (int k = 1; k <= 4 && r.chance(90); k++) if (k != o && M[k]->getNumBits() == p.getNumBits() && (q2 == q || r.chance(50))) q2 = k;
         q = q2;
         note("copyBits"); std::string x = guard([&] { p.copyBits(*M[q], b, e); });
         Ev("copyb").f("o", o).f("q", q).f("b", b).f("to", e).f("x", x).f("c", content(p)).end();
      }
      else if (what < 43) { note("invert"); p.invert(); Ev("inv").f("o", o).f("c", content(p)).end(); }
      else if (what < 46) { int k = r.chance(30) ? 0 : r.in(0, len); note("reset_num_bits"); if (k == 0 && r.chance(50)) p.reset_num_bits(); else p.reset_num_bits(k); Ev("reset").f("o", o).f("n", k).f("c", content(p)).end(); }
      else if (what < 50) { note("trimsize"); p.trimsize(); Ev("trim").f("o", o).f("c", content(p)).end(); }
      else if (what < 51) { note("clearBits"); p.clearBits(); Ev("clear").f("o", o).f("c", content(p)).end(); }
      else if (what < 57)
      {
         if (o == q) continue;
         note("copy");
         switch (r.in(0, 2)) { case 0: M[o].reset(new P(*M[q])); break; case 1: *M[o] = *M[q]; break; default: M[o].reset(M[q]->clone()); }
         meta[o] = meta[q];
         Ev("cpy").f("o", o).f("q", q).f("c", content(*M[o])).f("got", got(*M[o])).f("ps", (int)M[o]->parityStatus).end();
      }
      else if (what < 60)
      {
         Meta m = meta[o];
         switch (r.in(0, 4)) { case 0: m.sat = r.in(0, 3); p.setSatID(sats[m.sat]); break; case 1: m.obs = r.in(0, 3); p.setObsID(obss[m.obs]); break;
            case 2: m.rx = r.in(0, 3); p.setRxID(rxs[m.rx]); break; case 3: m.time = r.in(0, 3); p.setTime(tm(m.time)); break;
            default: m.nav = r.in(0, 3); p.setNavID(NavID(navs[m.nav])); }
         p.parityStatus = (P::ParityStatus)r.in(0, 2);
         meta[o] = m; Ev("meta").f("o", o).f("meta", mj(m)).f("ps", (int)p.parityStatus).f("got", got(p)).end();
      }
      else if (what < 63)
      {
         p.clearBits(); Ev("clear").f("o", o).f("c", content(p)).end();
         int nb = r.chance(20) ? r.in(880, 910) : r.in(1, 330), nw = (nb - 1) / 32 + 1; if (r.chance(10)) nw += r.chance(50) ? 1 : -1;
         std::string sep = r.pick(std::vector<std::string>{" ", "  ", ",", ", ", "\t"}), s = r.chance(20) ? "  " : ""; char b[40];
         snprintf(b, 40, r.chance(50) ? "%d" : "%04d", nb); s += b;
         std::string ws = "["; bool up = r.chance(60);
         for (int j = 0; j < nw; j++) { uint32_t w = r.next(); snprintf(b, 40, up ? "0x%08X" : "0x%08x", w); s += sep + b; ws += (j ? ",\"" : "\"") + b64(w).substr(32) + "\""; }
         if (r.chance(30)) s += " ";
         note("rawBitInput " + s); std::string x = guard([&] { p.rawBitInput(s); });
         Ev("raw").f("o", o).f("n", nb).f("ws", Raw(ws + "]")).f("x", x).f("c", content(p)).end();
      }
      else if (what < 78)
      {
         static const char* ops[] = { "u", "s", "ud", "sd", "sc", "sm", "smd", "smc" };
         int k = r.in(0, 7); bool split = k < 5 && r.chance(45); int np = split ? r.in(1, 3) : 1;
         std::vector<unsigned> b, w; int tot = 0, lim = k < 2 ? 64 : 50;
         for (int j = 0; j < np; j++)
         {
            int ww = r.in(k > 4 ? 2 : 1, std::max<int>(2, std::min(len, (lim - tot) / (np - j)))); if (k < 5 && r.chance(20)) ww = 1;
            if (np > 1) ww = std::min(ww, 63);
            int bb = r.in(0, std::max(0, len - ww)); if (r.chance(6)) bb = len - ww + r.in(1, 20); else if (!split && r.chance(3)) bb = -(int)r.in(1, ww + 2);
            b.push_back(bb); w.push_back(ww); tot += ww;
         }
         int sc = k < 2 || k == 5 ? (tot <= 40 && r.chance(30) ? r.pick(std::vector<int>{2, 3, 16, 300, 4096}) : 1) : 1, pw = r.in(-60, 12);
         uint64_t res = 0; bool exact = true; double v = 0; const int B = (int)b[0], W = (int)w[0];
         note("read " + std::string(ops[k]));
         std::string x = guard([&] {
            switch (k)
            {
               case 0: res = split ? p.asUnsignedLong(&b[0], &w[0], np, sc) : p.asUnsignedLong(B, W, sc); break;
               case 1: res = (uint64_t)(split ? p.asLong(&b[0], &w[0], np, sc) : p.asLong(B, W, sc)); break;
               case 2: v = split ? p.asUnsignedDouble(&b[0], &w[0], np, pw) : p.asUnsignedDouble(B, W, pw); break;
               case 3: v = split ? p.asSignedDouble(&b[0], &w[0], np, pw) : p.asSignedDouble(B, W, pw); break;
               case 4: v = split ? p.asDoubleSemiCircles(&b[0], &w[0], np, pw) : p.asDoubleSemiCircles(B, W, pw); break;
               case 5: res = (uint64_t)p.asSignMagLong(B, W, sc); break;
               case 6: v = p.asSignMagDouble(B, W, pw); break;
               default: v = p.asSignMagDoubleSemiCircles(B, W, pw);
            } });
         if (k == 4 || k == 7) { double u = std::ldexp(v / M_PI, -pw), ur = std::round(u); exact = std::fabs(u - ur) < 0.4 && std::fabs(u) < 1e17; res = exact ? (uint64_t)llround(ur) : 0; }
         else if (k == 2 || k == 3 || k == 6) { double u = std::ldexp(v, -pw); exact = u == std::floor(u) && std::fabs(u) < 1e17; res = exact ? (uint64_t)llround(u) : 0; }
         Ev("rd").f("o", o).f("op", ops[k]).f("parts", parts(b, w)).f("sc", sc).f("x", x).f("r", b64(res)).f("exact", exact).end();
      }
      else if (what < 81)
      {
         unsigned b = r.chance(70) && len ? r.in(0, len - 1) : len + r.in(0, 40); bool v = false;
         note("asBool"); std::string x = guard([&] { v = p.asBool(b); });
         Ev("bool").f("o", o).f("b", (int)b).f("x", x).f("r", v).end();
      }
      else if (what < 84)
      {
         int k = r.in(0, 8), b = r.in(0, std::max(0, len - 8 * k + (r.chance(10) ? 5 : 0))); std::string s;
         note("asString"); std::string x = guard([&] { s = p.asString(b, k); });
         std::vector<int> cs; for (unsigned char c : s) cs.push_back(c);
         Ev("str").f("o", o).f("b", b).f("n", k).f("codes", cs).f("x", x).end();
      }
      else if (what < 95)
      {
         P& t = *M[q]; int b = r.chance(40) ? 0 : r.in(-2, len + 3), e = r.chance(40) ? -1 : r.in(std::max(b, 0), std::max(b, 0) + len + 5); unsigned fl = r.in(0, 31); if (r.chance(30)) fl = 1 << r.in(0, 4);
         bool lt = 0, gt = 0, mb = 0, mm = 0, ma = 0, eq = 0;
         unsigned bits = (fl & 1 ? P::mmSAT : 0) | (fl & 2 ? P::mmOBS : 0) | (fl & 4 ? P::mmRX : 0) | (fl & 8 ? P::mmTIME : 0) | (fl & 16 ? P::mmNAV : 0);
         note("compare");
         std::string x = guard([&] { lt = p < t; gt = t < p; mb = p.matchBits(t, b, e); mm = p.matchMetaData(t, bits); ma = p.match(t, b, e, bits); eq = p == t; });
         Ev("cmp").f("o", o).f("q", q).f("b", b).f("to", e).f("flags", (int)fl).f("x", x).f("lt", lt).f("gt", gt).f("mb", mb).f("mm", mm).f("ma", ma).f("eq", eq).end();
      }
      else if (what < 98)
      {
         int w = len % 30 == 0 && r.chance(50) ? 30 : 32, per = r.pick(std::vector<int>{1, 4, 10, 1000}); std::stringstream ss; std::string de = r.pick(std::vector<std::string>{" ", ",", ";"});
         note("outputPackedBits"); int rv = p.outputPackedBits(ss, per, de[0], w);
         std::vector<int> ln; std::string s = ss.str(), t; std::stringstream s2(s); while (getline(s2, t)) ln.push_back((int)hexes(t, 0).size());
         Ev("out").f("o", o).f("per", per).f("w", w).f("ws", hexes(s, 0)).f("lines", ln).f("r", rv).end();
      }
      else
      {
         std::stringstream ss; note("dump"); p.dump(ss);
         std::string s = ss.str(); size_t at = s.find("Packed Bits"); 
         Ev("dump").f("o", o).f("ws", hexes(s, at == std::string::npos ? 0 : at)).end();
      }
   }
}
int main(int argc, char** argv) { return run(argc, argv, [](Rng& r) { while (trace().n < args().size) history(r); }); }
