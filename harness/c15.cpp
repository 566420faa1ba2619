// C15: GPS legacy navigation message: parity, pages, layouts, weeks, collections.
#include "hx.hpp"
#include <cmath>
#include "EngNav.hpp"
#include "EngEphemeris.hpp"
#include "EngAlmanac.hpp"
#include "AlmOrbit.hpp"
using namespace gpstk; using namespace hx;
typedef uint32_t W; typedef std::vector<W> SF;
static const long E0 = 2444245;
static Raw ws(const CommonTime& t)
{
   long d; double s; TimeSystem ts; t.get(d, s, ts); d -= E0;
   ll w = d >= 0 ? d / 7 : -((6 - d) / 7); ll dd = d - w * 7;
   if (s != floor(s)) return Raw("[-1,-1]");
   return Raw("[" + J(w) + "," + J(dd * 86400 + (ll)s) + "]");
}
// readings of a number: exponent of pi, sign, digits of the odd mantissa (at most 32), exponent of two
static std::string num(double v)
{
   if (v == 0) return "[[0,0,\"0\",0]]";
   std::string o = "[";
   static const int ks[] = { 0, 1, -1, -2, -3 };
   for (int k : ks)
   {
      double m = std::fabs(v) * std::pow(M_PI, -k); int e; double f = std::frexp(m, &e);
      if (!(m > 0) || std::isinf(m)) continue;
      ll x = llround(std::ldexp(f, 40)); int z = 0;
      while (x % 2 == 0) { x /= 2; z++; }
      if (x >> 32) continue;
      std::string b; for (ll y = x; y; y /= 2) b = (y % 2 ? "1" : "0") + b;
      o += (o.size() > 1 ? "," : "") + ("[" + J((ll)k) + "," + (v < 0 ? "1" : "0") + ",\"" + b + "\"," + J((ll)(e - 40 + z)) + "]");
   }
   return o + "]";
}
static std::string opt(std::function<double()> f) { double v = 0; return guard([&] { v = f(); }) == "ok" ? num(v) : std::string("[]"); }
static Raw arr(const SF& s) { std::string o = "["; for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + J((ll)s[i]); return Raw(o + "]"); }
static int bit(W w, int i) { return (w >> (30 - i)) & 1; }
// the harness's own encoder
static W parity(W d, W p)
{
   static const char* rows[6] = { "1,2,3,5,6,10,11,12,13,14,17,18,20,23", "2,3,4,6,7,11,12,13,14,15,18,19,21,24", "1,3,4,5,7,8,12,13,14,15,16,19,20,22",
      "2,4,5,6,8,9,13,14,15,16,17,20,21,23", "1,3,5,6,7,9,10,14,15,16,17,18,21,22,24", "3,5,6,8,9,10,11,13,15,19,22,23,24" };
   static const int star[6] = { 29, 30, 29, 30, 30, 29 };
   W o = 0;
   for (int k = 0; k < 6; k++)
   {
      int s = bit(p, star[k]); std::stringstream ss(rows[k]); std::string t;
      while (getline(ss, t, ',')) s ^= bit(d, atoi(t.c_str()));
      o = o * 2 + s;
   }
   return o;
}
static void encode(SF& s, bool up)
{
   W p = 0;
   for (auto& w : s)
   {
      W d = w & 0x3fffffc0, q = parity(d, p);
      if (!up && (p & 1)) d = ~d & 0x3fffffc0;
      w = d | q; p = w;
   }
}
static W rw(Rng& r)
{
   switch (r.in(0, 4)) {
      case 0: return (W)1 << r.in(0, 29);
      case 1: return 0x3fffffff ^ ((W)1 << r.in(0, 29));
      default: return (W)r.in(0, 0x3fffffff);
   }
}
static void set(SF& s, int b, int n, W v)
{
   for (int i = 0; i < n; i++) { int q = b + i - 1; W m = (W)1 << (29 - q % 30); if ((v >> (n - 1 - i)) & 1) s[q / 30] |= m; else s[q / 30] &= ~m; }
}
static SF sub(Rng& r, int id, int sv, ll tow)
{
   SF s(10); bool z = r.chance(10); for (auto& w : s) w = z ? (r.chance(50) ? 0 : 0x3fffffff) : rw(r);
   set(s, 1, 8, 0x8b); set(s, 31, 17, (W)tow); set(s, 50, 3, id); if (sv >= 0) set(s, 63, 6, sv);
   if (id == 4 || id == 5) set(s, 257, 5, 0);      // a day number is at most 7
   return s;
}
static ll towOf(Rng& r) { return r.chance(25) ? r.pick(std::vector<ll>{0, 1, 100799, 50400, 50399, 50401, 2, 3}) : r.in(0, 100799); }
static std::string bl(bool b) { return b ? "true" : "false"; }

static void parityOps(Rng& r)
{
   for (int k = 0; k < 3; k++)
   {
      W w = rw(r), p = r.chance(40) ? (W)r.in(0, 3) : rw(r); bool up = r.chance(50), nib = r.chance(50);
      Ev("par").f("w", (ll)w).f("p", (ll)p).f("up", up).f("r", (ll)EngNav::computeParity(w, p, up)).end();
      Ev("fix").f("w", (ll)w).f("p", (ll)p).f("nib", nib).f("up", up).f("r", (ll)EngNav::fixParity(w, p, nib, up)).end();
   }
   SF s = sub(r, (int)r.in(0, 7), -1, towOf(r)); bool up = r.chance(50), enc = r.chance(60) ? up : !up; encode(s, enc);
   for (ll k = r.in(0, 3); k > 0; k--) s[r.in(0, 9)] ^= (W)1 << r.in(0, 29);
   long o[10]; for (int i = 0; i < 10; i++) o[i] = s[i];
   Ev("chk").f("sf", arr(s)).f("up", up).f("r", EngNav::checkParity(&s[0], up)).f("rv", EngNav::checkParity(s, up)).f("old", EngNav::subframeParity(o)).end();
}
static void pages(Rng& r)
{
   for (int k = 0; k < 2; k++)
   {
      SF s = sub(r, (int)(r.chance(70) ? r.in(4, 5) : r.in(0, 7)), (int)r.in(0, 63), towOf(r));
      long o[10]; for (int i = 0; i < 10; i++) o[i] = s[i];
      note("pattern");
      Ev("pat").f("sf", arr(s)).f("r", (ll)EngNav::getSubframePattern(&s[0])).f("rl", (ll)EngNav::getSubframePattern(o))
         .f("id", (ll)EngNav::getSFID(s[1])).f("tow", (ll)EngNav::getTOW(s[1])).f("how", (ll)EngNav::getHOWTime(s[1])).end();
   }
   short a = 0, b = 0; short sv = (short)r.in(-2, 70); bool ok = EngNav::sv2page(sv, a, b);
   Ev("s2p").f("sv", (ll)sv).f("r", ok).f("sf", (ll)a).f("page", (ll)b).end();
   short sf = (short)(r.chance(85) ? r.in(4, 5) : r.in(0, 7)), pg = (short)r.in(-1, 27), out = 0; ok = EngNav::sfpage2svid(sf, pg, out);
   Ev("p2s").f("sf", (ll)sf).f("page", (ll)pg).f("r", ok).f("sv", (ll)out).end();
   ll z = r.chance(60) ? towOf(r) * 4 : r.chance(60) ? 500 * r.in(0, 805) + r.in(0, 24) : r.in(4, 403199); if (z < 4) z = 0;
   ok = EngNav::zcount2page((unsigned long)z, a, b);
   Ev("z").f("z", z).f("r", ok).f("sf", (ll)a).f("page", (ll)b).end();
}
static void convert(Rng& r)
{
   static const std::vector<int> special = { 51, 52, 55, 56, 56, 56, 57, 58, 62, 63, 63 };
   int id = (int)r.in(1, 5); SF s = sub(r, r.chance(5) ? 0 : id, id < 4 ? -1 : r.chance(60) ? r.pick(special) : (int)r.in(0, 63), towOf(r));
   if (r.chance(50)) encode(s, true);
   short week = (short)(r.chance(20) ? r.pick(std::vector<int>{1023, 1024, 2047, 2048, 1535, 1536, 2175}) : r.in(1100, 3000));
   double o[60], ol[60]; for (int i = 0; i < 60; i++) o[i] = ol[i] = 77;
   long in[10]; for (int i = 0; i < 10; i++) in[i] = s[i];
   EngNav init; note("convert");
   bool ok = EngNav::subframeConvert(&s[0], week, o), okl = EngNav::subframeConvert(in, (int)week, ol);
   if (ok) for (int i = 0; i < 60; i++) if (ol[i] != o[i]) okl = false;
   std::string q = "["; if (ok) for (int i = 0; i < 47; i++) q += (i ? "," : "") + num(o[i]);
   Ev("conv").f("sf", arr(s)).f("week", (ll)week).f("r", ok).f("rl", okl).f("out", Raw(q + "]")).end();
}
static void weeks(Rng& r)
{
   for (int k = 0; k < 3; k++)
   {
      bool t8 = r.chance(50); short m = t8 ? 256 : 1024, full = (short)(r.chance(30) ? m * r.in(0, 3) + r.in(0, 3) : r.in(0, 3200)), part = (short)r.in(0, m - 1);
      if (r.chance(40)) part = (short)(((full + m / 2 + r.in(-2, 2)) % m + m) % m);
      double d = part; bool ok = t8 ? EngNav::convert8bit((int)full, &d) : EngNav::convert10bit((int)full, &d);
      Ev("xbit").f("full", (ll)full).f("part", (ll)part).f("mod", (ll)m).f("r", (ll)EngNav::convertXBit(full, part, t8 ? EngNav::BITS8 : EngNav::BITS10)).f("rd", ok ? (ll)d : -9999).end();
   }
}
static void nmct(Rng& r)
{
   SF s = sub(r, r.chance(85) ? 2 : (int)r.in(0, 7), -1, towOf(r));
   ll how = EngNav::getHOWTime(s[1]);
   ll toe = r.chance(60) ? ((how + r.in(-2, 2) * 7200) / 7200 * 7200 + (r.chance(30) ? 604784 - 604784 % 16 : 0)) : r.chance(50) ? (how + 302400 + r.in(-3, 3) * 16) : r.in(0, 37799) * 16;
   toe = ((toe % 604800) + 604800) % 604800; if (r.chance(40)) toe -= toe % 7200; set(s, 271, 16, (W)(toe / 16)); if (r.chance(20)) set(s, 288, 5, 31);
   ll week = r.in(1, 2300); uint32_t ao = 0; CommonTime tn, te, tt; bool ok = false; NMCTMeta m;
   std::string x = guard([&] { ok = EngNav::getNMCTValidity(&s[0], (unsigned)week, ao, tn, te, tt); bool k2 = EngNav::getNMCTValidity(&s[0], (unsigned)week, m);
      if (k2 != ok || m.aodo != ao || m.tot != tt || m.toe != te || m.tnmct != tn) ao = 1; });
   Ev e("nmct"); e.f("sf", arr(s)).f("week", week).f("x", x);
   if (x == "ok") e.f("ok", ok).f("aodo", (ll)ao).f("tnmct", ws(tn)).f("toe", ws(te)).f("tot", ws(tt));
   e.end();
}
static void eget(EngEphemeris& p)
{
   Ev e("eget"); std::string h = "[";
   for (short k = 1; k <= 3; k++) h += (k > 1 ? "," : "") + bl(p.isData(k));
   e.f("have", Raw(h + "]")).f("set", p.isDataSet());
   std::vector<std::pair<const char*, std::function<double()>>> g = {
      {"tlm1", [&] { return (double)p.getTLMMessage(1); }}, {"tlm2", [&] { return (double)p.getTLMMessage(2); }}, {"tlm3", [&] { return (double)p.getTLMMessage(3); }},
      {"how1", [&] { return p.getHOWTime(1); }}, {"how2", [&] { return p.getHOWTime(2); }}, {"how3", [&] { return p.getHOWTime(3); }},
      {"as1", [&] { return (double)p.getASAlert(1); }}, {"as2", [&] { return (double)p.getASAlert(2); }}, {"as3", [&] { return (double)p.getASAlert(3); }},
      {"code", [&] { return (double)p.getCodeFlags(); }}, {"acc", [&] { return (double)p.getAccFlag(); }}, {"health", [&] { return (double)p.getHealth(); }},
      {"l2p", [&] { return (double)p.getL2Pdata(); }}, {"tgd", [&] { return p.getTgd(); }}, {"toc", [&] { return p.getToc(); }}, {"af0", [&] { return p.getAf0(); }},
      {"af1", [&] { return p.getAf1(); }}, {"af2", [&] { return p.getAf2(); }}, {"crs", [&] { return p.getCrs(); }}, {"dn", [&] { return p.getDn(); }}, {"m0", [&] { return p.getM0(); }},
      {"cuc", [&] { return p.getCuc(); }}, {"ecc", [&] { return p.getEcc(); }}, {"cus", [&] { return p.getCus(); }}, {"ahalf", [&] { return p.getAhalf(); }}, {"toe", [&] { return p.getToe(); }},
      {"fiti", [&] { return (double)p.getFitInt(); }}, {"aodo", [&] { return (double)p.getAODO(); }}, {"cic", [&] { return p.getCic(); }}, {"omega0", [&] { return p.getOmega0(); }},
      {"cis", [&] { return p.getCis(); }}, {"i0", [&] { return p.getI0(); }}, {"crc", [&] { return p.getCrc(); }}, {"w", [&] { return p.getW(); }},
      {"omegadot", [&] { return p.getOmegaDot(); }}, {"idot", [&] { return p.getIDot(); }} };
   std::string v = "{"; for (auto& q : g) v += std::string(v.size() > 1 ? "," : "") + "\"" + q.first + "\":" + opt(q.second);
   ll c = -1, i = -1; guard([&] { c = p.getIODC(); }); guard([&] { i = p.getIODE(); });
   e.f("v", Raw(v + "}")).f("iodc", c).f("iode", i);
   if (p.isData(1) && p.isData(2) && p.isData(3))
      e.f("prn", (ll)p.getPRNID()).f("track", (ll)p.getTracker()).f("week", (ll)p.getFullWeek()).f("toe", ws(p.getEphemerisEpoch())).f("toc", ws(p.getEpochTime()))
         .f("begin", ws(p.getOrbit().getBeginningOfFitInterval())).f("end", ws(p.getOrbit().getEndOfFitInterval())).f("tx", ws(p.getTransmitTime()));
   e.end();
}
static void ephemeris(Rng& r)
{
   EngEphemeris p; std::vector<int> ids = { 1, 2, 3 };
   ll frame = r.chance(30) ? r.pick(std::vector<ll>{0, 20159, 10080, 10079, 1, 20158}) : r.in(0, 20159), week = r.in(1100, 2800), toe = -1;
   for (int set_ = 0; set_ < 2; set_++)
   {
      r.shuffle(ids); bool same = r.chance(75);
      toe = (frame * 30 + r.pick(std::vector<ll>{0, 7200, 3600, -7200, 302400, 302384, 302416, 14400}) + r.in(-3, 3) * 16 + 604800) % 604800 / 16;
      ll iod = r.in(0, 255), hi = r.in(0, 3);
      auto fill = [&](SF& s, int id) {
         // the fit flag with an IODC no block assigns an interval to is refused
         if (id == 1 && r.chance(70)) set(s, 83, 2, (W)r.in(0, 1));
         if (id == 1 && bit(s[2], 23) == 1) set(s, 211, 8, (W)r.in(0, 239));
         if (hi >= 2 && iod >= 240) hi = 1;
         if (id == 1 && !same) set(s, 219, 16, (W)r.in(0, 37799));     // an epoch past the end of the week is no valid ephemeris
         if (id == 2 && !same) set(s, 271, 16, (W)r.in(0, 37799));
         if (!same) return;
         if (id == 1) { set(s, 83, 2, (W)hi); set(s, 211, 8, (W)iod); set(s, 219, 16, (W)((toe + r.in(-2, 2) + 37800) % 37800)); }
         if (id == 2) { set(s, 61, 8, (W)iod); set(s, 271, 16, (W)toe); }
         if (id == 3) set(s, 271, 8, (W)iod);
      };
      ll prn = r.in(1, 32), track = r.in(0, 11);
      if (r.chance(15))
      {
         ll sow = frame * 30 + (r.chance(30) ? r.in(0, 29) : 0); SF s[3]; std::string q = "["; W w[3][8];
         for (int k = 0; k < 3; k++)
         {
            s[k] = sub(r, k + 1, -1, 0); fill(s[k], k + 1); SF t(s[k].begin() + 2, s[k].end()); for (int i = 0; i < 8; i++) w[k][i] = t[i];
            q += (k ? "," : "") + (std::string)arr(t).s;
         }
         bool ok = false; note("addIncomplete"); std::string x = guard([&] { ok = p.addIncompleteSF1Thru3(w[0], w[1], w[2], (long)sow, (int)week, (short)prn, (short)track); });
         Ev("einc").f("s", Raw(q + "]")).f("sow", sow).f("week", week).f("prn", prn).f("track", track).f("x", x).f("r", ok).end();
         eget(p); return;
      }
      for (int id : ids)
      {
         SF s = sub(r, r.chance(4) ? (int)r.pick(std::vector<int>{0, 4, 5, 6, 7}) : id, -1, (frame * 5 + id) % 100800); fill(s, id);
         int how = (int)r.in(0, 1); bool ok = false; note("addSubframe");
         std::string x;
         if (how == 0) { if (r.chance(50)) encode(s, true); x = guard([&] { ok = p.addSubframe(&s[0], (int)week, (short)prn, (short)track); }); }
         else
         {
            W t[10]; for (int i = 0; i < 10; i++) { s[i] &= 0x3fffffc0; t[i] = (s[i] >> 6) | (r.chance(20) ? (W)r.in(0, 255) << 24 : 0); }
            x = guard([&] { ok = p.addSubframeNoParity(t, (int)week, (short)prn, (short)track); });
         }
         Ev("eput").f("sf", arr(s)).f("week", week).f("prn", prn).f("track", track).f("x", x).f("r", ok).end();
         if (r.chance(60)) eget(p);
      }
      eget(p);
      if (r.chance(70)) return;
      frame = (frame + 1) % 20159;
   }
}
static void orb(EngAlmanac& a, int prn)
{
   SatID s(prn, SatelliteSystem::GPS); Ev e("orb"); e.f("prn", (ll)prn).f("is", a.isData(s));
   std::vector<std::pair<const char*, std::function<double()>>> g = {
      {"ecc", [&] { return a.getEcc(s); }}, {"toa", [&] { return a.getToa(s); }}, {"ioff", [&] { return a.getIOffset(s); }}, {"omegadot", [&] { return a.getOmegadot(s); }},
      {"health", [&] { return (double)a.getSVHealth(s); }}, {"ahalf", [&] { return a.getAhalf(s); }}, {"omega0", [&] { return a.getOmega0(s); }}, {"w", [&] { return a.getW(s); }},
      {"m0", [&] { return a.getM0(s); }}, {"af0", [&] { return a.getAf0(s); }}, {"af1", [&] { return a.getAf1(s); }}, {"xmit", [&] { return a.getXmitTime(s); }} };
   std::string v = "{", x = "ok"; for (auto& q : g) { std::string o = opt(q.second); if (o == "[]") x = "missing"; v += std::string(v.size() > 1 ? "," : "") + "\"" + q.first + "\":" + o; }
   e.f("v", Raw(v + "}")).f("x", x);
   if (x == "ok") { AlmOrbit o = a.getAlmOrbElem(s); e.f("toa", ws(o.getToaTime())).f("tx", ws(o.getTransmitTime())).f("week", (ll)a.getFullWeek(s)); }
   e.end();
}
static void gen(EngAlmanac& a)
{
   Ev e("gen"); std::string h = "[", c = "[";
   for (int p = 1; p <= 32; p++)
   {
      SatID s(p, SatelliteSystem::GPS); ll x = -1, y = -1; guard([&] { x = a.get6bitHealth(s); }); guard([&] { y = a.getSVConfig(s); });
      h += (p > 1 ? "," : "") + J(x); c += (p > 1 ? "," : "") + J(y);
   }
   e.f("h6", Raw(h + "]")).f("cfg", Raw(c + "]")).f("week", (ll)a.getAlmWeek()).f("toa", (ll)a.getToa());
   double al[4], be[4], a0, a1, dl, df; long tot; int wt, wl, dn;
   std::string x = guard([&] { a.getIon(al, be); a.getUTC(a0, a1, dl, tot, wt, wl, dn, df); }); e.f("x", x);
   if (x == "ok")
   {
      std::vector<std::pair<std::string, double>> g = { {"A0", a0}, {"A1", a1}, {"dtls", dl}, {"tot", (double)tot}, {"wnt", wt}, {"wnlsf", wl}, {"dn", dn}, {"dtlsf", df} };
      for (int i = 0; i < 4; i++) { g.push_back({"a" + std::to_string(i), al[i]}); g.push_back({"b" + std::to_string(i), be[i]}); }
      std::string v = "{"; for (auto& q : g) v += std::string(v.size() > 1 ? "," : "") + "\"" + q.first + "\":" + num(q.second);
      e.f("v", Raw(v + "}"));
   }
   e.end();
}
static void almanac(Rng& r)
{
   EngAlmanac a; ll week = r.in(1100, 2800);
   for (ll n = r.in(4, 14); n > 0; n--)
   {
      int k = (int)r.in(0, 9), prn = (int)r.in(1, r.chance(60) ? 4 : 32);
      int sv = k < 4 ? prn : k == 4 ? 51 : k == 5 ? 56 : k == 6 ? 63 : (int)r.in(0, 63), id = k == 7 ? (int)r.in(0, 7) : sv == 51 || (sv >= 1 && sv <= 24) ? 5 : 4;
      SF s = sub(r, id, sv, towOf(r));
      if (r.chance(60)) set(s, 91, 8, (W)((EngNav::getHOWTime(s[1]) + r.pick(std::vector<ll>{250000, 302400, 310000, -100000, 0}) + 604800) % 604800 / 4096)); else set(s, 91, 8, (W)r.in(0, 147));
      if (sv == 51) set(s, 69, 8, (W)r.in(0, 147));
      if (r.chance(5)) set(s, 1, 8, (W)r.in(0, 255));
      if (r.chance(30)) encode(s, true);
      bool ok = false; note("alm.add"); std::string x;
      if (r.chance(50)) x = guard([&] { ok = a.addSubframe(&s[0], (short)week); });
      else { long o[10]; for (int i = 0; i < 10; i++) o[i] = s[i]; x = guard([&] { ok = a.addSubframe(o, (int)week); }); }
      Ev("aput").f("sf", arr(s)).f("week", week).f("x", x).f("r", ok).end();
      if (r.chance(50)) orb(a, sv >= 1 && sv <= 32 ? sv : (int)r.in(1, 32));
      if (r.chance(40)) gen(a);
      if (r.chance(15)) week += r.in(0, 1);
   }
   gen(a); for (int p = 1; p <= 4; p++) orb(a, p);
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      while (trace().n < args().size)
      {
         Ev("new").end();
         switch (r.in(0, 7)) {
            case 0: parityOps(r); break;
            case 1: pages(r); break;
            case 2: case 3: convert(r); convert(r); break;
            case 4: weeks(r); nmct(r); break;
            case 5: case 6: ephemeris(r); break;
            case 7: almanac(r); break;
         }
      }
   });
}
