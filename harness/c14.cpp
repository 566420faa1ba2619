// C14: RINEX navigation records <-> ephemeris objects.
#include "rec.hpp"
#include "Rinex3NavData.hpp"
#include "RinexNavData.hpp"
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "GloEphemeris.hpp"
#include "EngEphemeris.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace hx; using namespace rec;
typedef Rinex3NavData D3; typedef RinexNavData D2;
static const long E0 = 2444245; static const ll WK = 604800;
static double sv(Rng& r) { return (r.chance(45) ? -1 : 1) * (double)r.in(1000000, 9999999) * std::pow(10.0, r.in(-16, 0)); }
static CommonTime mk(ll w, ll s, TimeSystem ts) { CommonTime t; ll x = w * 7 + s / 86400; t.set(E0 + (long)x, (double)(s % 86400), ts); return t; }
static Raw ws(ll w, ll s) { return Raw("[" + J(w) + "," + J(s) + "]"); }
static Raw ws(const CommonTime& t)
{
   long d; double s; TimeSystem ts; t.get(d, s, ts); d -= E0;
   ll w = d >= 0 ? d / 7 : -((6 - d) / 7); ll dd = d - w * 7;
   double f = s - floor(s); if (f != 0) return ws(-1, -1);
   return ws(w, dd * 86400 + (ll)s);
}
static std::string tsn(const CommonTime& t) { return StringUtils::asString(t.getTimeSystem()); }
struct G { char s; int v, prn; ll tw, ts, toe, xw, xs, fit, iodc, health, acc, dsrc; };

template <class T> static void lorb(Rec& o, const T& d)
{
   o.sci("af0", "", d.af0).sci("af1", "", d.af1).sci("af2", "", d.af2).sci("Crs", "", d.Crs).sci("dn", "", d.dn).sci("M0", "", d.M0);
   o.sci("Cuc", "", d.Cuc).sci("ecc", "", d.ecc).sci("Cus", "", d.Cus).sci("Cic", "", d.Cic).sci("OM0", "", d.OMEGA0).sci("Cis", "", d.Cis);
   o.sci("i0", "", d.i0).sci("Crc", "", d.Crc).sci("w", "", d.w).sci("OMd", "", d.OMEGAdot).sci("idot", "", d.idot);
}
static Rec L(const D3& d)
{
   Rec o; lorb(o, d); o.sci("Ahalf", "", d.Ahalf);
   if (d.satSys == "G" || d.satSys == "J") o.i("IODE", "", llround((double)d.IODE)).i("IODC", "", llround((double)d.IODC)).sci("Tgd", "", d.Tgd).i("cf", "", d.codeflgs).i("l2p", "", d.L2Pdata);
   if (d.satSys == "E") o.i("IODn", "", llround((double)d.IODnav)).sci("Tgd", "", d.Tgd).sci("Tgd2", "", d.Tgd2).i("ds", "", d.datasources);
   if (d.satSys == "C") o.i("IODE", "", llround((double)d.IODE)).i("IODC", "", llround((double)d.IODC)).sci("Tgd", "", d.Tgd).sci("Tgd2", "", d.Tgd2);
   return o;
}
static Rec L(const D2& d)
{
   Rec o; lorb(o, d); o.sci("Ahalf", "", d.Ahalf);
   return o.i("IODE", "", llround((double)d.IODE)).i("IODC", "", llround((double)d.IODC)).sci("Tgd", "", d.Tgd).i("cf", "", d.codeflgs).i("l2p", "", d.L2Pdata);
}
static Rec Lo(const OrbitEph& d) { Rec o; lorb(o, d); o.sci("Ahalf", "", std::sqrt(d.A)); return o; }
static Rec L(const GPSEphemeris& d) { return Lo(d).i("IODE", "", d.IODE).i("IODC", "", d.IODC).sci("Tgd", "", d.Tgd).i("cf", "", d.codeflags).i("l2p", "", d.L2Pdata); }
static Rec L(const QZSEphemeris& d) { return Lo(d).i("IODE", "", d.IODE).i("IODC", "", d.IODC).sci("Tgd", "", d.Tgd).i("cf", "", d.codeflags).i("l2p", "", d.L2Pdata); }
static Rec L(const GalEphemeris& d) { return Lo(d).i("IODn", "", d.IODnav).sci("Tgd", "", d.Tgda).sci("Tgd2", "", d.Tgdb).i("ds", "", d.datasources); }
static Rec L(const BDSEphemeris& d) { return Lo(d).i("IODE", "", d.IODE).i("IODC", "", d.IODC).sci("Tgd", "", d.Tgd13).sci("Tgd2", "", d.Tgd23); }
static Rec L(const EngEphemeris& e)
{
   Rec o;
   o.sci("af0", "", e.getAf0()).sci("af1", "", e.getAf1()).sci("af2", "", e.getAf2()).sci("Crs", "", e.getCrs()).sci("dn", "", e.getDn()).sci("M0", "", e.getM0());
   o.sci("Cuc", "", e.getCuc()).sci("ecc", "", e.getEcc()).sci("Cus", "", e.getCus()).sci("Cic", "", e.getCic()).sci("OM0", "", e.getOmega0()).sci("Cis", "", e.getCis());
   o.sci("i0", "", e.getI0()).sci("Crc", "", e.getCrc()).sci("w", "", e.getW()).sci("OMd", "", e.getOmegaDot()).sci("idot", "", e.getIDot()).sci("Ahalf", "", e.getAhalf());
   return o.i("IODE", "", llround(e.getIODE())).i("IODC", "", llround(e.getIODC())).sci("Tgd", "", e.getTgd()).i("cf", "", e.getCodeFlags()).i("l2p", "", e.getL2Pdata());
}
static void put3(Ev& e, const D3& d)
{
   ll xw = (ll)d.weeknum + (d.satSys == "C" ? 1356 : 0);
   e.f("sys", d.satSys).f("prn", d.PRNID).f("sat", d.sat.id).f("toc", ws(d.time)).f("toe", hx::fx(d.Toe)).f("tocs", hx::fx(d.Toc)).f("tx", ws(xw, (ll)d.xmitTime));
   e.f("acc", (double)d.accuracy > 1e7 ? 999999999LL : hx::fx(d.accuracy, 100)).f("health", d.health).f("fit", hx::fx(d.fitint)).f("L", Raw(rec::J(L(d))));
}
template <class E> static ll accOf(const E& e) { double a = e.getAccuracy(); return a > 1e7 ? -1 : hx::fx(a, 100); }
template <class E> static void show(Rng& r, const E& e, const G& g)
{
   Ev v("eph"); v.f("x", "ok").f("loaded", e.dataLoadedFlag).f("sat", e.satID.id);
   v.f("toe", ws(e.ctToe)).f("toc", ws(e.ctToc)).f("tx", ws(e.transmitTime)).f("begin", ws(e.beginValid)).f("end", ws(e.endValid));
   v.f("ts", std::vector<std::string>{ tsn(e.ctToe), tsn(e.ctToc), tsn(e.transmitTime), tsn(e.beginValid), tsn(e.endValid) });
   v.f("healthy", e.isHealthy()).f("acc", accOf(e)).f("L", Raw(rec::J(L(e))));
   std::vector<Raw> at;
   for (int k = 0; k < 4; k++)
   {
      CommonTime t = k == 0 ? e.beginValid : k == 1 ? e.endValid : e.ctToc; t += (double)(k < 2 ? r.in(-1, 1) : r.in(-20000, 20000));
      at.push_back(Raw("[" + ws(t).s + "," + J(e.isValid(t)) + "]"));
   }
   v.f("at", at); v.end();
}
template <class E> static void conv(Rng& r, const D3& d, const G& g)
{
   E e; std::string x = guard([&] { e = E(d); });
   if (x != "ok") { Ev v("eph"); v.f("x", x); v.end(); return; }
   show(r, e, g);
   D3 b; x = guard([&] { b = D3(e); });
   Ev v("back"); v.f("x", x); if (x == "ok") put3(v, b); v.end();
}
static void eng(Rng& r, const EngEphemeris& e)
{
   Ev v("eng"); std::string x = guard([&]
   {
      BrcKeplerOrbit o = e.getOrbit();
      v.f("toe", ws(e.getEphemerisEpoch())).f("toc", ws(e.getEpochTime())).f("begin", ws(o.getBeginningOfFitInterval())).f("end", ws(o.getEndOfFitInterval())).f("tx", ws(e.getTransmitTime()));
      v.f("acc", e.getAccuracy() > 1e7 ? -1LL : hx::fx(e.getAccuracy(), 100)).f("health", e.getHealth()).f("L", Raw(rec::J(L(e))));
   });
   v.f("x", x); v.end();
   D3 b; x = guard([&] { b = D3(e); }); Ev w("engback"); w.f("x", x); if (x == "ok") put3(w, b); w.end();
}
static ll pickSow(Rng& r)
{
   ll s = r.chance(40) ? r.in(0, 3) * 7200 : r.chance(50) ? WK - r.in(1, 4) * 3600 : r.in(0, 167) * 3600;
   if (r.chance(30)) s += r.chance(50) ? -16 * r.in(1, 4) : 16 * r.in(1, 100);
   return ((s % WK) + WK) % WK;
}
template <class T> static void rorb(Rng& r, T& d)
{
   d.af0 = sv(r); d.af1 = sv(r); d.af2 = sv(r); d.Crs = sv(r); d.dn = sv(r); d.M0 = sv(r); d.Cuc = sv(r); d.ecc = sv(r); d.Cus = sv(r); d.Cic = sv(r); d.OMEGA0 = sv(r); d.Cis = sv(r);
   d.i0 = sv(r); d.Crc = sv(r); d.w = sv(r); d.OMEGAdot = sv(r); d.idot = sv(r); d.Ahalf = std::fabs(sv(r)); d.Tgd = sv(r);
}
int main(int argc, char** argv)
{
   return hx::run(argc, argv, [](Rng& r)
   {
      static const ll URA[] = {200, 240, 280, 340, 400, 485, 570, 685, 800, 965, 1130, 1365, 1600, 2400, 3200, 4800, 6400, 9600, 12800, 614400, 819200, 241, 341, 2401};
      static const char SYS[] = "GGGGECJR2E";
      while (trace().n < args().size)
      {
         Ev("new").end();
         char c = SYS[r.in(0, 9)]; G g; g.v = c == '2' ? 2 : 3; g.s = c == '2' ? 'G' : c;
         if (c == 'R')
         {
            D3 d; d.satSys = "R"; d.PRNID = r.in(1, 24); d.sat = RinexSatID(d.PRNID, SatelliteSystem::Glonass); d.time = mk(r.in(1, 4000), r.in(0, WK - 1), TimeSystem::GLO);
            d.TauN = sv(r); d.GammaN = sv(r); d.MFtime = r.in(0, WK - 1); d.health = r.in(0, 7); d.freqNum = r.in(-7, 13); d.ageOfInfo = sv(r);
            d.px = sv(r); d.py = sv(r); d.pz = sv(r); d.vx = sv(r); d.vy = sv(r); d.vz = sv(r); d.ax = sv(r); d.ay = sv(r); d.az = sv(r);
            auto fl = [](const D3& d) { Rec o; o.str("sys", "", d.satSys).str("sat", "", d.sat.toString()).i("prn", "", d.PRNID).raw("t", "", ws(d.time).s).str("ts", "", tsn(d.time));
               o.sci("a", "", d.TauN).sci("b", "", d.GammaN).i("c", "", d.MFtime).i("d", "", d.health).i("e", "", d.freqNum).sci("f", "", d.ageOfInfo);
               o.sci("px", "", d.px).sci("py", "", d.py).sci("pz", "", d.pz).sci("vx", "", d.vx).sci("vy", "", d.vy).sci("vz", "", d.vz).sci("ax", "", d.ax).sci("ay", "", d.ay).sci("az", "", d.az); return o; };
            GloEphemeris e(d); D3 b(e); { Ev v("glo"); v.f("a", Raw(rec::J(fl(d)))).f("b", Raw(rec::J(fl(b)))); v.end(); }
            GPSEphemeris w(d); Ev v("other"); v.f("loaded", w.dataLoadedFlag); v.end();
            continue;
         }
         g.prn = r.in(1, g.s == 'G' ? 32 : g.s == 'E' ? 36 : g.s == 'J' ? 7 : 37);
         g.tw = r.in(g.s == 'E' ? 1030 : g.s == 'C' ? 1400 : 2, 4000); g.ts = pickSow(r);
         ll T = g.tw * WK + g.ts, O = T, X;
         if (r.chance(25)) O += r.chance(50) ? 16 * r.in(-4, 4) : r.in(-3600, 3600);
         if (g.s == 'G' && r.chance(70)) X = T - (r.chance(60) ? 7200 : 10800) + 30 * r.in(-2, 240); else X = O + (r.chance(80) ? r.in(-14400, 14400) : r.in(-290000, 290000));
         if (r.chance(60)) X -= X % 30;
         if (g.v == 2 && g.s == 'G') X -= X % 30;
         g.toe = O % WK; g.xw = X / WK; g.xs = X % WK;
         g.fit = r.pick(std::vector<ll>{0, 0, 1, 4, 4, 6, 8, 2}); if (g.s == 'J') g.fit = r.pick(std::vector<ll>{0, 2, 4, 1}); if (g.s == 'E' || g.s == 'C') g.fit = 0;
         g.iodc = r.chance(50) ? r.in(0, 239) : r.chance(50) ? r.in(0, 1023) : r.pick(std::vector<ll>{239, 240, 247, 248, 255, 256, 496, 497, 503, 504, 510, 511, 752, 756, 1021, 1023});
         g.health = r.chance(50) ? 0 : g.s == 'E' ? r.in(0, 511) : r.in(0, 63); g.dsrc = r.pick(std::vector<ll>{1, 2, 4, 257, 258, 260, 513, 5, 517});
         g.acc = r.pick(std::vector<ll>(URA, URA + sizeof URA / sizeof *URA)); if (g.s == 'E' && r.chance(20)) g.acc = -100;
         bool useEng = g.s == 'G' && r.chance(40);
         if (useEng)
         {
            if (g.fit == 1) g.fit = 6; X -= X % 30; g.xw = X / WK; g.xs = X % WK;
            if ((g.iodc >= 757 && g.iodc <= 767) || (g.iodc >= 1008 && g.iodc <= 1020)) g.iodc = 11;
         }
         Rec l; D3 d; D2 d2;
         if (g.v == 3)
         {
            d.satSys = std::string(1, g.s); d.PRNID = g.prn; char b[8]; snprintf(b, 8, "%c%02d", g.s, g.prn); d.sat = RinexSatID(b);
            d.time = mk(g.tw, g.ts, g.s == 'G' ? TimeSystem::GPS : g.s == 'E' ? TimeSystem::GAL : g.s == 'C' ? TimeSystem::BDT : TimeSystem::QZS);
            d.Toc = (double)g.ts; d.Toe = (double)g.toe; d.weeknum = g.xw - (g.s == 'C' ? 1356 : 0); d.xmitTime = g.xs; rorb(r, d);
            d.fitint = (double)g.fit; d.IODC = (double)g.iodc; d.IODE = (double)r.in(0, 255); d.IODnav = (double)r.in(0, 1023); d.health = g.health; d.accuracy = g.acc / 100.0; d.datasources = g.dsrc; d.Tgd2 = g.s == 'E' || g.s == 'C' ? sv(r) : 0;
            d.codeflgs = r.in(0, 3); d.L2Pdata = r.in(0, 1); l = L(d);
         }
         else
         {
            d2.PRNID = g.prn; d2.time = mk(g.tw, g.ts, TimeSystem::GPS); rorb(r, d2); d2.Toe = (double)g.toe; d2.setXmitTime((unsigned short)g.xw, (unsigned long)g.xs);
            d2.fitint = (double)g.fit; d2.IODC = (double)g.iodc; d2.IODE = (double)r.in(0, 255); d2.health = g.health; d2.accuracy = g.acc / 100.0; d2.codeflgs = r.in(0, 3); d2.L2Pdata = r.in(0, 1); l = L(d2);
         }
         {
            Ev v("rec"); std::string R = "{\"sys\":" + J(std::string(1, g.s)) + ",\"v\":" + J(g.v) + ",\"prn\":" + J(g.prn) + ",\"toc\":" + ws(g.tw, g.ts).s + ",\"toe\":" + J(g.toe) + ",\"tx\":" + ws(g.xw, g.xs).s
               + ",\"fit\":" + J(g.fit) + ",\"iodc\":" + J(g.iodc) + ",\"health\":" + J(g.health) + ",\"acc\":" + J(g.acc) + ",\"dsrc\":" + J(g.dsrc) + ",\"L\":" + rec::J(l) + "}";
            v.f("r", Raw(R)); v.end();
         }
         if (useEng)
         {
            EngEphemeris e; std::string x = guard([&] { if (g.v == 3) e = d; else e = d2; });
            if (x != "ok") { Ev v("eng"); v.f("x", x); v.end(); } else eng(r, e);
         }
         if (g.v == 2)
         {
            GPSEphemeris e; std::string x = guard([&] { e = d2; });
            if (x != "ok") { Ev v("eph"); v.f("x", x); v.end(); }
            else { show(r, e, g); D3 b; x = guard([&] { b = D3(e); }); Ev v("back"); v.f("x", x); if (x == "ok") put3(v, b); v.end(); }
            D3 u(d2); Ev v("up"); put3(v, u); v.end();
            continue;
         }
         if (g.s == 'G') conv<GPSEphemeris>(r, d, g); else if (g.s == 'E') conv<GalEphemeris>(r, d, g); else if (g.s == 'C') conv<BDSEphemeris>(r, d, g); else conv<QZSEphemeris>(r, d, g);
         bool ld; int k = r.in(0, 3);
         if (k == 0 && g.s != 'G') { GPSEphemeris w(d); ld = w.dataLoadedFlag; } else if (k == 1 && g.s != 'E') { GalEphemeris w(d); ld = w.dataLoadedFlag; }
         else if (k == 2 && g.s != 'C') { BDSEphemeris w(d); ld = w.dataLoadedFlag; } else if (k == 3 && g.s != 'J') { QZSEphemeris w(d); ld = w.dataLoadedFlag; } else continue;
         Ev v("other"); v.f("loaded", ld); v.end();
      }
   });
}
