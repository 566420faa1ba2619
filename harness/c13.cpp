// C13: RINEX navigation files, versions 2 and 3, through both families of classes.
#include "rec.hpp"
#include "Rinex3NavStream.hpp"
#include "Rinex3NavHeader.hpp"
#include "Rinex3NavData.hpp"
#include "RinexNavStream.hpp"
#include "RinexNavHeader.hpp"
#include "RinexNavData.hpp"
#include "GPSWeekSecond.hpp"
#include <sstream>
using namespace gpstk; using namespace hx; using namespace rec;
typedef Rinex3NavHeader H3; typedef Rinex3NavData D3; typedef RinexNavHeader H2; typedef RinexNavData D2;

   // 15 digits, never a tie when rounded to 14 or fewer
static double sv(Rng& r, int e0 = -12, int e1 = 8)
{
   if (r.chance(4)) return 0;
   char b[64]; int c = r.in(0, 9);
   ll a = c == 0 ? 9999999 : r.in(1000000, 9999999), d;
   if (c == 0) d = r.chance(50) ? 99999999 : 99990000 + r.in(0, 999) * 10 + 7;
   else if (c == 1) d = 0;
   else if (c == 2) d = r.in(0, 99999) * 1000;
   else { d = r.in(0, 9999999) * 10; ll l = r.in(1, 8); d += l >= 5 ? l + 1 : l; }
   ll u = 1, x = a * 100000000 + d; while (x / u % 10 == 0) u *= 10;
   if (x / u % 10 == 5) { x += u; a = x / 100000000; d = x % 100000000; }
   snprintf(b, sizeof b, "%s%lld.%06lld%08llde%d", r.chance(45) ? "-" : "", a / 1000000, a % 1000000, d, (int)r.in(e0, e1));
   return strtod(b, 0);
}
struct W { std::string sys; int v; };
   // one named list for both classes
template <class T> static void orb(Rec& o, const T& d)
{
   o.sci("af0", "", d.af0).sci("af1", "", d.af1).sci("af2", "", d.af2).sci("Crs", "", d.Crs).sci("dn", "", d.dn).sci("M0", "", d.M0);
   o.sci("Cuc", "", d.Cuc).sci("ecc", "", d.ecc).sci("Cus", "", d.Cus).sci("Ahalf", "", d.Ahalf).sci("Toe", "", d.Toe).sci("Cic", "", d.Cic).sci("OM0", "", d.OMEGA0).sci("Cis", "", d.Cis);
   o.sci("i0", "", d.i0).sci("Crc", "", d.Crc).sci("w", "", d.w).sci("OMd", "", d.OMEGAdot).sci("idot", "", d.idot).sci("acc", "", d.accuracy).i("hlth", "", d.health).sci("Tgd", "", d.Tgd);
}
static std::string tx(ll w, ll s, ll toe) { return "[" + J(w) + "," + J(s) + "," + J(toe) + "]"; }
static Rec flat(const D3& d)
{
   Rec o; o.str("sys", "", d.satSys).str("sat", "", d.sat.toString()).i("prn", "", d.PRNID);
   long dd; double ss; TimeSystem ts; d.time.get(dd, ss, ts); o.raw("t", "", "[" + J((ll)dd) + "," + J(hx::fx(ss, 10)) + "]");
   ll dow = ((dd + 1) % 7); o.i("dow", "", dow);
   if (d.satSys == "R" || d.satSys == "S")
   {
      o.sci("TauN", "", d.TauN).sci("Gam", "", d.GammaN).i("MFt", "", d.MFtime).sci("px", "", d.px).sci("vx", "", d.vx).sci("ax", "", d.ax).i("hlth", "", d.health);
      o.sci("py", "", d.py).sci("vy", "", d.vy).sci("ay", "", d.ay).sci("pz", "", d.pz).sci("vz", "", d.vz).sci("az", "", d.az);
      if (d.satSys == "R") o.i("freq", "", d.freqNum).sci("age", "", d.ageOfInfo); else o.sci("accC", "", d.accCode).sci("IODN", "", d.IODN);
      return o;
   }
   orb(o, d); o.raw("tx", "", tx(d.weeknum, d.xmitTime, llround((double)d.Toe)));
   if (d.satSys == "G" || d.satSys == "J") o.sci("IODE", "", d.IODE).i("cflg", "", d.codeflgs).i("L2P", "", d.L2Pdata).sci("IODC", "", d.IODC).sci("fit", "", d.fitint);
   if (d.satSys == "E") o.sci("IODn", "", d.IODnav).i("dsrc", "", d.datasources).sci("Tgd2", "", d.Tgd2);
   if (d.satSys == "C") o.sci("IODE", "", d.IODE).sci("IODC", "", d.IODC).sci("Tgd2", "", d.Tgd2);
   return o;
}
static Rec flat(const D2& d, bool chk = true)
{
   Rec o; char b[8]; snprintf(b, 8, "G%02d", d.PRNID); o.str("sys", "", "G").str("sat", "", b).i("prn", "", d.PRNID);
   long dd; double ss; TimeSystem ts; d.time.get(dd, ss, ts); o.raw("t", "", "[" + J((ll)dd) + "," + J(hx::fx(ss, 10)) + "]");
   o.i("dow", "", (dd + 1) % 7);
   orb(o, d);
   GPSWeekSecond ws = d.getXmitWS(); o.raw("tx", "", tx(ws.week, llround(ws.sow), llround((double)d.Toe)));
   o.sci("IODE", "", d.IODE).i("cflg", "", d.codeflgs).i("L2P", "", d.L2Pdata).sci("IODC", "", d.IODC).sci("fit", "", d.fitint);
   return o;
}
static std::vector<ll> civ(const CommonTime& t) { CivilTime c(t); return { c.year, c.month, c.day, c.hour, c.minute, hx::fx(c.second, 10) }; }

static CommonTime rt(Rng& r, int v, TimeSystem ts)
{
   double s = r.chance(20) ? 0 : v >= 300 || r.chance(60) ? r.in(0, 59) : r.in(0, 599) / 10.0;
   return CivilTime(r.chance(20) ? r.pick(std::vector<int>{1980, 1999, 2000, 2079}) : r.in(1981, 2078), r.in(1, 12), r.in(6, 28), r.in(0, 23), r.in(0, 59), s, ts).convertToCommonTime();
}
static void pickTx(Rng& r, ll& wk, ll& sow, ll& toe, bool thirty)
{
   wk = r.in(1, 4000); toe = r.chance(40) ? r.in(0, 3) * 7200 : r.chance(40) ? 604800 - r.in(1, 3) * 7200 - r.in(0, 1) * 16 : r.in(0, 604799);
   if (toe > 604799) toe = 604784;
   ll d = r.chance(80) ? r.in(-14400, 14400) : r.in(-302399, 302399);
   sow = ((toe + d) % 604800 + 604800) % 604800; if (thirty) sow -= sow % 30;
}
template <class T> static void rorb(Rng& r, T& d, ll toe)
{
   d.af0 = sv(r); d.af1 = sv(r); d.af2 = sv(r); d.Crs = sv(r); d.dn = sv(r); d.M0 = sv(r); d.Cuc = sv(r); d.ecc = sv(r); d.Cus = sv(r); d.Ahalf = sv(r); d.Toe = (double)toe; d.Cic = sv(r); d.OMEGA0 = sv(r); d.Cis = sv(r);
   d.i0 = sv(r); d.Crc = sv(r); d.w = sv(r); d.OMEGAdot = sv(r); d.idot = sv(r); d.accuracy = sv(r); d.health = r.chance(50) ? 0 : r.in(0, 511); d.Tgd = sv(r);
}
static D3 gen3(Rng& r, char s, int v)
{
   D3 d; d.satSys = std::string(1, s);
   int m = s == 'G' ? 32 : s == 'R' ? 24 : s == 'E' ? 36 : s == 'J' ? 7 : s == 'C' ? 63 : 58; d.PRNID = s == 'S' ? r.in(20, 58) : r.in(1, m);
   char b[8]; snprintf(b, 8, "%c%02d", s, d.PRNID); d.sat = RinexSatID(b);
   TimeSystem ts = s == 'R' ? TimeSystem::GLO : s == 'E' ? TimeSystem::GAL : s == 'C' ? TimeSystem::BDT : s == 'J' ? TimeSystem::QZS : TimeSystem::GPS;
   d.time = rt(r, v, ts);
   if (s == 'R' || s == 'S')
   {
      d.TauN = sv(r); d.GammaN = sv(r); d.px = sv(r); d.vx = sv(r); d.ax = sv(r); d.health = r.in(0, 7); d.py = sv(r); d.vy = sv(r); d.ay = sv(r); d.pz = sv(r); d.vz = sv(r); d.az = sv(r);
      d.MFtime = r.in(0, 604799); if (s == 'R') { d.freqNum = r.in(-7, 13); d.ageOfInfo = sv(r); } else { d.accCode = sv(r); d.IODN = sv(r); }
      d.Toe = 0.0; d.xmitTime = 0; d.weeknum = 0;
      return d;
   }
   ll w, x, toe; pickTx(r, w, x, toe, v < 300); rorb(r, d, toe); d.weeknum = w; d.xmitTime = x;
   d.IODE = sv(r); d.IODC = sv(r); d.IODnav = sv(r); d.codeflgs = r.in(0, 3); d.L2Pdata = r.in(0, 1); d.fitint = sv(r); d.datasources = r.in(0, 1023); d.Tgd2 = sv(r);
   return d;
}
static D2 gen2(Rng& r, ll* txo)
{
   D2 d; d.PRNID = r.in(1, 32); d.time = rt(r, 210, TimeSystem::GPS);
   ll w, x, toe; pickTx(r, w, x, toe, true); rorb(r, d, toe); d.setXmitTime((unsigned short)w, (unsigned long)(x + r.in(0, 29)));
   txo[0] = w; txo[1] = x; txo[2] = toe;
   d.IODE = sv(r); d.IODC = sv(r); d.codeflgs = r.in(0, 3); d.L2Pdata = r.in(0, 1); d.fitint = sv(r);
   return d;
}
static const std::vector<std::string> TCS = {"BDGP", "BDUT", "GAUT", "GLGP", "GLUT", "GPGA", "GPUT", "IRGP", "IRUT", "QZGP", "QZUT", "SBUT"};
static Rec flat(const H3& h)
{
   Rec o; o.i("ver", "", llround(h.version * 100)).str("fsys", "", h.fileSysSat.system == SatelliteSystem::Mixed ? "M" : std::string(1, RinexSatID(h.fileSysSat).systemChar()));
   if (h.valid & H3::validRunBy) o.str("pgm", "", h.fileProgram).str("runby", "", h.fileAgency);
   if (h.valid & H3::validComment) for (auto& c : h.commentList) o.str("comment", "", c);
   for (auto& p : h.mapIonoCorr)
      if (p.second.type == IonoCorr::GAL ? h.valid & H3::validIonoCorrGal : h.valid & H3::validIonoCorrGPS)
         for (int k = 0; k < 4; k++) o.sci("iono", p.first + K(k), p.second.param[k]);
   if (h.valid & H3::validTimeSysCorr) for (auto& p : h.mapTimeCorr)
   {
      const TimeSystemCorrection& t = p.second; const std::string& k = p.first;
      o.sci("tcA0", k, t.A0).sci("tcA1", k, t.A1).i("tcsow", k, t.refSOW).i("tcwk", k, t.refWeek).str("tcprov", k, t.geoProvider).i("tcid", k, t.geoUTCid);
      o.raw("tcymd", k, "[" + J((ll)t.refYr) + "," + J((ll)t.refMon) + "," + J((ll)t.refDay) + "]");
   }
   if (h.valid & H3::validLeapSeconds) o.i("leap", "0", h.leapSeconds).i("leap", "1", h.leapDelta).i("leap", "2", h.leapWeek).i("leap", "3", h.leapDay);
   return o;
}
static Rec flat(const H2& h)
{
   Rec o; o.i("ver", "", llround(h.version * 100)).str("fsys", "", "G");
   if (h.valid & H2::runByValid) o.str("pgm", "", h.fileProgram).str("runby", "", h.fileAgency);
   if (h.valid & H2::commentValid) for (auto& c : h.commentList) o.str("comment", "", c);
   if (h.valid & H2::ionAlphaValid) for (int k = 0; k < 4; k++) o.sci("iono", "GPSA" + K(k), h.ionAlpha[k]);
   if (h.valid & H2::ionBetaValid) for (int k = 0; k < 4; k++) o.sci("iono", "GPSB" + K(k), h.ionBeta[k]);
   if (h.valid & H2::deltaUTCValid) o.sci("tcA0", "GPUT", h.A0).sci("tcA1", "GPUT", h.A1).i("tcsow", "GPUT", h.UTCRefTime).i("tcwk", "GPUT", h.UTCRefWeek).str("tcprov", "GPUT", "").i("tcid", "GPUT", 0).raw("tcymd", "GPUT", "[0,0,0]");
   if (h.valid & H2::leapSecondsValid) o.i("leap", "0", h.leapSeconds).i("leap", "1", 0).i("leap", "2", 0).i("leap", "3", 0);
   return o;
}
static H3 genH3(Rng& r, int v, char sys)
{
   H3 h; h.version = v / 100.0; h.valid = H3::validEoH | H3::validVersion;
   h.setFileSystem(std::string(1, sys));
   if (!r.chance(2)) h.valid |= H3::validRunBy;
   h.fileProgram = word(r, 20); h.fileAgency = word(r, 20);
   if (r.chance(50)) { h.valid |= H3::validComment; for (int k = r.in(0, 3); k > 0; k--) h.commentList.push_back(word(r, 60)); }
   bool gps = r.chance(50), gal = v >= 300 && r.chance(40);
   auto ion = [&](const char* k) { IonoCorr c(k); for (int i = 0; i < 4; i++) c.param[i] = sv(r, -9, 6); h.mapIonoCorr[k] = c; };
   if (gps) { h.valid |= H3::validIonoCorrGPS; ion("GPSA"); ion("GPSB"); }
   if (gal) { h.valid |= H3::validIonoCorrGal; ion("GAL"); }
   if (r.chance(60))
   {
      h.valid |= H3::validTimeSysCorr;
      for (auto& k : TCS) if (r.chance(v >= 300 ? 40 : 60))
      {
         if (v < 300 && k != "GPUT" && k != "GLUT" && k != "SBUT" && r.chance(60)) continue;
         TimeSystemCorrection t(k); t.A0 = sv(r); t.A1 = sv(r, -15, 2); t.refSOW = r.in(0, 604799); t.refWeek = r.in(1, 4000); t.geoProvider = k == "SBUT" ? r.pick(std::vector<std::string>{"WAAS", "EGNOS", "MSAS", "GAGAN"}) : ""; t.geoUTCid = r.in(0, 6);
         t.refYr = r.in(1990, 2040); t.refMon = r.in(1, 12); t.refDay = r.in(1, 28);
         h.mapTimeCorr[k] = t;
      }
   }
   if (r.chance(60)) { h.valid |= H3::validLeapSeconds; h.leapSeconds = r.in(0, 37); h.leapDelta = r.in(0, 37); h.leapWeek = r.in(0, 4000); h.leapDay = r.in(0, 7); }
   return h;
}
static H2 genH2(Rng& r, int v)
{
   H2 h; h.version = v / 100.0; h.valid = H2::endValid | H2::versionValid;
   if (!r.chance(2)) h.valid |= H2::runByValid;
   h.fileProgram = word(r, 20); h.fileAgency = word(r, 20);
   if (r.chance(50)) { h.valid |= H2::commentValid; for (int k = r.in(0, 3); k > 0; k--) h.commentList.push_back(word(r, 60)); }
   bool gps = r.chance(50);
   for (int i = 0; i < 4; i++) { h.ionAlpha[i] = sv(r, -9, 6); h.ionBeta[i] = sv(r, -9, 6); }
   if (gps) h.valid |= H2::ionAlphaValid | H2::ionBetaValid;
   if (r.chance(50)) { h.valid |= H2::deltaUTCValid; h.A0 = sv(r); h.A1 = sv(r); h.UTCRefTime = r.in(0, 604799); h.UTCRefWeek = r.in(0, 4000); }
   if (r.chance(60)) { h.valid |= H2::leapSecondsValid; h.leapSeconds = r.in(0, 37); }
   return h;
}
static std::string tsOf(const D3& d) { return StringUtils::asString(d.time.getTimeSystem()); }
static std::string tsOf(const D2& d) { return StringUtils::asString(d.time.getTimeSystem()); }

template <class S, class H, class D> static void readAll(const std::string& path, bool wantHeader, int extra, std::vector<D>* got, H* gh, H& h)
{
   S in(path.c_str(), std::ios::in);
   Ev("open").end();
   if (wantHeader)
   {
      note("read header " + path); in >> h;
      bool ok = !in.fail();
      Ev e("hget"); e.f("x", ok ? "ok" : in.eof() ? "eof" : "fail").f("h", ok ? flat(h) : Rec()); e.end();
      if (!ok) return;
      if (gh) *gh = h;
   }
   D d;
   for (int n = 0; n < 60; n++)
   {
      note("read data " + path); in >> d;
      bool ok = !in.fail();
      Ev e("get"); e.f("x", ok ? "ok" : in.eof() ? "eof" : "fail").f("r", ok ? flat(d) : Rec()).f("ts", ok ? tsOf(d) : std::string("")); e.end();
      if (ok && got) got->push_back(d);
      if (!ok && extra-- <= 0) break;
   }
   if (gh && !wantHeader) *gh = in.header;
}
static bool same1(const std::string& a, const std::string& b, size_t k)
{
   if (a == b || a.find("PGM / RUN BY") != std::string::npos) return true;
   if (k) return false;
   auto head = [](const std::string& s) { return StringUtils::strip(s.substr(0, 20)) + s.substr(20, 1) + (s.size() > 40 && s.find(" 3.") < 20 ? s.substr(40, 1) : ""); };
   return head(a) == head(b);
}
template <class S, class H, class D> static void gen2nd(const std::string& p, const std::string& p2, const H& gh, const std::vector<D>& got)
{
   { S out(p2.c_str(), std::ios::out); note("rewrite"); out << gh; for (auto& d : got) out << d; }
   std::vector<std::string> a = lines(p), b = lines(p2); bool same = a.size() == b.size();
   for (size_t k = 0; same && k < a.size(); k++) same = same1(a[k], b[k], k);
   Ev e("gen2"); e.f("same", same);
   if (!same) for (size_t k = 0; k < std::max(a.size(), b.size()); k++) if (k >= a.size() || k >= b.size() || !same1(a[k], b[k], k)) { e.f("a", k < a.size() ? a[k] : "-").f("b", k < b.size() ? b[k] : "-"); break; }
   e.end();
}

int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      H3 keep3; H2 keep2;
      while (trace().n < args().size)
      {
         std::string p = args().scratch + "/n.rnx", p2 = args().scratch + "/n2.rnx";
         Ev("new").end();
         bool native = r.chance(30);
         int v = native ? r.pick(std::vector<int>{200, 210, 211}) : r.chance(60) ? r.pick(std::vector<int>{300, 301, 302, 303, 304}) : r.pick(std::vector<int>{210, 211});
         static const std::string all = "GRECJS";
         char sys = native ? 'G' : v >= 300 ? (r.chance(50) ? 'M' : all[r.in(0, 5)]) : r.pick(std::vector<char>{'G', 'R', 'S'});
         std::vector<size_t> at; bool hok;
         auto put = [&](std::ostream& out, const Rec& rr, const std::vector<ll>& c, std::function<void()> w, bool& fail) {
            std::vector<std::string> before = lines(p); at.push_back(before.size());
            note("write data"); w(); out.flush();
            std::vector<std::string> after = lines(p), add(after.begin() + before.size(), after.end());
            fail = out.fail();
            Ev e("put"); e.f("x", fail ? "fail" : "ok").f("r", rr).f("c", c).f("lines", add); e.end();
         };
         auto hput = [&](std::ostream& out, const Rec& h, bool can) {
            out.flush(); hok = !out.fail(); bool f;
            Ev e("hput"); e.f("x", hok ? "ok" : "fail").f("h", h).f("can", can).f("native", native).f("lines", hok ? lines(p) : std::vector<std::string>()); e.end();
         };
         bool f;
         if (native)
         {
            H2 h = genH2(r, v); RinexNavStream out(p.c_str(), std::ios::out); note("write header"); out << h; hput(out, flat(h), h.valid & H2::runByValid);
            if (!hok) continue;
            for (int k = r.in(0, 4); k > 0; k--)
            {
               ll t[3]; D2 d = gen2(r, t); Rec rr = flat(d);
               for (auto& x : rr.f) if (x.s.find("[\"tx\"") == 0) x.s = "[\"tx\",\"\"," + tx(t[0], t[1], t[2]) + "]";
               put(out, rr, civ(d.time), [&] { out << d; }, f);
            }
         }
         else
         {
            H3 h = genH3(r, v, sys); Rinex3NavStream out(p.c_str(), std::ios::out); note("write header"); out << h; hput(out, flat(h), h.valid & H3::validRunBy);
            if (!hok) continue;
            for (int k = r.in(0, 4); k > 0; k--)
            {
               D3 d = gen3(r, sys == 'M' ? all[r.in(0, 5)] : sys, v);
               put(out, flat(d), civ(d.time), [&] { out << d; }, f);
            }
         }
         std::vector<std::string> ls = lines(p);
         bool as3 = !native || r.chance(40), as2 = v < 300 && sys == 'G' && (native || r.chance(50)) && (v != 200 || native);
            // records of GLONASS and GEO files are not part of a GPS file
         for (auto& x : ls) if (x.find("CORR TO SYSTEM TIME") != std::string::npos || x.find("D-UTC A0") == 60) as2 = false;
         if (as3) { std::vector<D3> got; H3 gh, h; if (r.chance(30)) h = keep3; readAll<Rinex3NavStream>(p, r.chance(70), r.in(0, 1), &got, &gh, h); if (gh.valid) keep3 = gh; if (v != 200) gen2nd<Rinex3NavStream>(p, p2, gh, got); }
         if (as2) { std::vector<D2> got; H2 gh, h; if (r.chance(30)) h = keep2; readAll<RinexNavStream>(p, r.chance(70), r.in(0, 1), &got, &gh, h); if (gh.valid) keep2 = gh; gen2nd<RinexNavStream>(p, p2, gh, got); }
            // the same file as others write it: header records in another order, transmission times within the week, seconds of 60
         if (r.chance(40))
         {
            std::vector<std::string> c = ls; size_t h1 = 2; std::vector<size_t> opt;
            while (h1 < c.size() && c[h1].find("END OF HEADER") == std::string::npos) { if (c[h1].find("COMMENT", 60) == std::string::npos) opt.push_back(h1); h1++; }
            for (size_t k = opt.size(); k > 1; k--) std::swap(c[opt[k - 1]], c[opt[r.in(0, k - 1)]]);
            int o = v >= 300 ? 4 : 3;
            for (size_t k = 0; k < at.size(); k++)
            {
               std::string& l0 = c[at[k]]; size_t nx = k + 1 < at.size() ? at[k + 1] : c.size();
               if (nx - at[k] == 8)
               {
                  std::string& l = c[at[k] + 7]; FormattedDouble d(l.substr(o, 19), 19, 'D'); long x = (long)(double)d, y = x < 0 ? x + 604800 : x >= 604800 ? x - 604800 : x;
                  std::ostringstream ss; ss << RNDouble(y); if (y != x) l.replace(o, 19, ss.str());
               }
               size_t mp = v >= 300 ? 18 : 15, sp = v >= 300 ? 20 : 17; int mi = std::stoi(l0.substr(mp, 2));
               if (r.chance(70) && mi > 0 && std::stod(l0.substr(sp, v >= 300 ? 3 : 5)) == 0) { char b[16]; snprintf(b, 16, v >= 300 ? "%02d 60" : "%2d 60.0", mi - 1); l0.replace(mp, v >= 300 ? 5 : 7, b); }
            }
            rec::put(p, c);
            if (as3) { H3 h; readAll<Rinex3NavStream>(p, r.chance(50), 0, (std::vector<D3>*)0, (H3*)0, h); }
            if (as2) { H2 h; readAll<RinexNavStream>(p, r.chance(50), 0, (std::vector<D2>*)0, (H2*)0, h); }
         }
            // other exponent letters
         if (!at.empty() && r.chance(30))
         {
            std::vector<std::string> c = ls; char to = "Eedd"[r.in(0, 3)];
            for (size_t k = at[0]; k < c.size(); k++) for (auto& ch : c[k]) if (ch == 'D') ch = to;
            rec::put(p, c);
            if (as3) { H3 h; readAll<Rinex3NavStream>(p, r.chance(50), 0, (std::vector<D3>*)0, (H3*)0, h); }
            if (as2) { H2 h; readAll<RinexNavStream>(p, r.chance(50), 0, (std::vector<D2>*)0, (H2*)0, h); }
         }
         if (!at.empty() && r.chance(50))
         {
            int k = r.in(0, at.size() - 1); std::vector<std::string> c = ls; bool cut = false;
            size_t nextAt = (size_t)k + 1 < at.size() ? at[k + 1] : ls.size();
            if (r.chance(40)) c[at[k]][v >= 300 ? 3 : 2] = 'x';
            else if (r.chance(40))
            {
                  // a time that does not exist
               size_t h = v >= 300 ? 15 : 12; c[at[k]][h] = '9';
            }
            else if (v >= 300 && r.chance(20)) c[at[k]].replace(4, 4, "1979");
            else { c.resize(nextAt - r.in(1, nextAt - at[k] - 1)); cut = true; }
            rec::put(p, c);
            { Ev e("damage"); e.f("k", k + 1).f("cut", cut); e.end(); }
            if (as3) { H3 h; readAll<Rinex3NavStream>(p, r.chance(50), r.in(0, 3), (std::vector<D3>*)0, (H3*)0, h); }
            if (as2) { H2 h; readAll<RinexNavStream>(p, r.chance(50), r.in(0, 3), (std::vector<D2>*)0, (H2*)0, h); }
         }
      }
   });
}
