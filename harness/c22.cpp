// C22: RINEX 2 observation files.
#include "rec.hpp"
#include "RinexObsStream.hpp"
#include "RinexObsHeader.hpp"
#include "RinexObsData.hpp"
#include "RinexSatID.hpp"
#include "Rinex3ObsStream.hpp"
#include "Rinex3ObsHeader.hpp"
#include "Rinex3ObsData.hpp"
using namespace gpstk; using namespace hx; using namespace rec;
typedef RinexObsHeader H;
typedef RinexObsData D;
typedef Rinex3ObsHeader H3;
typedef Rinex3ObsData D3;

static std::string sysC(const RinexSatID& s) { return s.system == SatelliteSystem::Mixed ? "M" : std::string(1, s.systemChar()); }
static void civ(Rec& o, const char* c, const CommonTime& t)
{ CivilTime v(t); o.i(c, "Y", v.year).i(c, "M", v.month).i(c, "D", v.day).i(c, "h", v.hour).i(c, "m", v.minute).num(c, "s", v.second); }
static Rec flat(const H& h)
{
   Rec o; unsigned long v = h.valid;
   if (v & H::versionValid) o.i("ver", "", llround(h.version * 100)).str("fsys", "", sysC(h.system));
   if (v & H::runByValid) o.str("pgm", "", h.fileProgram).str("runby", "", h.fileAgency);
   if (v & H::markerNameValid) o.str("mname", "", h.markerName);
   if (v & H::observerValid) o.str("obsr", "", h.observer).str("agcy", "", h.agency);
   if (v & H::receiverValid) o.str("recno", "", h.recNo).str("rectype", "", h.recType).str("recvers", "", h.recVers);
   if (v & H::antennaTypeValid) o.str("antno", "", h.antNo).str("anttype", "", h.antType);
   if (v & H::antennaPositionValid) for (int k = 0; k < 3; k++) o.num("apos", K(k), h.antennaPosition[k]);
   if (v & H::antennaOffsetValid) for (int k = 0; k < 3; k++) o.num("ahen", K(k), h.antennaOffset[k]);
   if (v & H::waveFactValid)
   {
      o.i("wf", "0", h.wavelengthFactor[0]).i("wf", "1", h.wavelengthFactor[1]);
      for (auto& x : h.extraWaveFactList)
      {
         std::vector<std::string> s; for (auto& q : x.satList) s.push_back(RinexSatID(q).toString());
         o.raw("xwf", "", "[" + hx::J((ll)x.wavelengthFactor[0]) + "," + hx::J((ll)x.wavelengthFactor[1]) + "," + hx::J(s) + "]");
      }
   }
   if (v & H::obsTypeValid) for (size_t k = 0; k < h.obsTypeList.size(); k++) o.str("obst", K(k), h.obsTypeList[k].type);
   if (v & H::intervalValid) o.num("intv", "", h.interval);
   if (v & H::firstTimeValid) { civ(o, "first", h.firstObs); o.str("first", "sys", sysC(h.firstSystem)); }
   if (v & H::lastTimeValid) { civ(o, "last", h.lastObs); o.str("last", "sys", sysC(h.lastSystem)); }
   if (v & H::markerNumberValid) o.str("mnum", "", h.markerNumber);
   if (v & H::receiverOffsetValid) o.i("rco", "", h.receiverOffset);
   if (v & H::leapSecondsValid) o.i("leap", "", h.leapSeconds);
   if (v & H::commentValid) for (auto& c : h.commentList) o.str("comment", "", c);
   if (v & H::numSatsValid) o.i("nsat", "", h.numSVs);
   if (v & H::prnObsValid) for (auto& p : h.numObsForSat)
   { std::vector<ll> n(p.second.begin(), p.second.end()); o.raw("prnobs", RinexSatID(p.first).toString(), hx::J(n)); }
   if (v & H::endValid) o.i("end", "", 1);
   return o;
}
static Rec flat(const D& d, const std::vector<RinexObsType>& types)
{
   Rec o; o.i("flag", "", d.epochFlag).i("nsv", "", d.numSvs).num("clk", "", d.clockOffset);
   if (!(d.time == CommonTime::BEGINNING_OF_TIME)) civ(o, "t", d.time);
   if (d.epochFlag >= 2 && d.epochFlag <= 5) { Rec a = flat(d.auxHeader); for (auto& x : a.f) o.f.push_back(x); return o; }
   for (auto& p : d.obs) for (auto& t : types)
   {
      auto q = p.second.find(t); bool has = q != p.second.end(); RinexDatum x; if (has) x = q->second;
      o.raw("d", RinexSatID(p.first).toString() + t.type, "[" + hx::J(has) + "," + numJ(has ? x.data : 0.0) + "," + hx::J((ll)(has ? x.lli : 0)) + "," + hx::J((ll)(has ? x.ssi : 0)) + "]");
   }
   return o;
}
static std::set<std::string> sats(Rng& r, const std::string& sys, int n)
{
   std::set<std::string> s;
   for (int k = 0; k < 20 * n && (int)s.size() < n; k++)
   {
      char c = sys[r.in(0, (ll)sys.size() - 1)]; int m = c == 'G' ? 32 : c == 'R' ? 24 : c == 'E' ? 36 : 58;
      char b[8]; snprintf(b, 8, "%c%02d", c, (int)(c == 'S' ? r.in(20, 58) : r.in(1, m))); s.insert(b);
   }
   return s;
}
static double sec(Rng& r) { return r.chance(40) ? r.in(0, 59) : r.chance(30) ? r.in(0, 59999) / 1e3 : r.in(0, 599999999) / 1e7; }
static CommonTime tm(Rng& r, int Y) { return CivilTime(Y, r.in(1, 12), r.in(1, 28), r.in(0, 23), r.in(0, 59), sec(r), TimeSystem::GPS).convertToCommonTime(); }
// the tests of the repository rely on a count that takes the extra wavelength
// factors for one line per seven lists; what that count lacks is added here
static int waveLines(const RinexObsHeader& h)
{
   if (!(h.valid & RinexObsHeader::waveFactValid) || h.extraWaveFactList.empty()) return 0;
   int n = 0; for (auto& x : h.extraWaveFactList) n += (x.satList.size() + 6) / 7;
   return n - (1 + ((int)h.extraWaveFactList.size() - 1) / 7);
}
static int count(Rng& r, const std::vector<int>& edge, int max) { return r.chance(50) ? r.pick(edge) : r.in(1, max); }
static ExtraWaveFact xwf(Rng& r, const std::string& sys)
{
   ExtraWaveFact x; x.wavelengthFactor[0] = r.in(0, 2); x.wavelengthFactor[1] = r.in(0, 2);
   for (auto& q : sats(r, sys, count(r, {7, 14, 8, 6}, 16))) x.satList.push_back(RinexSatID(q));
   return x;
}
static std::vector<RinexObsType> types(Rng& r, int n)
{
   std::vector<RinexObsType> v(H::StandardRinexObsTypes.begin() + 1, H::StandardRinexObsTypes.end());
   r.shuffle(v); v.resize(std::min<size_t>(n, v.size())); return v;
}
static Triple tri(Rng& r, ll m) { return Triple(dec(r, m, true), dec(r, m, true), dec(r, m, true)); }
static H genH(Rng& r, std::string& sys)
{
   H h; h.version = r.pick(std::vector<double>{2.0, 2.1, 2.11});
   if (r.chance(2)) h.version = 2.2;
   h.fileType = r.chance(80) ? "Observation" : "O";
   char c = r.chance(50) ? 'M' : "GGRES"[r.in(0, 4)]; sys = c == 'M' ? r.pick(std::vector<std::string>{"GR", "GRES", "GE", "G"}) : std::string(1, c);
   h.system = c == 'M' ? RinexSatID(-1, SatelliteSystem::Mixed) : RinexSatID(-1, RinexSatID(sys).system);
   h.valid = 0;
   auto set = [&](unsigned long b, int pc) { bool y = r.chance(pc); if (y) h.valid |= b; return y; };
   set(H::versionValid, 100); set(H::endValid, 100);
   int q = r.chance(6) ? 85 : 100;      // now and then a required record is missing
   if (set(H::runByValid, q)) { h.fileProgram = word(r, 20); h.fileAgency = word(r, 20); }
   if (set(H::markerNameValid, q)) h.markerName = word(r, 60);
   if (set(H::observerValid, q)) { h.observer = word(r, 20); h.agency = word(r, 40); }
   if (set(H::receiverValid, q)) { h.recNo = word(r, 20); h.recType = word(r, 20); h.recVers = word(r, 20); }
   if (set(H::antennaTypeValid, q)) { h.antNo = word(r, 20); h.antType = word(r, 20); }
   if (set(H::antennaPositionValid, q)) h.antennaPosition = tri(r, 6400000);
   if (set(H::antennaOffsetValid, q)) h.antennaOffset = tri(r, 99);
   if (set(H::waveFactValid, h.version < 2.11 ? q : 70))
   {
      h.wavelengthFactor[0] = r.in(0, 2); h.wavelengthFactor[1] = r.in(0, 2);
      if (r.chance(40)) for (int k = r.in(1, 3); k > 0; k--) h.extraWaveFactList.push_back(xwf(r, sys));
   }
   set(H::obsTypeValid, q); h.obsTypeList = types(r, count(r, {1, 5, 6, 9, 10, 18, 19, 27, 28}, 28));
   if (set(H::intervalValid, 60)) h.interval = dec(r, 900, false);
   int Y = r.chance(25) ? r.pick(std::vector<int>{1999, 2000, 1980, 2079, 2001}) : r.in(1985, 2035);
   h.firstObs = tm(r, Y); h.lastObs = tm(r, Y);
   if (r.chance(70)) { std::string s = r.pick(std::vector<std::string>{"G", "R", "E"}); h.firstSystem = RinexSatID(-1, RinexSatID(s).system); h.lastSystem = RinexSatID(-1, RinexSatID(r.chance(80) ? s : "G").system); }
   set(H::firstTimeValid, q); set(H::lastTimeValid, 50);
   if (set(H::markerNumberValid, 50)) h.markerNumber = word(r, 20);
   if (set(H::receiverOffsetValid, 40)) h.receiverOffset = r.in(0, 1);
   if (set(H::leapSecondsValid, 40)) h.leapSeconds = r.in(0, 37);
   if (set(H::commentValid, 40)) for (int k = r.in(1, 3); k > 0; k--) h.commentList.push_back(word(r, 60));
   if (set(H::numSatsValid, 40)) h.numSVs = r.in(0, 999);
   if (set(H::prnObsValid, 40)) for (auto& s : sats(r, sys, r.in(1, 5))) for (size_t k = 0; k < h.obsTypeList.size(); k++) h.numObsForSat[RinexSatID(s)].push_back(r.chance(20) ? 0 : r.in(1, 99999));
   if (h.numObsForSat.empty()) h.valid &= ~(unsigned long)H::prnObsValid;
   return h;
}
static D genD(Rng& r, const H& h, const std::string& sys, CommonTime& t)
{
   D d; d.epochFlag = r.chance(70) ? 0 : r.chance(30) ? 1 : r.in(2, 6); d.numSvs = 0; d.clockOffset = 0;
   if (r.chance(60)) { t += r.in(0, 1) ? 30.0 : 86400.0 * r.in(1, 40); CivilTime v(t); v.second = sec(r); if (r.chance(12)) { v.second = 0; if (r.chance(70)) v.minute = 0; if (r.chance(70)) v.hour = v.minute = 0; } v.setTimeSystem(TimeSystem::GPS); t = v.convertToCommonTime(); }
   else if (r.chance(50)) { CivilTime f(h.firstObs); t = tm(r, f.year + r.in(-1, 2)); }
   d.time = t;
   if (d.epochFlag >= 2 && d.epochFlag <= 5)
   {
      H& a = d.auxHeader; a.clear();
      if (r.chance(60)) { a.valid |= H::commentValid; for (int k = r.in(1, 3); k > 0; k--) a.commentList.push_back(word(r, 60)); }
      if (r.chance(40)) { a.valid |= H::markerNameValid; a.markerName = word(r, 60); }
      if (r.chance(30)) { a.valid |= H::markerNumberValid; a.markerNumber = word(r, 20); }
      if (r.chance(20)) { a.valid |= H::antennaTypeValid; a.antNo = word(r, 20); a.antType = word(r, 20); }
      if (d.epochFlag != 5 && r.chance(20)) d.time = CommonTime::BEGINNING_OF_TIME;
      {
         if (r.chance(30)) { a.valid |= H::antennaOffsetValid; a.antennaOffset = tri(r, 99); }
         if (r.chance(30)) { a.valid |= H::waveFactValid; a.wavelengthFactor[0] = r.in(0, 2); a.wavelengthFactor[1] = 1; if (r.chance(50)) for (int k = r.in(1, 2); k > 0; k--) a.extraWaveFactList.push_back(xwf(r, sys)); }
         if (r.chance(20)) { a.valid |= H::obsTypeValid; a.obsTypeList = types(r, count(r, {9, 10, 18, 19}, 28)); }
         if (r.chance(20)) { a.valid |= H::leapSecondsValid; a.leapSeconds = r.in(0, 37); }
      }
      d.numSvs = a.NumberHeaderRecordsToBeWritten() + waveLines(a);
      return d;
   }
   if (r.chance(50)) d.clockOffset = r.chance(20) ? dec(r, 9, true, 7) : (r.chance(50) ? -1 : 1) * (r.in(1, 999999) / 1e6 + (r.in(0, 999)) / 1e9);
   if (r.chance(5)) return d;
   for (auto& q : sats(r, sys, count(r, {1, 12, 13, 24, 25, 36}, 30))) for (auto& t : h.obsTypeList)
   {
      RinexDatum x; int c = r.in(0, 9);
      x.data = c == 1 ? 0.0 : c == 2 ? dec(r, 999999999, false, 5) : dec(r, c < 6 ? 30000000 : 9999, true);
      x.lli = r.chance(50) ? 0 : r.in(1, 7); x.ssi = r.chance(50) ? 0 : r.in(1, 9);
      if (r.chance(92)) d.obs[RinexSatID(q)][t] = x; else d.obs[RinexSatID(q)];
   }
   d.numSvs = d.obs.size();
   return d;
}
static bool readable(const D& d) { return !(d.time == CommonTime::BEGINNING_OF_TIME); }

static void readAll(Rng& r, const std::string& path, bool wantHeader, int extra, std::vector<D>* got, H* gh, H keep)
{
   RinexObsStream in;
   if (r.chance(50)) in.open(path.c_str(), std::ios::in); else in.open(path, std::ios::in);
   Ev("open").end();
   if (wantHeader)
   {
      H& h = keep; note("read header " + path); in >> h;
      bool ok = !in.fail();
      Ev e("hget"); e.f("x", ok ? "ok" : in.eof() ? "eof" : "fail").f("rn", (ll)in.recordNumber).f("h", ok ? flat(h) : Rec()); e.end();
      if (ok && gh) *gh = h;
      if (!ok && extra <= 0) return;
   }
   for (int n = 0; n < 60; n++)
   {
      D d; note("read data " + path); in >> d;
      bool ok = !in.fail();
      Ev e("get"); e.f("x", ok ? "ok" : in.eof() ? "eof" : "fail").f("rn", (ll)in.recordNumber).f("r", ok ? flat(d, in.header.obsTypeList) : Rec())
         .f("ts", ok ? StringUtils::asString(d.time.getTimeSystem()) : std::string("")); e.end();
      if (ok && got) got->push_back(d);
      if (!ok && extra-- <= 0) break;
   }
   if (gh && !wantHeader) *gh = in.header;
}
   // through the RINEX 3 classes
static std::string tsC(TimeSystem t) { return t == TimeSystem::GLO ? "R" : t == TimeSystem::GAL ? "E" : "G"; }
static void civ3(Rec& o, const char* c, const CivilTime& v, bool sys)
{
   o.i(c, "Y", v.year).i(c, "M", v.month).i(c, "D", v.day).i(c, "h", v.hour).i(c, "m", v.minute).num(c, "s", v.second);
   if (sys) o.str(c, "sys", tsC(v.getTimeSystem()));
}
static Rec flat3(const H3& h, bool aux)
{
   Rec o; const H3::Fields& v = h.valid;
   if (v.isSet(H3::validVersion)) o.i("ver", "", llround(h.version * 100)).str("fsys", "", h.fileSysSat.system == SatelliteSystem::Mixed ? "M" : std::string(1, RinexSatID(h.fileSysSat).systemChar()));
   if (v.isSet(H3::validRunBy)) o.str("pgm", "", h.fileProgram).str("runby", "", h.fileAgency);
   if (v.isSet(H3::validMarkerName)) o.str("mname", "", h.markerName);
   if (v.isSet(H3::validObserver)) o.str("obsr", "", h.observer).str("agcy", "", h.agency);
   if (v.isSet(H3::validReceiver)) o.str("recno", "", h.recNo).str("rectype", "", h.recType).str("recvers", "", h.recVers);
   if (v.isSet(H3::validAntennaType)) o.str("antno", "", h.antNo).str("anttype", "", h.antType);
   if (v.isSet(H3::validAntennaPosition)) for (int k = 0; k < 3; k++) o.num("apos", K(k), h.antennaPosition[k]);
   if (v.isSet(H3::validAntennaDeltaHEN)) for (int k = 0; k < 3; k++) o.num("ahen", K(k), h.antennaDeltaHEN[k]);
   if (v.isSet(H3::validWaveFact))
   {
      o.i("wf", "0", h.wavelengthFactor[0]).i("wf", "1", h.wavelengthFactor[1]);
      for (auto& x : h.extraWaveFactList)
      {
         std::vector<std::string> s; for (auto& q : x.satList) s.push_back(RinexSatID(q).toString());
         o.raw("xwf", "", "[" + hx::J((ll)x.wavelengthFactor[0]) + "," + hx::J((ll)x.wavelengthFactor[1]) + "," + hx::J(s) + "]");
      }
   }
   for (size_t k = 0; k < h.R2ObsTypes.size(); k++) o.str("obst", K(k), h.R2ObsTypes[k]);
   if (v.isSet(H3::validInterval)) o.num("intv", "", h.interval);
   if (v.isSet(H3::validFirstTime)) civ3(o, "first", h.firstObs, true);
   if (v.isSet(H3::validLastTime)) civ3(o, "last", h.lastObs, true);
   if (v.isSet(H3::validMarkerNumber)) o.str("mnum", "", h.markerNumber);
   if (v.isSet(H3::validReceiverOffset)) o.i("rco", "", h.receiverOffset);
   if (v.isSet(H3::validLeapSeconds)) o.i("leap", "", h.leapSeconds);
   if (v.isSet(H3::validComment)) for (auto& c : h.commentList) o.str("comment", "", c);
   if (v.isSet(H3::validNumSats)) o.i("nsat", "", h.numSVs);
   if (v.isSet(H3::validPrnObs)) for (auto& p : h.numObsForSat)
   { std::vector<ll> n(p.second.begin(), p.second.end()); o.raw("prnobs", p.first.toString(), hx::J(n)); }
   if (h.validEoH && !aux) o.i("end", "", 1);
   return o;
}
static bool read3(Rng& r, const std::string& path, int extra, std::vector<D3>& got, H3& gh)
{
   Rinex3ObsStream in(path.c_str(), std::ios::in); bool wantHeader = r.chance(60);
   Ev("open").end();
   if (wantHeader)
   {
      H3 h; note("read header (3) " + path); in >> h;
      bool ok = !in.fail(); std::vector<Raw> codes;
      for (auto& m : h.mapObsTypes) { std::vector<std::string> c; for (auto& o : m.second) c.push_back(o.asString(h.version)); codes.push_back(Raw("[" + hx::J(m.first) + "," + hx::J(c) + "]")); }
      Ev e("hget3"); e.f("x", ok ? "ok" : in.eof() ? "eof" : "fail").f("h", ok ? flat3(h, false) : Rec()).f("codes", codes); e.end();
      if (!ok) return false;
   }
   for (int n = 0; n < 60; n++)
   {
      D3 d; note("read data (3) " + path); in >> d;
      bool ok = !in.fail(); Rec o; std::vector<Raw> sd;
      if (ok)
      {
         o.i("flag", "", d.epochFlag).i("nsv", "", d.numSVs).num("clk", "", d.clockOffset);
         civ3(o, "t", CivilTime(d.time), false);
         if (d.epochFlag >= 2 && d.epochFlag <= 5) { Rec a = flat3(d.auxHeader, true); for (auto& x : a.f) o.f.push_back(x); }
         for (auto& p : d.obs)
         {
            std::vector<Raw> v; for (auto& x : p.second) v.push_back(Raw("[" + numJ(x.data) + "," + hx::J((ll)x.lli) + "," + hx::J((ll)x.ssi) + "]"));
            sd.push_back(Raw("[" + hx::J(p.first.toString()) + "," + hx::J(v) + "]"));
         }
      }
      Ev e("get3"); e.f("x", ok ? "ok" : in.eof() ? "eof" : "fail").f("r", o).f("sd", sd); e.end();
      if (ok) got.push_back(d);
      if (!ok && extra-- <= 0) break;
   }
   gh = in.header;
   return true;
}
static bool sameLine(const std::string& a, const std::string& b) { return a == b || (a.find("PGM / RUN BY") == 60 && b.find("PGM / RUN BY") == 60 && a.substr(0, 40) == b.substr(0, 40)); }

int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      H keep;
      while (trace().n < args().size)
      {
         std::string p = args().scratch + "/o2.obs", p2 = args().scratch + "/o2b.obs", sys;
         H h = genH(r, sys);
         Ev("new").end();
         std::vector<size_t> at, ev; std::vector<D> wrote; std::set<size_t> lost; bool hok;
         size_t hlen;
         {
            RinexObsStream out(p.c_str(), std::ios::out);
            note("write header"); ll n = h.NumberHeaderRecordsToBeWritten(); out << h; hok = !out.fail(); out.flush();
            std::vector<std::string> hl = lines(p); hlen = hl.size();
            { Ev e("hput"); e.f("x", hok ? "ok" : "fail").f("h", flat(h)).f("count", n).f("lack", waveLines(h)).f("lines", hok ? hl : std::vector<std::string>()); e.end(); }
            if (!hok) continue;
            CommonTime t = h.firstObs; t.setTimeSystem(TimeSystem::GPS);
            for (int k = r.in(0, 5); k > 0; k--)
            {
               D d = genD(r, h, sys, t); std::vector<std::string> before = lines(p);
               note("write data"); out << d; out.flush();
               std::vector<std::string> after = lines(p), add(after.begin() + before.size(), after.end());
               if (!add.empty()) { if (readable(d)) { at.push_back(before.size()); wrote.push_back(d); } else for (size_t q = before.size(); q < after.size(); q++) lost.insert(q); }
               Ev e("put"); e.f("x", out.fail() ? "fail" : "ok").f("r", flat(d, h.obsTypeList)).f("lines", add); e.end();
            }
         }
         std::vector<std::string> ls = lines(p);
         std::vector<D> got; H gh;
         readAll(r, p, r.chance(70), r.in(0, 1), &got, &gh, r.chance(30) ? keep : H());
         if (gh.valid) keep = gh;
         {
            { RinexObsStream out(p2.c_str(), std::ios::out); note("rewrite"); out << gh; for (auto& d : got) out << d; }
            std::vector<std::string> a, b = lines(p2); for (size_t k = 0; k < ls.size(); k++) if (!lost.count(k)) a.push_back(ls[k]);
            bool same = a.size() == b.size(); size_t k = 0;
            for (; k < std::min(a.size(), b.size()); k++) if (!sameLine(a[k], b[k])) { same = false; break; }
            Ev e("gen2"); e.f("same", same); if (!same) e.f("a", k < a.size() ? a[k] : "-").f("b", k < b.size() ? b[k] : "-"); e.end();
         }
         if (lost.empty())
         {
            std::vector<D3> got3; H3 h3;
            bool readIt = read3(r, p, r.in(0, 1), got3, h3), some = false;
            for (auto& m : h3.mapObsTypes) if (!m.second.empty()) some = true;
            if (readIt && some && r.chance(60))
            {
               bool ok = true;
               {
                  Rinex3ObsStream out(p2.c_str(), std::ios::out); note("write as version 2"); h3.prepareVer2Write(); out << h3;
                  for (auto& d : got3) out << d;
                  ok = !out.fail();
               }
               std::vector<Raw> rs; RinexObsStream in(p2.c_str(), std::ios::in); H h2; note("read what was written as version 2"); in >> h2; ok = ok && !in.fail();
               if (ok) for (;;) { D d; in >> d; if (in.fail()) { ok = in.eof(); break; } rs.push_back(Raw(hx::J(flat(d, h2.obsTypeList)))); }
               Ev e("again"); e.f("x", ok ? "ok" : "fail").f("h", flat(h2)).f("rs", rs); e.end();
            }
         }
         auto endOf = [&](size_t k) { size_t n = k + 1 < at.size() ? at[k + 1] : ls.size(); while (n > at[k] && lost.count(n - 1)) n--; return n; };
            // the same file as others write it
         if (r.chance(50))
         {
            std::vector<std::string> c = ls;
               // optional records and comments elsewhere in the header
            std::vector<std::string> fixed, com, rest;
            for (size_t k = 1; k + 1 < hlen; k++)
            {
               std::string lab = c[k].substr(60);
               (lab.find("COMMENT") == 0 ? com : lab.find("# / TYPES") == 0 || lab.find("WAVE") == 0 || lab.find("PRN /") == 0 ? fixed : rest).push_back(c[k]);
            }
            r.shuffle(rest); std::vector<std::string> hd(1, c[0]); size_t fi = 0, ci = 0, ri = 0;
            while (fi < fixed.size() || ci < com.size() || ri < rest.size())
            {
               int w = r.in(0, 2);
               if (w == 0 && fi < fixed.size()) hd.push_back(fixed[fi++]);
               else if (w == 1 && ci < com.size()) hd.push_back(com[ci++]);
               else if (w == 2 && ri < rest.size()) hd.push_back(rest[ri++]);
            }
            hd.push_back(c[hlen - 1]);
            for (auto& s : hd) if (r.chance(40)) s = s + std::string(80 - std::min<size_t>(80, s.size()), ' ');
            bool old = r.chance(40), blank = r.chance(40), trim = r.chance(50), junk = r.chance(30);
            std::vector<std::string> n(hd);
            std::set<size_t> isAt(at.begin(), at.end());
            for (size_t k = 0; k < at.size(); k++)
            {
               const D& d = wrote[k]; bool ev = d.epochFlag >= 2 && d.epochFlag <= 5; size_t e = endOf(k), el = 1;
               if (!ev) el = std::max<size_t>(1, (d.obs.size() + 11) / 12);
               if (junk) { std::string q = word(r, 60); q.resize(60, ' '); n.push_back("C" + q.substr(1) + "COMMENT"); }
               for (size_t q = at[k]; q < e; q++)
               {
                  std::string s = c[q];
                  if (!ev && q < at[k] + el && old) for (size_t x = 32; x + 2 < std::min<size_t>(s.size() + 1, 68); x += 3) if (s[x] == 'G') { s[x] = ' '; if (s[x + 1] == '0' && r.chance(50)) s[x + 1] = ' '; }
                  if (q == at[k])
                  {     // blanks for zeros, seconds of 60
                     if (r.chance(30)) for (int x : {4, 7, 10, 13}) if (s[x] == ' ' ) s[x] = '0';
                     if (s.substr(15, 11) == "  0.0000000" && r.chance(40))
                     {
                        auto v = [&](int x) { return atoi(s.substr(x, 2).c_str()); };
                        auto put = [&](int x, int y) { char b[8]; snprintf(b, 8, "%2d", y); s.replace(x, 2, b); };
                        int dd = v(7), hh = v(10), mi = v(13); bool can = true;
                        if (mi > 0) mi--; else if (hh > 0) { hh--; mi = 59; } else if (dd > 1) { dd--; hh = 23; mi = 59; } else can = false;
                        if (can) { put(7, dd); put(10, hh); put(13, mi); s.replace(15, 11, " 60.0000000"); }
                     }
                  }
                  if (!ev && q >= at[k] + el && blank) for (size_t x = 0; x + 14 <= s.size(); x += 16) if (s.substr(x, 14) == "         0.000") s.replace(x, 14, 14, ' ');
                  if (ev && q > at[k] && r.chance(50)) s.resize(80, ' ');
                  if (trim && !(ev && q > at[k])) { size_t z = s.find_last_not_of(' '); s = z == std::string::npos ? "" : s.substr(0, z + 1); }
                  n.push_back(s);
               }
            }
            rec::put(p, n);
            readAll(r, p, r.chance(50), 0, nullptr, nullptr, r.chance(30) ? keep : H());
         }
            // damage
         if (!at.empty() && r.chance(50))
         {
            int k = r.in(0, at.size() - 1); std::vector<std::string> c = ls; std::string& l = c[at[k]]; size_t e = endOf(k);
            const D& d = wrote[k]; bool ev = d.epochFlag >= 2 && d.epochFlag <= 5, cut = false, skip = false;
            switch (r.in(0, 6))
            {
               case 0: if (ev) { c[at[k] + 1] = c[at[k] + 1].substr(0, 60) + "NO SUCH LABEL"; break; } l[6] = 'x'; skip = true; break;
               case 1: if (ev) { c[at[k] + 1] = c[at[k] + 1].substr(0, 40); break; } if (r.chance(50)) l[10] = '9'; else if (r.chance(50)) l.replace(3, 3, " 13"); else l.replace(6, 3, "  0"); skip = true; break;
               case 2: l[28] = '7'; break;
               case 3: c.resize(e - 1); cut = true; if (e - 1 == at[k]) { cut = false; c = ls; c[at[k]][28] = '9'; } break;
               case 4: if (ev) l[28] = '8'; else l[32] = '#'; break;
               case 5: if (ev) l[28] = '9'; else c[e - 1].resize(81, '1'); break;
               default: if (ev) l[28] = '9'; else { l.resize(81, ' '); skip = true; } break;
            }
            rec::put(p, c);
            { Ev x(skip ? "skip" : "damage"); x.f("k", k + 1); if (!skip) x.f("cut", cut); x.end(); }
            readAll(r, p, r.chance(50), r.in(0, 3), nullptr, nullptr, H());
         }
         if (r.chance(20))
         {
            std::vector<std::string> c = ls; size_t k = r.in(1, (ll)hlen - 2);
            switch (r.in(0, 3))
            {
               case 0: c[k] = c[k].substr(0, 60) + "NO SUCH LABEL"; break;
               case 1: c[k] = c[k] + std::string(81 - c[k].size(), '.'); break;
               case 2: c[k] = c[k].substr(0, 59); break;
               default: for (k = 1; c[k].find("MARKER NAME") != 60; k++); c.erase(c.begin() + k); break;
            }
            rec::put(p, c); Ev("badhead").end();
            readAll(r, p, r.chance(50), r.in(0, 2), nullptr, nullptr, H());
         }
      }
   });
}
