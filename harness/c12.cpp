// C12: RINEX 3 observation files.
#include "rec.hpp"
#include "Rinex3ObsStream.hpp"
#include "Rinex3ObsHeader.hpp"
#include "Rinex3ObsData.hpp"
#include "RinexObsID.hpp"
#include "RinexSatID.hpp"
using namespace gpstk; using namespace hx; using namespace rec;
typedef Rinex3ObsHeader H;
typedef Rinex3ObsData D;

static const std::map<char, std::vector<std::string> > CODES = {
   {'G', {"C1C","L1C","D1C","S1C","C1W","L1W","D1W","S1W","C2W","L2W","D2W","S2W","C2X","L2X","D2X","S2X","C5X","L5X","D5X","S5X","C2L","L2L","S2L","C1P","L1P","C2P","L2P"}},
   {'R', {"C1C","L1C","D1C","S1C","C1P","L1P","D1P","S1P","C2C","L2C","D2C","S2C","C2P","L2P","D2P","S2P"}},
   {'E', {"C1X","L1X","D1X","S1X","C5X","L5X","D5X","S5X","C7X","L7X","S7X","C8X","L8X","S8X","C6X","L6X","C1C","L1C","C5Q","L5Q"}},
   {'J', {"C1C","L1C","S1C","C2L","L2L","C5X","L5X","S5X","C1X","L1X"}},
   {'C', {"C2I","L2I","S2I","C7I","L7I","S7I","C6I","L6I","S6I"}},
   {'S', {"C1C","L1C","S1C","C5I","L5I"}},
   {'I', {"C5A","L5A","S5A","D5A","C9A","L9A"}} };
static SatelliteSystem sysOf(char c)
{
   switch (c) { case 'G': return SatelliteSystem::GPS; case 'R': return SatelliteSystem::Glonass; case 'E': return SatelliteSystem::Galileo;
      case 'J': return SatelliteSystem::QZSS; case 'C': return SatelliteSystem::BeiDou; case 'S': return SatelliteSystem::Geosync; default: return SatelliteSystem::IRNSS; }
}
static std::string satStr(Rng& r, char c)
{
   int m = c == 'G' ? 32 : c == 'R' ? 24 : c == 'E' ? 36 : c == 'J' ? 7 : c == 'C' ? 63 : c == 'S' ? 58 : 14;
   int n = r.in(1, m); if (c == 'S') n = r.in(20, 58);
   char b[8]; snprintf(b, 8, "%c%02d", c, n); return b;
}
static std::set<std::string> sats(Rng& r, char c, int n)
{ std::set<std::string> s; for (int k = 0; k < 20 * n && (int)s.size() < n; k++) s.insert(satStr(r, c)); return s; }

static CivilTime rt(Rng& r, TimeSystem ts)
{
   int Y = r.in(1995, 2035), M = r.in(1, 12), Dd = r.in(1, 28);
   double s = r.chance(50) ? r.in(0, 59) : r.chance(30) ? r.in(0, 59999999) / 1e6 : (r.in(0, 59) + r.in(0, 999999) / 1e6 + r.in(0, 9) / 1e7);
   return CivilTime(Y, M, Dd, r.in(0, 23), r.in(0, 59), s, ts);
}
static void civ(Rec& o, const char* c, const CivilTime& t)
{
   o.i(c, "Y", t.year).i(c, "M", t.month).i(c, "D", t.day).i(c, "h", t.hour).i(c, "m", t.minute).num(c, "s", t.second);
   o.str(c, "ts", StringUtils::asString(t.getTimeSystem()));
}
static void tri(Rec& o, const char* c, const Triple& t) { for (int k = 0; k < 3; k++) o.num(c, K(k), t[k]); }
   // the valid fields of a header, in the order of the format
static Rec flat(const H& h, double ver, bool expectAll)
{
   Rec o; const H::Fields& v = h.valid;
   if (v.isSet(H::validVersion)) { o.i("ver", "", llround(h.version * 100)).str("type", "", h.fileType).str("fsys", "", h.fileSys).i("sys", "", (int)h.fileSysSat.system); }
   if (v.isSet(H::validRunBy)) o.str("pgm", "", h.fileProgram).str("runby", "", h.fileAgency).str("date", "", h.date);
   if (v.isSet(H::validComment)) for (auto& s : h.commentList) o.str("comment", "", s);
   if (v.isSet(H::validMarkerName)) o.str("mname", "", h.markerName);
   if (v.isSet(H::validMarkerNumber)) o.str("mnum", "", h.markerNumber);
   if (v.isSet(H::validMarkerType)) o.str("mtype", "", h.markerType);
   if (v.isSet(H::validObserver)) o.str("obsr", "", h.observer).str("agcy", "", h.agency);
   if (v.isSet(H::validReceiver)) o.str("recno", "", h.recNo).str("rectype", "", h.recType).str("recvers", "", h.recVers);
   if (v.isSet(H::validAntennaType)) o.str("antno", "", h.antNo).str("anttype", "", h.antType);
   if (v.isSet(H::validAntennaPosition)) tri(o, "apos", h.antennaPosition);
   if (v.isSet(H::validAntennaDeltaHEN)) tri(o, "ahen", h.antennaDeltaHEN);
   if (v.isSet(H::validAntennaDeltaXYZ)) tri(o, "axyz", h.antennaDeltaXYZ);
   if (v.isSet(H::validAntennaPhaseCtr)) { o.str("apsys", "", h.antennaSatSys).str("apcode", "", h.antennaObsCode); tri(o, "aphc", h.antennaPhaseCtr); }
   if (v.isSet(H::validAntennaBsightXYZ)) tri(o, "absi", h.antennaBsightXYZ);
   if (v.isSet(H::validAntennaZeroDirAzi)) o.num("azaz", "", h.antennaZeroDirAzi);
   if (v.isSet(H::validAntennaZeroDirXYZ)) tri(o, "azxyz", h.antennaZeroDirXYZ);
   if (v.isSet(H::validCenterOfMass)) tri(o, "com", h.centerOfMass);
   if (v.isSet(H::validSystemNumObs)) for (auto& m : h.mapObsTypes) for (size_t k = 0; k < m.second.size(); k++) o.str("obst", m.first + K(k), m.second[k].asString(ver));
   if (v.isSet(H::validSigStrengthUnit)) o.str("ssu", "", h.sigStrengthUnit);
   if (v.isSet(H::validInterval)) o.num("intv", "", h.interval);
   if (v.isSet(H::validFirstTime)) civ(o, "first", h.firstObs);
   if (v.isSet(H::validLastTime)) civ(o, "last", h.lastObs);
   if (v.isSet(H::validReceiverOffset)) o.i("rco", "", h.receiverOffset);
   if (v.isSet(H::validSystemDCBSapplied)) for (auto& c : h.infoDCBS) o.str("dcbsys", "", c.satSys).str("dcbname", "", c.name).str("dcbsrc", "", c.source);
   if (v.isSet(H::validSystemPCVSapplied)) for (auto& c : h.infoPCVS) o.str("pcvsys", "", c.satSys).str("pcvname", "", c.name).str("pcvsrc", "", c.source);
   if (v.isSet(H::validSystemScaleFac)) for (auto& m : h.sysSfacMap)
   {  // by factor, then by code
      for (auto& p : m.second) o.i("sfac", m.first + p.first.asString(ver), p.second);
   }
   if (v.isSet(H::validSystemPhaseShift)) for (auto& m : h.sysPhaseShift)
   {
      o.str("pssys", m.first, "");
      for (auto& p : m.second) for (auto& q : p.second) o.num("ps", m.first + p.first.asString(ver) + (q.first.id == -1 ? "" : q.first.toString()), q.second);
   }
   if (v.isSet(H::validGlonassSlotFreqNo)) for (auto& p : h.glonassFreqNo) o.i("slot", p.first.toString(), p.second);
   if (v.isSet(H::validGlonassCodPhsBias))
      for (const char* c : {"C1C", "C1P", "C2C", "C2P"})
      { auto it = h.glonassCodPhsBias.find(RinexObsID(std::string("R") + c, ver)); o.num("cpb", c, it == h.glonassCodPhsBias.end() ? 0.0 : it->second); }
   if (v.isSet(H::validLeapSeconds)) o.i("leap", "", h.leapSeconds);
   if (v.isSet(H::validNumSats)) o.i("nsat", "", h.numSVs);
   if (v.isSet(H::validPrnObs)) for (auto& m : h.numObsForSat) for (size_t k = 0; k < m.second.size(); k++) o.i("prnobs", m.first.toString() + K(k), m.second[k]);
   return o;
}

static Triple rtri(Rng& r, ll m) { return Triple(dec(r, m, true), dec(r, m, true), dec(r, m, true)); }

static H genHeader(Rng& r)
{
   H h;
   h.version = r.pick(std::vector<double>{3.00, 3.01, 3.02, 3.03, 3.04});
   h.valid.set(H::validVersion);
   std::string all = "GREJCSI", have;
   for (char c : all) if (r.chance(c == 'G' ? 80 : 35)) have += c;
   if (have.empty()) have = "G";
   bool mixed = have.size() > 1 || r.chance(20);
   h.fileType = "OBSERVATION DATA";
   h.preserveVerType = r.chance(30);
   if (mixed) { h.fileSysSat = SatID(-1, SatelliteSystem::Mixed); h.fileSys = "MIXED"; }
   else { RinexSatID s(-1, sysOf(have[0])); h.fileSysSat = SatID(-1, sysOf(have[0])); h.fileSys = std::string(1, have[0]) + " (" + s.systemString() + ")"; }
   if (h.preserveVerType) { if (r.chance(50)) h.fileType = "O"; if (r.chance(50)) h.fileSys = mixed ? "M" : std::string(1, have[0]); }
   h.preserveDate = true;
   h.valid.set(H::validRunBy);
   h.fileProgram = word(r, 22); h.fileAgency = word(r, 22); h.date = r.chance(80) ? "20150112 101112 UTC" : word(r, 20);
   auto opt = [&](H::Field f, int pct = 50) { if (r.chance(pct)) { h.valid.set(f); return true; } return false; };
   if (opt(H::validComment)) for (int k = r.in(0, 4); k > 0; k--) h.commentList.push_back(word(r, 62));
   if (opt(H::validMarkerName, 97)) h.markerName = word(r, 60);
   if (opt(H::validMarkerNumber)) h.markerNumber = word(r, 21);
   if (opt(H::validMarkerType)) h.markerType = word(r, 20);
   if (opt(H::validObserver, 98)) { h.observer = word(r, 21); h.agency = word(r, 41); }
   if (opt(H::validReceiver, 98)) { h.recNo = word(r, 20); h.recType = word(r, 21); h.recVers = word(r, 20); }
   if (opt(H::validAntennaType, 98)) { h.antNo = word(r, 20); h.antType = word(r, 20); }
   if (opt(H::validAntennaPosition, 98)) h.antennaPosition = rtri(r, 9999999);
   if (opt(H::validAntennaDeltaHEN, 98)) h.antennaDeltaHEN = rtri(r, 999);
   if (opt(H::validAntennaDeltaXYZ)) h.antennaDeltaXYZ = rtri(r, 999);
   if (opt(H::validAntennaPhaseCtr)) { h.antennaSatSys = std::string(1, have[0]); h.antennaObsCode = r.pick(CODES.at(have[0])); h.antennaPhaseCtr = Triple(dec(r, 99, true), dec(r, 9999, true), dec(r, 99999, true)); }
   if (opt(H::validAntennaBsightXYZ)) h.antennaBsightXYZ = rtri(r, 9999);
   if (opt(H::validAntennaZeroDirAzi)) h.antennaZeroDirAzi = dec(r, 359, false);
   if (opt(H::validAntennaZeroDirXYZ)) h.antennaZeroDirXYZ = rtri(r, 9999);
   if (opt(H::validCenterOfMass)) h.centerOfMass = rtri(r, 99999);
   if (opt(H::validSystemNumObs, 99)) for (char c : have)
   {
      std::vector<std::string> v = CODES.at(c); r.shuffle(v);
      int n = r.chance(20) ? (int)v.size() : r.chance(20) ? std::min<int>(13, v.size()) : r.in(1, v.size()); v.resize(n);
      for (auto& s : v) h.mapObsTypes[std::string(1, c)].push_back(RinexObsID(c + s, h.version));
   }
   if (opt(H::validSigStrengthUnit)) h.sigStrengthUnit = r.chance(70) ? "DBHZ" : word(r, 20);
   if (opt(H::validInterval)) h.interval = dec(r, 9999, false);
   static const std::vector<TimeSystem> TS = {TimeSystem::GPS, TimeSystem::GPS, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::BDT, TimeSystem::QZS, TimeSystem::UTC, TimeSystem::Unknown};
   TimeSystem ts = r.pick(TS);
   if (ts == TimeSystem::Unknown && !mixed && (have == "S" || have == "I")) ts = TimeSystem::GPS;
   if (opt(H::validFirstTime, 99)) h.firstObs = rt(r, ts);
   if (opt(H::validLastTime)) h.lastObs = rt(r, ts);
   if (opt(H::validReceiverOffset)) h.receiverOffset = r.in(0, 1);
   auto corr = [&](H::CorrVec& v) { for (int k = r.in(0, 3); k > 0; k--) { H::Rinex3CorrInfo c; c.satSys = std::string(1, r.chance(95) ? all[r.in(0, 6)] : ' '); if (c.satSys == " ") c.satSys = ""; c.name = word(r, 18); c.source = word(r, 41); v.push_back(c); } };
   if (opt(H::validSystemDCBSapplied)) corr(h.infoDCBS);
   if (opt(H::validSystemPCVSapplied)) corr(h.infoPCVS);
   if (opt(H::validSystemScaleFac)) for (char c : have) if (r.chance(70))
   {
      std::vector<std::string> v = CODES.at(c); r.shuffle(v); v.resize(r.chance(30) ? std::min<int>(v.size(), 12) : r.in(1, v.size()));
      bool one = r.chance(60); int f = r.pick(std::vector<int>{1, 10, 100, 1000});
      for (auto& s : v) h.sysSfacMap[std::string(1, c)][RinexObsID(c + s, h.version)] = one || r.chance(70) ? f : r.pick(std::vector<int>{1, 10, 100, 1000});
   }
   if (opt(H::validSystemPhaseShift, 97)) for (char c : have) if (c == have[0] || r.chance(80))
   {
      std::string s(1, c); h.sysPhaseShift[s];
      std::vector<std::string> v = CODES.at(c); r.shuffle(v); int n = r.in(0, 4);
      for (auto& o : v) if (o[0] == 'L' && n-- > 0)
      {
         double cor = dec(r, 8, true);
         auto& m = h.sysPhaseShift[s][RinexObsID(c + o, h.version)];
         if (r.chance(50)) { RinexSatID none; none.fromString(s); m[none] = cor; }
         else for (auto& q : sats(r, c, r.chance(30) ? 10 : r.chance(30) ? 20 : r.in(1, 25))) m[RinexSatID(q)] = cor;
      }
   }
   bool hasR = have.find('R') != std::string::npos;
   if (opt(H::validGlonassSlotFreqNo, hasR ? 95 : 30)) for (auto& q : sats(r, 'R', r.chance(30) ? 8 : r.chance(30) ? 16 : r.in(1, 24))) h.glonassFreqNo[RinexSatID(q)] = r.in(-7, 6);
   if (opt(H::validGlonassCodPhsBias, hasR ? 95 : 30)) for (const char* c : {"C1C", "C1P", "C2C", "C2P"}) if (r.chance(70)) h.glonassCodPhsBias[RinexObsID(std::string("R") + c, h.version)] = dec(r, 99, true);
   if (opt(H::validLeapSeconds)) h.leapSeconds = r.in(0, 37);
   if (opt(H::validNumSats)) h.numSVs = r.in(0, 200);
   if (opt(H::validPrnObs) && !h.mapObsTypes.empty()) for (char c : have) if (r.chance(70)) for (auto& q : sats(r, c, r.in(1, 4)))
      for (size_t k = 0; k < h.mapObsTypes[std::string(1, c)].size(); k++) h.numObsForSat[RinexSatID(q)].push_back(r.chance(20) ? 0 : r.in(1, 99999));
   h.validEoH = true;
   return h;
}

static Rec flatD(const D& d)
{
   Rec o; o.i("flag", "", d.epochFlag).i("nsv", "", d.numSVs).num("clk", "", d.clockOffset);
   bool no = d.time == CommonTime::BEGINNING_OF_TIME; o.b("notime", "", no);
   if (!no) { o.time("t", "", d.time); }
   if (d.epochFlag >= 2 && d.epochFlag <= 5) { Rec a = flat(d.auxHeader, 3.03, false); for (auto& x : a.f) o.f.push_back(x); }
   else for (auto& p : d.obs) for (size_t k = 0; k < p.second.size(); k++)
   {
      const RinexDatum& x = p.second[k]; std::string key = p.first.toString() + K(k);
      o.b("blank", key, x.dataBlank).num("data", key, x.dataBlank ? 0.0 : x.data);
      o.i("lli", key, x.lliBlank && x.lli == 0 ? -1 : x.lli).i("ssi", key, x.ssiBlank && x.ssi == 0 ? -1 : x.ssi);
   }
   return o;
}

static D genData(Rng& r, const H& h, TimeSystem ts)
{
   D d; d.epochFlag = r.chance(70) ? 0 : r.chance(30) ? 1 : r.in(2, 6);
   CivilTime t = rt(r, ts); d.time = t.convertToCommonTime();
   d.clockOffset = r.chance(50) ? 0.0 : r.chance(20) ? (r.chance(50) ? dec(r, 99, false, 7) : dec(r, 9, true, 7)) : (r.chance(50) ? -1 : 1) * (r.in(1, 999999) / 1e6 + (r.in(0, 999) * 1000 + r.in(0, 499)) / 1e12) / (r.chance(50) ? 1000 : 1);
   d.numSVs = 0;
   if (d.epochFlag >= 2 && d.epochFlag <= 5)
   {
      int n = 0; H& a = d.auxHeader; a.clear(); a.version = h.version; a.valid.clear();
      if (r.chance(60)) { a.valid.set(H::validComment); for (int k = r.in(1, 3); k > 0; k--) { a.commentList.push_back(word(r, 60)); n++; } }
      if (r.chance(40)) { a.valid.set(H::validMarkerName); a.markerName = word(r, 60); n++; }
      if (r.chance(30)) { a.valid.set(H::validMarkerNumber); a.markerNumber = word(r, 20); n++; }
      if (r.chance(30)) { a.valid.set(H::validAntennaDeltaHEN); a.antennaDeltaHEN = rtri(r, 99); n++; }
      if (r.chance(20)) { a.valid.set(H::validAntennaType); a.antNo = word(r, 20); a.antType = word(r, 20); n++; }
      d.numSVs = n;
      if (d.epochFlag != 5 && r.chance(30)) d.time = CommonTime::BEGINNING_OF_TIME;
      return d;
   }
   if (r.chance(5)) return d;      // nothing observed
   for (auto& m : h.mapObsTypes) for (auto& q : sats(r, m.first[0], r.in(0, 4)))
      for (size_t k = 0; k < m.second.size(); k++)
      {
         RinexDatum x;
         int c = r.in(0, 9);
         if (c == 0) { x.dataBlank = true; x.data = 0; }
         else x.data = c == 1 ? 0.0 : c == 2 ? dec(r, 999999999, false, 5) : dec(r, c < 6 ? 30000000 : 9999, true);
         if (x.data < -99999999) x.data = 0;
         if (r.chance(50)) { x.lliBlank = true; x.lli = 0; } else x.lli = r.chance(50) ? 0 : r.in(0, 7);
         if (r.chance(50)) { x.ssiBlank = true; x.ssi = 0; } else x.ssi = r.chance(30) ? 0 : r.in(0, 9);
         d.obs[RinexSatID(q)].push_back(x);
      }
   d.numSVs = d.obs.size();
   return d;
}

static void readAll(Rng& r, const std::string& path, double ver, bool wantHeader, int extra, std::vector<D>* got, H* gh)
{
   Rinex3ObsStream in(path.c_str(), std::ios::in);
   Ev("open").end();
   if (wantHeader)
   {
      H h; note("read header " + path); in >> h;
      bool ok = !in.fail();
      Ev e("hget"); e.f("x", ok ? "ok" : in.eof() ? "eof" : "fail").f("rn", (ll)in.recordNumber).f("h", ok ? flat(h, ver, false) : Rec()); e.end();
      if (!ok) return;
      if (gh) *gh = h;
   }
   for (int n = 0; n < 60; n++)
   {
      D d; note("read data " + path); in >> d;
      bool ok = !in.fail();
      Ev e("get"); e.f("x", ok ? "ok" : in.eof() ? "eof" : "fail").f("rn", (ll)in.recordNumber).f("r", ok ? flatD(d) : Rec())
         .f("ts", ok && !(d.time == CommonTime::BEGINNING_OF_TIME) ? StringUtils::asString(d.time.getTimeSystem()) : std::string("")); e.end();
      if (ok && got) got->push_back(d);
      if (!ok && extra-- <= 0) break;
   }
   if (gh && !wantHeader) *gh = in.header;
}

int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      while (trace().n < args().size)
      {
         std::string p = args().scratch + "/o.rnx", p2 = args().scratch + "/o2.rnx";
         H h = genHeader(r);
         std::vector<size_t> at; std::vector<std::string> ls;
         Ev("new").end();
         TimeSystem ts = h.firstObs.getTimeSystem(); if (ts == TimeSystem::Unknown) ts = TimeSystem::GPS;
         bool hok; int nrec = 0;
         {
            Rinex3ObsStream out(p.c_str(), std::ios::out);
            note("write header"); out << h; hok = !out.fail(); out.flush();
            std::vector<std::string> hl = lines(p);
            { Ev e("hput"); e.f("x", hok ? "ok" : "fail").f("h", flat(h, h.version, true)).f("lines", hok ? hl : std::vector<std::string>()).f("hasR", h.mapObsTypes.count("R") > 0); e.end(); }
            if (!hok) continue;
            for (int k = r.in(0, 6); k > 0; k--)
            {
               D d = genData(r, h, ts); std::vector<std::string> before = lines(p);
               note("write data"); out << d; out.flush();
               std::vector<std::string> after = lines(p);
               std::vector<std::string> add(after.begin() + before.size(), after.end());
               if (!add.empty()) { at.push_back(before.size()); nrec++; }
               Rec cv; if (!(d.time == CommonTime::BEGINNING_OF_TIME)) { CivilTime t(d.time); cv.i("Y", "", t.year).i("M", "", t.month).i("D", "", t.day).i("h", "", t.hour).i("m", "", t.minute).num("s", "", t.second); }
               Ev e("put"); e.f("x", out.fail() ? "fail" : "ok").f("r", flatD(d)).f("c", cv).f("lines", add); e.end();
            }
         }
         ls = lines(p);
         std::vector<D> got; H gh;
         readAll(r, p, h.version, r.chance(70), r.in(0, 1), &got, &gh);
            // second generation
         {
            Rinex3ObsStream out(p2.c_str(), std::ios::out);
            H h2 = gh; h2.preserveVerType = true; h2.preserveDate = true;
            note("rewrite"); out << h2; for (auto& d : got) { if (d.epochFlag >= 2 && d.epochFlag <= 5) d.auxHeader.version = h.version; out << d; }
         }
         std::string a = slurp(p), b = slurp(p2);
         { Ev e("gen2"); e.f("same", a == b); if (a != b) { std::vector<std::string> l2 = lines(p2); for (size_t k = 0; k < std::min(ls.size(), l2.size()); k++) if (ls[k] != l2[k]) { e.f("a", ls[k]).f("b", l2[k]); break; } } e.end(); }
            // damage
         if (nrec > 0 && r.chance(50))
         {
            int k = r.in(0, nrec - 1); std::vector<std::string> c = ls; std::string& l = c[at[k]];
            bool cut = false;
            size_t nextAt = k + 1 < nrec ? at[k + 1] : ls.size();
            switch (r.in(0, 5))
            {
               case 0: l[0] = 'x'; break;
               case 5: if (l[13] != ' ') l[13] = '9'; else l[0] = 'x'; break;   // a time that does not exist
               case 1: l[31] = '9'; break;
               case 2: if (nextAt - at[k] > 1) { c.resize(nextAt - 1); cut = true; } else l[0] = ' '; break;
               case 3: c[r.in(at[k], nextAt - 1)][1] = '\001'; break;
               default: l[6] = '-'; break;
            }
            put(p, c);
            { Ev e("damage"); e.f("k", k + 1).f("cut", cut); e.end(); }
            readAll(r, p, h.version, r.chance(50), r.in(0, 3), nullptr, nullptr);
         }
      }
   });
}
