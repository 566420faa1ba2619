// C17: names of satellites, observations and messages.
#include "hx.hpp"
#include "RinexSatID.hpp"
#include "SP3SatID.hpp"
#include "RinexObsID.hpp"
#include "NavID.hpp"
#include "TimeSystem.hpp"
#include "ReferenceFrame.hpp"
using namespace gpstk; using namespace hx; namespace SU = gpstk::StringUtils;
typedef std::string S;
static std::map<char, std::map<char, std::string>> table;   // as it was at the start: asking about a code adds empty entries
template <class E> static E as(const S&);
template <> SatelliteSystem as<SatelliteSystem>(const S& s) { return SU::asSatelliteSystem(s); }
template <> CarrierBand as<CarrierBand>(const S& s) { return SU::asCarrierBand(s); }
template <> TrackingCode as<TrackingCode>(const S& s) { return SU::asTrackingCode(s); }
template <> ObservationType as<ObservationType>(const S& s) { return SU::asObservationType(s); }
template <> NavType as<NavType>(const S& s) { return SU::asNavType(s); }
template <> ReferenceFrame as<ReferenceFrame>(const S& s) { return SU::asReferenceFrame(s); }
template <> TimeSystem as<TimeSystem>(const S& s) { return SU::asTimeSystem(s); }
template <class E> static void names(const char* k, Rng& r)
{
   std::vector<int> o; for (int i = 0; i < (int)E::Last; i++) o.push_back(i);
   r.shuffle(o);
   std::set<S> seen;
   for (int i : o) { S s = SU::asString((E)i); seen.insert(s); Ev("enum").f("k", k).f("i", i).f("s", s).f("back", (int)as<E>(s)).end(); }
   for (int j = 0; j < 2; j++)
   {
      S s = r.chance(50) ? SU::asString((E)o[0]) + "x" : r.chance(50) ? S("none") : S("");
      if (!seen.count(s)) Ev("noname").f("k", k).f("s", s).f("back", SU::asString(as<E>(s))).end();
   }
}
static void enums(Rng& r)
{
   names<SatelliteSystem>("sys", r); names<CarrierBand>("band", r); names<TrackingCode>("code", r); names<ObservationType>("type", r);
   names<NavType>("nav", r); names<ReferenceFrame>("frame", r); names<TimeSystem>("time", r);
}
static SatelliteSystem anySys(Rng& r) { return (SatelliteSystem)r.in(0, (int)SatelliteSystem::Last - 1); }
static int anyId(Rng& r, SatelliteSystem s)
{
   if (r.chance(10)) return -1;
   if (s == SatelliteSystem::QZSS) return r.chance(60) ? r.in(193, 202) : r.in(183, 192);
   if (s == SatelliteSystem::Geosync) return r.in(101, 199);
   return r.in(1, 99);
}
static S s3(const RinexSatID& s) { return s.systemString3(); }
static S s3(const SP3SatID&) { return ""; }
template <class T> static void sat(const char* fmt, Rng& r, SatelliteSystem sys, int id)
{
   char fill = r.chance(50) ? '0' : ' ';
   T a; 
   if (r.chance(50)) a = T(id, sys); else a = T(SatID(id, sys));
   char was = a.setfill(fill);
   S txt = a.toString();
   std::ostringstream os; os << a; if (os.str() != txt) txt = "stream differs";
   T b; S x = guard([&] { if (r.chance(50)) b = T(txt); else b.fromString(txt); });
   Ev("sat").f("fmt", fmt).f("n", SU::asString(sys)).f("id", id).f("fill", S(1, fill)).f("hn", SU::asString(a.system)).f("hi", a.id)
      .f("ch", S(1, a.systemChar())).f("s3", s3(a)).f("sys", a.systemString()).f("txt", txt).f("x", x).f("bn", SU::asString(b.system)).f("bi", b.id).end();
   a.setfill(was);
}
template <class T> static void parse(const char* fmt, Rng& r)
{
   static const S cs = "GERSTCJIMLgerstcjimlXAZbq#";
   S c = r.chance(15) ? "" : S(1, cs[r.in(0, cs.size() - 1)]);
   int k = r.chance(15) ? 0 : r.chance(15) ? -r.in(1, 99) : r.in(1, 99);
   if (c == "" && k < 0) k = -k;
   if ((c == "J" || c == "j") && S(fmt) == "sp3" && k > 20) k = k % 20;
   S num = std::to_string(k); if (k >= 0 && num.size() < 2 && r.chance(50)) num = "0" + num;
   bool none = c != "" && r.chance(10); if (none) { num = ""; k = 0; }
   S txt = S(r.in(0, 2), ' ') + c + (c != "" && r.chance(30) ? " " : "") + num + (r.chance(20) ? " " : "");
   T a(5, SatelliteSystem::Galileo); S x = guard([&] { a.fromString(txt); });
   Ev("parse").f("fmt", fmt).f("txt", txt).f("c", c).f("k", k).f("x", x).f("n", SU::asString(a.system)).f("id", a.id).end();
   if (r.chance(5)) { a.fromString(S(r.in(0, 3), ' ')); Ev("blank").f("n", SU::asString(a.system)).f("id", a.id).end(); }
}
template <class T> static void cmp(const T& a, const T& b)
{
   Ev("ord").f("a", Raw("[" + J((int)a.system) + "," + J(a.id) + "]")).f("b", Raw("[" + J((int)b.system) + "," + J(b.id) + "]")).f("eq", a == b).f("ne", a != b)
      .f("lt", a < b).f("gt", a > b).f("le", a <= b).f("ge", a >= b).end();
}
static void sats1(Rng& r)
{
   SatelliteSystem s = anySys(r); int id = anyId(r, s);
   switch (r.in(0, 5))
   {
      case 0: sat<RinexSatID>("rinex", r, s, id); break;
      case 1: if (s == SatelliteSystem::QZSS && id > 0 && id < 193) id = 193; sat<SP3SatID>("sp3", r, s, id); break;
      case 2: parse<RinexSatID>("rinex", r); break;
      case 3: parse<SP3SatID>("sp3", r); break;
      case 4:
      {
         SatelliteSystem t = r.chance(60) ? s : anySys(r); int jd = r.chance(30) ? id : anyId(r, t);
         if (r.chance(40)) cmp(SatID(id, s), SatID(jd, t)); else if (r.chance(50)) cmp(RinexSatID(id, s), RinexSatID(jd, t)); else cmp(SP3SatID(id, s), SP3SatID(jd, t));
         break;
      }
      case 5: { if (r.chance(50)) { s = SatelliteSystem::GPS; id = r.in(-1, 40); } else id = r.in(0, 110); Ev("satvalid").f("n", SU::asString(s)).f("id", id).f("v", SatID(id, s).isValid()).end(); break; }
   }
}
static Raw tri(const ObsID& o) { return Raw("[" + J(SU::asString(o.type)) + "," + J(SU::asString(o.band)) + "," + J(SU::asString(o.code)) + "]"); }
static Raw tro(const ObsID& o) { return Raw("[" + J((int)o.type) + "," + J((int)o.band) + "," + J((int)o.code) + "]"); }
static void code(Rng& r, char s, char t, char b, char a)
{
   int rd = r.chance(34) ? 300 : r.chance(50) ? 302 : 304;
   S txt = S(1, t) + b + a; RinexObsID o, p; S w[3] = { "", "", "" }; double vs[3] = { 3.00, 3.02, 3.04 };
   bool valid = isValidRinexObsID(S(1, s) + txt), valid2 = isValidRinexObsID(txt, s);
   S x = guard([&] {
      o = RinexObsID(S(1, s) + txt, rd / 100.0);
      for (int i = 0; i < 3; i++) w[i] = o.asString(vs[i]);
   });
   bool same = false;
   int i = r.in(0, 2);
   if (valid) guard([&] {
      p = RinexObsID(S(1, s) + w[i], vs[i]);
      RinexObsID q; if (r.chance(50)) q = RinexObsID(ObsID(o.type, o.band, o.code)); else q = RinexObsID(o);
      same = p == o && p.type == o.type && p.band == o.band && p.code == o.code && q.type == o.type && q.band == o.band && q.code == o.code && valid2;
      if (s == 'G') { RinexObsID g(txt, rd / 100.0); same = same && g == o; }
   });
   Ev("obs").f("s", S(1, s)).f("t", S(1, t)).f("b", S(1, b)).f("a", S(1, a)).f("rd", rd).f("ver", (int)(vs[i] * 100 + .5)).f("valid", valid).f("any", isValidRinexObsID(txt)).f("x", x)
      .f("type", SU::asString(o.type)).f("band", SU::asString(o.band)).f("code", SU::asString(o.code)).f("w300", w[0]).f("w302", w[1]).f("w304", w[2]).f("same", same).end();
}
static const S sysc = "GRESCJI", typ = "CLDS";
static void code1(Rng& r)
{
   char s = sysc[r.in(0, 6)], t = r.chance(95) ? typ[r.in(0, 3)] : S("PQTNcl")[r.in(0, 5)], b = '0' + r.in(1, 9), a = 'A' + r.in(0, 25);
   if (r.chance(60) && table[s].count(b))
   { S c = table[s][b]; char d = c[r.in(0, c.size() - 1)]; if (d >= 'A' && d <= 'Z') a = d; }
   code(r, s, t, b, a);
}
static void pseudo1(Rng& r)
{
   char s = sysc[r.in(0, 6)], t = r.chance(50) ? 'X' : 'I', b = '0' + r.in(1, 9);
   S txt = S(1, s) + t + b + " "; RinexObsID o; bool v = isValidRinexObsID(txt); S w;
   S x = guard([&] { o = RinexObsID(txt, 3.04); w = o.asString(); });
   Ev("pseudo").f("s", S(1, s)).f("t", S(1, t)).f("b", S(1, b)).f("valid", v).f("x", x).f("w", w).f("type", SU::asString(o.type)).end();
}
static RinexObsID anyObs(Rng& r, bool wild)
{
   static const CarrierBand bs[] = { CarrierBand::L1, CarrierBand::L2, CarrierBand::L5, CarrierBand::G1 };
   static const TrackingCode cs[] = { TrackingCode::CA, TrackingCode::P, TrackingCode::L5I, TrackingCode::Undefined };
   static const ObservationType ts[] = { ObservationType::Range, ObservationType::Phase, ObservationType::Iono, ObservationType::Channel, ObservationType::SNR };
   return RinexObsID(wild && r.chance(20) ? ObservationType::Any : ts[r.in(0, 4)], wild && r.chance(20) ? CarrierBand::Any : bs[r.in(0, 3)], wild && r.chance(20) ? TrackingCode::Any : cs[r.in(0, 3)]);
}
static void pair1(Rng& r)
{
   bool wl = r.chance(50);
   RinexObsID p = anyObs(r, wl), q = anyObs(r, wl);
   if (r.chance(30)) q = p; else { if (r.chance(50)) q.type = p.type; if (r.chance(50)) q.band = p.band; if (r.chance(50)) q.code = p.code; }
   S w = p.type == ObservationType::Any || p.band == CarrierBand::Any || p.code == TrackingCode::Any || (p.code == TrackingCode::Undefined && p.type != ObservationType::Iono && p.type != ObservationType::Channel) ? S() : p.asString(r.chance(50) ? 3.02 : 3.04);
   Ev("pair").f("w", w).f("p", tri(p)).f("q", tri(q)).f("po", tro(p)).f("qo", tro(q)).f("eq", p == q).f("ne", p != q).f("lt", p < q).f("slot", p.equalIndex(q)).end();
}
static void nav1(Rng& r)
{
   SatelliteSystem s = anySys(r); int id = s == SatelliteSystem::BeiDou ? r.in(1, 10) : anyId(r, s);
   CarrierBand b = (CarrierBand)r.in(0, (int)CarrierBand::Last - 1); TrackingCode c = (TrackingCode)r.in(0, (int)TrackingCode::Last - 1);
   if (r.chance(80))   // a signal of the tables
   {
      char sc = sysc[r.in(0, 6)]; auto& m = table[sc]; auto it = m.begin(); std::advance(it, r.in(0, m.size() - 1));
      char a = it->second[r.in(0, it->second.size() - 1)];
      if (a >= 'A' && a <= 'Z') { RinexObsID o(S(1, sc) + "L" + it->first + a, 3.04); b = o.band; c = o.code; if (r.chance(90)) { s = RinexSatID(S(1, sc) + "01").system; id = s == SatelliteSystem::BeiDou ? r.in(1, 10) : anyId(r, s); } }
   }
   Ev("nav").f("n", SU::asString(s)).f("id", id).f("b", SU::asString(b)).f("c", SU::asString(c)).f("v", SU::asString(NavID(SatID(id, s), ObsID(ObservationType::NavMsg, b, c)).navType)).end();
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      bool first = true; table = RinexObsID::validRinexTrackingCodes;
      while (trace().n < args().size)
      {
         Ev("new").end();
         enums(r);
         if (first)     // the whole tables once
         {
            for (char s : sysc) for (char t : typ) for (char b = '1'; b <= '9'; b++) for (char a = 'A'; a <= 'Z'; a++)
            { if (trace().n >= args().size * 3 / 4) break; if (table[s].count(b) || r.chance(5)) { S c = table[s].count(b) ? table[s][b] : S(); if (c.find(a) != S::npos || r.chance(3)) code(r, s, t, b, a); } }
            first = false;
         }
         int n = r.in(100, 600);
         for (int i = 0; i < n && trace().n < args().size; i++)
            switch (r.in(0, 9))
            { case 0: case 1: case 2: case 3: sats1(r); break; case 4: case 5: code1(r); break; case 6: pseudo1(r); break; case 7: pair1(r); break; default: nav1(r); }
      }
   });
}
