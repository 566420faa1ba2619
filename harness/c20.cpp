// C20: chains of navigation message filters.
#include "hx.hpp"
#include <memory>
#include "NavFilterMgr.hpp"
#include "LNavFilterData.hpp"
#include "LNavParityFilter.hpp"
#include "LNavEmptyFilter.hpp"
#include "LNavTLMHOWFilter.hpp"
#include "LNavAlmValFilter.hpp"
#include "LNavCookFilter.hpp"
#include "LNavCrossSourceFilter.hpp"
#include "LNavOrderFilter.hpp"
#include "LNavEphMaker.hpp"
#include "NavOrderFilter.hpp"
#include "CNavFilterData.hpp"
#include "CNavParityFilter.hpp"
#include "CNavEmptyFilter.hpp"
#include "CNavTOWFilter.hpp"
#include "CNavCookFilter.hpp"
#include "CNavCrossSourceFilter.hpp"
#include "CNav2SanityFilter.hpp"
#include "NavMsgDataWords.hpp"
#include "NavMsgDataBits.hpp"
#include "NavMsgDataPNB.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace hx;
typedef uint32_t W; typedef std::vector<W> SF;
typedef NavFilter::NavMsgList List;
static const int WK = 2000;

static int bit(W w, int i) { return (w >> (30 - i)) & 1; }
static W parity(W d, W p)
{
   static const std::vector<std::vector<int> > rows = { {1,2,3,5,6,10,11,12,13,14,17,18,20,23}, {2,3,4,6,7,11,12,13,14,15,18,19,21,24}, {1,3,4,5,7,8,12,13,14,15,16,19,20,22},
      {2,4,5,6,8,9,13,14,15,16,17,20,21,23}, {1,3,5,6,7,9,10,14,15,16,17,18,21,22,24}, {3,5,6,8,9,10,11,13,15,19,22,23,24} };
   static const int star[6] = { 29, 30, 29, 30, 30, 29 };
   W o = 0;
   for (int k = 0; k < 6; k++) { int s = bit(p, star[k]); for (int i : rows[k]) s ^= bit(d, i); o = o * 2 + s; }
   return o;
}
// parity over upright data; words 2 and 10 end in two zeros
static void encode(SF& s)
{
   W p = 0;
   for (int k = 0; k < 10; k++)
   {
      W d = s[k] & 0x3fffffc0, q = parity(d, p);
      if (k == 1 || k == 9) for (W t = 0; t < 4; t++) { W x = (d & ~0xC0u) | (t << 6); W y = parity(x, p); if ((y & 3) == 0) { d = x; q = y; break; } }
      p = s[k] = d | q;
   }
}
static void set(SF& s, int b, int n, W v)
{
   for (int i = 0; i < n; i++) { int q = b + i - 1; W m = (W)1 << (29 - q % 30); if ((v >> (n - 1 - i)) & 1) s[q / 30] |= m; else s[q / 30] &= ~m; }
}
static int at(const SF& s, int b) { return (s[(b - 1) / 30] >> (29 - (b - 1) % 30)) & 1; }
static SF noise(Rng& r, int n) { SF s(n); int k = (int)r.in(0, 9); for (auto& w : s) w = k == 0 ? 0 : k == 1 ? 0x3fffffff : (W)r.in(0, 0x3fffffff); return s; }
static void crc(SF& s)
{
   W rem = 0;
   for (int i = 1; i <= 276; i++) { W top = ((rem >> 23) & 1) ^ at(s, i); rem = (rem << 1) & 0xffffff; if (top) rem ^= 0x864cfb; }
   set(s, 277, 24, rem);
}

// a message of either kind that knows its number
struct Info { int id, key; ll t; unsigned prn; };
struct LMsg : LNavFilterData { Info x; SF words; };
struct CMsg : CNavFilterData { Info x; std::unique_ptr<PackedNavBits> bits; int n; };
static const Info& info(NavFilterKey* k) { LMsg* a = dynamic_cast<LMsg*>(k); return a ? a->x : dynamic_cast<CMsg*>(k)->x; }
static SF words(NavFilterKey* k)
{
   LMsg* a = dynamic_cast<LMsg*>(k); if (a) return a->words;
   CMsg* c = dynamic_cast<CMsg*>(k); SF o(c->n);
   for (int i = 0; i < c->n; i++) o[i] = (W)c->bits->asUnsignedLong(30 * i, 30, 1);
   return o;
}
static Raw arr(const SF& s) { std::string o = "["; for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + J((ll)s[i]); return Raw(o + "]"); }
static std::string msgJ(NavFilterKey* k)
{
   const Info& x = info(k);
   return "{\"id\":" + J(x.id) + ",\"t\":" + J(x.t) + ",\"prn\":" + J(x.prn) + ",\"key\":" + J(x.key) + ",\"w\":" + arr(words(k)).s + "}";
}
static Raw msgs(const List& l) { std::string o = "["; for (auto k : l) o += (o.size() > 1 ? "," : "") + msgJ(k); return Raw(o + "]"); }
static CommonTime when(ll t) { return GPSWeekSecond(WK + (int)(t / 604800), (double)(t % 604800)).convertToCommonTime(); }

struct F { std::string k; unsigned total, same, depth, epoch; NavFilter* f; };
static Raw fsJ(const std::vector<F>& v, const std::string& fmt)
{
   std::string o = "[";
   for (auto& f : v)
      o += (o.size() > 1 ? "," : "") + ("{\"k\":" + J(f.k) + ",\"total\":" + J(f.total) + ",\"same\":" + J(f.same) + ",\"depth\":" + J(f.depth) + ",\"epoch\":" + J(f.epoch) + ",\"fmt\":" + J(fmt) + "}");
   return Raw(o + "]");
}
static F make(Rng& r, const std::string& fmt, const std::string& k)
{
   F f = { k, 0, 0, 0, 0, nullptr }; bool l = fmt == "lnav";
   if (k == "parity") f.f = l ? (NavFilter*)new LNavParityFilter : new CNavParityFilter;
   else if (k == "empty") f.f = l ? (NavFilter*)new LNavEmptyFilter : new CNavEmptyFilter;
   else if (k == "tow") f.f = l ? (NavFilter*)new LNavTLMHOWFilter : new CNavTOWFilter;
   else if (k == "cook") f.f = l ? (NavFilter*)new LNavCookFilter : new CNavCookFilter;
   else if (k == "alm") f.f = new LNavAlmValFilter;
   else if (k == "sanity") f.f = new CNav2SanityFilter;
   else if (k == "eph") f.f = new LNavEphMaker;
   else if (k == "cross")
   {
      if (l) { f.f = new LNavCrossSourceFilter; f.total = 3; f.same = 2; }
      else
      {
         CNavCrossSourceFilter* c = new CNavCrossSourceFilter; f.f = c; f.total = f.same = 2;
         if (r.chance(50)) { f.total = f.same = (unsigned)r.in(1, 4); c->setMinIdentical(f.same); }
      }
   }
   else
   {
      f.k = "order"; f.depth = (unsigned)r.in(1, 4); f.epoch = (unsigned)r.pick(std::vector<ll>{6, 12, 1}); if (r.chance(30)) { f.depth = 3; f.epoch = 6; }
      if (l && r.chance(50)) f.f = f.depth == 3 && f.epoch == 6 ? new LNavOrderFilter : new LNavOrderFilter(f.depth, f.epoch);
      else f.f = f.depth == 3 && f.epoch == 6 ? new NavOrderFilter : new NavOrderFilter(f.depth, f.epoch);
   }
   return f;
}

// the contents a satellite sends at a time
static SF legacy(Rng& r, ll t, W iod)
{
   SF s = noise(r, 10); ll tow = (t / 6 + 1) % 100800; int id = (int)((tow + 100799) % 100800 % 5) + 1;
   if (r.chance(4)) id = (int)r.pick(std::vector<ll>{0, 6, 7, 4, 5});
   if (r.chance(4)) tow = r.pick(std::vector<ll>{100799, 100800, 100801, 131071, 0});
   set(s, 1, 8, r.chance(95) ? 0x8b : (W)r.pick(std::vector<ll>{0x8a, 0xcb, 0x0b, 0x9b, 0x74})); set(s, 31, 17, (W)tow); set(s, 50, 3, id);
   if (id == 1) set(s, 211, 8, iod); else if (id == 2) set(s, 61, 8, iod); else if (id == 3) set(s, 271, 8, iod);
   if ((id >= 4 && r.chance(35)) || r.chance(3))
      { set(s, 69, 16, 0xAAAA); for (int k = 3; k < 10; k++) set(s, 30 * k + 1, 24, 0xAAAAAA); if (r.chance(20)) { int k = (int)r.in(3, 9); s[k] ^= (W)1 << r.in(8, 25); } if (r.chance(10)) s[2] ^= (W)1 << r.in(6, 17); }
   else if (r.chance(3)) { for (auto& w : s) w = 0; return s; }
   bool blank = at(s, 91) == 1 && at(s, 92) == 0 && ((s[5] >> 6) & 0xfffff) == 0xaaaaa;
   encode(s);
   if (blank) { s[9] = (0xAAAAAAu << 6) | (s[9] & 0x3f); if (r.chance(50)) s[9] = (s[9] & ~0x3fu) | parity(s[9] & 0x3fffffc0, s[8]); }
   return s;
}
static SF civil(Rng& r, ll t, unsigned prn)
{
   SF s = noise(r, 10); set(s, 1, 8, r.chance(94) ? 0x8b : (W)r.pick(std::vector<ll>{0x74, 0x8a, 0, 0x0b, 0xcb})); set(s, 9, 6, prn);
   set(s, 15, 6, r.chance(70) ? (W)r.pick(std::vector<ll>{0, 10, 11, 12, 13, 14, 15, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39}) : (W)r.in(0, 63));
   set(s, 21, 17, r.chance(90) ? (W)((t / 6 + 2) % 100800) : (W)r.pick(std::vector<ll>{100799, 100800, 131071, 0, 100801}));
   if (r.chance(15)) { int v = (int)r.in(0, 4); for (int i = 39; i <= 276; i++) set(s, i, 1, v == 0 ? 0 : v == 1 || v == 4 ? (W)(i % 2 == 0) : v == 2 ? (W)(i % 2) : 1);
                       if (r.chance(40)) set(s, (int)r.pick(std::vector<ll>{39, 40, 70, 71, 134, 230, 262, 263, 264, 275, 276}), 1, (W)r.in(0, 1)); }
   crc(s); return s;
}
static SF second(Rng& r, ll t, unsigned prn)
{
   SF s = noise(r, 21); ll sow = t % 604800, nx = (sow / 18 * 18 + 18) % 604800;
   set(s, 1, 9, (W)(nx % 7200 / 18)); set(s, 10, 13, (W)(WK + t / 604800)); set(s, 23, 8, (W)(nx / 7200)); set(s, 610, 8, prn); set(s, 618, 6, (W)r.in(1, 6));
   switch (r.in(0, 9))
   {
      case 0: set(s, 1, 9, (W)r.in(0, 511)); break;
      case 1: set(s, 10, 13, (W)r.pick(std::vector<ll>{WK, WK + 1, WK - 1, (WK + t / 604800) % 1024, 8191})); break;
      case 2: set(s, 23, 8, (W)r.in(0, 255)); break;
      case 3: set(s, 610, 8, (W)r.pick(std::vector<ll>{prn + 1, prn + 32, prn ^ 128, 0})); break;
      case 4: set(s, 618, 6, (W)r.pick(std::vector<ll>{0, 7, 1, 6, 63, 33})); break;
      default: break;
   }
   return s;
}

static void chain(Rng& r)
{
   Ev("new").end();
   std::string fmt = r.pick(std::vector<std::string>{"lnav", "lnav", "lnav", "cnav", "cnav", "cnav2"}); bool l = fmt == "lnav";
   std::vector<std::string> ks = l ? std::vector<std::string>{"parity", "empty", "tow", "cook", "alm", "cross", "order", "eph", "eph"}
                                  : fmt == "cnav" ? std::vector<std::string>{"parity", "empty", "tow", "cook", "cross", "order"} : std::vector<std::string>{"sanity", "order", "sanity", "cross"};
   std::vector<F> fs; bool direct = r.chance(35); ll nf = direct ? 1 : r.in(0, 4) ? r.in(1, 4) : r.in(0, 6);
   for (ll i = 0; i < nf; i++) fs.push_back(make(r, fmt, r.pick(ks)));
   if (!direct && l && r.chance(15))
   { for (auto& f : fs) delete f.f; fs.clear(); for (const char* k : {"cook", "parity", "tow", "empty", "order", "cross", "eph"}) if (r.chance(80)) fs.push_back(make(r, fmt, k)); }
   NavFilterMgr mgr; for (auto& f : fs) mgr.addFilter(f.f);
   std::vector<ll> ds; for (auto& f : fs) ds.push_back(f.f->processingDepth());
   Ev("chain").f("fs", fsJ(fs, fmt)).f("depth", (ll)mgr.processingDepth()).f("depths", ds).end();

   std::vector<LMsg> lm(l ? 400 : 0); std::vector<CMsg> cm(l ? 0 : 400);   // in the order they come
   static const char* stn[] = { "85401", "85402", "85401", "85401" }; static const char* rx[] = { "1", "1", "2", "1" };
   static const TrackingCode cds[] = { TrackingCode::CA, TrackingCode::CA, TrackingCode::CA, TrackingCode::Y };
   ll step = fmt == "cnav2" ? 18 : 6, t0 = r.chance(40) ? 604800 - step * r.in(1, 8) : step * r.in(0, 60000);
   if (t0 < 0) t0 = 0;
   std::vector<unsigned> prns; for (ll i = r.in(1, 3); i > 0; i--) prns.push_back((unsigned)r.in(1, 32));
   std::vector<W> iods; for (auto p : prns) { (void)p; iods.push_back((W)r.in(0, 255)); }
   bool calm = std::any_of(fs.begin(), fs.end(), [](const F& f) { return f.k == "eph"; }) && r.chance(85);
   if (calm && prns.size() > 2) { prns.resize(2); iods.resize(2); }
   std::vector<int> srcs = { (int)r.in(0, 3), (int)r.in(0, 3) }; if (r.chance(40)) srcs.push_back((int)r.in(0, 3)); if (r.chance(30)) srcs = { 0, (int)r.in(1, 3) };
   bool allL2 = r.chance(25); int id = 0; ll t = t0; SF last; ll nm = calm ? r.in(12, 50) : r.in(6, 30); List batch; std::map<std::pair<ll, unsigned>, SF> sent; int alive = 1;
   auto rejected = [&](std::vector<NavFilter*> in) {
      std::string o = "["; for (size_t k = 0; k < fs.size(); k++)
      { o += k ? ",[" : "["; bool use = std::find(in.begin(), in.end(), fs[k].f) != in.end(), first = true;
        if (use) for (auto m : fs[k].f->rejected) { o += (first ? "" : ",") + J(info(m).id); first = false; } o += "]"; }
      return Raw(o + "]"); };
   auto fulls = [&] {
      std::string o = "["; for (size_t k = 0; k < fs.size(); k++)
      { o += k ? ",[" : "["; LNavEphMaker* e = dynamic_cast<LNavEphMaker*>(fs[k].f); bool first = true;
        if (e) for (auto g : e->completeEphs) { o += (first ? "" : ","); first = false; o += "["; for (int j = 0; j < 3; j++) o += (j ? "," : "") + J((*g)[j] ? info((*g)[j]).id : -1); o += "]"; } o += "]"; }
      return Raw(o + "]"); };
   auto setOf = [&](const NavFilterMgr::FilterSet& s) { std::vector<ll> o; for (size_t k = 0; k < fs.size(); k++) if (s.count(fs[k].f)) o.push_back((ll)k + 1); return o; };
   auto give = [&] {
      if (batch.empty()) return;
      Raw in = msgs(batch); List out; std::vector<ll> set; std::vector<NavFilter*> use;
      if (direct) { fs[0].f->rejected.clear(); List b = batch; fs[0].f->validate(b, out); if (!fs[0].f->rejected.empty()) set.push_back(1); use.push_back(fs[0].f); }
      else { out = mgr.validate(batch.front()); set = setOf(mgr.rejected); use.assign(mgr.rejected.begin(), mgr.rejected.end()); }
      Ev("give").f("in", in).f("out", msgs(out)).f("rej", rejected(use)).f("set", set).f("full", fulls()).end();
      batch.clear(); };
   auto finish = [&] {
      give(); List out; std::vector<ll> set; std::vector<NavFilter*> use;
      if (direct) { fs[0].f->rejected.clear(); fs[0].f->finalize(out); if (!fs[0].f->rejected.empty()) set.push_back(1); use.push_back(fs[0].f); }
      else { out = mgr.finalize(); set = setOf(mgr.rejected); use.assign(mgr.rejected.begin(), mgr.rejected.end()); }
      Ev("end").f("out", msgs(out)).f("rej", rejected(use)).f("set", set).f("full", fulls()).end(); };
   for (ll n = 0; n < nm; n++)
   {
      ll d = r.in(0, 9);
      if (d < 4 || (calm && d < 9)) t += step; else if (d == 4) t += step * r.in(2, 6); else if (d == 5 && t > t0 + 4 * step) t -= step * r.in(1, 4);
      // some are late by about what an order filter waits
      ll back = t;
      for (auto& f : fs) if (f.k == "order" && r.chance(15)) { ll x = t - (ll)f.epoch * ((ll)f.depth + r.in(-1, 2)); if (x % step == 0 && x >= 0) { t = x; break; } }
      // several sources hear the same thing
      ll many = r.chance(calm ? 10 : 30) ? 1 : r.in(1, 4); size_t p = (size_t)r.in(0, (ll)prns.size() - 1); unsigned prn = prns[p];
      if (r.chance(calm ? 6 : 3)) iods[p] = (W)r.in(0, 255);
      for (ll c = 0; c < many; c++)
      {
         if (r.chance(calm ? 40 : 10)) { p = (size_t)r.in(0, (ll)prns.size() - 1); prn = prns[p]; }
         std::pair<ll, unsigned> q(t, prn);
         if (!sent.count(q)) sent[q] = l ? legacy(r, t, iods[p]) : fmt == "cnav" ? civil(r, t, prn) : second(r, t, prn);
         SF s = sent[q]; int src = calm ? (int)r.pick(srcs) : (int)r.in(0, 3); bool band2 = allL2 || r.chance(calm ? 2 : 10);
         bool blank = l && ((s[5] >> 6) & 0xfffff) == 0xaaaaa;
         bool zero = l && s[0] == 0 && s[5] == 0;
         if (r.chance(calm ? 2 : 15) && !blank && !zero) { ll k = r.chance(60) ? 1 : r.in(2, 3); while (k--) { int b = (int)r.in(1, 30 * (ll)s.size()); set(s, b, 1, !at(s, b)); } }
         else if (r.chance(5) && zero) s[r.in(0, 9)] ^= (W)1 << r.in(0, 29);
         if (fmt == "cnav2" && r.chance(10)) { set(s, 620, 1, !at(s, 620)); }
         if (l && r.chance(calm ? 10 : 40) && !zero)
         { SF o = s; for (int k = 1; k < 10; k++) if (s[k - 1] & 1) o[k] ^= 0x3fffffc0; s = o; }     // as received
         if (r.chance(calm ? 4 : 20) && fmt != "cnav2") for (auto& w : s) w ^= 0x3fffffff;
         Info x = { ++id, 0, t, prn }; x.key = (int)(prn * 100 + src * 10 + band2); NavFilterKey* m;
         CommonTime ts = when(t); CarrierBand cb = band2 ? CarrierBand::L2 : CarrierBand::L1;
         if (l)
         {
            LMsg* a = &lm[id - 1]; a->x = x; a->words = s; a->sf = &a->words[0]; a->timeStamp = ts;
            a->stationID = stn[src]; a->rxID = rx[src]; a->prn = prn; a->carrier = cb; a->code = cds[src]; m = a;
         }
         else
         {
            CMsg* a = &cm[id - 1]; a->x = x; a->n = (int)s.size();
            a->bits.reset(new PackedNavBits(SatID(prn, SatelliteSystem::GPS), ObsID(ObservationType::NavMsg, cb, TrackingCode::L2CM), rx[src], ts));
            for (auto w : s) a->bits->addUnsignedLong(w, 30, 1); a->bits->trimsize(); a->loadData(a->bits.get()); a->stationID = stn[src]; m = a;
         }
         note("filters " + fmt);
         batch.push_back(m);
         if (!direct || r.chance(40)) give();
      }
      t = back;
      if (r.chance(3) && alive++ < 3) { finish(); }
   }
   finish();
   for (auto& f : fs) delete f.f;
}
template <size_t N> static void bitsOf(Rng& r)
{
   Ev("new").end();
   int nw = (int)r.in(2, 10), tot = nw * (int)N; SF s(nw); for (auto& w : s) w = (W)r.in(0, (1LL << N) - 1);
   std::vector<int8_t> b; for (auto w : s) for (int i = (int)N - 1; i >= 0; i--) b.push_back((w >> i) & 1);
   PackedNavBits p(SatID(1, SatelliteSystem::GPS), ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA), when(0)); for (auto w : s) p.addUnsignedLong(w, N, 1); p.trimsize();
   NavMsgDataWords<N> x; x.sf = &s[0]; NavMsgDataBits y; y.sf = &b[0]; NavMsgDataPNB z; z.sf = &p;
   for (int k = 0; k < 6; k++)
   {
      unsigned n = (unsigned)(r.chance(30) ? r.pick(std::vector<ll>{1, 32, 31, (ll)N}) : r.in(1, 32)); if ((int)n > tot) n = tot;
      unsigned a = (unsigned)r.in(1, tot - n + 1); if (r.chance(40)) { a = (unsigned)(N * r.in(0, nw - 1)); a += r.chance(50); if (a < 1) a = 1; if ((int)(a + n - 1) > tot) n = tot - a + 1; }
      std::vector<Raw> got; for (uint32_t v : { x.getBits(a, n), y.getBits(a, n), z.getBits(a, n) }) got.push_back(Raw("[" + J((ll)(v >> 16)) + "," + J((ll)(v & 0xffff)) + "]"));
      Ev("bits").f("ws", (ll)N).f("w", arr(s)).f("s", (ll)a).f("n", (ll)n).f("got", got).end();
   }
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& r) {
      while (trace().n < args().size)
      {
         chain(r);
         if (r.chance(10)) { switch (r.in(0, 3)) { case 0: bitsOf<24>(r); break; case 1: bitsOf<16>(r); break; default: bitsOf<30>(r); } }
      } });
}
