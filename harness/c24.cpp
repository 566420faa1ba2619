// C24: BINEX integers, record buffers, and streams of records.
#include "hx.hpp"
#include "BinexData.hpp"
#include "BinexStream.hpp"
using namespace gpstk; using namespace hx;
typedef BinexData B; typedef BinexData::UBNXI U; typedef BinexData::MGFZI M;
static Raw bytes(const std::string& s)
{ std::string o = "["; for (size_t i = 0; i < s.size(); i++) { if (i) o += ","; o += std::to_string((unsigned)(unsigned char)s[i]); } return Raw(o + "]"); }
static Raw limbs(unsigned long long v)
{ return Raw("[" + std::to_string(v >> 48) + "," + std::to_string((v >> 24) & 0xffffff) + "," + std::to_string(v & 0xffffff) + "]"); }
static unsigned long long mag(long long v) { return v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v; }
static std::string junk(Rng& r, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(r.chance(30) ? r.pick(std::vector<int>{0, 8, 128, 255, 0xC2, 0xE2, 0xB0}) : r.in(0, 255)); return s; }
static unsigned long uval(Rng& r)
{
   static const std::vector<unsigned long> edges = { 0, 1, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 2097151, 2097152, 4194303, 4194304, 8388607, 8388608, 16777216, 268435455, 536870911 };
   switch (r.in(0, 3)) { case 0: return r.pick(edges); case 1: return r.in(0, (1LL << r.in(1, 29)) - 1); case 2: return r.in(0, 300); default: return r.in(0, 536870911); }
}
static long long mval(Rng& r)
{
   static const std::vector<long long> lim = { 15, 4109, 1052684, 269488139, 68988964874LL, 17661175009289LL, 4521260802379784LL, 1157442765409226759LL };
   long long v;
   switch (r.in(0, 3)) { case 0: v = r.pick(lim) + r.in(-2, 0); break; case 1: { int k = r.in(0, 6); v = lim[k] + r.in(0, 3); break; }
      case 2: v = r.in(0, (1LL << r.in(1, 60)) - 1); break; default: v = r.in(0, 300); }
   return v != 0 && r.chance(50) ? -v : v;
}
static std::string mj(const M& m, ll used) { long long v = m; return "{\"n\":" + J((ll)m.getSize()) + ",\"neg\":" + J(v < 0) + ",\"mag\":" + limbs(mag(v)).s + ",\"used\":" + J(used) + "}"; }
static void integers(Rng& r)
{
   bool le = r.chance(50); int op = r.in(0, 5);
   if (op <= 1)
   {
      unsigned long v = uval(r);
      if (op == 0 && r.chance(10)) { v = 536870912UL + (r.chance(50) ? 0 : (r.next() >> r.in(1, 40))); std::string got = guard([&] { U u(v); }); Ev("ubover").f("got", got).end(); return; }
      note("UBNXI encode");
      std::string pre = junk(r, r.in(0, 3)), out = pre + (r.chance(40) ? junk(r, r.in(1, 6)) : ""), rest, w, rv; size_t n = 0, used = 0;
      std::string got = guard([&] { U u(v); n = u.getSize(); rest = out.size() > pre.size() + n ? out.substr(pre.size() + n) : "";
         used = u.encode(out, pre.size(), le);
         std::ostringstream a, b; std::string copy = "xy";
         u.write(a, &copy, 2, false, le); w = a.str(); if (copy.substr(2) != w) w += "!copy";
         u.write(b, NULL, 0, true, le); rv = b.str(); });
      bool kept = out.substr(0, pre.size()) == pre && out.size() >= rest.size() && out.substr(out.size() - rest.size()) == rest;
      std::string mid = kept ? out.substr(pre.size(), out.size() - pre.size() - rest.size()) : "kept?";
      Ev("ub").f("v", (ll)v).f("le", le).f("got", got).f("n", (ll)n).f("used", (ll)used).f("bytes", bytes(mid)).f("written", bytes(w)).f("reversed", bytes(rv)).end();
   }
   else if (op == 2)
   {
      note("UBNXI decode");
      std::string s = junk(r, r.in(0, 3)); int off = r.in(0, s.size());
      s = s.substr(0, off); std::string e; int n = r.in(0, 6); for (int i = 0; i < n; i++) e += (char)(r.chance(55) ? r.in(128, 255) : r.in(0, 127)); s += e;
      ll v = -1, n1 = -1, used = -1, v2 = -1, u2 = -1, left = -1;
      std::string got = guard([&] { U u; used = u.decode(s, off, le); v = (ll)(unsigned long)u; n1 = u.getSize(); });
      std::string rgot = guard([&] { std::istringstream is(s.substr(off)); U u; std::string copy = "q"; u2 = u.read(is, &copy, 1, false, le); v2 = (ll)(unsigned long)u;
         if (copy.substr(1) != s.substr(off, u2)) v2 = -2; left = is.rdbuf()->in_avail(); if (left < 0) left = 0; });
      Ev("ubdec").f("bytes", bytes(s)).f("off", (ll)off).f("le", le).f("got", got).f("v", v).f("n", n1).f("used", used)
         .f("rgot", rgot).f("rv", v2).f("rused", u2).f("left", left).end();
   }
   else if (op <= 4)
   {
      note("MGFZI encode");
      long long v = mval(r);
      if (r.chance(6)) v = r.pick(std::vector<long long>{1157442765409226760LL, -1157442765409226760LL, 9223372036854775807LL, -9223372036854775807LL - 1, 4611686018427387904LL});
      std::string pre = junk(r, r.in(0, 3)), out = pre + (r.chance(40) ? junk(r, r.in(1, 10)) : ""), rest, w; size_t n = 0, used = 0;
      std::string got = guard([&] { M m(v); n = m.getSize(); rest = out.size() > pre.size() + n ? out.substr(pre.size() + n) : "";
         used = m.encode(out, pre.size(), le);
         std::ostringstream a; std::string copy = "xy"; m.write(a, &copy, 2, false, le); w = a.str(); if (copy.substr(2) != w) w += "!copy"; });
      bool kept = out.substr(0, pre.size()) == pre && out.size() >= rest.size() && out.substr(out.size() - rest.size()) == rest;
      std::string mid = kept ? out.substr(pre.size(), out.size() - pre.size() - rest.size()) : "kept?";
      Ev("mg").f("neg", v < 0).f("mag", limbs(mag(v))).f("le", le).f("got", got).f("n", (ll)n).f("used", (ll)used).f("bytes", bytes(mid)).f("written", bytes(w)).end();
   }
   else
   {
      note("MGFZI decode");
      std::string s = junk(r, r.in(0, 3)); int off = s.size(); std::string e = junk(r, r.in(0, 9)); if (r.chance(20)) e = std::string(1, le ? 8 : (char)128) + e;
      s += e; if (s.empty()) s = "\x01", off = 1;
      std::string a = "{}", b = "{}", again; ll left = -1;
      std::string got = guard([&] { M m; ll used = m.decode(s, off, le); a = mj(m, used); if (m.getSize() == 0) m.encode(again, 0, le); });
      std::string rgot = guard([&] { std::istringstream is(s.substr(off)); M m; std::string copy = "q"; ll used = m.read(is, &copy, 1, false, le);
         if (copy.substr(1) != s.substr(off, used)) used = -2; b = mj(m, used); left = is.rdbuf()->in_avail(); if (left < 0) left = 0; });
      Ev("mgdec").f("bytes", bytes(s)).f("off", (ll)off).f("le", le).f("got", got).f("dec", Raw(a)).f("rgot", rgot).f("read", Raw(b)).f("left", left).f("again", bytes(again)).end();
   }
}
static std::string le8(unsigned long long v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
template <class T> static std::string raw(const T& v) { return std::string((const char*)&v, sizeof v); }
template <class T> static void put(Rng& r, B& rec, size_t off, int size, const std::string& name)
{
   T v; std::string b = le8(r.next() >> (r.chance(50) ? 8 * r.in(0, 7) : 0), sizeof v); memcpy(&v, b.data(), sizeof v);
   size_t to = off; std::string got = guard([&] { rec.updateMessageData(to, v, (size_t)size); });
   Ev("put").f("k", name).f("off", (ll)off).f("size", size).f("b", bytes(b)).f("got", got).f("to", (ll)to).f("msg", bytes(rec.getMessageData())).end();
}
template <class T> static void get(B& rec, size_t off, int size, const std::string& name)
{
   T v; memset(&v, 0x5a, sizeof v); size_t to = off; std::string got = guard([&] { rec.extractMessageData(to, v, (size_t)size); });
   Ev("get").f("k", name).f("off", (ll)off).f("size", size).f("of", (ll)sizeof v).f("b", bytes(raw(v))).f("got", got).f("to", (ll)to).end();
}
static size_t where(Rng& r, const B& rec) { size_t n = rec.getMessageLength(); return r.chance(60) ? n : r.chance(85) ? r.in(0, n) : n + r.in(1, 3); }
static void update(Rng& r, B& rec)
{
   size_t off = where(r, rec), to = off; note("updateMessageData");
   switch (r.in(0, 7))
   {
      case 0: { unsigned long v = uval(r); std::string got = guard([&] { rec.updateMessageData(to, U(v)); });
         Ev("put").f("k", "ub").f("off", (ll)off).f("v", (ll)v).f("got", got).f("to", (ll)to).f("msg", bytes(rec.getMessageData())).end(); break; }
      case 1: { long long v = mval(r); std::string got = guard([&] { rec.updateMessageData(to, M(v)); });
         Ev("put").f("k", "mg").f("off", (ll)off).f("neg", v < 0).f("mag", limbs(mag(v))).f("got", got).f("to", (ll)to).f("msg", bytes(rec.getMessageData())).end(); break; }
      case 2: { std::string b = junk(r, r.in(0, 12)); int n = b.size(); std::string more = b + junk(r, r.in(0, 3));
         bool c = r.chance(50); std::string got = guard([&] { if (c) rec.updateMessageData(to, more, (size_t)n); else rec.updateMessageData(to, more.data(), (size_t)n); });
         Ev("put").f("k", "raw").f("off", (ll)off).f("b", bytes(b)).f("got", got).f("to", (ll)to).f("msg", bytes(rec.getMessageData())).end(); break; }
      case 3: put<uint8_t>(r, rec, off, 1, "u1"); break;
      case 4: put<uint16_t>(r, rec, off, r.in(1, 2), "u2"); break;
      case 5: put<uint32_t>(r, rec, off, r.chance(50) ? 4 : r.in(1, 4), "u4"); break;
      case 6: put<uint64_t>(r, rec, off, r.chance(50) ? 8 : r.in(1, 8), "u8"); break;
      default: if (r.chance(50)) put<double>(r, rec, off, 8, "f8"); else put<int32_t>(r, rec, off, 4, "i4"); break;
   }
}
static void extract(Rng& r, B& rec)
{
   size_t n = rec.getMessageLength(); if (n == 0) return;      // nothing to decode: an MGFZI says so by its size
   size_t off = r.chance(80) ? r.in(0, n) : n - std::min<size_t>(n, r.in(0, 3)), to = off; note("extractMessageData");
   switch (r.in(0, 7))
   {
      case 0: { U u; std::string got = guard([&] { rec.extractMessageData(to, u); });
         Ev("get").f("k", "ub").f("off", (ll)off).f("v", (ll)(unsigned long)u).f("got", got).f("to", (ll)to).end(); break; }
      case 1: { M m; std::string got = guard([&] { rec.extractMessageData(to, m); }); long long v = m;
         Ev("get").f("k", "mg").f("off", (ll)off).f("n", (ll)m.getSize()).f("neg", v < 0).f("mag", limbs(mag(v))).f("got", got).f("to", (ll)to).end(); break; }
      case 2: { std::string b; int k = r.in(0, 12); std::string got = guard([&] { rec.extractMessageData(to, b, (size_t)k); });
         Ev("get").f("k", "raw").f("off", (ll)off).f("size", k).f("b", bytes(b)).f("got", got).f("to", (ll)to).end(); break; }
      case 3: get<uint8_t>(rec, off, 1, "u1"); break;
      case 4: get<uint16_t>(rec, off, r.in(1, 2), "u2"); break;
      case 5: get<uint32_t>(rec, off, r.chance(50) ? 4 : r.in(1, 4), "u4"); break;
      case 6: get<uint64_t>(rec, off, r.chance(50) ? 8 : r.in(1, 8), "u8"); break;
      default: if (r.chance(50)) get<double>(rec, off, 8, "f8"); else get<int32_t>(rec, off, 4, "i4"); break;
   }
}
// reads all there is: records as JSON, how it ended, and where a failed stream stands
struct Seen { std::string recs, end; ll pos; bool counted; };
static void seen(Seen& s, const B& b, ll n)
{
   if (s.recs.size() > 1) s.recs += ",";
   s.recs += "{\"id\":" + J((ll)b.getRecordID()) + ",\"flags\":" + J((ll)b.getRecordFlags()) + ",\"msg\":" + bytes(b.getMessageData()).s + ",\"n\":" + J(n) + "}";
}
static Seen readAll(Rng& r, const std::string& data)
{
   Seen s = { "[", "", -1, true }; int mode = r.in(0, 2);
   if (mode < 2)
   {
      std::istringstream is(data); if (mode == 1) is.exceptions(std::ios::failbit | std::ios::badbit);
      for (;;)
      {
         B b; ll n = 0; std::string end; try { n = b.getRecord(is); } catch (EndOfFile&) { end = "eof"; } catch (Exception&) { end = "bad"; } catch (std::exception&) { end = "foreign"; }
         if (!end.empty()) { s.end = end; break; }
         seen(s, b, n);
      }
   }
   else
   {
      std::string f = args().scratch + "/c24.binex"; { std::ofstream o(f.c_str(), std::ios::binary); o.write(data.data(), data.size()); }
      s.counted = false;
      { BinexStream bs(f.c_str()); B b; while (bs >> b) seen(s, b, 0); if (bs.eof()) s.end = "eof"; else { s.end = "bad"; bs.clear(); s.pos = (ll)bs.tellg(); } }
   }
   s.recs += "]"; return s;
}
static Ev& out(Ev& e, const Seen& s) { return e.f("recs", Raw(s.recs)).f("end", s.end).f("pos", s.pos).f("counted", s.counted); }
static void history(Rng& r)
{
   Ev("new").end();
   if (r.chance(35)) { int n = r.in(4, 12); for (int i = 0; i < n; i++) integers(r); return; }
   bool allRev = r.chance(50); int nrec = r.in(1, 4); std::string file; B rec; std::vector<size_t> starts; bool started = false;
   for (int k = 0; k < nrec; k++)
   {
      if (r.chance(50)) { rec = B(); Ev("clear").f("len", (ll)rec.getMessageLength()).end(); started = false; }
      int f = (allRev ? 16 : r.chance(50) ? 16 : 0) + (r.chance(50) ? 32 : 0) + (r.chance(50) ? 8 : 0), given = f | (r.chance(20) ? 0xC7 : 0);
      rec.setRecordFlags((B::SyncByte)given); Ev("flags").f("f", f).f("got", (ll)rec.getRecordFlags()).end();
      bool over = started && r.chance(5); unsigned long id = over ? 536870912UL + r.in(0, 1000000) : uval(r);
      std::string got = guard([&] { rec.setRecordID(id); }); Ev("id").f("v", (ll)id).f("over", over).f("got", got).f("id", (ll)rec.getRecordID()).end(); started = true;
      if (r.chance(30)) { rec.clearMessage(); Ev("clear").f("len", (ll)rec.getMessageLength()).end(); }
      int ops = r.chance(15) ? 0 : r.in(1, 7); for (int i = 0; i < ops; i++) if (r.chance(30)) extract(r, rec); else update(r, rec);
      if (r.chance(22))      // a length near one where the form of the record changes
      {
         static const std::vector<int> few = { 120, 123, 124, 125, 126, 127, 128, 129, 130, 200 }, many = { 4088, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 16377, 16380, 16384 };
         int want = r.chance(5) ? r.pick(many) : r.pick(few); size_t off = rec.getMessageLength();
         if ((int)off < want) { std::string b = junk(r, want - off); size_t to = off; std::string g = guard([&] { rec.updateMessageData(to, b, b.size()); });
            Ev("put").f("k", "raw").f("off", (ll)off).f("b", bytes(b)).f("got", g).f("to", (ll)to).f("msg", bytes(rec.getMessageData())).end(); }
      }
      note("putRecord"); std::ostringstream os; ll size = -1, head = -1, tail = -1; bool viaFile = r.chance(20); std::string b;
      got = guard([&] { if (viaFile) { std::string fn = args().scratch + "/c24w.binex"; { BinexStream bs(fn.c_str(), std::ios::out | std::ios::binary); bs << rec; } std::ifstream is(fn.c_str(), std::ios::binary); std::ostringstream t; t << is.rdbuf(); b = t.str(); }
         else { rec.putRecord(os); b = os.str(); }
         size = rec.getRecordSize(); head = rec.getHeadLength(); tail = rec.getTailLength(); });
      Ev("write").f("got", got).f("bytes", bytes(b)).f("size", size).f("head", head).f("tail", tail).end();
      starts.push_back(file.size()); file += b;
   }
   note("getRecord");
   { Ev e("read"); out(e, readAll(r, file)).end(); }
   std::string back(file.rbegin(), file.rend());
   if (allRev || r.chance(20)) { Ev e("readback"); out(e, readAll(r, back)).end(); }
   int n = r.in(1, 3);
   for (int i = 0; i < n; i++)
   {
      note("getRecord of damaged bytes");
      std::string d = file; ll cut = d.size(), pos = -1; int byte = 0; bool bk = allRev && r.chance(40);
      if (r.chance(35)) { cut = r.chance(50) ? d.size() - std::min<size_t>(d.size(), r.in(1, 8)) : r.in(0, d.size()); d.resize(cut); }
      if (cut > 0 && (cut == (ll)file.size() || r.chance(20)))
      {
         pos = r.chance(50) ? std::max<ll>(0, cut - r.in(1, 9)) : r.in(0, cut - 1);
         // rarely the bytes of a length: they could ask for half a gigabyte
         bool head = false; for (size_t s : starts) if (pos > (ll)s && pos <= (ll)s + 8) head = true;
         if (head && r.chance(70)) { pos = cut - 1; }
         byte = r.chance(50) ? (unsigned char)d[pos] ^ (1 << r.in(0, 7)) : r.in(0, 255); d[pos] = (char)byte;
      }
      std::string db(d.rbegin(), d.rend());
      Ev e("damaged"); e.f("cut", cut).f("at", pos).f("byte", byte).f("back", bk); out(e, readAll(r, bk ? db : d)).end();
   }
}
int main(int argc, char** argv)
{ return run(argc, argv, [](Rng& r) { while (trace().n < args().size) history(r); }); }
