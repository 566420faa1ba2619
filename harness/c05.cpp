// time ranges
#include "tm.hpp"
#include "TimeRange.hpp"
#include "TimeString.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
using namespace gpstk;
using namespace hx;
static const int N = 4;
static CommonTime P[2 * N + 1];         // position -1..2N-1
static const CommonTime& at(int p) { return P[p + 1]; }
static int pos(const CommonTime& t)
{
   for (int i = 0; i < 2 * N + 1; i++) if (P[i] == t) return i - 1;
   if (t == CommonTime::BEGINNING_OF_TIME) return -1;
   if (t == CommonTime::END_OF_TIME) return 2 * N - 1;
   return 99;
}
typedef TimeRange::TimeRangeException TRE;
static TimeRange* T[2];
static std::string tuple(int s, int e, bool a, bool b)
{ return "[" + J(s) + "," + J(e) + "," + J(a) + "," + J(b) + "]"; }
static void holds(Ev& e, int i)
{
   std::vector<bool> m; std::string s = "[";
   for (int k = 0; k < 2 * N + 1; k++) { if (k) s += ","; s += J(T[i]->inRange(P[k])); }
   e.f("i", i + 1).f("s", pos(T[i]->getStart())).f("t", pos(T[i]->getEnd())).f("mem", Raw(s + "]")).end();
}
static void relate()
{
   const TimeRange &a = *T[0], &b = *T[1];
   std::string s = "[" + J(a == b) + "," + J(a < b) + "," + J(a.isSubsetOf(b)) + "," + J(a.isPriorTo(b)) + "," + J(a.overlaps(b)) + "," + J(a.isAfter(b)) + "]";
   Ev("rel").f("o", Raw(s)).end();
}
static void set(Rng& R, int i, int s, int e, bool a, bool b)
{
   std::string x;
   switch (R.in(0, 3))
   {
      case 0: x = guard([&]{ T[i]->set(at(s), at(e), a, b); }); break;
      case 1: x = guard([&]{ TimeRange n(at(s), at(e), a, b); *T[i] = n; }); break;
      case 2: x = guard([&]{ TimeRange n(TimeRange::DTPair(at(s), at(e)), a, b); *T[i] = n; }); break;
      default: x = guard([&]{ TimeRange n(at(s), at(e), a, b); TimeRange c(n); *T[i] = c; }); break;
   }
   Ev ev("set"); ev.f("a", Raw(tuple(s, e, a, b))).f("x", x); holds(ev, i);
}
   // the line: base, and gaps between neighbours in ns (each position one gap apart)
static void line(Rng& R, bool whole)
{
   ll day = R.chance(10) ? 2451545 : R.in(2444300, 2470000);
   CommonTime t; t.setInternal(day, whole ? R.in(0, 86399) * 1000 : R.in(0, 86399999), 0.0, TimeSystem::GPS);
   int kind = R.in(0, 3);
   for (int i = 0; i < 2 * N + 1; i++)
   {
      P[i] = t;
      long d, ms; double fs; t.getInternal(d, ms, fs);
      ll ns = llround(fs * 1e9), step;
      if (whole) step = (kind == 0 ? 1 : kind == 1 ? 86400 : R.in(1, 90000)) * 1000000000LL;
      else step = kind == 0 ? 1000LL * R.in(1, 5) : kind == 1 ? 1000000 : kind == 2 ? 1000000000LL * R.in(1, 100) : 86400000000000LL;
      ns += step; ll m = ms + ns / 1000000; ns %= 1000000;
      t.setInternal(d + m / 86400000, m % 86400000, ns * 1e-9, TimeSystem::GPS);
   }
}
int main(int argc, char** argv)
{
   return run(argc, argv, [](Rng& R)
   {
      Args& A = args();
      int pass = 0;
      while (trace().n < A.size)
      {
         bool whole = pass++ % 2;
         line(R, whole);
         TimeRange t1, t2; T[0] = &t1; T[1] = &t2;
         Ev("new").end();
         if (pass == 1)
         {  // every ordered pair of ranges on the four instants, split over the shards
            int k = 0;
            for (int s = 0; s < 2 * N; s += 2) for (int e = 0; e < 2 * N; e += 2) for (int f = 0; f < 4; f++)
            {
               if (k++ % A.of != A.shard) continue;
               set(R, 0, s, e, f & 1, f & 2);
               for (int s2 = 0; s2 < 2 * N; s2 += 2) for (int e2 = s2; e2 < 2 * N; e2 += 2) for (int g = 0; g < 4; g++)
               { set(R, 1, s2, e2, g & 1, g & 2); relate(); }
            }
            continue;
         }
         if (pass == 2) relate();
         for (int k = 0; k < 40; k++)
         {
            int i = R.in(0, 1), s = 2 * R.in(0, N - 1), e = R.chance(15) ? 2 * R.in(0, N - 1) : s + 2 * R.in(0, N - 1 - s / 2);
            bool a = R.chance(50), b = R.chance(50);
            switch (R.in(0, 5))
            {
               case 0: set(R, i, s, e, a, b); break;
               case 1: { T[i]->operator=(*T[1 - i]); Ev ev("copy"); holds(ev, i); break; }
               case 2: case 3:
               {
                  if (!whole) { relate(); break; }
                  static const char* F[] = { "%02m/%02d/%04Y %02H:%02M:%02S %P", "%04Y %03j %012.6s %P", "%04F %013.6g %P" };
                  std::string fmt = F[R.in(0, 2)];
                  std::string p1 = printTime(at(s), fmt), p2 = printTime(at(e), fmt);
                  int how = R.in(0, 5); bool good = true, blank = false;
                  if (how == 4) { p1 = R.chance(50) ? "garbage" : p1.substr(0, 3); good = false; }
                  if (how == 5) { p2 = R.chance(50) ? "garbage" : p2.substr(0, 3); good = false; }
                  std::string txt; const char* ws[] = { "", " ", "\t ", "\n" };
                  txt = ws[R.in(0, 3)];
                  bool defA = R.chance(20), defB = R.chance(20);
                  if (defA) a = true; else txt += a ? "[" : "(";
                  txt += (R.chance(50) && !defA ? " " : "") + p1 + "," + (R.chance(70) ? " " : "") + p2;
                  if (defB) b = true; else txt += b ? "]" : ")";
                  if (R.chance(5)) { txt = R.chance(50) ? "" : " \t\n"; good = false; blank = true; }
                  hx::note("setToString " + txt + " / " + fmt);
                  std::string x = guard([&]{ T[i]->setToString(txt, fmt); });
                  if (!good && !blank && x == "ok")   // the scanner is lenient; what it made of the damaged text is not specified
                  { *T[i] = TimeRange(); Ev ev("reset"); holds(ev, i); break; }
                  Ev ev("text"); ev.f("a", Raw(tuple(s, e, a, b))).f("good", good).f("blank", blank).f("x", x).f("txt", txt); holds(ev, i);
                  break;
               }
               case 4:
               {
                  if (!whole || pos(T[i]->getStart()) == -1) { relate(); break; }
                     // [MJD-as-day sod, ...] printed and read with the C library only
                  std::string s = R.chance(50) ? T[i]->printf("%J %s") : T[i]->dump("%J %s");
                  double d1, s1, d2, s2; char o, c; std::string q = s;
                  size_t z; while ((z = q.find("Start:")) != std::string::npos) q.erase(z, 6);
                  while ((z = q.find("End:")) != std::string::npos) q.erase(z, 4);
                  long a1, a2; int n = sscanf(q.c_str(), "%c%ld.%*d %lf, %ld.%*d %lf%c", &o, &a1, &s1, &a2, &s2, &c);
                  if (n != 6) n = sscanf(q.c_str(), "%c%ld %lf, %ld %lf%c", &o, &a1, &s1, &a2, &s2, &c);
                  (void)d1; (void)d2;
                  auto mk = [&](double sod, const CommonTime& real) {   // the day comes from the object, the second of day from the text
                     long d, ms; double fs; real.getInternal(d, ms, fs);
                     CommonTime t; t.setInternal(d, llround(sod * 1000), 0.0, TimeSystem::GPS); return pos(t); };
                  int ps = n == 6 ? mk(s1, T[i]->getStart()) : 98, pe = n == 6 ? mk(s2, T[i]->getEnd()) : 98;
                  Ev("print").f("i", i + 1).f("a", Raw(tuple(ps, pe, o == '[', c == ']'))).f("txt", s).end();
                  break;
               }
               default: relate();
            }
         }
      }
   });
}
