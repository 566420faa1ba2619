// Common support for the conformance drivers: NDJSON trace writing, seeded
// random numbers, exception capture, crash reporting.  Knows nothing of GPSTk
// beyond its exception base class.
#ifndef HX_HPP
#define HX_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <list>
#include <algorithm>
#include <functional>
#include <typeinfo>
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <limits>
#include <unistd.h>
#include <sys/stat.h>
#include <cxxabi.h>
#include "Exception.hpp"

namespace hx
{
   typedef long long ll;
   const ll BIG = 2147483646LL;   // what an out-of-range integer is logged as

   inline ll clamp(ll v)
   { return v > BIG ? BIG : (v < -BIG ? -BIG : v); }

      /// round a double to an integer number of units, BIG for non-finite
   inline ll fx(double v, double scale = 1.0)
   {
      double x = v * scale;
      if (!(x == x)) return BIG;
      if (x >= 2147483646.0) return BIG;
      if (x <= -2147483646.0) return -BIG;
      return llround(x);
   }

      // ---- random numbers -------------------------------------------------
   struct Rng
   {
      uint64_t s;
      explicit Rng(uint64_t seed = 1) : s(seed)
      { s = next() ^ (seed << 32); s = next() ^ 0x5DEECE66DULL; next(); }
      uint64_t next()
      {
         uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
         z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
         z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
         return z ^ (z >> 31);
      }
         /// uniform in [a,b]
      ll in(ll a, ll b) { return a + (ll)(next() % (uint64_t)(b - a + 1)); }
      bool chance(int pct) { return in(1, 100) <= pct; }
      template <class T> const T& pick(const std::vector<T>& v)
      { return v[in(0, (ll)v.size() - 1)]; }
      double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
      template <class T> void shuffle(std::vector<T>& v)
      { for (size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[in(0, i-1)]); }
   };

      // ---- command line -----------------------------------------------------
   struct Args
   {
      uint64_t seed; int shard, of; ll size; std::string out, script, scratch, tier, repo;
      Args() : seed(1), shard(0), of(1), size(1000), tier("quick") {}
      bool thorough() const { return tier == "thorough"; }
   };
   inline Args& args() { static Args a; return a; }

      // ---- crash notes --------------------------------------------------------
   inline char* lastOp() { static char b[512]; return b; }
   inline void note(const std::string& s) { snprintf(lastOp(), 511, "%s", s.c_str()); }
   inline void onSig(int sig)
   {
      char b[700];
      int n = snprintf(b, sizeof b, "HX-CRASH signal=%d during: %s\n", sig, lastOp());
      if (write(2, b, n)) {}
      signal(sig, SIG_DFL); raise(sig);
   }

      // ---- trace ----------------------------------------------------------------
   struct Trace
   {
      FILE* f; ll n;
      Trace() : f(nullptr), n(0) {}
      void open(const std::string& p)
      { f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); exit(3); } }
      void line(const std::string& s)
      { fputs(s.c_str(), f); fputc('\n', f); n++; if ((n & 15) == 0) fflush(f); }
   };
   inline Trace& trace() { static Trace t; return t; }

   inline std::string esc(const std::string& s)
   {
      std::string o = "\"";
      for (size_t i = 0; i < s.size(); i++)
      {
         unsigned char c = s[i]; char b[8];
         if (c == '"' || c == '\\') { o += '\\'; o += c; }
         else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
         else o += c;
      }
      return o + "\"";
   }

      // JSON value builders
   inline std::string J(ll v) { return std::to_string(clamp(v)); }
   inline std::string J(int v) { return J((ll)v); }
   inline std::string J(long v) { return J((ll)v); }
   inline std::string J(unsigned v) { return J((ll)v); }
   inline std::string J(unsigned long v) { return J(v > (unsigned long)BIG ? BIG : (ll)v); }
   inline std::string J(bool v) { return v ? "true" : "false"; }
   inline std::string J(const std::string& s) { return esc(s); }
   inline std::string J(const char* s) { return esc(s); }
   template <class T> std::string J(const std::vector<T>& v)
   {
      std::string o = "[";
      for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; T x = v[i]; o += J(x); }
      return o + "]";
   }
   template <class T> std::string J(const std::set<T>& v)
   { return J(std::vector<T>(v.begin(), v.end())); }
      /// already-encoded JSON
   struct Raw { std::string s; Raw(const std::string& x = "null") : s(x) {} };
   inline std::string J(const Raw& r) { return r.s; }

   struct Ev
   {
      std::string b; bool done;
      explicit Ev(const std::string& name) : done(false)
      { b = "{\"e\":" + esc(name); }
      template <class T> Ev& f(const char* k, const T& v)
      { b += ",\""; b += k; b += "\":"; b += J(v); return *this; }
      void end() { b += "}"; trace().line(b); done = true; }
   };

      // ---- exceptions ---------------------------------------------------------------
   inline std::string demangle(const char* n)
   {
      int st; char* d = abi::__cxa_demangle(n, 0, 0, &st);
      std::string s = d ? d : n; free(d);
      size_t p = s.rfind("::");
      return p == std::string::npos ? s : s.substr(p + 2);
   }
      /// run f; "ok" or the class name of what it threw
   template <class F> std::string guard(F f)
   {
      try { f(); return "ok"; }
      catch (gpstk::Exception& e) { return demangle(abi::__cxa_current_exception_type()->name()); }
      catch (std::exception& e) { return "std:" + demangle(abi::__cxa_current_exception_type()->name()); }
      catch (...) { return "unknown"; }
   }

   inline int run(int argc, char** argv, std::function<void(Rng&)> body)
   {
      Args& a = args();
      for (int i = 1; i + 1 < argc; i += 2)
      {
         std::string k = argv[i], v = argv[i+1];
         if (k == "--seed") a.seed = strtoull(v.c_str(), 0, 10);
         else if (k == "--shard") a.shard = atoi(v.c_str());
         else if (k == "--of") a.of = atoi(v.c_str());
         else if (k == "--size") a.size = atoll(v.c_str());
         else if (k == "--out") a.out = v;
         else if (k == "--script") a.script = v;
         else if (k == "--scratch") a.scratch = v;
         else if (k == "--tier") a.tier = v;
         else if (k == "--repo") a.repo = v;
      }
      int sigs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL };
      for (int s : sigs) signal(s, onSig);
      trace().open(a.out);
      Rng r(a.seed * 1000003ULL + a.shard * 7919ULL + 17);
      try { body(r); }
      catch (gpstk::Exception& e)
      { fprintf(stderr, "HX-CRASH uncaught %s during: %s\n", e.what().c_str(), lastOp()); fflush(trace().f); _exit(70); }
      catch (std::exception& e)
      { fprintf(stderr, "HX-CRASH uncaught %s during: %s\n", e.what(), lastOp()); fflush(trace().f); _exit(70); }
      fclose(trace().f);
      return 0;
   }
}
#endif
