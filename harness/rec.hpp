// Records as lists of fields, for the file-format drivers.
#ifndef REC_HPP
#define REC_HPP
#include "hx.hpp"
#include "CommonTime.hpp"
#include "CivilTime.hpp"
#include "TimeSystem.hpp"
namespace rec
{
   using namespace hx;
      /// exact decimal: [sign, integer part, 6 decimals, 6 more decimals]
   inline std::string numJ(double v)
   {
      if (!(v == v) || std::isinf(v)) return "[0,0,0,0]";
      int s = std::signbit(v) ? -1 : 1; double a = fabs(v);
      if (a > 2e9) return "[0,1,0,0]";
      double i = floor(a), r = (a - i) * 1e6, f = floor(r); ll g = llround((r - f) * 1e6);
      ll ii = (ll)i, ff = (ll)f;
      if (g >= 1000000) { g -= 1000000; ff++; }
      if (ff >= 1000000) { ff -= 1000000; ii++; }
      return "[" + J(s) + "," + J(ii) + "," + J(ff) + "," + J(g) + "]";
   }
      /// exponent form: [sign, 7 digits, 8 digits, exponent] with d.dddddd x 10^e
   inline std::string sciJ(double v)
   {
      if (!(v == v) || std::isinf(v)) return "[0,0,0,0]";
      if (v == 0) return "[1,0,0,0]";
      char b[64]; snprintf(b, sizeof b, "%.14e", fabs(v));
      std::string s(b), d = s.substr(0, 1) + s.substr(2, 14);
      int e = atoi(s.substr(s.find('e') + 1).c_str());
      return "[" + J(std::signbit(v) ? -1 : 1) + "," + J(atoll(d.substr(0, 7).c_str())) + "," + J(atoll(d.substr(7).c_str())) + "," + J(e) + "]";
   }
   struct Rec
   {
      std::vector<Raw> f;
      Rec& raw(const char* c, const std::string& k, const std::string& v)
      { f.push_back(Raw("[" + J(c) + "," + J(k) + "," + v + "]")); return *this; }
      Rec& num(const char* c, const std::string& k, double v) { return raw(c, k, numJ(v)); }
      Rec& sci(const char* c, const std::string& k, double v) { return raw(c, k, sciJ(v)); }
      Rec& str(const char* c, const std::string& k, const std::string& v) { return raw(c, k, J(v)); }
      Rec& i(const char* c, const std::string& k, ll v) { return raw(c, k, J(v)); }
      Rec& b(const char* c, const std::string& k, bool v) { return raw(c, k, J(v)); }
         /// day number and seconds of day
      Rec& time(const char* c, const std::string& k, const gpstk::CommonTime& t)
      {
         long d; double s; gpstk::TimeSystem ts;
         t.get(d, s, ts);
         raw(c, k + "d", J((ll)d)); num(c, k + "s", s);
         return *this;
      }
   };
   inline std::string J(const Rec& r) { return hx::J(r.f); }
   inline std::string K(ll v) { return std::to_string(v); }

      /// a decimal with integer part up to m: never a rounding tie at 6 decimals or fewer
   inline double dec(Rng& r, ll m, bool neg, int maxdec = 7)
   {
      ll i = r.chance(25) ? r.in(0, std::min<ll>(m, 9)) : r.chance(10) ? m : r.in(0, m);
      if (r.chance(30) && m > 10) { ll p = 10; while (p < m && r.chance(70)) p *= 10; i = r.in(0, std::min(m, p)); }
      ll sc = 1; for (int k = 0; k < maxdec; k++) sc *= 10;
      ll f;
      int c = r.in(0, 9);
      if (c == 0) f = 0;
      else if (c == 1) f = sc - 1;                       // rounds up, carries
      else if (c == 2) f = (sc / 1000) * r.in(0, 999);   // exact at three decimals
      else if (c == 3) f = r.in(1, 4);
      else { f = r.in(0, sc / 10 - 1) * 10; ll l = r.in(1, 8); f += l >= 5 ? l + 1 : l; }
      double v = (double)i + (double)f / (double)sc;
      return neg && r.chance(40) ? -v : v;
   }
   inline std::string word(Rng& r, int maxlen)
   {
      static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_/.,:()#+*&%$!?=@<>;'[]{}|^~";
      int n = r.chance(10) ? 0 : r.chance(15) ? maxlen : r.in(1, maxlen);
      std::string s;
      for (int k = 0; k < n; k++) s += (k > 0 && k < n - 1 && r.chance(12)) ? ' ' : al[r.chance(80) ? r.in(0, 61) : r.in(0, (ll)al.size() - 1)];
      return s;
   }
   inline std::vector<std::string> lines(const std::string& p)
   {
      std::ifstream f(p.c_str()); std::vector<std::string> v; std::string l;
      while (std::getline(f, l)) v.push_back(l);
      return v;
   }
   inline void put(const std::string& p, const std::vector<std::string>& v, bool nl = true)
   {
      std::ofstream f(p.c_str(), std::ios::binary);
      for (size_t k = 0; k < v.size(); k++) { f << v[k]; if (nl || k + 1 < v.size()) f << "\n"; }
   }
   inline std::string slurp(const std::string& p)
   { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
}
namespace hx { inline std::string J(const rec::Rec& r) { return hx::J(r.f); } }
#endif
