// instant <-> JSON for the drivers
#ifndef TM_HPP
#define TM_HPP
#include "hx.hpp"
#include "CommonTime.hpp"
#include "TimeSystem.hpp"
namespace hx
{
   typedef std::vector<ll> V;
   inline ll flr(ll a, ll b) { ll q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
      /// instant as [day, ms, ns] straight from the internal fields
   inline V inst(const gpstk::CommonTime& t)
   {
      long d, ms; double fs; gpstk::TimeSystem ts;
      t.getInternal(d, ms, fs, ts);
      return V{d, ms, fx(fs, 1e9)};
   }
   inline bool normal(const gpstk::CommonTime& t)
   {
      long d, ms; double fs; gpstk::TimeSystem ts;
      t.getInternal(d, ms, fs, ts);
      return ms >= 0 && ms < 86400000L && fs >= 0.0 && fs < 0.001;
   }
   inline std::string sysName(gpstk::TimeSystem ts)
   {
      switch (ts)
      {
         case gpstk::TimeSystem::Unknown: return "Unknown";
         case gpstk::TimeSystem::Any: return "Any";
         case gpstk::TimeSystem::GPS: return "GPS";
         case gpstk::TimeSystem::GLO: return "GLO";
         case gpstk::TimeSystem::GAL: return "GAL";
         case gpstk::TimeSystem::QZS: return "QZS";
         case gpstk::TimeSystem::BDT: return "BDT";
         case gpstk::TimeSystem::IRN: return "IRN";
         case gpstk::TimeSystem::UTC: return "UTC";
         case gpstk::TimeSystem::TAI: return "TAI";
         case gpstk::TimeSystem::TT: return "TT";
         case gpstk::TimeSystem::TDB: return "TDB";
         default: return "?";
      }
   }
   inline std::string tsys(const gpstk::CommonTime& t) { return sysName(t.getTimeSystem()); }
      /// a span of ns split into [days, ms, ns]
   inline V span(ll ns)
   { ll ms = flr(ns, 1000000); return V{flr(ms, 86400000), ms - flr(ms, 86400000) * 86400000, ns - ms * 1000000}; }
      /// span of seconds given as double; fine = to the ns
   inline V spanSec(double s, bool& fine)
   {
      if (!(fabs(s) < 9e14)) { fine = false; return V{BIG, 0, 0}; }
      fine = fabs(s) < 2e5;
      if (fine) return span(llround(s * 1e9));
      ll ms = llround(s * 1e3);
      return V{flr(ms, 86400000), ms - flr(ms, 86400000) * 86400000, 0};
   }
   inline V spanDays(double d)
   {
      if (!(fabs(d) < 2e9)) return V{BIG, 0, 0};
      ll day = (ll)floor(d); return V{day, llround((d - day) * 86400000.0), 0};
   }
}
#endif
