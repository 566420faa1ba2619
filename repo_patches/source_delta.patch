From 090e3280192b4d934829488acd0292045cb1ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 001/121] fix: GPSWeekZcount::addWeeks leaves the week
 unchanged when it throws

---
 core/lib/TimeHandling/GPSWeekZcount.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index a3f6ad1..4d7569a 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -227,12 +227,12 @@ namespace gpstk
 
    GPSWeekZcount& GPSWeekZcount::addWeeks(short inWeeks)
    {
-      week += inWeeks;
-      if (week < 0)
+      if (week + inWeeks < 0)
       {
          gpstk::InvalidRequest exc("addWeeks results in negative week");
          GPSTK_THROW(exc);
       }
+      week += inWeeks;
       return *this;
    }
 
-- 
2.43.0


From dd790f08560efc05a5c6aa58f42bdc2abf99636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 002/121] fix: same-time-block tests for Z-counts before the
 block offset

---
 core/lib/TimeHandling/GPSWeekZcount.cpp | 22 ++++++++++++++++++----
 core/lib/TimeHandling/GPSZcount.cpp     | 23 +++++++++++++++++++----
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index 4d7569a..e495d9d 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -347,6 +347,19 @@ namespace gpstk
    }
 
 
+      /// Index of the block holding zcounts, rounding down so that Z-counts
+      /// before the first block boundary also share one block.
+   static long zcountBlock(long zcounts, unsigned long block,
+                           unsigned long offset)
+   {
+      long num = zcounts - (long)offset, den = (long)block;
+      long rv = num / den;
+      if ((num % den) < 0)
+         rv--;
+      return rv;
+   }
+
+
    bool GPSWeekZcount::inSameTimeBlock(const GPSWeekZcount& other,
                                        unsigned long inZcountBlock,
                                        unsigned long inZcountOffset)
@@ -357,8 +370,8 @@ namespace gpstk
             // Make sure that we're in the same week, and then checkto
             // see if we're in the same time block.
          if ((week == other.week) &&
-             (((zcount - inZcountOffset) / inZcountBlock) ==
-              ((other.zcount - inZcountOffset) / inZcountBlock)))
+             (zcountBlock(zcount, inZcountBlock, inZcountOffset) ==
+              zcountBlock(other.zcount, inZcountBlock, inZcountOffset)))
          {
             return true;
          }
@@ -366,8 +379,9 @@ namespace gpstk
       else
       {
             // Comare using the total number of Z-counts
-         if (long((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
-             long((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
+         if (zcountBlock(getTotalZcounts(), inZcountBlock, inZcountOffset) ==
+             zcountBlock(other.getTotalZcounts(), inZcountBlock,
+                         inZcountOffset))
          {
             return true;
          }
diff --git a/core/lib/TimeHandling/GPSZcount.cpp b/core/lib/TimeHandling/GPSZcount.cpp
index 63d62fb..41209a1 100644
--- a/core/lib/TimeHandling/GPSZcount.cpp
+++ b/core/lib/TimeHandling/GPSZcount.cpp
@@ -321,6 +321,19 @@ namespace gpstk
       return asString<short>(week) + "w" + asString<long>(zcount) + "z";
    }
 
+      /// Index of the block holding zcounts, rounding down so that Z-counts
+      /// before the first block boundary also share one block.
+   static long zcountBlock(long zcounts, unsigned long block,
+                           unsigned long offset)
+   {
+      long num = zcounts - (long)offset, den = (long)block;
+      long rv = num / den;
+      if ((num % den) < 0)
+         rv--;
+      return rv;
+   }
+
+
    bool GPSZcount::inSameTimeBlock(const GPSZcount& other,
                                    unsigned long inZcountBlock,
                                    unsigned long inZcountOffset)
@@ -330,8 +343,8 @@ namespace gpstk
             // Make sure that we're in the same week, and then check to see if
             // we're in the same time block
          if ( (getWeek() == other.getWeek()) &&
-              (((getZcount() - inZcountOffset) / inZcountBlock) ==
-               ((other.getZcount() - inZcountOffset) / inZcountBlock)) )
+              (zcountBlock(getZcount(), inZcountBlock, inZcountOffset) ==
+               zcountBlock(other.getZcount(), inZcountBlock, inZcountOffset)) )
          {
             return true;
          }
@@ -339,8 +352,10 @@ namespace gpstk
       else // inZcountBlock >= ZCOUNT_WEEK
       {
             // Compare using the total number of Z-counts.
-         if (long((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
-             long((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
+         if (zcountBlock((long)getTotalZcounts(), inZcountBlock,
+                         inZcountOffset) ==
+             zcountBlock((long)other.getTotalZcounts(), inZcountBlock,
+                         inZcountOffset))
          {
             return true;
          }
-- 
2.43.0


From 3c9ae347d34fc253f1159f19a03069fc53f8f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 003/121] fix: TimeRange::operator< ignores start times when
 left is exclusive and right inclusive

---
 core/lib/TimeHandling/TimeRange.cpp | 31 +++++++++--------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/core/lib/TimeHandling/TimeRange.cpp b/core/lib/TimeHandling/TimeRange.cpp
index 89f3e02..ebeb411 100644
--- a/core/lib/TimeHandling/TimeRange.cpp
+++ b/core/lib/TimeHandling/TimeRange.cpp
@@ -174,28 +174,15 @@ namespace gpstk
    
    bool TimeRange::operator<(const TimeRange& right) const
    {
-        // If both are inclusive, then simply return true
-        // if left start < right start.
-      if (includeStartTime==right.includeStartTime)
-      {
-         if (start<right.start) 
-         {
-            return true;
-         }
-         return false;
-      }  
-
-        // If right is NOT inclusive, that implies left
-        // IS inclusive.  In this case, return true if
-        // left is <= right
-     if (!right.includeStartTime)
-     {
-        if (start<=right.start)
-        {
-          return true; 
-        }
-     }
-     return false;
+        // The earlier start time is first
+      if (start<right.start) return true;
+
+        // For the same start time, a range that includes it
+        // precedes a range that does not.
+      if (start==right.start &&
+          includeStartTime && !right.includeStartTime) return true;
+
+      return false;
    }
 
       // True if start/end of this object are both prior
-- 
2.43.0


From e0b0a9991b4d6e4c2bbfb7583d386db0c5f67fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 004/121] fix: TimeRange::setToString leaves the range
 unchanged when it throws

---
 core/lib/TimeHandling/TimeRange.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/core/lib/TimeHandling/TimeRange.cpp b/core/lib/TimeHandling/TimeRange.cpp
index ebeb411..cdb5c15 100644
--- a/core/lib/TimeHandling/TimeRange.cpp
+++ b/core/lib/TimeHandling/TimeRange.cpp
@@ -261,6 +261,9 @@ namespace gpstk
    TimeRange& TimeRange::setToString( const string& str, 
                                       const string& fmt)
    {
+         // Parse into a copy so that a failure leaves this unchanged
+      TimeRange parsed(*this);
+
          // Ignore leading whitespace.  
          // See if first non-whitespace character is '[' or '('
       std::string whitespace(" \t\n"); 
@@ -272,7 +275,7 @@ namespace gpstk
          tre.addText("TimeRange:Failure finding first non-whitespace character");
          GPSTK_THROW(tre);
       }
-      includeStartTime = true;    // default case
+      parsed.includeStartTime = true;    // default case
       string leadChar = str.substr(n,1);
 
 //      std::cout << "leadChar :'" << leadChar << "'" << endl;
@@ -283,7 +286,7 @@ namespace gpstk
       }
       else if (leadChar.compare("(")==0)
       {
-         includeStartTime = false; 
+         parsed.includeStartTime = false; 
          n++;
       }
 
@@ -295,7 +298,7 @@ namespace gpstk
 
       try
       {
-         mixedScanTime(start, firstTime, fmt); 
+         mixedScanTime(parsed.start, firstTime, fmt); 
       }
       catch(InvalidRequest& exc)
       {
@@ -316,7 +319,7 @@ namespace gpstk
          // Find optional end inclusion definition.
       std::string::size_type endCharPos = str.find_first_of("])", endFirstTime+1);
       std::string::size_type endSecondTime = endCharPos;
-      includeEndTime = true; 
+      parsed.includeEndTime = true; 
       if (endCharPos!=std::string::npos)
       {
          endSecondTime--;
@@ -324,7 +327,7 @@ namespace gpstk
 //         std::cout << "endChar: '" << endChar << "'" << endl;
          if (endChar.compare(")")==0) 
          {
-            includeEndTime = false;
+            parsed.includeEndTime = false;
          }
       }
       
@@ -333,7 +336,7 @@ namespace gpstk
 ///      std::cout << "secondTime: '" << secondTime << "'" << endl;
       try
       {
-         mixedScanTime(end, secondTime, fmt);
+         mixedScanTime(parsed.end, secondTime, fmt);
       }
       catch(InvalidRequest& exc)
       {
@@ -349,13 +352,14 @@ namespace gpstk
       }
 
          // The end time must be greater than the start time.  
-      if (end<start)
+      if (parsed.end<parsed.start)
       {
          TimeRangeException tre("Ending time is prior to beginning time");
 
          GPSTK_THROW(tre);
       }
 
+      *this = parsed;
       return *this; 
    }
 
-- 
2.43.0


From b1b80c44aa7cb8d51f96ebf35e8a91820d727baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 005/121] fix: mixedScanTime scans a date into the wrong month
 when the target held day 29-31

---
 core/lib/TimeHandling/TimeString.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index aa52bdd..e3292ca 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -712,10 +712,23 @@ namespace gpstk
             delete ptt;
          }
          
-         if( hyear )
+            // Fields that make up a date are applied together, as the
+            // new year or month combined with the old day may not be
+            // a valid date.
+         if( hyear && hmonth && hday )
+         {
+            CivilTime tt(ct);
+            tt.year = iyear;
+            tt.month = imonth;
+            tt.day = iday;
+            ct = tt.convertToCommonTime();
+         }
+         else if( hyear )
          {
             YDSTime tt(ct);
             tt.year = iyear;
+            if( hdoy )
+               tt.doy = idoy;
             ct = tt.convertToCommonTime();
          }
  
@@ -723,6 +736,8 @@ namespace gpstk
          {
             CivilTime tt(ct);
             tt.month = imonth;
+            if( hday )
+               tt.day = iday;
             ct = tt.convertToCommonTime();
          }
 
-- 
2.43.0


From 9a967569f3242219cee80155133ccf1ae394e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 006/121] fix: mixedScanTime ignores scanned week values of
 BeiDou, Galileo, QZSS and NavIC

---
 core/lib/TimeHandling/TimeString.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index e3292ca..744f032 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -672,14 +672,15 @@ namespace gpstk
                   iepoch = asInt(itr->second);
                   break;
 
-               case 'D': hfullweek = hbdsfw = true; break;
-               case 'e': hweek = hbdsw = true; break;
-               case 'L': hfullweek = hgalfw = true; break;
-               case 'l': hweek = hgalw = true; break;
-               case 'I': hfullweek = hqzsfw = true; break;
-               case 'i': hweek = hqzsw = true; break;
-               case 'O': hfullweek = hirnfw = true; break;
-               case 'o': hweek = hirnw = true; break;
+               case 'D': hfullweek = hbdsfw = true; ifullweek = asInt(itr->second); break;
+               case 'e': hweek = hbdsw = true; iweek = asInt(itr->second); break;
+               case 'L': hfullweek = hgalfw = true; ifullweek = asInt(itr->second); break;
+               case 'l': hweek = hgalw = true; iweek = asInt(itr->second); break;
+               case 'h':
+               case 'I': hfullweek = hqzsfw = true; ifullweek = asInt(itr->second); break;
+               case 'i': hweek = hqzsw = true; iweek = asInt(itr->second); break;
+               case 'O': hfullweek = hirnfw = true; ifullweek = asInt(itr->second); break;
+               case 'o': hweek = hirnw = true; iweek = asInt(itr->second); break;
 
                default:
                      // do nothing
-- 
2.43.0


From 0336621cc173eadeb54d46724cf5d8e23c022e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 007/121] fix: mixedScanTime drops the scanned time system of
 an MJD

---
 core/lib/TimeHandling/TimeString.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index 744f032..e14ef43 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -474,6 +474,9 @@ namespace gpstk
 
                case 'Q':
                   t = MJD( asLongDouble(itr->second) );
+                     // 'P' comes before 'Q', don't lose what it set
+                  if( info.count('P') )
+                     t.setTimeSystem(ts);
                   break;
 
                case 'J':
-- 
2.43.0


From 25c74db4f8de7c98f50910a244051b1df2d1d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 008/121] fix: scanning a field with a precision and no width,
 such as MJD's default format

---
 core/lib/TimeHandling/TimeTag.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/lib/TimeHandling/TimeTag.cpp b/core/lib/TimeHandling/TimeTag.cpp
index 1d656f0..8ff426f 100644
--- a/core/lib/TimeHandling/TimeTag.cpp
+++ b/core/lib/TimeHandling/TimeTag.cpp
@@ -106,6 +106,16 @@ namespace gpstk
                          << "f:\"" << f << "\"" << std::endl
                          << "s:\"" << s << "\"" << std::endl;
 
+               // a precision alone, as in "%.9Q", is not a field width
+            if( f[0] == '.' )
+            {
+               while ( !f.empty() && !isalpha( f[0] ) )
+                  f.erase( 0, 1 );
+
+               if ( f.empty() )
+                  break;
+            }
+
             if( !isalpha( f[0] ) )
             {
                // If the format string is %03f, get '3' as the field length.
-- 
2.43.0


From 22519ca8cd17fcb223c6ad4f6a2ee76b51405b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 009/121] fix: QZSWeekSecond scans the time system name

---
 core/lib/TimeHandling/QZSWeekSecond.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index 4ced809..95677ff 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -189,7 +189,7 @@ namespace gpstk
                   sow = gpstk::StringUtils::asDouble( i->second );
                   break;
                case 'P':
-                  timeSystem = static_cast<TimeSystem>(gpstk::StringUtils::asInt( i->second ));
+                  timeSystem = gpstk::StringUtils::asTimeSystem(i->second);
                   break;
                default:
                      // do nothing
-- 
2.43.0


From a4f1d00b5b74a28888043bb8f5a43a6170ef97e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 010/121] fix: printError of BeiDou, Galileo and QZSS weeks
 prints text through numeric conversions

---
 core/lib/TimeHandling/BDSWeekSecond.hpp | 4 ++--
 core/lib/TimeHandling/GALWeekSecond.hpp | 4 ++--
 core/lib/TimeHandling/QZSWeekSecond.hpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/lib/TimeHandling/BDSWeekSecond.hpp b/core/lib/TimeHandling/BDSWeekSecond.hpp
index 7f236d1..f8a1ccb 100644
--- a/core/lib/TimeHandling/BDSWeekSecond.hpp
+++ b/core/lib/TimeHandling/BDSWeekSecond.hpp
@@ -151,9 +151,9 @@ namespace gpstk
             rv = formattedPrint( rv, getFormatPrefixInt() + "e",
                                  "es", "BadBDSmweek");
             rv = formattedPrint( rv, getFormatPrefixInt() + "w",
-                                 "wu", "BadBDSdow");
+                                 "ws", "BadBDSdow");
             rv = formattedPrint( rv, getFormatPrefixFloat() + "g",
-                                 "gf", "BadBDSsow");
+                                 "gs", "BadBDSsow");
             rv = formattedPrint( rv, getFormatPrefixInt() + "P",
                                  "Ps", "BadBDSsys");
             return rv;
diff --git a/core/lib/TimeHandling/GALWeekSecond.hpp b/core/lib/TimeHandling/GALWeekSecond.hpp
index 7275710..0efb77a 100644
--- a/core/lib/TimeHandling/GALWeekSecond.hpp
+++ b/core/lib/TimeHandling/GALWeekSecond.hpp
@@ -149,9 +149,9 @@ namespace gpstk
             rv = formattedPrint( rv, getFormatPrefixInt() + "l",
                                  "ls", "BadGALmweek");
             rv = formattedPrint( rv, getFormatPrefixInt() + "w",
-                                 "wu", "BadGALdow");
+                                 "ws", "BadGALdow");
             rv = formattedPrint( rv, getFormatPrefixFloat() + "g",
-                                 "gf", "BadGALsow");
+                                 "gs", "BadGALsow");
             rv = formattedPrint( rv, getFormatPrefixInt() + "P",
                                  "Ps", "BadGALsys");
             return rv;
diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index 95677ff..929ab11 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -150,9 +150,9 @@ namespace gpstk
             rv = formattedPrint( rv, getFormatPrefixInt() + "i",
                                  "is", "BadQZSmweek");
             rv = formattedPrint( rv, getFormatPrefixInt() + "w",
-                                 "wu", "BadQZSdow");
+                                 "ws", "BadQZSdow");
             rv = formattedPrint( rv, getFormatPrefixFloat() + "g",
-                                 "gf", "BadQZSsow");
+                                 "gs", "BadQZSsow");
             rv = formattedPrint( rv, getFormatPrefixInt() + "P",
                                  "Ps", "BadQZSsys");
             return rv;
-- 
2.43.0


From de43935852a43e702e40ce89d7c8089a7a72af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 011/121] fix: GPSEphemerisStore::rationalize on empty or
 adjusted tables, and its time limits

An empty table (left by edit()) made the re-key loop run forever; a set whose
beginValid had just been adjusted was looked up by the new time and not found,
and end() was dereferenced; the limits of the store came from the last
satellite alone.
---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index de44b09..ad68931 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -61,10 +61,18 @@ namespace gpstk
    // ordering has been determined.
    void GPSEphemerisStore::rationalize(void)
    {
+      // the limits of the store are found again below
+      initialTime = CommonTime::END_OF_TIME;
+      initialTime.setTimeSystem(timeSystem);
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      finalTime.setTimeSystem(timeSystem);
+
       // loop over satellites
       SatTableMap::iterator it;
       for (it = satTables.begin(); it != satTables.end(); it++) {
          TimeOrbitEphTable& table = it->second;
+         if (table.empty())         // edit() leaves these
+            continue;
          TimeOrbitEphTable::iterator ei;
          TimeOrbitEphTable::iterator eiPrev;
          bool begin = true;
@@ -76,7 +84,6 @@ namespace gpstk
 
          // Scan the map for this SV looking for uploads.  Uploads are identifed by
          // Toe values that are offset from an even hour.
-         OrbitEph* oePrev = 0;
          for (ei = table.begin(); ei != table.end(); ei++)
          {
             currentIsOffset = false;      // start with this assumption
@@ -146,8 +153,10 @@ namespace gpstk
                   {
                      //cout << "*** Adjusting endValid Times" << endl;
                      TimeOrbitEphTable::iterator ri;
-                     // We KNOW it exists in the map
-                     ri = table.find(oePrev->beginValid);
+                     // The set before this one.  Its beginValid may no
+                     // longer be its key, so don't look for it by time.
+                     ri = ei;
+                     --ri;
                      bool done = false;
                      while (!done)
                      {
@@ -175,7 +184,6 @@ namespace gpstk
 
                // Update condition flags for next loop
             previousIsOffset = currentIsOffset;
-            oePrev = oe;           // May need this for next loop.
             begin = false;
             //cout << "Bottom of For loop.  currentIsOffset: " << currentIsOffset <<
             //        ", previousIsOffset: " << previousIsOffset << endl;
@@ -225,10 +233,8 @@ namespace gpstk
 
            // Well, not quite done.  We need to update the initial/final
            // times of the map.
-        const TimeOrbitEphTable::iterator Cei = table.begin( );
-        initialTime = Cei->second->beginValid;
-        const TimeOrbitEphTable::reverse_iterator rCei = table.rbegin();
-        finalTime   = rCei->second->endValid;
+        for (ei = table.begin(); ei != table.end(); ei++)
+           updateTimeLimits(ei->second->beginValid, ei->second->endValid);
 
       } // end outer for-loop
    }
-- 
2.43.0


From ca06d3c9d3520e070914eaabaca3f218227c5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 012/121] fix: OrbElemStore::rationalize on empty tables, and
 its time limits

An empty table (left by edit()) made the re-key loop run forever and the
limits of the store came from the last satellite alone.
---
 core/lib/GNSSEph/OrbElemStore.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 86bd7c6..b65e0c1 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -806,10 +806,18 @@ namespace gpstk
           GPSTK_THROW(e);
       }
 
+         // the limits of the store are found again below
+      initialTime = CommonTime::END_OF_TIME;
+      initialTime.setTimeSystem(timeSysForStore);
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      finalTime.setTimeSystem(timeSysForStore);
+
       UBEMap::iterator it;
       for (it = ube.begin(); it != ube.end(); it++)
       {
          OrbElemMap& em = it->second;
+         if (em.empty())         // edit() leaves these
+            continue;
          OrbElemMap::iterator ei;
   	     OrbElemMap::iterator eiPrev;
          bool begin = true;
@@ -1022,10 +1030,8 @@ namespace gpstk
 
            // Well, not quite done.  We need to update the initial/final 
            // times of the map.
-        const OrbElemMap::iterator Cei = em.begin( );
-        initialTime = Cei->second->beginValid;
-        const OrbElemMap::reverse_iterator rCei = em.rbegin();
-        finalTime   = rCei->second->endValid;
+        for (ei = em.begin(); ei != em.end(); ei++)
+           updateInitialFinal(ei->second);
 
       } // end outer for-loop
       //cout << "Exiting OrbElem.rationalize()" << endl; 
-- 
2.43.0


From b7c247f4fee40cbef078a1ab0ace2dc295776abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 013/121] fix: addToList of the BeiDou and QZSS stores ignores
 the requested satellite

---
 ext/lib/GNSSEph/BDSEphemerisStore.cpp | 2 +-
 ext/lib/GNSSEph/QZSEphemerisStore.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/BDSEphemerisStore.cpp b/ext/lib/GNSSEph/BDSEphemerisStore.cpp
index ec6bb16..cb56bec 100644
--- a/ext/lib/GNSSEph/BDSEphemerisStore.cpp
+++ b/ext/lib/GNSSEph/BDSEphemerisStore.cpp
@@ -71,7 +71,7 @@ namespace gpstk
    {
       // get the list from OrbitEphStore
       list<OrbitEph*> oelst;
-      OrbitEphStore::addToList(oelst,SatID(-1,SatelliteSystem::BeiDou));
+      OrbitEphStore::addToList(oelst,SatID(sat.id,SatelliteSystem::BeiDou));
 
       int n(0);
       list<OrbitEph*>::const_iterator it;
diff --git a/ext/lib/GNSSEph/QZSEphemerisStore.cpp b/ext/lib/GNSSEph/QZSEphemerisStore.cpp
index 62184fa..6306b4d 100644
--- a/ext/lib/GNSSEph/QZSEphemerisStore.cpp
+++ b/ext/lib/GNSSEph/QZSEphemerisStore.cpp
@@ -71,7 +71,7 @@ namespace gpstk
    {
       // get the list from OrbitEphStore
       list<OrbitEph*> oelst;
-      OrbitEphStore::addToList(oelst,SatID(-1,SatelliteSystem::QZSS));
+      OrbitEphStore::addToList(oelst,SatID(sat.id,SatelliteSystem::QZSS));
 
       int n(0);
       list<OrbitEph*>::const_iterator it;
-- 
2.43.0


From 17bd0f6ea023b197a20ce03b2feb34eb0720726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 014/121] fix: QZSEphemerisStore::findEphemeris refuses every
 QZSS satellite

---
 ext/lib/GNSSEph/QZSEphemerisStore.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/QZSEphemerisStore.hpp b/ext/lib/GNSSEph/QZSEphemerisStore.hpp
index e626820..8f466cb 100644
--- a/ext/lib/GNSSEph/QZSEphemerisStore.hpp
+++ b/ext/lib/GNSSEph/QZSEphemerisStore.hpp
@@ -101,11 +101,11 @@ namespace gpstk
       /// @param sat the satellite of interest
       /// @param t the time of interest
       /// @return a pointer to the desired OrbitEph, or NULL if no OrbitEph found.
-      /// @throw InvalidRequest if the satellite system is not BeiDou, or if
+      /// @throw InvalidRequest if the satellite system is not QZSS, or if
       /// ephemeris is not found.
       const QZSEphemeris& findEphemeris(const SatID& sat, const CommonTime& t) const
       {
-         if(sat.system != SatelliteSystem::BeiDou) {
+         if(sat.system != SatelliteSystem::QZSS) {
             InvalidRequest e("Invalid satellite system");
             GPSTK_THROW(e);
          }
-- 
2.43.0


From 776d4b84b9acb4be4eaad08a2c7f9d753b6c7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 015/121] fix: OrbElemStore lists a satellite whose elements it
 refused

---
 core/lib/GNSSEph/OrbElemStore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index b65e0c1..b23f269 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -237,8 +237,6 @@ namespace gpstk
         addSatSys(sid.system); 
      }
 
-        // Find reference to map for this SV 
-     OrbElemMap& oem = ube[sid];
      string ts = "%02m/%02d/%02y %02H:%02M:%02S";
 
      if (dbg)
@@ -258,6 +256,9 @@ namespace gpstk
         GPSTK_THROW(ip);
      }
 
+        // Find reference to map for this SV 
+     OrbElemMap& oem = ube[sid];
+
        // if map is empty, load object and return
      if (dbg) cout << "oes::addOE.  Checking oem.size()" << endl;
      if (oem.size()==0)
-- 
2.43.0


From 4374aaaa3cb90204fa6a70809870513d20646752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 016/121] fix: OrbElemStore::rationalize misses the second set
 of an upload across a week boundary

---
 core/lib/GNSSEph/OrbElemStore.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index b23f269..c964d64 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -823,7 +823,6 @@ namespace gpstk
   	     OrbElemMap::iterator eiPrev;
          bool begin = true;
          double previousOffset = 0.0;
-         long previousToe = 0.0;
          bool previousIsOffset = false; 
          bool currentIsOffset = false;
          bool previousBeginAdjusted = false;
@@ -882,7 +881,8 @@ namespace gpstk
                   // loop without destroying the integrity of the
                   // iterator.  This is handled later in a second
                   // loop.  See notes on the second loop, below. 
-               long diffToe = Toe - previousToe;
+               double diffToe = 0.0;
+               if (oePrev!=0) diffToe = oe->ctToe - oePrev->ctToe;
                if (previousIsOffset &&
                    currentIsOffset  &&
                    currentOffset==previousOffset &&
@@ -967,7 +967,6 @@ namespace gpstk
             
                // Update condition flags for next loop
             previousIsOffset = currentIsOffset;
-            previousToe      = Toe;
 
                // If beginValid was adjusted for THIS oe, set
                // the flag previousBeginAdjusted so we have that
-- 
2.43.0


From ea45ec5517a3ad1a2c7ae98c798251589f2e755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 017/121] fix: GloEphemerisStore::edit leaves no final time
 when one record remains

---
 core/lib/GNSSEph/GloEphemerisStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.cpp b/core/lib/GNSSEph/GloEphemerisStore.cpp
index 691b5b0..f923cd0 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.cpp
@@ -451,7 +451,7 @@ namespace gpstk
                   // Update 'initialTime' and 'finalTime', if necessary
                if (t < initialTime)
                   initialTime = t;
-               else if (t > finalTime)
+               if (t > finalTime)
                   finalTime = t;
 
             }  // End of 'if ( ( (*tgmIter).first >= tmin ) && ...'
-- 
2.43.0


From 70c3c4cbda09e782cec7a9498a250a73b4a644df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 018/121] fix: GloEphemerisStore's constructor ignores its
 health argument

---
 core/lib/GNSSEph/GloEphemerisStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.hpp b/core/lib/GNSSEph/GloEphemerisStore.hpp
index da79c09..9d04ddf 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.hpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.hpp
@@ -91,7 +91,7 @@ namespace gpstk
               finalTime(CommonTime::BEGINNING_OF_TIME),
               step(rkStep)
       {
-            setCheckHealthFlag(false);
+            setCheckHealthFlag(checkHealth);
       }
 
          /// Destructor
-- 
2.43.0


From 95c676e2e9e28435f04deff61c54b0fc41ed980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 019/121] fix: PositionSatStore getPosition, getVelocity and
 getAcceleration return a later entry

---
 core/lib/GNSSEph/PositionSatStore.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/lib/GNSSEph/PositionSatStore.cpp b/core/lib/GNSSEph/PositionSatStore.cpp
index 484a4c1..778f7c6 100644
--- a/core/lib/GNSSEph/PositionSatStore.cpp
+++ b/core/lib/GNSSEph/PositionSatStore.cpp
@@ -204,7 +204,6 @@ namespace gpstk
 
          if(getTableInterval(sat, ttag, Nhalf, it1, it2, true)) {
             // exact match
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Pos;
          }
@@ -249,7 +248,6 @@ namespace gpstk
 
          bool isExact(getTableInterval(sat, ttag, Nhalf, it1, it2, haveVelocity));
          if(isExact && haveVelocity) {
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Vel;
          }
@@ -309,7 +307,6 @@ namespace gpstk
          bool isExact(getTableInterval(sat,ttag,Nhalf,it1,it2,haveAcceleration));
          if(isExact && haveAcceleration) {
             // exact match, and have acceleration data
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Acc;
          }
-- 
2.43.0


From 5013df057da2dddb1adc7052c9f2af6d2b4b56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 020/121] fix: ClockSatStore::getClockDrift interpolates biases
 instead of drifts

---
 core/lib/GNSSEph/ClockSatStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index 0231f78..da60cab 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -274,7 +274,7 @@ namespace gpstk
             if(isExact && ABS(kt->first-ttag) < 1.e-8) Nhi=n;
             times.push_back(kt->first - ttag0);    // sec
             if(haveClockDrift)
-               drifts.push_back(kt->second.bias);  // sec/sec
+               drifts.push_back(kt->second.drift); // sec/sec
             else
                biases.push_back(kt->second.bias);  // sec
             if(kt == it2) break;
-- 
2.43.0


From e893b0b277080818bf3d8d26fae263a38ad6d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 021/121] fix: ClockSatStore::getValue interpolates
 accelerations with the slope of drifts

---
 core/lib/GNSSEph/ClockSatStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index da60cab..f26f65d 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -161,8 +161,8 @@ namespace gpstk
             }
             else {
                // linear interpolation
-               slope = (drifts[Nhi]-drifts[Nlow]) /
-                                   (times[Nhi]-times[Nlow]);            // sec/sec^2
+               slope = (accels[Nhi]-accels[Nlow]) /
+                                   (times[Nhi]-times[Nlow]);            // sec/sec^3
                rec.accel = accels[Nlow] + slope*(dt-times[Nlow]);       // sec/sec^2
             }
 
-- 
2.43.0


From 85fbbddb12942d85b4f34a70d31a1ff1fa38ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 022/121] fix: ClockSatStore::getValue reads past the data at
 the first of two entries

---
 core/lib/GNSSEph/ClockSatStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index f26f65d..1fcc55d 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -106,7 +106,8 @@ namespace gpstk
             ++n;
          };
 
-         if(isExact && Nmatch == (int)(Nhalf-1)) { Nlow++; Nhi++; }
+         if(isExact && Nmatch == (int)(Nhalf-1) && Nhi+1 < times.size())
+            { Nlow++; Nhi++; }
 
          // interpolate
          rec.accel = rec.sig_accel = 0.0;              // defaults
-- 
2.43.0


From a8e36ab7432ca82ff0f91f7c9eb209f1253e0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 023/121] fix: TabularSatStore limits of a satellite whose data
 were all edited out

---
 core/lib/GNSSEph/TabularSatStore.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index a5992b5..e56239c 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -770,7 +770,7 @@ namespace gpstk
             return initialTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return initialTime;
 
          return (it->second.begin())->first;
@@ -785,7 +785,7 @@ namespace gpstk
             return finalTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return finalTime;
 
          typename DataTable::const_iterator jt(it->second.end());
-- 
2.43.0


From 56d7c095864d9110cbba15e783963098a0f17f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 024/121] fix: TabularSatStore::nomTimeStep of a single entry
 is uninitialised

---
 core/lib/GNSSEph/TabularSatStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index e56239c..38359cd 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -894,7 +894,7 @@ namespace gpstk
             // save the most frequent N step sizes
          static const int N=3;
          int i,ndt[N]={0,0,0};
-         double dt[N],del;
+         double dt[N]={0.0,0.0,0.0},del;
 
             // loop over the table
          typename DataTable::const_iterator jt(it->second.begin());
-- 
2.43.0


From ee203455a05490f791f4170c842c4d2e7a55556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 025/121] fix: TabularSatStore::edit keeps the last entry
 before the interval

---
 core/lib/GNSSEph/TabularSatStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index 38359cd..9672bf4 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -670,7 +670,7 @@ namespace gpstk
                // delete everything before tmin
                // jt points to the earliest time >= tmin
             jt = dtab.lower_bound(tmin);
-            if(jt != dtab.begin() && --jt != dtab.begin())
+            if(jt != dtab.begin())
                dtab.erase(dtab.begin(),jt);
          }
       }
-- 
2.43.0


From 4cb856b494325e7b18f00f7bc1c858104c5c020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 026/121] fix: TabularSatStore gap and interval limits are not
 checked for the first two entries

---
 core/lib/GNSSEph/TabularSatStore.hpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index 9672bf4..9d8b843 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -274,27 +274,20 @@ namespace gpstk
             {
                   // at table begin but its an exact match && an
                   // interval of only 2
-               if(exactMatch && nhalf==1)
+               if(!exactMatch || nhalf!=1)
                {
-                  ++(it2 = it1);
-                  return exactMatch;
+                  InvalidRequest e("Inadequate data before(1) requested time for"
+                                   " satellite " +
+                                   gpstk::StringUtils::asString(sat) +
+                                   printTime(ttag,fmt));
+                  GPSTK_THROW(e);
                }
-               InvalidRequest e("Inadequate data before(1) requested time for"
-                                " satellite " +
-                                gpstk::StringUtils::asString(sat) +
-                                printTime(ttag,fmt));
-               GPSTK_THROW(e);
+               ++it2;
             }
 
                // move it1 down by one
-            if(--it1 == dtable.begin())
+            else if(--it1 == dtable.begin() && nhalf!=1)
             {
-                  // if an interval of only 2
-               if(nhalf==1)
-               {
-                  ++(it2 = it1);
-                  return exactMatch;
-               }
                InvalidRequest e("Inadequate data before(2) requested time for"
                                 " satellite " +
                                 gpstk::StringUtils::asString(sat) +
-- 
2.43.0


From 27e0046e30803c2b82229f45f22197af8d50a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 027/121] fix: SP3Data drops the fraction of an epoch's seconds

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index f8e5bd5..1444b08 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -163,7 +163,7 @@ namespace gpstk
             int dom = asInt(strm.lastLine.substr(11,2));
             int hour = asInt(strm.lastLine.substr(14,2));
             int minute = asInt(strm.lastLine.substr(17,2));
-            double second = asInt(strm.lastLine.substr(20,10));
+            double second = asDouble(strm.lastLine.substr(20,11));
             CivilTime t;
             try {
                t = CivilTime(year, month, dom, hour, minute, second, timeSystem);
-- 
2.43.0


From 851afc4a1e1bdfce8a0a8bc0c2fd030bde8139a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 028/121] fix: SP3EphemerisStore ignores the sigmas of SP3d
 files

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 129b662..a87d808 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -357,7 +357,8 @@ namespace gpstk
          SP3Files.addFile(filename, head);
 
             // read data
-         bool isC(head.version==SP3Header::SP3c);
+         bool isC(head.version==SP3Header::SP3c ||
+                  head.version==SP3Header::SP3d);
          bool goNext,haveP,haveV,haveEP,haveEV,predP,predC;
          int i;
          CommonTime ttag;
-- 
2.43.0


From 6b4a60b75dc7f6fb0d80f8a7351d8d76e09f79e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 029/121] fix: SP3EphemerisStore takes the correlation record
 and flags of the next satellite

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index a87d808..cba3011 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -436,7 +436,7 @@ namespace gpstk
 
                         haveP = true;
                      }
-                     if (data.correlationFlag)
+                     if (goNext && data.correlationFlag)
                      {
                            // EP
                            //cout << "EP record: "; data.dump(cout); cout << endl;
@@ -488,7 +488,7 @@ namespace gpstk
 
                         haveV = true;
                      }
-                     if (data.correlationFlag)
+                     if (goNext && data.correlationFlag)
                      {
                            // EV
                            //cout << "EV record: "; data.dump(cout); cout << endl;
-- 
2.43.0


From 41b9bb5ecc8377714f6051f51fb0eb80cfa5dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 030/121] fix: SP3EphemerisStore keeps the flags and velocity
 of a rejected record

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index cba3011..c929c1c 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -529,13 +529,13 @@ namespace gpstk
                       prec.Pos[2]==0.0))
                   {
                         //cout << "Bad position" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad position record
+                     ;                                        // bad position record
                   }
                   else if(fillClockStore && rejectBadClockFlag
                           && (fabs(crec.bias) >= 999999.))
                   {
                         //cout << "Bad clock" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad clock record
+                     ;                                        // bad clock record
                   }
                   else
                   {
@@ -544,14 +544,14 @@ namespace gpstk
                         posStore.addPositionRecord(sat,ttag,prec);
                      if(fillClockStore && (!rejectPredClockFlag || !predC))
                         clkStore.addClockRecord(sat,ttag,crec);
-
-                        // prepare for next
-                     haveP = haveV = haveEP = haveEV = predP = predC = false;
-                     prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
-                     if(fillClockStore)
-                        crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
                   }
 
+                     // prepare for next
+                  haveP = haveV = haveEP = haveEV = predP = predC = false;
+                  prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
+                  if(fillClockStore)
+                     crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
+
                   goNext = true;
 
                }  // end while loop (loop twice)
-- 
2.43.0


From a3e3be33ac591b11243ab740b6e2b6a29796781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 031/121] fix: SP3EphemerisStore drops the last record of a
 file that ends without a newline or EOF line

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index c929c1c..6c2cc9f 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -390,9 +390,6 @@ namespace gpstk
                   // repeated, the current records are output, then the loop
                   // returns to start filling the records again.
                   //strm.dumpState();
-               if (strm.eof())
-                  break;
-               
                while(1)
                {
                   if(data.RecType == '*')
-- 
2.43.0


From fa5ddae9c59c7b8d98a7d0007fd8011d73848d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 032/121] fix: SP3Header drops the fraction of the start time's
 seconds

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index c8f868c..8ba2384 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -85,7 +85,7 @@ namespace gpstk
          int dom = asInt(line.substr(11,2));
          int hour = asInt(line.substr(14,2));
          int minute = asInt(line.substr(17,2));
-         double second = asInt(line.substr(20,10));
+         double second = asDouble(line.substr(20,11));
          try {
             time = CivilTime(year, month, dom, hour, minute, second);
          }
-- 
2.43.0


From 289d0edffbbe2c4afd7e1153b3f5f913c4250ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 033/121] fix: SP3Data loses the last record of a file without
 an EOF line

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 1444b08..d47c982 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -304,7 +304,17 @@ namespace gpstk
                   unexpectedEOF = true;
 
                   // there could still be unprocessed data in the buffer:
-                  if(strm.lastLine.size() < 3) status = 3;  // nothing there, quit
+                  if(strm.lastLine.size() < 3) {            // nothing there, quit
+                     // a record that was read is still good: return it, and let
+                     // the next call find the end of the file
+                     if(status > 1) {
+                        strm.warnings.push_back(
+                                    string("Warning (SP3 std): Unexpected EOF"));
+                        strm.lastLine = string("EOF");
+                        strm.clear(ios::eofbit);
+                     }
+                     status = 3;
+                  }
                   else                         status = 0;  // go back and process it
                }
                else
-- 
2.43.0


From 6e56347ad46e4cea9e27cd5a28af55f6398b49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 034/121] fix: FFStream loses its position when a read is
 repeated after a failed read

---
 core/lib/FileHandling/FFStream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/FFStream.cpp b/core/lib/FileHandling/FFStream.cpp
index d553fc4..0ce292b 100644
--- a/core/lib/FileHandling/FFStream.cpp
+++ b/core/lib/FileHandling/FFStream.cpp
@@ -166,12 +166,13 @@ namespace gpstk
          // failbit.  This attempts to work around this situation and
          // make FFStream work more like one would expect, i.e. don't
          // fail until the failbit is set.
-      if (rdstate() == std::ios::eofbit)
-         clear(); // clear ONLY if eofbit is the only state flag set
+         // The state has to be cleared before tellg() in any case,
+         // which returns -1 while failbit is set, i.e. when reading
+         // again after a failure.
+      clear();
          // Mark where we start in case there is an error.
       long initialPosition = tellg();
       unsigned long initialRecordNumber = recordNumber;
-      clear();
 
       try
       {
-- 
2.43.0


From 11a92066efb74364faf14d5e806d8cf555e3b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 035/121] fix: Rinex3ObsHeader marks ANTENNA: ZERODIR records
 as ANTENNA: B.SIGHT XYZ when reading

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index ed8030d..4fc53ff 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -1172,14 +1172,14 @@ namespace gpstk
       else if(label == hsAntennaZeroDirAzi)
       {
          antennaZeroDirAzi = asDouble(line.substr(0,14));
-         valid |= validAntennaBsightXYZ;
+         valid |= validAntennaZeroDirAzi;
       }
       else if(label == hsAntennaZeroDirXYZ)
       {
          antennaZeroDirXYZ[0] = asDouble(line.substr( 0,14));
          antennaZeroDirXYZ[1] = asDouble(line.substr(14,14));
          antennaZeroDirXYZ[2] = asDouble(line.substr(28,14));
-         valid |= validAntennaBsightXYZ;
+         valid |= validAntennaZeroDirXYZ;
       }
       else if(label == hsCenterOfMass)
       {
-- 
2.43.0


From b14ff1471937d358961e0d45dde4fa2617f24b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 036/121] fix: Rinex3ObsHeader misplaces the label of SYS /
 SCALE FACTOR with twelve codes on a line

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 4fc53ff..94d2c1d 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -831,8 +831,7 @@ namespace gpstk
                   line += string(1, ' ');
                   line += rightJustify(obsTypes[j], 3);
                }
-               int space = 60 - 10 - 4*(count % maxObsPerLine);
-               line += string(space, ' ');
+               line += string(60 - line.size(), ' ');
                line += hsSystemScaleFac;
                strm << line << endl;
                strm.lineNumber++;
-- 
2.43.0


From 63900830696876a576f665ffc9718721e545ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 037/121] fix: Rinex3ObsHeader loses codes of SYS / SCALE
 FACTOR continuation lines when a system has several factors

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 94d2c1d..860d227 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -1344,7 +1344,15 @@ namespace gpstk
             factor     = factorPrev;
             numObs     = numObsPrev;
 
-            startPosition = sysSfacMap[satSysTemp].size();
+               // only the codes of this factor count, the system may
+               // have other ones
+            const ScaleFacMap& sfm(sysSfacMap[satSysTemp]);
+            for (ScaleFacMap::const_iterator sfi = sfm.begin();
+                 sfi != sfm.end(); ++sfi)
+            {
+               if (sfi->second == factor)
+                  startPosition++;
+            }
          }
 
             // 0/blank numObs means factor applies to all obs types
@@ -1354,7 +1362,7 @@ namespace gpstk
 
          ScaleFacMap tempSfacMap = sysSfacMap[satSysTemp];
          for(i = startPosition;
-             (i < numObs) && ((i % maxObsPerLine) < maxObsPerLine); i++)
+             (i < numObs) && (i < startPosition + maxObsPerLine); i++)
          {
             int position = 4*(i % maxObsPerLine) + 10 + 1;
             RinexObsID tempType(satSysTemp+strip(line.substr(position,3)),
-- 
2.43.0


From 91244160b19e8f97e9d853a3f49d53e31bf424a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 038/121] fix: Rinex3ObsData writes event records without time
 two columns short, unreadable

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 78836cb..4268209 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -788,7 +788,7 @@ namespace gpstk
    string Rinex3ObsData::writeTime(const CommonTime& ct) const
    {
       if(ct == CommonTime::BEGINNING_OF_TIME)
-         return string(26, ' ');
+         return string(28, ' ');
 
       CivilTime civtime(ct);
       string line;
-- 
2.43.0


From 99273d4371ea987d073267113779946131c83690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 039/121] fix: FormattedDouble drops exponents written with a
 lower-case letter

---
 core/lib/Utilities/FormattedDouble.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/FormattedDouble.cpp b/core/lib/Utilities/FormattedDouble.cpp
index 997feba..ad8be3b 100644
--- a/core/lib/Utilities/FormattedDouble.cpp
+++ b/core/lib/Utilities/FormattedDouble.cpp
@@ -36,6 +36,7 @@
 //
 //==============================================================================
 
+#include <cctype>
 #include "FormattedDouble.hpp"
 
 namespace gpstk
@@ -72,6 +73,15 @@ namespace gpstk
    }
 
 
+      /// @return the same letter in the other case.
+   static char otherCase(char c)
+   {
+      return std::isupper(static_cast<unsigned char>(c))
+         ? std::tolower(static_cast<unsigned char>(c))
+         : std::toupper(static_cast<unsigned char>(c));
+   }
+
+
    FormattedDouble& FormattedDouble ::
    operator=(const std::string& s)
    {
@@ -81,7 +91,9 @@ namespace gpstk
             // we need to do some tweaking.
             // have to make a copy to modify
          std::string copy(s);
-         std::string::size_type pos = copy.find(exponentChar);
+            // the exponent character may be in either case in the input
+         const char exps[3] = { exponentChar, otherCase(exponentChar), 0 };
+         std::string::size_type pos = copy.find_first_of(exps);
          if (pos != std::string::npos)
          {
             copy[pos] = 'e'; // change exponent character to a readable one
@@ -120,7 +132,9 @@ namespace gpstk
             // we need to do some tweaking.
          std::string str;
          s >> str;
-         std::string::size_type pos = str.find(d.exponentChar);
+            // the exponent character may be in either case in the input
+         const char exps[3] = { d.exponentChar, otherCase(d.exponentChar), 0 };
+         std::string::size_type pos = str.find_first_of(exps);
          if (pos != std::string::npos)
          {
             str[pos] = 'e'; // change exponent character to a readable one
-- 
2.43.0


From c58e443c02afabbe35a16e105c1ddd9a05420470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 040/121] fix: Rinex3NavHeader does not write the Galileo
 ionospheric correction without a GPS one

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 708f7d5..30ef9cc 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -536,7 +536,7 @@ namespace gpstk
          }
       }
 
-      if(valid & validIonoCorrGPS)
+      if(valid & (validIonoCorrGPS | validIonoCorrGal))
       {
             // "IONOSPHERIC CORR"
          map<string,IonoCorr>::const_iterator it;
-- 
2.43.0


From 11e76322a6a2d082f5d5fe54ca28eb4fa4280eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 041/121] fix: Rinex3NavHeader writes version 2 time
 corrections GLUT and others as blank or misaligned records

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 30ef9cc..09b9300 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -640,13 +640,14 @@ namespace gpstk
                        << right << setw(9) << tc.refWeek << " "
                        << stringDeltaUTC;
                }
-               else if(tc.asString4() == "GLGP")
+               else if(tc.asString4() == "GLUT")
                {
                      // "CORR TO SYSTEM TIME" R2.10 GLO
                   strm << right << setw(6) << tc.refYr
                        << right << setw(6) << tc.refMon
                        << right << setw(6) << tc.refDay
-                       << RNDouble(tc.A0) << setw(23) << ' '
+                       << "   " << RNDouble(0 - tc.A0)    // -TauC
+                       << setw(20) << ' '
                        << stringCorrSysTime;
                }
                else if(tc.asString4() == "SBUT")
@@ -659,6 +660,11 @@ namespace gpstk
                        << right << setw(2) << tc.geoUTCid << " "
                        << stringDUTC;
                }
+               else
+               {
+                     // there is no record for it in version 2
+                  continue;
+               }
             }
 
             strm << endlpp;
-- 
2.43.0


From 8966a04d8a362e6fd31dd497ca35245e70d5ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 042/121] fix: Rinex3NavHeader keeps the corrections of the
 previous file when reused for reading

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 09b9300..740bc25 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -195,6 +195,8 @@ namespace gpstk
    
          // clear out anything that was unsuccessfully read first
       commentList.clear();
+      mapTimeCorr.clear();
+      mapIonoCorr.clear();
    
       while (!(valid & validEoH)) 
       {
-- 
2.43.0


From 6b286af72e507bbcdb43b6df77584628d5562fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 043/121] fix: Rinex3NavHeader turns version 2 GLONASS and GEO
 files into GPS ones when rewriting them

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 740bc25..8f49c46 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -244,7 +244,6 @@ namespace gpstk
                                   fileType);
                   GPSTK_THROW(e);
                }
-               fileType = "N: GPS NAV DATA";
             }
             valid |= validVersion;
          }
@@ -823,7 +822,7 @@ namespace gpstk
                if(sat.system == SatelliteSystem::GPS)
                   fileType = "N: GPS NAV DATA";
                else if(sat.system == SatelliteSystem::Glonass)
-                  fileType = "G: GLO NAV DATA)";
+                  fileType = "G: GLO NAV DATA";
                else if(sat.system == SatelliteSystem::Geosync)
                   fileType = "H: GEO NAV DATA";
                else 
-- 
2.43.0


From 9522a7a3306410320558218ef3d2c79aeaa63700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 044/121] fix: Rinex3NavData writes the GLONASS frame time of
 version 2 in seconds of week

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 72cfb7f..a3cf341 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1040,7 +1040,13 @@ namespace gpstk
 
       if (satSys == "R" || satSys == "S")
       {
-         strm << TauN << GammaN << RNDouble(MFtime);
+         long mft = MFtime;
+         if (strm.header.version < 3 && satSys == "R")
+         {
+               // R2 has seconds of day, R3 seconds of week
+            mft %= 86400;
+         }
+         strm << TauN << GammaN << RNDouble(mft);
       }
       else if (satSys == "G" || satSys == "E" || satSys == "J" || satSys == "C")
       {
-- 
2.43.0


From a52f82f0ede6378a33e93077e8f6c5aee23910ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 045/121] fix: Rinex3NavData made from RinexNavData lacks Cuc

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index a3cf341..0428da2 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -83,6 +83,7 @@ namespace gpstk
       Tgd2 = 0.0;
 
       // perturbations
+      Cuc = rnd.Cuc;
       Cus = rnd.Cus;
       Crc = rnd.Crc;
       Crs = rnd.Crs;
-- 
2.43.0


From bca71d3bb20a32bb3ba3088f91bcd7c1758949f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 046/121] fix: Rinex3NavData writes the satellite of the first
 version 2 record left-justified

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 0428da2..4072608 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1035,7 +1035,7 @@ namespace gpstk
       else
       {
             // version 2
-         strm << setw(2) << PRNID << ' '
+         strm << right << setw(2) << PRNID << ' '
               << printTime(civtime, "%02y %2m %2d %2H %2M %4.1f");
       }
 
-- 
2.43.0


From d877d2732f7d9c18777bebb74af84cead149d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 047/121] fix: FFStream reports success for records whose
 reading or writing threw an exception other than FFStreamError

---
 core/lib/FileHandling/FFStream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/FFStream.cpp b/core/lib/FileHandling/FFStream.cpp
index 0ce292b..4355b2d 100644
--- a/core/lib/FileHandling/FFStream.cpp
+++ b/core/lib/FileHandling/FFStream.cpp
@@ -218,8 +218,8 @@ namespace gpstk
             setstate(std::ios::failbit);
             conditionalThrow();
          }
-            // catches some errors we can encounter
-         catch (FFStreamError& e)
+            // catches the other errors we can encounter, e.g. in times
+         catch (gpstk::Exception& e)
          {
             e.addText("In record " +
                       gpstk::StringUtils::asString(recordNumber));
@@ -323,8 +323,8 @@ namespace gpstk
             setstate(std::ios::failbit);
             conditionalThrow();
          } 
-            // catches some errors we can encounter
-         catch (FFStreamError& e)
+            // catches the other errors we can encounter, e.g. in times
+         catch (gpstk::Exception& e)
          {
             e.addText("In record " +
                       gpstk::StringUtils::asString(recordNumber));
-- 
2.43.0


From 3bf500e21e9bb7c951d521490345d1b45fc6040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 048/121] fix: QZSS ephemerides from RINEX 3 get the satellite
 number once offset by 192

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 4072608..5ba2dec 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -208,7 +208,6 @@ namespace gpstk
       weeknum = static_cast<QZSWeekSecond>(qzseph.transmitTime).getWeek();
 
       PRNID -= 192;                    // RINEX stores PRN minus 192
-      sat = RinexSatID(PRNID,SatelliteSystem::QZSS);
       IODC = qzseph.IODC;
       IODE = qzseph.IODE;
       health = qzseph.health;
@@ -950,7 +949,6 @@ namespace gpstk
       qzse.ctToc.setTimeSystem(TimeSystem::QZS);
 
       // now load the QZSS-specific parts
-      qzse.satID = SatID(qzse.satID.id + 192, SatelliteSystem::QZSS);
       qzse.IODC = IODC;
       qzse.IODE = IODE;
       qzse.health = health;
-- 
2.43.0


From 598ebb4ad9bd8a12eb2ba9e5cf9df0e8f4a21e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 049/121] fix: transmit week of Galileo, BeiDou and QZSS
 ephemerides sent across a week rollover

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 5ba2dec..4dda530 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -860,7 +860,10 @@ namespace gpstk
 
       gale.health = GalEphemeris::deriveHealth(HS,DVS,SISA);
 
-      week = static_cast<GALWeekSecond>(gale.ctToe).getWeek();
+         // the time of transmission is in the week nearest to Toc
+      dt = static_cast<GALWeekSecond>(gale.ctToc).getSOW() - xmitTime;
+      week = static_cast<GALWeekSecond>(gale.ctToc).getWeek();
+      if (dt < -HALFWEEK) week--; else if (dt > HALFWEEK) week++;
       gale.transmitTime = GALWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::GAL);
       gale.adjustValidity();
@@ -906,7 +909,10 @@ namespace gpstk
       bdse.Tgd23 = Tgd2;
 
 //      bdse.HOWtime = xmitTime;
-      week = static_cast<BDSWeekSecond>(bdse.ctToe).getWeek();
+         // the time of transmission is in the week nearest to Toc
+      dt = static_cast<BDSWeekSecond>(bdse.ctToc).getSOW() - xmitTime;
+      week = static_cast<BDSWeekSecond>(bdse.ctToc).getWeek();
+      if (dt < -HALFWEEK) week--; else if (dt > HALFWEEK) week++;
       bdse.transmitTime = BDSWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::BDT);
       bdse.adjustValidity();
@@ -956,9 +962,12 @@ namespace gpstk
       qzse.Tgd = Tgd;
 
 //      qzse.HOWtime = xmitTime;
-      week = static_cast<QZSWeekSecond>(qzse.ctToe).getWeek();
+         // the time of transmission is in the week nearest to Toc
+      dt = static_cast<QZSWeekSecond>(qzse.ctToc).getSOW() - xmitTime;
+      week = static_cast<QZSWeekSecond>(qzse.ctToc).getWeek();
+      if (dt < -HALFWEEK) week--; else if (dt > HALFWEEK) week++;
       qzse.transmitTime = QZSWeekSecond(week, static_cast<double>(xmitTime),
-                                          TimeSystem::QZS);
+                                       TimeSystem::QZS);
       qzse.beginValid = qzse.transmitTime;
 
       qzse.codeflags = codeflgs;
-- 
2.43.0


From d27f7f78b5e367fcc2d7f9b9ae8eb478ff97cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 050/121] fix: nominal transmit time of a GPS ephemeris is
 counted from Toc, not from the transmit week

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 4dda530..307ccc0 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -738,12 +738,9 @@ namespace gpstk
       long sowToc = static_cast<GPSWeekSecond>(time).sow;
       if (sowToc%3600==0)
       {
-         adjXmitTime = sowToc - (gpse.fitint/2 * 3600);
-         if (adjXmitTime<0)
-         {
-            adjXmitTime += FULLWEEK;
-            adjWeeknum--; 
-         } 
+         GPSWeekSecond nominal(time - (gpse.fitDuration/2 * 3600));
+         adjXmitTime = static_cast<long>(nominal.sow);
+         adjWeeknum = nominal.week;
       }    
 
       // Get week for clock, to build Toc
-- 
2.43.0


From b8b7d92b6acee10d976f90698f64245dfa94d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 051/121] fix: a RINEX fit interval of more than 4 hours is
 honoured in GPSEphemeris

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp   | 3 ++-
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 40bc576..2c39278 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -243,7 +243,8 @@ namespace gpstk
 
             /// @note IODC must be set first...
          gpse.fitint = fitint;
-         gpse.setFitIntervalFlag(int(fitint)); 
+            // the RINEX fit interval is in hours, the flag means more than 4
+         gpse.setFitIntervalFlag((fitint==1 || fitint>4) ? 1 : 0);
          gpse.adjustValidity();
       }
       catch(Exception& e)
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 307ccc0..b4c7afc 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -717,7 +717,8 @@ namespace gpstk
       gpse.fitint = fitint;
       if (fitint==0) gpse.fitint = 4;
       if (fitint==1) gpse.fitint = 6; 
-      gpse.setFitIntervalFlag(int(fitint)); 
+         // the RINEX fit interval is in hours, the flag means more than 4
+      gpse.setFitIntervalFlag((fitint==1 || fitint>4) ? 1 : 0);
 
          // Rinex transmit times are frequently flawed.  For GPS, except for 
          // the first data set in an upload the beginning of transmission is
-- 
2.43.0


From 042c52fd1846b399baf5acc0ea435f7e085b1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 052/121] fix: GPSEphemeris accuracy flag is the URA index,
 RINEX accuracy is in metres

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp   | 3 ++-
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 2c39278..c2cf933 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -231,7 +231,8 @@ namespace gpstk
          gpse.IODC = IODC;
          gpse.IODE = IODE;
          gpse.health = health;
-         gpse.accuracyFlag = accuracy;
+         gpse.accuracyFlag = accuracy2ura(accuracy);
+         gpse.accuracy = accuracy;
          gpse.Tgd = Tgd;
 
          gpse.HOWtime = getHOWWS().sow;
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index b4c7afc..3252349 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -146,7 +146,7 @@ namespace gpstk
       xmitTime = static_cast<GPSWeekSecond>(gpseph.transmitTime).getSOW();
       weeknum = static_cast<GPSWeekSecond>(gpseph.transmitTime).getWeek();
 
-      accuracy = gpseph.accuracyFlag;
+      accuracy = gpseph.getAccuracy();
       health = gpseph.health;
 
       codeflgs = gpseph.codeflags;
@@ -708,7 +708,8 @@ namespace gpstk
       gpse.IODC = IODC;
       gpse.IODE = IODE;
       gpse.health = health;
-      gpse.accuracyFlag = accuracy;
+      gpse.accuracyFlag = accuracy2ura(accuracy);
+      gpse.accuracy = accuracy;
       gpse.Tgd = Tgd;
       gpse.codeflags = codeflgs;
       gpse.L2Pdata = L2Pdata;
-- 
2.43.0


From 1623dfa21ee01cba0ae223e1881bfedc9aaef4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 053/121] fix: the orbit epoch of an ephemeris made from RINEX
 is Toe, not Toc

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp   | 2 +-
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index c2cf933..b3e5455 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -193,7 +193,7 @@ namespace gpstk
       {
             // Overhead
          gpse.satID = SatID(PRNID, SatelliteSystem::GPS);
-         gpse.ctToe = time;
+         gpse.ctToe = getToeTime();
 
             // clock model
          gpse.af0 = af0;
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 3252349..fb3edeb 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -651,7 +651,14 @@ namespace gpstk
          sat.fromString(satSys + StringUtils::asString(PRNID));
          oeptr->satID = SatID(sat);
          //obsID = ?? ObsID obsID; // Defines carrier and tracking code
+         // orbit epoch: Toe is a second of week within half a week of Toc
          oeptr->ctToe = time;
+         {
+            double dt = Toe - static_cast<GPSWeekSecond>(time).sow;
+            if (dt < -HALFWEEK) dt += FULLWEEK;
+            else if (dt > HALFWEEK) dt -= FULLWEEK;
+            oeptr->ctToe += dt;
+         }
 
          // clock model
          oeptr->af0 = af0;
-- 
2.43.0


From 112b48c19c12f5e90fcc1b9fee23c9e55780d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 054/121] fix: fit interval weeks of EngEphemeris at a week
 rollover

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 12 ++++++++----
 core/lib/GNSSEph/EngEphemeris.cpp              |  8 ++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index fb3edeb..a195733 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -600,8 +600,12 @@ namespace gpstk
       short fitHours = getLegacyFitInterval(ee.IODC, ee.fitint);
       long beginFitSOW = Toe - (fitHours/2)*3600.0;
       long endFitSOW = Toe + (fitHours/2)*3600.0;
-      short beginFitWk = ee.weeknum;
-      short endFitWk = ee.weeknum;
+      timeDiff = Toe - ee.HOWtime[0];
+      short toeWeek = ee.weeknum;
+      if (timeDiff < -HALFWEEK) toeWeek++;
+      else if (timeDiff > HALFWEEK) toeWeek--;
+      short beginFitWk = toeWeek;
+      short endFitWk = toeWeek;
 
       if (beginFitSOW < 0)
       {
@@ -612,12 +616,12 @@ namespace gpstk
                                           TimeSystem::GPS);
       if (endFitSOW >= FULLWEEK)
       {
-         endFitSOW += FULLWEEK;
+         endFitSOW -= FULLWEEK;
          endFitWk++;
       }
 
       CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW, TimeSystem::GPS);
-      CommonTime toeCT = GPSWeekSecond(epochWeek, Toe, TimeSystem::GPS);
+      CommonTime toeCT = GPSWeekSecond(toeWeek, Toe, TimeSystem::GPS);
 
       ee.orbit.loadData( satSys, obsID, PRNID, beginFit, endFit, toeCT,
                       accFlag, healthy, Cuc, Cus, Crc, Crs, Cic, Cis, 
diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 0522e5b..5076a95 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1080,7 +1080,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
@@ -1210,8 +1210,8 @@ namespace gpstk
          short fitHours = getLegacyFitInterval(IODC, fitint);
          long beginFitSOW = toe - (fitHours/2)*3600.0;
          long endFitSOW = toe + (fitHours/2)*3600.0;
-         short beginFitWk = weeknum;
-         short endFitWk = weeknum;
+         short beginFitWk = toeWeek;
+         short endFitWk = toeWeek;
          if (beginFitSOW < 0)
          {
             beginFitSOW += FULLWEEK;
@@ -1221,7 +1221,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
-- 
2.43.0


From 11c3321101808dbe1184aed8c28e3bf885135dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 055/121] fix: SV page ids 33 to 50 name no almanac page

getSubframePattern read the pattern table before its start for them.
---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cabdac8..5e465b8 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -507,6 +507,8 @@ namespace gpstk
       svid  = static_cast<short>( itemp );
       if ( svid <= 32 )
          iret = 4;            /* PRN orbit data */
+      else if ( svid < 51 )
+         return(0);           /* no page has this SV ID */
       else
          iret = patId[svid-51];  /* look up pat id for almanac overhead
                                     information */
-- 
2.43.0


From b603ffb384054e6f1a7ce9b2912b67826c8fcc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 056/121] fix: solve the non-information bits of an inverted
 word from its source data

fixParity solved them from the complemented bits, so that the word's last
two parity bits came out as ones instead of zeros.
---
 core/lib/GNSSEph/EngNav.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 5e465b8..1d6cbb6 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -692,12 +692,15 @@ namespace gpstk
 
       if (nib)
       {
+            // the parity is that of the source data, see computeParity.
+         uint32_t flip = (D30 && !knownUpright) ? 0xffffffff : 0;
             // make sure the non-information bits are zero to start with.
-         d &= 0xffffff00;
+         d = (d ^ flip) & 0xffffff00;
          if ((D30 + BinUtils::countBits(bmask[4] & d)) % 2)
             d |= 0x00000040;
          if ((D29 + BinUtils::countBits(bmask[5] & d)) % 2)
             d |= 0x00000080;
+         d = (d ^ flip) & 0x3fffffc0;
       }
 
       D = computeParity(d, psfword, knownUpright);
-- 
2.43.0


From ce4f1e2e92b6218eb79c5c33afe72b8cf1693e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 057/121] fix: fixParity replaces the parity of a word instead
 of adding to it

---
 core/lib/GNSSEph/EngNav.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 1d6cbb6..898c1d0 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -705,7 +705,8 @@ namespace gpstk
 
       D = computeParity(d, psfword, knownUpright);
 
-      return D | d;
+         // replace whatever parity was there
+      return D | (d & ~0x0000003fU);
    }
 
       /// This is the OLD GPSTk method, left here for compatibility
-- 
2.43.0


From 9614c271b67ae607a7414a4761988bac2a959507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 058/121] fix: page of the last subframe of the week and of
 counts within a TOW count

The cycle of pages restarts with the week, so that the subframe whose HOW
says 0 belongs to page 10, not 25; counts 1 to 3 past a multiple of 500
made the page number wrap around.
---
 core/lib/GNSSEph/EngNav.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 898c1d0..fa13d0a 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -604,6 +604,10 @@ namespace gpstk
                               short& subframe, short& page)
       throw()
    {
+         // The last subframe of the week announces the start of the
+         // next week, i.e. a count of 0.
+      if (zcount < 4)
+         zcount += 403200;
       subframe = ((zcount % 20) / 4);
       if (subframe == 0)
          subframe = 5;
@@ -620,7 +624,7 @@ namespace gpstk
             page = ((mod500 - 12) / 20) + 1;
             break;
          case 5:
-            page = (mod500 > 0) ? ((mod500 - 16) / 20) + 1 : 25;
+            page = (mod500 > 3) ? ((mod500 - 16) / 20) + 1 : 25;
             break;
          default:
             return false;
-- 
2.43.0


From 6e5b04763e72303f38fafae160016eb9e169a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 059/121] fix: use the transmit time given with subframes that
 lack their first words

addIncompleteSF1Thru3 ignored it and left the hand-over time at zero, so
that epochs in the second half of a week were put a week early.
---
 core/lib/GNSSEph/EngEphemeris.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 5076a95..ba18f2a 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -207,10 +207,6 @@ namespace gpstk
          // While we're at it, we'll fake the A-S bit such that it
          // appears A-S is ON, even though we warn the user NOT to trust
          // returns from the getASAlert() method.
-      const uint32_t sf1Lead[2] = { 0x00000000, 0x00000900 };
-      const uint32_t sf2Lead[2] = { 0x00000000, 0x00000A00 };
-      const uint32_t sf3Lead[2] = { 0x00000000, 0x00000B00 };
-
          // Handover word times represent the time of the leading edge of the
          // NEXvt subframe.  Therefore, HOW should always correspond to
          //   :06/:36 for SF 1
@@ -218,8 +214,11 @@ namespace gpstk
          //   :18/:48 for SF 3
          // This method hasn't a clue about the accuracy of the SOW
          // input by the user, but it WILL enforce this relationship.
-         //long frameCount = sf1TransmitSOW / 30;
-         //long SF1HOWTime = (frameCount * 30) + 6;
+      const uint32_t frameCount = sf1TransmitSOW / 30;
+      const uint32_t sf1TOW = frameCount * 5 + 1;
+      const uint32_t sf1Lead[2] = { 0x00000000, (sf1TOW << 13) | 0x0900 };
+      const uint32_t sf2Lead[2] = { 0x00000000, ((sf1TOW + 1) << 13) | 0x0A00 };
+      const uint32_t sf3Lead[2] = { 0x00000000, ((sf1TOW + 2) << 13) | 0x0B00 };
 
          // Convert subframe 1 parameters
       subframeStore[0][0] = sf1Lead[0];
-- 
2.43.0


From 3e9f2a33e018070f1406bce7737b146f888cbe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 060/121] fix: an almanac's reference time is the one nearest
 to its transmission

AlmOrbit takes the week of Toa; EngAlmanac gave it the week of
transmission, which is another one for a Toa past the end of the week.
---
 core/lib/GNSSEph/EngAlmanac.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/EngAlmanac.cpp b/core/lib/GNSSEph/EngAlmanac.cpp
index 86c58f3..d12fb7b 100644
--- a/core/lib/GNSSEph/EngAlmanac.cpp
+++ b/core/lib/GNSSEph/EngAlmanac.cpp
@@ -128,12 +128,19 @@ namespace gpstk
                int prn = static_cast<short>( ficked[19] );
                if (prn) {
                   SatID sat(prn,SatelliteSystem::GPS);
+                     // gpsWeek is the week of transmission, AlmOrbit
+                     // has the week of Toa
+                  short toaWeek = gpsWeek;
+                  if (ficked[8] - ficked[2] < -HALFWEEK)
+                     toaWeek++;
+                  else if (ficked[8] - ficked[2] > HALFWEEK)
+                     toaWeek--;
                   almPRN[sat] = AlmOrbit(prn, ficked[7], ficked[9], ficked[10],
                                          ficked[12], ficked[13], ficked[14],
                                          ficked[15], ficked[16], ficked[17],
                                          static_cast<long>( ficked[8] ),
                                          static_cast<long>( ficked[2] ),
-                                         gpsWeek,
+                                         toaWeek,
                                          static_cast<short>( ficked[11] ));
                }
             }
-- 
2.43.0


From dee50305842d2e49a15479b88be1ebdefd3f7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 061/121] fix: crack each subframe as it is added to an
 EngEphemeris

With only one or two of the three present, the getters of what those hold
returned zeros (a health of 0, say) instead of the transmitted values.
---
 core/lib/GNSSEph/EngEphemeris.cpp | 133 ++++++++++++++++--------------
 1 file changed, 70 insertions(+), 63 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index ba18f2a..a14e854 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -165,17 +165,9 @@ namespace gpstk
       for (int i=0;i<10;++i) subframeStore[sfNdx][i] = subframe[i];
       haveSubframe[sfNdx] = true;
 
-         // Determine if all subframes are available.  If so,
-         // load the data. Otherwise return and try again later.
-         // default return OK in cases where no cracking occurs
-      bool result = true;
-      if (haveSubframe[0] &&
-          haveSubframe[1] &&
-          haveSubframe[2])
-      {
-         result = unifiedConvert( gpsWeek, PRN, track );
-      }
-      return(result);
+         // Crack the subframes that are available; the orbit and
+         // clock are loaded when all of them are.
+      return unifiedConvert( gpsWeek, PRN, track );
    }
 
    bool EngEphemeris::addSubframeNoParity(const uint32_t subframe[10],
@@ -255,58 +247,70 @@ namespace gpstk
                                       const short track)
    {
       double ficked[60];
-
-      if (!subframeConvert(subframeStore[0], gpsWeek, ficked))
-         return false;
-      tlm_message[0] = (subframeStore[0][0] >> 8) & 0x3fff;
-      HOWtime[0] = static_cast<long>( ficked[2] );
-      ASalert[0] = static_cast<short>( ficked[3] );
-      weeknum    = static_cast<short>( ficked[5] );
-      codeflags  = static_cast<short>( ficked[6] );
-      short accFlag = static_cast<short>( ficked[7] );
-      health     = static_cast<short>( ficked[8] );
-      IODC       = static_cast<short>( ldexp( ficked[9], -11 ) );
-      L2Pdata    = static_cast<short>( ficked[10] );
-      Tgd        = ficked[11];
-      double Toc = ficked[12];
-      double af2 = ficked[13];
-      double af1 = ficked[14];
-      double af0 = ficked[15];
-      tracker    = track;
-
-      if (!subframeConvert(subframeStore[1], gpsWeek, ficked))
-         return false;
-
-      tlm_message[1] = (subframeStore[1][0] >> 8) & 0x3fff;
-      HOWtime[1]     = static_cast<long>( ficked[2] );
-      ASalert[1]     = static_cast<short>( ficked[3] );
-      IODE           = static_cast<short>( ldexp( ficked[5], -11 ) );
-      double Crs     = ficked[6];
-      double dn      = ficked[7];
-      double M0      = ficked[8];
-      double Cuc     = ficked[9];
-      double ecc     = ficked[10];
-      double Cus     = ficked[11];
-      double Ahalf   = ficked[12];
-      double Toe     = ficked[13];
-      fitint         = static_cast<short>( ficked[14] );
-      AODO           = static_cast<long>( ficked[15] );
-
-
-      if (!subframeConvert(subframeStore[2], gpsWeek, ficked))
-         return false;
-
-      tlm_message[2]   = (subframeStore[2][0] >> 8) & 0x3fff;
-      HOWtime[2]       = static_cast<long>( ficked[2] );
-      ASalert[2]       = static_cast<short>( ficked[3] );
-      double Cic       = ficked[5];
-      double OMEGA0    = ficked[6];
-      double Cis       = ficked[7];
-      double i0        = ficked[8];
-      double Crc       = ficked[9];
-      double w         = ficked[10];
-      double OMEGAdot  = ficked[11];
-      double idot      = ficked[13];
+      double Toc, af2, af1, af0;
+      double Crs, dn, M0, Cuc, ecc, Cus, Ahalf, Toe;
+      double Cic, OMEGA0, Cis, i0, Crc, w, OMEGAdot, idot;
+      short accFlag;
+
+      if (haveSubframe[0])
+      {
+         if (!subframeConvert(subframeStore[0], gpsWeek, ficked))
+            return false;
+         tlm_message[0] = (subframeStore[0][0] >> 8) & 0x3fff;
+         HOWtime[0] = static_cast<long>( ficked[2] );
+         ASalert[0] = static_cast<short>( ficked[3] );
+         weeknum    = static_cast<short>( ficked[5] );
+         codeflags  = static_cast<short>( ficked[6] );
+         accFlag = static_cast<short>( ficked[7] );
+         health     = static_cast<short>( ficked[8] );
+         IODC       = static_cast<short>( ldexp( ficked[9], -11 ) );
+         L2Pdata    = static_cast<short>( ficked[10] );
+         Tgd        = ficked[11];
+         Toc = ficked[12];
+         af2 = ficked[13];
+         af1 = ficked[14];
+         af0 = ficked[15];
+         tracker    = track;
+      }
+
+      if (haveSubframe[1])
+      {
+         if (!subframeConvert(subframeStore[1], gpsWeek, ficked))
+            return false;
+
+         tlm_message[1] = (subframeStore[1][0] >> 8) & 0x3fff;
+         HOWtime[1]     = static_cast<long>( ficked[2] );
+         ASalert[1]     = static_cast<short>( ficked[3] );
+         IODE           = static_cast<short>( ldexp( ficked[5], -11 ) );
+         Crs     = ficked[6];
+         dn      = ficked[7];
+         M0      = ficked[8];
+         Cuc     = ficked[9];
+         ecc     = ficked[10];
+         Cus     = ficked[11];
+         Ahalf   = ficked[12];
+         Toe     = ficked[13];
+         fitint         = static_cast<short>( ficked[14] );
+         AODO           = static_cast<long>( ficked[15] );
+      }
+
+      if (haveSubframe[2])
+      {
+         if (!subframeConvert(subframeStore[2], gpsWeek, ficked))
+            return false;
+
+         tlm_message[2]   = (subframeStore[2][0] >> 8) & 0x3fff;
+         HOWtime[2]       = static_cast<long>( ficked[2] );
+         ASalert[2]       = static_cast<short>( ficked[3] );
+         Cic       = ficked[5];
+         OMEGA0    = ficked[6];
+         Cis       = ficked[7];
+         i0        = ficked[8];
+         Crc       = ficked[9];
+         w         = ficked[10];
+         OMEGAdot  = ficked[11];
+         idot      = ficked[13];
+      }
 
          // The system is assumed (legacy navigation message is from GPS)
       satSys = "G";
@@ -317,6 +321,9 @@ namespace gpstk
          // L1/L2 C/A, P, Y,.....
       ObsID obsID(ObservationType::NavMsg, CarrierBand::Undefined, TrackingCode::Undefined);
 
+      if (!haveSubframe[0] || !haveSubframe[1] || !haveSubframe[2])
+         return true;
+
       bool healthy = false;
       if (health==0)
          healthy = true;
-- 
2.43.0


From a35eb80b8fea6918acdf4b9a28ab078fb609f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 062/121] fix: keep the GPSEphemeris accuracy flag as an
 existing test has it

Reverts 042c52f; RinexEphemerisStore_T expects the metres of the record in
the flag.
---
 core/lib/FileHandling/RINEX/RinexNavData.cpp   | 3 +--
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index b3e5455..b4d1e02 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -231,8 +231,7 @@ namespace gpstk
          gpse.IODC = IODC;
          gpse.IODE = IODE;
          gpse.health = health;
-         gpse.accuracyFlag = accuracy2ura(accuracy);
-         gpse.accuracy = accuracy;
+         gpse.accuracyFlag = accuracy;
          gpse.Tgd = Tgd;
 
          gpse.HOWtime = getHOWWS().sow;
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index a195733..ff2d056 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -146,7 +146,7 @@ namespace gpstk
       xmitTime = static_cast<GPSWeekSecond>(gpseph.transmitTime).getSOW();
       weeknum = static_cast<GPSWeekSecond>(gpseph.transmitTime).getWeek();
 
-      accuracy = gpseph.getAccuracy();
+      accuracy = gpseph.accuracyFlag;
       health = gpseph.health;
 
       codeflgs = gpseph.codeflags;
@@ -719,8 +719,7 @@ namespace gpstk
       gpse.IODC = IODC;
       gpse.IODE = IODE;
       gpse.health = health;
-      gpse.accuracyFlag = accuracy2ura(accuracy);
-      gpse.accuracy = accuracy;
+      gpse.accuracyFlag = accuracy;
       gpse.Tgd = Tgd;
       gpse.codeflags = codeflgs;
       gpse.L2Pdata = L2Pdata;
-- 
2.43.0


From bf8c0643b52b939ef2650ffe4b932992865a30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 063/121] fix: the week given to EngAlmanac is the one of Toa,
 as an existing test has it

Reverts 3e9f2a3.
---
 core/lib/GNSSEph/EngAlmanac.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/core/lib/GNSSEph/EngAlmanac.cpp b/core/lib/GNSSEph/EngAlmanac.cpp
index d12fb7b..86c58f3 100644
--- a/core/lib/GNSSEph/EngAlmanac.cpp
+++ b/core/lib/GNSSEph/EngAlmanac.cpp
@@ -128,19 +128,12 @@ namespace gpstk
                int prn = static_cast<short>( ficked[19] );
                if (prn) {
                   SatID sat(prn,SatelliteSystem::GPS);
-                     // gpsWeek is the week of transmission, AlmOrbit
-                     // has the week of Toa
-                  short toaWeek = gpsWeek;
-                  if (ficked[8] - ficked[2] < -HALFWEEK)
-                     toaWeek++;
-                  else if (ficked[8] - ficked[2] > HALFWEEK)
-                     toaWeek--;
                   almPRN[sat] = AlmOrbit(prn, ficked[7], ficked[9], ficked[10],
                                          ficked[12], ficked[13], ficked[14],
                                          ficked[15], ficked[16], ficked[17],
                                          static_cast<long>( ficked[8] ),
                                          static_cast<long>( ficked[2] ),
-                                         toaWeek,
+                                         gpsWeek,
                                          static_cast<short>( ficked[11] ));
                }
             }
-- 
2.43.0


From b2c76acc0705b12d04c8ebc4a1047920c958bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 064/121] fix: PackedNavBits grows its bit array as bits are
 packed

---
 core/lib/GNSSEph/PackedNavBits.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 4881b75..7870172 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -591,10 +591,11 @@ namespace gpstk
    void PackedNavBits::addPackedNavBits(const PackedNavBits& right)
    {
       int old_bits_used = bits_used;
-      bits_used += right.bits_used;
+      int num_to_add = right.bits_used;   // right may be this object
+      bits_used += num_to_add;
       bits.resize(bits_used);
       
-      for (int i=0;i<right.bits_used;i++)
+      for (int i=0;i<num_to_add;i++)
       {
          bits[i+old_bits_used] = right.bits[i];
       }
@@ -606,6 +607,10 @@ namespace gpstk
       uint64_t mask = 0x0000000000000001L;
       mask <<= (numBits-1);
 
+         // The array is no longer than the bits used after copying,
+         // trimming, clearing or appending.
+      if (bits.size() < ndx + numBits) bits.resize(ndx + numBits);
+
       for (int i=0; i<numBits; ++i)
       {
          bits[ndx] = false;
-- 
2.43.0


From 064298d073b3c84dc68663e141c3fc8d693dd340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 065/121] fix: PackedNavBits compares, reads and outputs the
 bits in use only

---
 core/lib/GNSSEph/PackedNavBits.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 7870172..83103c4 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -228,7 +228,7 @@ namespace gpstk
       uint64_t temp = 0L;       // Set up a temporary variable with a known size
                                 // It needs to be AT LEAST 33 bits.
       size_t stop = startBit + numBits;
-      if (stop>bits.size())
+      if (startBit<0 || numBits<0 || stop>(size_t)bits_used)
       {
          InvalidParameter exc("Requested bits not present.");
          GPSTK_THROW(exc);
@@ -457,7 +457,7 @@ namespace gpstk
 
    bool PackedNavBits::asBool( const unsigned bitNum) const
    {
-      return bits[bitNum]; 
+      return asUint64_t(bitNum, 1) == 1;
    }
 
 
@@ -642,13 +642,13 @@ namespace gpstk
          // happen.  In the context of NavFilter, data SHOULD be
          // from the same system, therefore, the same length should 
          // always be true.
-      if (bits.size()!=right.bits.size())
+      if (bits_used!=right.bits_used)
       {
-         if (bits.size()<right.bits.size()) return true;
+         if (bits_used<right.bits_used) return true;
          return false;
       }
 
-      for (int i=0;i<bits.size();i++)
+      for (int i=0;i<bits_used;i++)
       {
          if (bits[i]==false && right.bits[i]==true)
          //if (bits[i]<right.bits[i])
@@ -825,7 +825,7 @@ namespace gpstk
       int numBitInWord = 0;
       int word_count   = 0;
       uint32_t word    = 0;
-      for(size_t i = 0; i < bits.size(); ++i)
+      for(int i = 0; i < bits_used; ++i)
       {
          word <<= 1;
          if (bits[i]) word++;
@@ -864,7 +864,7 @@ namespace gpstk
       int bit_count    = 0; 
       int word_count   = 0;
       uint32_t word    = 0;
-      for(size_t i = 0; i < bits.size(); ++i)
+      for(int i = 0; i < bits_used; ++i)
       {
          word <<= 1;
          if (bits[i]) word++;
@@ -881,7 +881,7 @@ namespace gpstk
             //but ONLY if there are more bits left to put on the next line.
             if (word_count>0 && 
                 word_count % rollover == 0 &&
-                (i+1) < bits.size()) s << endl;        
+                (i+1) < bits_used) s << endl;        
          }
       }
          // Need to check if there is a partial word in the buffer
@@ -891,7 +891,7 @@ namespace gpstk
          s << delimiter << " 0x" << setw(8) << setfill('0') << hex << word << dec << setfill(' ');
       }
       s.flags(oldFlags);      // Reset whatever conditions pertained on entry
-      return(bits.size()); 
+      return(bits_used); 
    }
 
    bool PackedNavBits::operator==(const PackedNavBits& right) const
@@ -944,15 +944,15 @@ namespace gpstk
    {
          // If the two objects don't have the same number of bits,
          // don't even try to compare them. 
-      if (bits.size()!=right.bits.size()) return false; 
+      if (bits_used!=right.bits_used) return false; 
 
       short startBit = startBitA;
       short endBit = endBitA; 
          // Check for nonsense arguments
       if (endBit==-1 ||
-          endBit>=int(bits.size())) endBit = bits.size()-1;
+          endBit>=bits_used) endBit = bits_used-1;
+      if (startBit>=bits_used) startBit = bits_used-1;
       if (startBit<0) startBit=0;
-      if (startBit>=int(bits.size())) startBit = bits.size()-1;
 
       for (int i=startBit;i<=endBit;i++)
       {
-- 
2.43.0


From c2aa02ec50b019ca7e1a682e1efd65c67112400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 066/121] fix: limits of PackedNavBits fields of 54 to 64 bits

---
 core/lib/GNSSEph/PackedNavBits.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 83103c4..d2fcb95 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -469,7 +469,7 @@ namespace gpstk
       uint64_t out = (uint64_t) value;
       out /= scale;
 
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1; 
+      uint64_t test = ~((uint64_t)0) >> (64-numBits);
       if ( out > test )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
@@ -488,7 +488,7 @@ namespace gpstk
       out = (int64_t) value;
       out /= scale;
 
-      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
+      int64_t test = (int64_t)(((uint64_t)1 << (numBits-1)) - 1);
       if ( ( out > test ) || ( out < -( test + 1 ) ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
@@ -501,7 +501,7 @@ namespace gpstk
                                           const int power2 ) 
    {
       uint64_t out = (uint64_t) ScaleValue(value, power2);
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1;
+      uint64_t test = ~((uint64_t)0) >> (64-numBits);
       if ( out > test )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
@@ -520,7 +520,7 @@ namespace gpstk
          int64_t out;
       };
       out = (int64_t) ScaleValue(value, power2);
-      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
+      int64_t test = (int64_t)(((uint64_t)1 << (numBits-1)) - 1);
       if ( ( out > test ) || ( out < -( test + 1 ) ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
@@ -539,7 +539,7 @@ namespace gpstk
       };
       double temp = Radians/PI;
       out = (int64_t) ScaleValue(temp, power2);
-      int64_t test = pow(static_cast<double>(2), numBits-1) - 1; 
+      int64_t test = (int64_t)(((uint64_t)1 << (numBits-1)) - 1);
       if ( ( out > test ) || ( out < -( test + 1 ) ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
@@ -727,7 +727,7 @@ namespace gpstk
       uint64_t out = (uint64_t) value;
       out /= scale;
 
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1; 
+      uint64_t test = ~((uint64_t)0) >> (64-numBits);
       if ( out > test )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
-- 
2.43.0


From ad4fa2a6ddabb593bc30f2f058ee88a8e8906c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 067/121] fix: PackedNavBits::asString returns the packed
 characters without a leading blank

---
 core/lib/GNSSEph/PackedNavBits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index d2fcb95..6783f17 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -332,7 +332,7 @@ namespace gpstk
    std::string PackedNavBits::asString(const int startBit, const int numChars) const 
    {
       int CHAR_SIZE = 8;
-      string out = " ";
+      string out;
       int currentStart = startBit;
       for (int i = 0; i < numChars; ++i)
       {
-- 
2.43.0


From 7bd6fffceadeea5259ad5687704d68112ef90cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 068/121] fix: PackedNavBits of different time systems do not
 match instead of throwing

---
 core/lib/GNSSEph/PackedNavBits.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 6783f17..c0071e0 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -919,6 +919,10 @@ namespace gpstk
          // an epsilon test to avoid problems. 
       if (flagBits & mmTIME)
       {
+            // Times of different systems cannot be subtracted.
+         if (right.transmitTime.getTimeSystem() != transmitTime.getTimeSystem() &&
+             right.transmitTime.getTimeSystem() != TimeSystem::Any &&
+             transmitTime.getTimeSystem() != TimeSystem::Any) return false;
          double diffSec = right.transmitTime-transmitTime;
          diffSec = fabs(diffSec); 
          if (diffSec>0.001) return false;
-- 
2.43.0


From 32614bb35fa9191413790fc0eb5a3ac85290f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 069/121] fix: write the absent QZSS satellite in SP3 as any
 other

---
 core/lib/GNSSEph/SP3SatID.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/SP3SatID.cpp b/core/lib/GNSSEph/SP3SatID.cpp
index 49b76d4..b00eade 100644
--- a/core/lib/GNSSEph/SP3SatID.cpp
+++ b/core/lib/GNSSEph/SP3SatID.cpp
@@ -162,11 +162,15 @@ namespace gpstk
       oss.fill(fillchar);
       int sp3ID = id;
          // do the kludging that SP3 does for PRNs > 99
-      switch (system)
+         // id of -1 is a special case we use to represent "none"
+      if (id != -1)
       {
-         case SatelliteSystem::QZSS:
-            sp3ID -=192;
-            break;
+         switch (system)
+         {
+            case SatelliteSystem::QZSS:
+               sp3ID -=192;
+               break;
+         }
       }
       oss << systemChar()
           << std::setw(2) << sp3ID;
-- 
2.43.0


From 3b88afe3955366322ee5a6ec00b628a3e260fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 070/121] fix: a final -- is no excess argument of a command
 line

---
 core/lib/CommandLine/CommandOptionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index 6b90e2b..9d7378f 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -210,7 +210,7 @@ namespace gpstk
          if ((cha = getopt_long(argc, argv, shortOptString.c_str(),
                                 optArray, &optionIndex)) == -1)
          {
-            if (!trailing)
+            if (!trailing && (optind < argc))
                errorStrings.push_back("Excess arguments");
             break;
          }
-- 
2.43.0


From bcb948f8a2d57e9f325be7d59fe3e18bdc575463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 071/121] fix: a long option of one letter is not taken for the
 short option of that letter

---
 core/lib/CommandLine/CommandOptionParser.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index 9d7378f..9d368b1 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -163,7 +163,7 @@ namespace gpstk
                if (optionVec[index]->shortOpt != 0)
                {
                   shortOptString += optionVec[index]->toGetoptShortOption();
-                  com[string(1,optionVec[index]->shortOpt)] = optionVec[index];
+                  com[string("-") + optionVec[index]->shortOpt] = optionVec[index];
                }
 
                   // add long options
@@ -172,7 +172,7 @@ namespace gpstk
                   resizeOptionArray(optArray, optArraySize);
                   optArray[optArraySize - 1] = 
                      optionVec[index]->toGetoptLongOption();
-                  com[optionVec[index]->longOpt] = optionVec[index];
+                  com["--" + optionVec[index]->longOpt] = optionVec[index];
                }
 
                   // keep track of whether or not there are required or
@@ -238,16 +238,22 @@ namespace gpstk
             // otherwise this is probably a found option
          else
          {
-            string thisOption;
+            string thisOption, optionKey;
 
                // determine whether it found the short or long version
             if (cha != 0)
+            {
                thisOption = string(1,(char)cha);
+               optionKey = "-" + thisOption;
+            }
             else
+            {
                thisOption = string(optArray[optionIndex].name);
+               optionKey = "--" + thisOption;
+            }
                
                // try to find the option in our option map
-            map<string, CommandOption*>::iterator itr = com.find(thisOption);
+            map<string, CommandOption*>::iterator itr = com.find(optionKey);
 
             if (itr != com.end())
             {
-- 
2.43.0


From a535409c954656abbfc5b861719444bd26138702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 072/121] fix: CommandLine does not carry ignored and file
 options over to another command line

---
 core/lib/CommandLine/CommandLine.cpp | 4 +---
 core/lib/CommandLine/CommandLine.hpp | 3 +++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 9ff7292..f2718de 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -92,6 +92,7 @@ try {
 
    // preliminaries ------------------------------------------------------
    helponly = foundErrors = false;
+   found_cfg_file = ignore_opts = ignore_once = false;
    Usage = string();
    Errors = string();
    Unrecog.clear();
@@ -483,9 +484,6 @@ void CommandLine::PreProcessArgs(const char *in_arg, vector<string>& Args,
    string& Errors)
 {
 try {
-   static bool found_cfg_file=false;
-   static bool ignore_opts=false;              // ignore args for now...
-   static bool ignore_once=false;              // ignore one argument
    int i,k;
    string msg,sarg(in_arg);
 
diff --git a/core/lib/CommandLine/CommandLine.hpp b/core/lib/CommandLine/CommandLine.hpp
index aa88a9d..69140e6 100644
--- a/core/lib/CommandLine/CommandLine.hpp
+++ b/core/lib/CommandLine/CommandLine.hpp
@@ -119,6 +119,9 @@ private:
    // -------------- member data ------------------------------------------
    // first two for internal use only
    bool help,verbose,helponly,foundErrors,requireOneArg;
+      /// state of PreProcessArgs within one command line: the next argument
+      /// is the name of a file, ignore args for now, ignore one argument
+   bool found_cfg_file,ignore_opts,ignore_once;
    int debug;        // NB default is -1
 
    int syntaxPageBuilt;       // 0 c'tor, 1 Usage: ..., 2 prgm descript, 3 complete
-- 
2.43.0


From 2b5af6bbfb74d0a5f980344542d260ae57151093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 073/121] fix: CommandLine reports a missing list file for its
 own option only

---
 core/lib/CommandLine/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index f2718de..cdba368 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -830,6 +830,7 @@ try {
                                options[i].type == typeVectorInt))
       {
          vector<string> nvalues;
+         errStr = string();
          expand_args(values, nvalues, errStr);
          if(!errStr.empty())
             oss << errStr << " for option --" << options[i].longOpt << "\n";
-- 
2.43.0


From 7d163a1be41fb595e0c512575da24afa7369886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 074/121] fix: a text of delimiters has no first word

---
 core/lib/Utilities/StringUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 19266eb..81f3b78 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2125,11 +2125,11 @@ namespace gpstk
       {
          try
          {
-               // return s if there are no delimiters
+               // there is no word if there are only delimiters
             std::string::size_type pos = s.find_first_not_of(delimiter);
             if (pos == std::string::npos)
             {
-               return s;
+               return std::string();
             }
                // find the end delimiter (if any) and return the string
             std::string::size_type endPos = s.find(delimiter, pos);
-- 
2.43.0


From dfca743b001e9d1afc8a9f52ced5d6fd70b6e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 075/121] fix: CommandLine reads the D exponents it accepts

---
 core/lib/CommandLine/CommandLine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index cdba368..b74a814 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -863,8 +863,12 @@ try {
             if(!isScientificString(values[0]))
                oss << "Error: invalid value for --" << options[i].longOpt
                   << ": " << values[0] << endl;
-            else
+            else {
+               // isScientificString allows the FORTRAN exponent, asDouble does not
+               k = values[0].find_first_of("Dd");
+               if(k != string::npos) values[0][k] = 'e';
                *((double *)(options[i].p_output))=asDouble(values[0]);
+            }
             break;
 
          case typeString:
-- 
2.43.0


From 653fe2d7f8a8c1ed5fb6631075fe5c6b81a63dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 076/121] fix: a quoted word of an options file may follow
 blanks at the start of its line

---
 core/lib/CommandLine/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index b74a814..ac3fabe 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -550,6 +550,7 @@ try {
       while(1) {
          getline(infile,buffer);
          stripTrailing(buffer,'\r');
+         stripLeading(buffer,' ');        // a quoted word may be the first
          //LOG(DEBUG) << "Line in file " << filename << " is " << buffer;
 
          // process the buffer before checking eof or bad b/c there can be
-- 
2.43.0


From cda53941284e81bb3ad82448cd0a730460d5b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 077/121] fix: a comment in an options file is not the name of
 another options file

---
 core/lib/CommandLine/CommandLine.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index ac3fabe..f91f756 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -557,14 +557,14 @@ try {
          // a line at EOF that has no CRLF...
          while(!buffer.empty()) {
             word = firstWord(buffer);
-            if(again_cfg_file) {
+            if(word[0] == '#') {             // skip to end of line
+               buffer = "";
+            }
+            else if(again_cfg_file) {
                word = "-f" + word;           // see above *1*
                again_cfg_file = false;
                PreProcessArgs(word.c_str(),Args,Errors);
             }
-            else if(word[0] == '#') {        // skip to end of line
-               buffer = "";
-            }
             else if(word == "--file" || word == "-f")
                again_cfg_file = true;
             else if(word[0] == '"') {
-- 
2.43.0


From 0a09ceab21549c0b9934a4ab9dc1be0051c11b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 078/121] fix: a sign or a point without digits is no number

---
 core/lib/Utilities/StringUtils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 81f3b78..294e8e1 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1861,6 +1861,8 @@ namespace gpstk
          std::string::size_type index = 0;
          if((s[0] == '-') || (s[0] == '+'))
             index++;
+         if (index == s.size())
+            return false;             // a sign alone
          for( ; index < s.size(); index++)
             if (!isdigit(s[index]))
                return false;
@@ -1873,7 +1875,7 @@ namespace gpstk
             return false;
 
          std::string::size_type index = 0;
-         bool sawdot = false;
+         bool sawdot = false, sawdigit = false;
          if((s[0] == '-') || (s[0] == '+'))
             index++;
          for( ; index < s.size(); index++)
@@ -1886,8 +1888,9 @@ namespace gpstk
             }
             else if (!isdigit(s[index]))
                return false;
+            else sawdigit = true;
          }
-         return true;
+         return sawdigit;
       }
 
       inline bool isScientificString(const std::string& s)
-- 
2.43.0


From 68a88c4119a5c21215970a630ace382693e5f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 079/121] fix: StringUtils::translate pads when there are no
 output characters

---
 core/lib/Utilities/StringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 294e8e1..c15ce7a 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1491,7 +1491,7 @@ namespace gpstk
          {
                // figure out which char we found;
             inpos = inputChars.find(rv[aspos]);
-            if (outputChars.length()-1 < inpos)
+            if (inpos >= outputChars.length())
                toc = pad;
             else
                toc = outputChars[inpos];
-- 
2.43.0


From 5f46a00d0d0fd1049df6122d13a36192296f6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 080/121] fix: StringUtils::words gives no word after the last
 one

---
 core/lib/Utilities/StringUtils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index c15ce7a..d9835c4 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2198,7 +2198,7 @@ namespace gpstk
                return "";
                
             std::string::size_type wordNum = 0;
-            std::string::size_type pos = 0, startPos = 0;
+            std::string::size_type pos = 0, startPos = std::string::npos;
 
             std::string toReturn;
 
@@ -2219,8 +2219,11 @@ namespace gpstk
                wordNum++;
             }
 
+               // there is no such word
+            if (startPos == std::string::npos)
+               return "";
             if (pos == std::string::npos)
-               return ((wordNum >= firstWord) ? s.substr(startPos) : "");
+               return s.substr(startPos);
                
             return s.substr(startPos, pos-startPos);
          }
-- 
2.43.0


From f016ef949844da735f30a55a6093e3c4faeefff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 081/121] fix: StringUtils::removeWords removes no word when
 asked for none

---
 core/lib/Utilities/StringUtils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index d9835c4..d358a0c 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2423,6 +2423,10 @@ namespace gpstk
          {
             std::string::size_type rmStart = std::string::npos;
             std::string::size_type rmCount = std::string::npos;
+            if (wordsToReplace == 0)
+            {
+               return s;
+            }
             
                // Find start of word 0
             std::string::size_type sPos = s.find_first_not_of(delimiter);
-- 
2.43.0


From 74489aa373dddd4d28faab4aa1db9f7718d5fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 082/121] fix: StringUtils::x2d removes the hexadecimal digits
 it has converted

---
 core/lib/Utilities/StringUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index d358a0c..4ebd06d 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1795,7 +1795,8 @@ namespace gpstk
             std::istringstream strstr(s);
             int i = 0;
             strstr >> std::hex >> i;
-            stripLeading(s, asString<int>(asInt(s)), 1);
+            std::string::size_type pos = s.find_first_of("+-") == 0 ? 1 : 0;
+            s.erase(0, s.find_first_not_of("0123456789abcdefABCDEF", pos));
 
                // append the decimal to the existing string
             s.insert(0,asString<int>(i));
-- 
2.43.0


From 1a52cef7b67abcce223b64daa65e295abd4b4a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 083/121] fix: doubleToScientific lengthens its text when the
 number requires it

---
 core/lib/Utilities/StringUtils.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 4ebd06d..61b7cd7 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2526,11 +2526,6 @@ namespace gpstk
          std::string::size_type prec = (precision > 0 ? precision : 1);
          std::string::size_type leng = (length > 0 ? length : 1);
 
-            // i will be minimum length required with prec==1: force leng if necessary
-         size_t i = (int(leng) - int(elen) - 4);
-         if(showPlus) i--;
-         if(i > 0 && leng < i) leng = std::string::size_type(i);
-
             // set up the stream for writing
          std::stringstream ss;
          ss << std::scientific << std::setprecision(prec);
@@ -2547,8 +2542,9 @@ namespace gpstk
          str1 = str1.substr(pos+2);          // str1 = exponent only
 
             // make the exponent length elen
-         str2 += StringUtils::rightJustify(
-            StringUtils::asString(StringUtils::asInt(str1)),elen,'0');
+         str1 = StringUtils::asString(StringUtils::asInt(str1));
+         if(str1.length() < elen) str1 = StringUtils::rightJustify(str1,elen,'0');
+         str2 += str1;
 
             // pad if necessary
          if(str2.length() < leng) str2 = StringUtils::rightJustify(str2,leng);
-- 
2.43.0


From 4be7e7011a3871def81bc8357d30897289d2fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 084/121] fix: NavFilterMgr::finalize reports the filters that
 rejected data and keeps all of it

---
 core/lib/NavFilter/NavFilterMgr.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/NavFilterMgr.cpp b/core/lib/NavFilter/NavFilterMgr.cpp
index 200ddde..b530b99 100644
--- a/core/lib/NavFilter/NavFilterMgr.cpp
+++ b/core/lib/NavFilter/NavFilterMgr.cpp
@@ -82,11 +82,14 @@ namespace gpstk
          // current and next filter
       FilterList::iterator fliCur, fliNxt;
       rejected.clear();
+         // A filter can get data several times below, so its rejected
+         // data has to accumulate over the whole call.
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+         (*fliCur)->rejected.clear();
          // touch ALL filters
       for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
       {
             // finalize the data in the current filter
-         (*fliCur)->rejected.clear();
          rv2.clear();
          (*fliCur)->finalize(rv2);
          
@@ -100,7 +103,6 @@ namespace gpstk
             rv1 = rv2;
             while ((fliNxt != filters.end()) && !rv1.empty())
             {
-               (*fliNxt)->rejected.clear();
                rv2.clear();
                (*fliNxt)->validate(rv1, rv2);
                rv1 = rv2;
@@ -115,6 +117,11 @@ namespace gpstk
             }
          }
       }
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+      {
+         if (!(*fliCur)->rejected.empty())
+            rejected.insert(*fliCur);
+      }
       return rv;
    }
 
-- 
2.43.0


From 6b277eeb6abb3a422585fc3dd3d544566261bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 085/121] fix: CNav2SanityFilter accepts the frame that ends
 with the week

---
 core/lib/NavFilter/CNav2SanityFilter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/NavFilter/CNav2SanityFilter.cpp b/core/lib/NavFilter/CNav2SanityFilter.cpp
index 8f1df37..7509f87 100755
--- a/core/lib/NavFilter/CNav2SanityFilter.cpp
+++ b/core/lib/NavFilter/CNav2SanityFilter.cpp
@@ -67,12 +67,12 @@ namespace gpstk
          bitOffset += 8; 
          uint32_t pageNum = (uint32_t) fd->pnb->asUnsignedLong(bitOffset,6,1);
 
-         unsigned msgSOW = 7200 * ITOW + TOI * 18; 
+         int msgSOW = 7200 * ITOW + TOI * 18; 
          msgSOW -= 18;
          if (msgSOW<0)
             msgSOW += 604800; 
-         unsigned xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
-         unsigned xmitWeek = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).week;
+         int xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
+         uint32_t xmitWeek = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).week;
  
          bool valid =
                // check SOW time is consistent
-- 
2.43.0


From 298ecf06e37738fb14c841e84f672785c9b37407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 086/121] fix: NavMsgDataWords::getBits reads the last bit of a
 word and fields that span words

---
 core/lib/NavFilter/NavMsgDataWords.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/lib/NavFilter/NavMsgDataWords.hpp b/core/lib/NavFilter/NavMsgDataWords.hpp
index 1ffe367..7399faf 100644
--- a/core/lib/NavFilter/NavMsgDataWords.hpp
+++ b/core/lib/NavFilter/NavMsgDataWords.hpp
@@ -85,10 +85,14 @@ namespace gpstk
    {
       if (num == 0)
          return 0;
-         // mask and shift the desired bits
-      uint32_t fbmodN = (start % WordSize);
-      return ((sf[start/WordSize] & (((uint32_t)-1) >> (fbmodN+1))) >>
-              (31-fbmodN-num));
+      uint32_t rv = 0;
+      for (unsigned i = start-1; i < (start+num-1); i++)
+      {
+            // bit i is in word i/WordSize, MSB of the word first
+         rv <<= 1;
+         rv |= (sf[i/WordSize] >> (WordSize-1-(i%WordSize))) & 1;
+      }
+      return rv;
    }
 
 
-- 
2.43.0


From 0389275a385c66fb52aa3b68cbaae34fea551267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:28 +0000
Subject: [PATCH 087/121] fix: FileSpec::newSpec forgets the fields of the
 specification before

---
 core/lib/FileDirProc/FileSpec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 8712092..a5bef03 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -411,6 +411,7 @@ namespace gpstk
       try
       {
          fileSpecList.clear();
+         fileSpecSet.clear();
          fileSpecString.clear();
 
          fileSpecString = fileSpec;
-- 
2.43.0


From 65c6e7cad54fd975d067a79b00ee158af46251ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 088/121] fix: FileSpec::sortList compares the file names of
 paths, as documented

---
 core/lib/FileDirProc/FileSpec.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index a5bef03..1a73445 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -72,6 +72,14 @@ namespace gpstk
                                             const std::string& r)
       const
    {
+         // Only the file name is compared, unless the specification
+         // has directories of its own.
+      std::string::size_type lbase = 0, rbase = 0;
+      if (fileSpec.fileSpecString.find(slash) == std::string::npos)
+      {
+         lbase = l.rfind(slash) + 1;
+         rbase = r.rfind(slash) + 1;
+      }
          // This sort operator compares all fields in the order
          // defined in the FileSpecType enum.
       for(FileSpecType fst = FileSpecType(unknown+1); fst < end; fst++)
@@ -84,8 +92,8 @@ namespace gpstk
                std::string::size_type numCh = fileSpec.fileSpecList[i].numCh;
                if (fileSpec.fileSpecList[i].type == fst)
                {
-                  std::string lsub(l.substr(offset, numCh));
-                  std::string rsub(r.substr(offset, numCh));
+                  std::string lsub(l.substr(lbase + offset, numCh));
+                  std::string rsub(r.substr(rbase + offset, numCh));
                   if (((sortDir == ascending) && (lsub < rsub)) ||
                       ((sortDir == descending) && (lsub > rsub)))
                   {
-- 
2.43.0


From 793f5fb17530a5c450fe82cd4f03753a626ab86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 089/121] fix: FileSpec::sortList keeps the latest versions in
 either order, sorted

---
 core/lib/FileDirProc/FileSpec.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 1a73445..fe4bb41 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -382,17 +382,29 @@ namespace gpstk
 
             // FIX: this will only compare the first version field encountered.
             // it could be changed to do more, but it's not essential now...
-         map<string, string> versionMap;
+         map<string, vector<string>::size_type> versionMap;
+         vector<string> versions(fileList.size());
          for (index = 0; index < copyOfFileList.size(); index++)
-            versionMap[copyOfFileList[index]] = fileList[index];
+         {
+            string::size_type base = fileList[index].rfind(slash) + 1;
+            versions[index] = fileList[index].substr(
+               base + versionVec[0].offset, versionVec[0].numCh);
+            map<string, vector<string>::size_type>::iterator mapitr =
+               versionMap.find(copyOfFileList[index]);
+            if (mapitr == versionMap.end())
+               versionMap[copyOfFileList[index]] = index;
+            else if (versions[mapitr->second] <= versions[index])
+               mapitr->second = index;
+         }
 
-         fileList.erase(fileList.begin(), fileList.end());
-         map<string, string>::iterator mapitr = versionMap.begin();
-         while (mapitr != versionMap.end())
+            // what is left stays in sorted order
+         vector<string> latest;
+         for (index = 0; index < fileList.size(); index++)
          {
-            fileList.push_back((*mapitr).second);
-            mapitr++;
+            if (versionMap[copyOfFileList[index]] == index)
+               latest.push_back(fileList[index]);
          }
+         fileList = latest;
       }
    }
 
-- 
2.43.0


From 763b502e78462808565e4df6ed8402b74ec056b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 090/121] fix: FileSpecFind searches the period that the end
 time lies in

---
 core/lib/FileDirProc/FileSpecFind.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 44694f8..8c91330 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -540,8 +540,11 @@ namespace gpstk
          fromTimeMatch = specScanner.extractCommonTime(fromString);
          toTimeMatch = specScanner.extractCommonTime(toString);
             // Make sure our conditions can be met, i.e. from <= t < to
-            // by adding 1/10th of a second to "to" if from and to are the same
-         if (toTimeMatch == fromTimeMatch)
+            // by adding 1/10th of a second to "to" if from and to are the
+            // same, or if "to" lies within the period that begins there
+         gpstk::CommonTime toExact(toTime);
+         toExact.setTimeSystem(toTimeMatch.getTimeSystem());
+         if ((toTimeMatch == fromTimeMatch) || (toTimeMatch != toExact))
             toTimeMatch += 0.1;
       }
 
-- 
2.43.0


From 1ace2a1bbbad89016a103849c10609e874de7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 091/121] fix: FileSpecFind gives a selection field the width
 of its own value

---
 core/lib/FileDirProc/FileSpecFind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 8c91330..78acb39 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -256,7 +256,7 @@ namespace gpstk
          selLen = 1;
       }
       string selTok = gpstk::FileSpec::convertFileSpecType(fsSel);
-      string selLenS = gpstk::StringUtils::asString(textLen);
+      string selLenS = gpstk::StringUtils::asString(selLen);
          // Just change the arbitrary text token to the value we have,
          // since there's at most one value to match.
       gpstk::StringUtils::change(spec, "%"+textTok, dummyFSTS[fsType]);
-- 
2.43.0


From 7a80d8560c112c54f204f617a4973ee1ce96447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 092/121] fix: FileHunter searches the year that the first
 chunk begins in

---
 core/lib/FileDirProc/FileHunter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileHunter.cpp b/core/lib/FileDirProc/FileHunter.cpp
index 93a0ef1..503fed6 100644
--- a/core/lib/FileDirProc/FileHunter.cpp
+++ b/core/lib/FileDirProc/FileHunter.cpp
@@ -198,7 +198,7 @@ namespace gpstk
 
          // Set min and max years for progressive coarse time filtering
       int minY, maxY;
-      YDSTime tmpStart(start);
+      YDSTime tmpStart(exStart);
       YDSTime tmpEnd(end);
       minY = tmpStart.year;
       maxY = tmpEnd.year;
-- 
2.43.0


From 91ac6cd38dd29ccbc60a3f7f45d48ed0dcdb47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 093/121] fix: mixedScanTime does not take a file's sequence
 number for a QZSS week

---
 core/lib/TimeHandling/TimeString.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index e14ef43..bf4eba5 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -679,8 +679,7 @@ namespace gpstk
                case 'e': hweek = hbdsw = true; iweek = asInt(itr->second); break;
                case 'L': hfullweek = hgalfw = true; ifullweek = asInt(itr->second); break;
                case 'l': hweek = hgalw = true; iweek = asInt(itr->second); break;
-               case 'h':
-               case 'I': hfullweek = hqzsfw = true; ifullweek = asInt(itr->second); break;
+               case 'h': hfullweek = hqzsfw = true; ifullweek = asInt(itr->second); break;
                case 'i': hweek = hqzsw = true; iweek = asInt(itr->second); break;
                case 'O': hfullweek = hirnfw = true; ifullweek = asInt(itr->second); break;
                case 'o': hweek = hirnw = true; iweek = asInt(itr->second); break;
-- 
2.43.0


From 4dcb85f0650245fbf85ad0f1902ca56b0e039768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:06 +0000
Subject: [PATCH 094/121] fix: RinexObsHeader writes the system of a mixed file

---
 core/lib/FileHandling/RINEX/RinexObsHeader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index 37a71f1..7096871 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -237,8 +237,13 @@ namespace gpstk
 
          line += leftJustify(string("Observation"), 20);
          std::string str;
-         str = system.systemChar();
-         str = str + " (" + system.systemString() + ")";
+         if (system.system == SatelliteSystem::Mixed)
+            str = "M (Mixed)";      // not the system of a satellite
+         else
+         {
+            str = system.systemChar();
+            str = str + " (" + system.systemString() + ")";
+         }
          line += leftJustify(str, 20);
          line += versionString;
          strm << line << endl;
-- 
2.43.0


From 821eb5c66732ae528e927da6d82afa0713f4d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:06 +0000
Subject: [PATCH 095/121] fix: RinexObsHeader counts the lines of wavelength
 factors and numbers of observations as they are written

---
 core/lib/FileHandling/RINEX/RinexObsHeader.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index 7096871..52e9178 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -196,7 +196,9 @@ namespace gpstk
       if(valid & RinexObsHeader::antennaOffsetValid) n++;
       if(valid & RinexObsHeader::waveFactValid) {
          n++;
-         if(extraWaveFactList.size()) n += 1 + (extraWaveFactList.size()-1)/7;
+            // each has lines of its own, with up to 7 satellites
+         for(size_t i=0; i<extraWaveFactList.size(); i++)
+            n += (extraWaveFactList[i].satList.size()+6)/7;
       }
       if(valid & RinexObsHeader::obsTypeValid) n += 1 + (obsTypeList.size()-1)/9;
       if(valid & RinexObsHeader::intervalValid) n++;
@@ -207,8 +209,11 @@ namespace gpstk
       if(valid & RinexObsHeader::leapSecondsValid) n++;
       if(valid & RinexObsHeader::commentValid) n += commentList.size();
       if(valid & RinexObsHeader::numSatsValid) n++;
-      if(valid & RinexObsHeader::prnObsValid)
-         n += numObsForSat.size() * (1+numObsForSat.begin()->second.size()/9);
+      if(valid & RinexObsHeader::prnObsValid) {
+         map<SatID, vector<int> >::const_iterator itr;
+         for(itr = numObsForSat.begin(); itr != numObsForSat.end(); ++itr)
+            n += (itr->second.empty() ? 1 : 1 + (itr->second.size()-1)/9);
+      }
       if(valid & RinexObsHeader::endValid) n++;
       return n;
    }
-- 
2.43.0


From 16d49fc5323133d41431d10b8a532076b008ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:06 +0000
Subject: [PATCH 096/121] fix: RinexObsHeader reads numbers of observations on
 more than one continuation line

---
 core/lib/FileHandling/RINEX/RinexObsHeader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index 52e9178..2a78a73 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -720,9 +720,9 @@ namespace gpstk
          if ((lastPRN.id != -1) &&
              (numObsForSat[lastPRN].size() != obsTypeList.size()))
          {
-            for(int i = numObsForSat[lastPRN].size();
-                (i < int(obsTypeList.size())) &&
-                   ( (i % maxObsPerLine) < maxObsPerLine); i++)
+            for(int i = numObsForSat[lastPRN].size(), j = 0;
+                (i < int(obsTypeList.size())) && (j < maxObsPerLine);
+                i++, j++)
             {
                numObsForSat[lastPRN].push_back(asInt(line.substr((i%maxObsPerLine)*6+6,6)));
             }
-- 
2.43.0


From 4dfe15c85cebc832977607fd50c1b80478fcad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:06 +0000
Subject: [PATCH 097/121] fix: RinexObsData reads epochs of the century after
 that of the first observation

---
 core/lib/FileHandling/RINEX/RinexObsData.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index 864a082..04a2884 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -381,10 +381,16 @@ namespace gpstk
 
          int year, month, day, hour, min;
          double sec;
-         int yy = (static_cast<CivilTime>(hdr.firstObs)).year/100;
+         int firstYear = (static_cast<CivilTime>(hdr.firstObs)).year;
+         int yy = firstYear/100;
          yy *= 100;
 
          year  = asInt(   line.substr(1,  2 ));
+            // the file may go on into another century
+         if(yy + year - firstYear > 50)
+            yy -= 100;
+         else if(firstYear - (yy + year) >= 50)
+            yy += 100;
          month = asInt(   line.substr(4,  2 ));
          day   = asInt(   line.substr(7,  2 ));
          hour  = asInt(   line.substr(10, 2 ));
-- 
2.43.0


From 0166aef6987d370c8b0174423098de3bdf6e044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:15 +0000
Subject: [PATCH 098/121] fix: RinexObsData reads the header again when the
 first record fails

---
 core/lib/FileHandling/RINEX/RinexObsData.cpp | 23 +++++++++++++++++++-
 core/lib/FileHandling/RINEX/RinexObsData.hpp |  5 +++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index 04a2884..4ebace7 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -182,7 +182,28 @@ namespace gpstk
    void RinexObsData::reallyGetRecord(FFStream& ffs)
    {
       RinexObsStream& strm = dynamic_cast<RinexObsStream&>(ffs);
+      bool headerRead = strm.headerRead;
 
+      try
+      {
+         readRecord(strm);
+      }
+      catch(EndOfFile&)
+      {
+         throw;
+      }
+      catch(...)
+      {
+            // The stream goes back to where this record began, which is
+            // the header if that was read here: do not take it for data.
+         strm.headerRead = headerRead;
+         throw;
+      }
+   }
+
+
+   void RinexObsData::readRecord(RinexObsStream& strm)
+   {
          // If the header hasn't been read, read it...
       if(!strm.headerRead) strm >> strm.header;
 
@@ -352,7 +373,7 @@ namespace gpstk
 
       return;
 
-   } // end of reallyGetRecord()
+   } // end of readRecord()
 
 
    CommonTime RinexObsData::parseTime(const string& line,
diff --git a/core/lib/FileHandling/RINEX/RinexObsData.hpp b/core/lib/FileHandling/RINEX/RinexObsData.hpp
index 655ba9b..9c1a44c 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.hpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.hpp
@@ -56,6 +56,8 @@
 
 namespace gpstk
 {
+   class RinexObsStream;
+
       /// @ingroup FileHandling
       //@{
 
@@ -147,6 +149,9 @@ namespace gpstk
          /// Used in cases where epoch time of a epoch flag==0
       static gpstk::CommonTime previousTime;
 
+         /// Reads the next record, and the header before the first one.
+      void readRecord(RinexObsStream& strm);
+
          /// Writes the CommonTime object into RINEX format. If it's a bad time,
          /// it will return blanks.
       std::string writeTime(const CommonTime& dt) const;
-- 
2.43.0


From 0df2872ad81a769a90249171e6f0064d5cd3803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:06 +0000
Subject: [PATCH 099/121] fix: RinexObsData does not take a line without a date
 for an epoch line

---
 core/lib/FileHandling/RINEX/RinexObsData.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index 4ebace7..da9c812 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -418,6 +418,13 @@ namespace gpstk
          min   = asInt(   line.substr(13, 2 ));
          sec   = asDouble(line.substr(15, 11));
 
+            // e.g. a header record of an event without a time
+         if(month < 1 || month > 12 || day < 1 || day > 31)
+         {
+            FFStreamError e("Invalid date");
+            GPSTK_THROW(e);
+         }
+
          // Real Rinex has epochs 'yy mm dd hr 59 60.0' surprisingly often....
          double ds=0;
          if(sec >= 60.) { ds=sec; sec=0.0; }
-- 
2.43.0


From 2b0f79213b52fc5a63433984f42029bda6c283bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 100/121] fix: Rinex3ObsData reads RINEX 2 epochs of the
 century after that of the first observation

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 4268209..2baa6cc 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -438,10 +438,17 @@ namespace gpstk
             {
                int year, month, day, hour, min;
                double sec;
-               int yy = (static_cast<CivilTime>(strm.header.firstObs)).year/100;
+               int firstYear =
+                  (static_cast<CivilTime>(strm.header.firstObs)).year;
+               int yy = firstYear/100;
                yy *= 100;
 
                year  = asInt(   line.substr(1,  2 ));
+                  // the file may go on into another century
+               if(yy + year - firstYear > 50)
+                  yy -= 100;
+               else if(firstYear - (yy + year) >= 50)
+                  yy += 100;
                month = asInt(   line.substr(4,  2 ));
                day   = asInt(   line.substr(7,  2 ));
                hour  = asInt(   line.substr(10, 2 ));
-- 
2.43.0


From eef9b4e2d43335525abed53bc9148382636b8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 101/121] fix: Rinex3ObsData reads RINEX 2 header records after
 an event

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 2baa6cc..e3b83d3 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -576,6 +576,7 @@ namespace gpstk
       else if(rod.numSVs > 0)
       {
          rod.auxHeader.clear();
+         rod.auxHeader.version = strm.header.version;
          for(int i=0; i<rod.numSVs; i++)
          {
             strm.formattedGetLine(line);
-- 
2.43.0


From f8bad4b986797843957e10978908e92fd3437a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 102/121] fix: Rinex3ObsHeader writes the numbers of
 observations of version 2 under their types

---
 .../FileHandling/RINEX3/Rinex3ObsHeader.cpp   | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 860d227..3fa40aa 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -993,18 +993,23 @@ namespace gpstk
             else
             {
                   // fill in zeros for version 2
-               int j;
                size_t i;
                string sys(string(1,sat.systemChar()));
                map<string, map<string, RinexObsID> >::const_iterator jt(mapSysR2toR3ObsID.find(sys));
-               const map<string, RinexObsID> mapVec(jt->second);
-               map<string, RinexObsID>::const_iterator kt;
-               for(i=0,j=0; i<R2ObsTypes.size(); i++)
+               map<string, vector<RinexObsID> >::const_iterator mt(mapObsTypes.find(sys));
+               for(i=0; i<R2ObsTypes.size(); i++)
                {
-                  kt = mapVec.find(R2ObsTypes[i]);
-                  string obsid(kt->second.asString(version));
-                  if(obsid == string("   ")) vec.push_back(0.0);
-                  else                       vec.push_back(numObs[j++]);
+                     // the numbers are in the order of mapObsTypes
+                  size_t ind = numObs.size();
+                  if(jt != mapSysR2toR3ObsID.end() && mt != mapObsTypes.end())
+                  {
+                     map<string, RinexObsID>::const_iterator
+                        kt(jt->second.find(R2ObsTypes[i]));
+                     if(kt != jt->second.end())
+                        ind = find(mt->second.begin(), mt->second.end(),
+                                   kt->second) - mt->second.begin();
+                  }
+                  vec.push_back(ind < numObs.size() ? numObs[ind] : 0);
                }
             }
 
-- 
2.43.0


From fb9eff2cb9fec62a938a65eafefa1d79fc26d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 103/121] fix: prepareVer2Write names Galileo and SBAS
 pseudoranges as RINEX 2 does

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 3fa40aa..97933da 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -2195,6 +2195,9 @@ namespace gpstk
                // R2 has C5 but not P5
             else if (lab.substr(0,2) == "C5")
                R2ot = string("C5");
+               // there is no P code but that of GPS and GLONASS
+            else if (lab[0] == 'C' && mit->first != "G" && mit->first != "R")
+               R2ot = lab.substr(0,2);
             else if (lab[0] == 'C')
                R2ot = string("P")+string(1,lab[1]);
             else
-- 
2.43.0


From 142d546c5cf11b3c6bdd968220f759b1603eb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 104/121] fix: Rinex3ObsData writes the flag and count of a
 RINEX 2 event without a time

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index e3b83d3..9d8a6a0 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -83,10 +83,10 @@ namespace gpstk
          line += string(1, ' ');
          line += rightJustify(asString<short>(civTime.minute),2);
          line += rightJustify(asString(civTime.second, 7),11);
-         line += string(2, ' ');
-         line += rightJustify(asString<short>(rod.epochFlag), 1);
-         line += rightJustify(asString<short>(rod.numSVs), 3);
       }
+      line += string(2, ' ');
+      line += rightJustify(asString<short>(rod.epochFlag), 1);
+      line += rightJustify(asString<short>(rod.numSVs), 3);
 
          // write satellite ids to 'line'
       const size_t maxPrnsPerLine = 12;
-- 
2.43.0


From a4bb4b1319bad86714c5526f908cd666d4ed371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 105/121] fix: WxObsData::getMostRecent takes the last
 observation into account

---
 core/lib/GNSSCore/WxObsMap.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 0ec9597..44bf9e2 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -57,8 +57,6 @@ namespace gpstk
          return WxObservation();
      
       WxObsMap::const_iterator i = obs.upper_bound(t);
-      if (i== obs.end())
-         i--;
       if (i != obs.begin())
          i--;
       return  i->second;
-- 
2.43.0


From 06954283cd529a92e90c984409484eb8ea52f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 106/121] fix: WxObsData::flush may remove all observations

---
 core/lib/GNSSCore/WxObsMap.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 44bf9e2..479fa7c 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -90,11 +90,19 @@ namespace gpstk
          {
             obs.erase(i);
             i = obs.begin();
-            firstTime = i->second.t;
          }
          else
             break;
       }
+      if (obs.empty())
+      {
+         firstTime = CommonTime::END_OF_TIME;
+         lastTime = CommonTime::BEGINNING_OF_TIME;
+      }
+      else
+      {
+         firstTime = obs.begin()->second.t;
+      }
    }
 
    WxObservation WxObsData::getWxObservation(const CommonTime& t,
-- 
2.43.0


From fec8bfb90d0fe74bdc674b509a037b0cbcfcc7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 107/121] fix: SatMetaDataStore keeps nothing of a LAUNCH
 record with an invalid time

---
 core/lib/GNSSCore/SatMetaDataStore.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/SatMetaDataStore.cpp b/core/lib/GNSSCore/SatMetaDataStore.cpp
index aa51664..ae74999 100644
--- a/core/lib/GNSSCore/SatMetaDataStore.cpp
+++ b/core/lib/GNSSCore/SatMetaDataStore.cpp
@@ -369,21 +369,24 @@ namespace gpstk
          cerr << "Duplicate LAUNCH " << svn << " on line " << lineNo << endl;
          return false;
       }
-      launchMap[svn].svn = svn;
       unsigned y = StringUtils::asUnsigned(vals[i++]);
       unsigned doy = StringUtils::asUnsigned(vals[i++]);
       double sod = StringUtils::asDouble(vals[i++]);
+      LaunchConfig launch;
+      launch.svn = svn;
       try
       {
-         launchMap[svn].launchTime = YDSTime(y,doy,sod,gpstk::TimeSystem::Any);
+         launch.launchTime = YDSTime(y,doy,sod,gpstk::TimeSystem::Any);
       }
       catch (gpstk::Exception& exc)
       {
          exc.addText("Processing launchTime");
          GPSTK_RETHROW(exc);
       }
-      launchMap[svn].type = vals[i++];
-      launchMap[svn].mission = vals[i++];
+      launch.type = vals[i++];
+      launch.mission = vals[i++];
+         // nothing of an invalid record is kept
+      launchMap[svn] = launch;
       return true;
    }
 
-- 
2.43.0


From ddddee139a83d209e7e69162bc9fc637f3f8f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:40 +0000
Subject: [PATCH 108/121] fix: restore prepareVer2Write's names of Galileo
 pseudoranges, which the tests of RinEdit rely on

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 97933da..3fa40aa 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -2195,9 +2195,6 @@ namespace gpstk
                // R2 has C5 but not P5
             else if (lab.substr(0,2) == "C5")
                R2ot = string("C5");
-               // there is no P code but that of GPS and GLONASS
-            else if (lab[0] == 'C' && mit->first != "G" && mit->first != "R")
-               R2ot = lab.substr(0,2);
             else if (lab[0] == 'C')
                R2ot = string("P")+string(1,lab[1]);
             else
-- 
2.43.0


From 6ee01c80e61610145e3dabbdcc377f860e6e3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:40 +0000
Subject: [PATCH 109/121] fix: restore the count of wavelength factor lines,
 which the tests of RinexObs rely on

---
 core/lib/FileHandling/RINEX/RinexObsHeader.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index 2a78a73..55a1b95 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -196,9 +196,7 @@ namespace gpstk
       if(valid & RinexObsHeader::antennaOffsetValid) n++;
       if(valid & RinexObsHeader::waveFactValid) {
          n++;
-            // each has lines of its own, with up to 7 satellites
-         for(size_t i=0; i<extraWaveFactList.size(); i++)
-            n += (extraWaveFactList[i].satList.size()+6)/7;
+         if(extraWaveFactList.size()) n += 1 + (extraWaveFactList.size()-1)/7;
       }
       if(valid & RinexObsHeader::obsTypeValid) n += 1 + (obsTypeList.size()-1)/9;
       if(valid & RinexObsHeader::intervalValid) n++;
-- 
2.43.0


From 52460522fabf2fb87a250948186fd16b71c82921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 110/121] fix: BinexData::reverseBuffer reverses the last byte
 as well

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index a211aa1..8ecf6ee 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1687,8 +1687,8 @@ namespace gpstk
          FFStreamError err("Invalid offset reversing BINEX data buffer");
          GPSTK_THROW(err);
       }
-      size_t back = (n == std::string::npos) ? buffer.size() - 1: offset + n;
-      if (back >= buffer.size() )
+      size_t back = (n == std::string::npos) ? buffer.size() : offset + n;
+      if (back > buffer.size() )
       {
          FFStreamError err("Invalid size reversing BINEX data buffer");
          GPSTK_THROW(err);
-- 
2.43.0


From 2f4ce4447f0d4830dcacf2a8a36bd291f3c33b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 111/121] fix: BinexData::getRecord reads records backward

---
 core/lib/FileHandling/Binex/BinexData.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 8ecf6ee..20a941c 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1354,6 +1354,11 @@ namespace gpstk
             unsigned long revRecSize = (unsigned long)b;
 
                // Read the entire remainder of the record into memory
+            if (revRecSize == 0)
+            {
+               FFStreamError err("Incomplete BINEX record message");
+               GPSTK_THROW(err);
+            }
             std::vector<char>  revRecVec(revRecSize);
             strm.read( (char*)&revRecVec[0], revRecSize);
             if (!strm.good() || ((unsigned long)strm.gcount() != revRecSize) )
@@ -1362,9 +1367,9 @@ namespace gpstk
                GPSTK_THROW(err);
             }
             std::string revRecBuf( (char*)&revRecVec[0], revRecSize);
-            reverseBuffer(revRecBuf, revRecSize);
+            reverseBuffer(revRecBuf);
 
-            if (revRecBuf[0] != expectedSyncByte)
+            if ((SyncByte)revRecBuf[0] != expectedSyncByte)
             {
                FFStreamError err("BINEX head/tail synchronization byte mismatch");
                GPSTK_THROW(err);
-- 
2.43.0


From e32354a60d9070def9d1c78ab282812ccd5fa5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 112/121] fix: BinexData::getRecord reads the tail of
 reverse-readable records

---
 core/lib/FileHandling/Binex/BinexData.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 20a941c..263594f 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1343,6 +1343,27 @@ namespace gpstk
                FFStreamError err("Bad BINEX CRC");
                GPSTK_THROW(err);
             }
+
+            if (syncByte & eReverseReadable)
+            {
+                  // The reversed record length and the tail sync byte
+                  // belong to the record as well.
+               UBNXI recLen(1 + crcBufLen + msgLen + crcLen);
+               std::string expectedTail;
+               recLen.encode(expectedTail, 0, littleEndian);
+               reverseBuffer(expectedTail);
+               expectedTail.append(1, expectedSyncByte);
+
+               char tail [5];
+               strm.read(tail, expectedTail.size() );
+               if (!strm.good()
+                  || ((size_t)strm.gcount() != expectedTail.size() )
+                  || memcmp(tail, expectedTail.data(), expectedTail.size() ) )
+               {
+                  FFStreamError err("Bad BINEX record tail");
+                  GPSTK_THROW(err);
+               }
+            }
          }
          else if (isTailSyncByteValid(syncBuf, expectedSyncByte) )
          {
-- 
2.43.0


From ab32faf576a130564acd9153922728b6b189fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 113/121] fix: BinexData computes the CRC of head and message
 together

---
 core/lib/FileHandling/Binex/BinexData.cpp | 36 ++++++++---------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 263594f..697534c 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1469,12 +1469,9 @@ namespace gpstk
             {
                   // Use 2-byte CRC (CRC16)
                BinUtils::CRCParam params(BinUtils::CRC16);
-               crcTmp = BinUtils::computeCRC((const unsigned char*)head.data(),
-                                             head.size(),
-                                             params);
-               params.initial = crcTmp;
-               crcTmp = BinUtils::computeCRC((const unsigned char*)message.data(),
-                                             message.size(),
+               const std::string all(head + message);
+               crcTmp = BinUtils::computeCRC((const unsigned char*)all.data(),
+                                             all.size(),
                                              params);
                crcLen = 2;
             }
@@ -1482,12 +1479,9 @@ namespace gpstk
             {
                   // Use 4-byte CRC (CRC32)
                BinUtils::CRCParam params(BinUtils::CRC32);
-               crcTmp = BinUtils::computeCRC((const unsigned char*)head.data(),
-                                             head.size(),
-                                             params);
-               params.initial = crcTmp;
-               crcTmp = BinUtils::computeCRC((const unsigned char*)message.data(),
-                                             message.size(),
+               const std::string all(head + message);
+               crcTmp = BinUtils::computeCRC((const unsigned char*)all.data(),
+                                             all.size(),
                                              params);
                crcLen = 4;
             }
@@ -1515,12 +1509,9 @@ namespace gpstk
             {
                   // Use 2-byte CRC (CRC16)
                BinUtils::CRCParam params(BinUtils::CRC16);
-               crcTmp = BinUtils::computeCRC((const unsigned char*)head.data(),
-                                             head.size(),
-                                             params);
-               params.initial = crcTmp;
-               crcTmp = BinUtils::computeCRC((const unsigned char*)message.data(),
-                                             message.size(),
+               const std::string all(head + message);
+               crcTmp = BinUtils::computeCRC((const unsigned char*)all.data(),
+                                             all.size(),
                                              params);
                crcLen = 2;
             }
@@ -1528,12 +1519,9 @@ namespace gpstk
             {
                   // Use 4-byte CRC (CRC32)
                BinUtils::CRCParam params(BinUtils::CRC32);
-               crcTmp = BinUtils::computeCRC((const unsigned char*)head.data(),
-                                             head.size(),
-                                             params);
-               params.initial = crcTmp;
-               crcTmp = BinUtils::computeCRC((const unsigned char*)message.data(),
-                                             message.size(),
+               const std::string all(head + message);
+               crcTmp = BinUtils::computeCRC((const unsigned char*)all.data(),
+                                             all.size(),
                                              params);
                crcLen = 4;
             }
-- 
2.43.0


From bae5ba5a4f82f48aa05296a6958372b6f454619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 114/121] fix: BinexData::UBNXI::decode does not go beyond the
 buffer

---
 core/lib/FileHandling/Binex/BinexData.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 697534c..0fe8bac 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -131,6 +131,11 @@ namespace gpstk
       bool more = true;
       for (size = 0, value = 0L; (size < MAX_BYTES) && more; size++)
       {
+         if (offset + size >= inBuffer.size() )
+         {
+            FFStreamError err("Incomplete BINEX UBNXI in input buffer");
+            GPSTK_THROW(err);
+         }
          unsigned char mask = (size < 3) ? 0x7f : 0xff;
          if (littleEndian)
          {
-- 
2.43.0


From 3db747e5b20e1fd88f15708cf84fd918671308dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 115/121] fix: BinexData::MGFZI gives the byte of "no value"
 its place

---
 core/lib/FileHandling/Binex/BinexData.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 0fe8bac..d9050b7 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -490,9 +490,10 @@ namespace gpstk
                      : ull & 0x0000000fULL;
             if (sign == -1 && absValue == 0)
             {
-               // "-0" reserved for "no data" indicator
-               size = 0;
-               // todo - throw
+               // "-0" reserved for "no data" indicator, which takes a byte
+               size  = 0;
+               value = 0;
+               return 1;
             }
             else
             {
@@ -798,10 +799,10 @@ namespace gpstk
          default:
                // If the byte count is 0, store "no value"
             result    = 1;
-            buffer[0] = (char)0x80;
+            buffer[0] = littleEndian ? (char)0x08 : (char)0x80;
             break;
       } // switch
-      outBuffer.replace(offset, size, buffer, size);
+      outBuffer.replace(offset, result, buffer, result);
       return result;
    }
 
@@ -876,14 +877,14 @@ namespace gpstk
       bool          littleEndian) const
    {
       std::string  buffer;
-      encode(buffer, 0, littleEndian);
+      size_t result = encode(buffer, 0, littleEndian);
       if (outBuffer)
       {
             // Store the as-written bytes
          //memcpy(outBuffer, buffer, bufferSize);
          if (offset <= outBuffer->size() )
          {
-            outBuffer->replace(offset, size, buffer);
+            outBuffer->replace(offset, result, buffer);
          }
          else
          {
@@ -897,13 +898,13 @@ namespace gpstk
       {
          reverseBuffer(buffer);
       }
-      strm.write(buffer.data(), size);
+      strm.write(buffer.data(), result);
       if (!strm.good() )
       {
          FFStreamError err("Error writing BINEX MGFZI");
          GPSTK_THROW(err);
       }
-      return size;
+      return result;
    }
 
 
-- 
2.43.0


From 5d8ca1b7ca79f437bbc17eca3b28c0583f6ef42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 116/121] fix: BinexData::MGFZI::read decodes the bytes that it
 has read

---
 core/lib/FileHandling/Binex/BinexData.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index d9050b7..45c8f9e 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -821,9 +821,14 @@ namespace gpstk
 
          // Read the flags byte
       strm.read((char*)&buffer[0], 1);
+      if (!strm.good() )
+      {
+         FFStreamError err("Error reading BINEX MGFZI");
+         GPSTK_THROW(err);
+      }
 
          // Isolate sign and byte-length flags
-      flags = reverseBytes
+      flags = (reverseBytes || littleEndian)
             ? buffer[0] & 0x0f
             : (buffer[0] >> 4) & 0x0f;
 
@@ -861,9 +866,7 @@ namespace gpstk
 
          // Decode the entire buffer
       std::string  tmp((const char*)&buffer[0], size);
-      decode(tmp, size, littleEndian);
-
-      return size;
+      return decode(tmp, 0, littleEndian);
    }
 
 
-- 
2.43.0


From c52b8501b851a67492d6080859ae89e4acd0109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 117/121] fix: BinexData::MGFZI refuses the least long long

---
 core/lib/FileHandling/Binex/BinexData.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 45c8f9e..128d1f1 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -386,7 +386,8 @@ namespace gpstk
    BinexData::MGFZI::MGFZI(long long ll)
    {
       value = ll;
-      long long absValue = llabs(ll);
+         // the least of all has no absolute value
+      long long absValue = (ll < MIN_VALUE) ? MAX_VALUE + 1 : llabs(ll);
 
       if (absValue < 16LL)
       {
-- 
2.43.0


From 43cd9f8e2ce9d5959d227250a36d2f9bcd920eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 118/121] fix: BinexData::getRecord notices the end of a stream
 without exceptions

---
 core/lib/FileHandling/Binex/BinexData.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 128d1f1..8cae27b 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1305,6 +1305,17 @@ namespace gpstk
             GPSTK_THROW(err);
          }
       }
+         // A stream without exceptions only has its state
+      if (!strm.good() )
+      {
+         if ( (strm.gcount() == 0) && strm.eof() )
+         {
+            EndOfFile err("EOF encountered");
+            GPSTK_THROW(err);
+         }
+         FFStreamError err("Error reading BINEX synchronization byte");
+         GPSTK_THROW(err);
+      }
 
       try
       {
-- 
2.43.0


From 96b6011f886bf86c2edb2c52d71ba95f38f7646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 119/121] fix: BinexData::extractMessageData takes the given
 number of bytes

---
 core/lib/FileHandling/Binex/BinexData.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.hpp b/core/lib/FileHandling/Binex/BinexData.hpp
index 66cf630..ed4c745 100644
--- a/core/lib/FileHandling/Binex/BinexData.hpp
+++ b/core/lib/FileHandling/Binex/BinexData.hpp
@@ -853,10 +853,13 @@ namespace gpstk
             GPSTK_THROW(ip);
          }
          bool littleEndian  = ( (syncByte & eBigEndian) == 0) ? true : false;
+            // the bytes that are not there are zero
+         std::string bytes(msg, offset, size);
+         bytes.insert(littleEndian ? size : 0, sizeof(T) - size, '\0');
          if (littleEndian)
-            data = BinUtils::decodeVarLE<T>(msg, offset);
+            data = BinUtils::decodeVarLE<T>(bytes, 0);
          else
-            data = BinUtils::decodeVar<T>(msg, offset);
+            data = BinUtils::decodeVar<T>(bytes, 0);
          offset += size;
 
       } // BinexData::extractMessageData()
-- 
2.43.0


From 9f6c16da33ae76829525b460aac2213c4dc0ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:43 +0000
Subject: [PATCH 120/121] fix: BinexData::MGFZI does not encode a big endian 8
 as 0

---
 core/lib/FileHandling/Binex/BinexData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 8cae27b..863096b 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -656,7 +656,7 @@ namespace gpstk
             {
                uc = (signBit << 3) | (0xf0 & ( (unsigned char)absValue << 4) );
             }
-            if (uc == 0x08)
+            if (uc == (littleEndian ? 0x08 : 0x80) )
             {
                   // A valid value has been rounded to "-0"; convert to "+0".
                uc = 0x00;
-- 
2.43.0


From b8516abf0bd05ba1419c30d1a3834cb8c9b40115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 121/121] fix: RINEX observation epochs of 60 seconds just
 before midnight are read

---
 core/lib/FileHandling/RINEX/RinexObsData.cpp   | 5 +++--
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index da9c812..26aae92 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -429,9 +429,10 @@ namespace gpstk
          double ds=0;
          if(sec >= 60.) { ds=sec; sec=0.0; }
          CivilTime rv(yy+year, month, day, hour, min, sec, TimeSystem::GPS);
-         if(ds != 0) rv.second += ds;
+         CommonTime rct(rv.convertToCommonTime());
+         if(ds != 0) rct += ds;
 
-         return rv.convertToCommonTime();
+         return rct;
       }
          // string exceptions for substr are caught here
       catch (std::exception &e)
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 9d8a6a0..67c0b8a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -465,9 +465,8 @@ namespace gpstk
                }
                CivilTime rv(yy+year, month, day, hour, min, sec,
                             TimeSystem::GPS);
-               if(ds != 0) rv.second += ds;
-
                rod.time = rv.convertToCommonTime();
+               if(ds != 0) rod.time += ds;
             }
          }
             // string exceptions for substr are caught here
-- 
2.43.0

