"""The properties: the single source of properties.jsonl, MANIFEST.json and DESIGN.md section 4 (tools/mk.py)."""
PROPS = []
TH = "core/lib/TimeHandling/"
GE = "core/lib/GNSSEph/"
EL = "ext/lib/GNSSEph/"


def P(id, title, statement, over, q, why, files, mech, design, note, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                      design=design, note=note, **k))


P("C01", "Instants form one exact line: arithmetic, order and time systems agree",
  "An instant built, read, shifted, assigned and compared in any order behaves as one point on a continuous time line at nanosecond grain: the stored day, millisecond and fraction are always in range, adding then subtracting returns the same instant, differences match the shifts applied, and == != < <= > >= agree with each other and with that line. "
  "Two instants of different time systems never compare or subtract (they raise an error and are unequal) unless one of them is of the wildcard system. "
  "An operation that would leave the supported span, or invalid input, raises an error and leaves the instant as it was.",
  ["inputs", "histories"], "every sequence of set/add/subtract/assign/compare/read calls over the whole supported day range",
  "Tests try a few dozen hand-picked instants; boundary carries (midnight, millisecond, begin/end of time) combine with histories in ways they do not sample.",
  [TH + "CommonTime.cpp", TH + "CommonTime.hpp"],
  [("normalisation of day/msec/fraction", TH + "CommonTime.cpp"), ("time system check in comparison and difference", TH + "CommonTime.cpp")],
  "`Instant.tla` defines the line as <<day, ms, ns>> with carries; `CommonTime.tla` has registers and one action per mutator; `CommonTimeMC` explores every state of a line of 3 days x 4 ms x 3 ns and checks the group and order laws. "
  "The driver keeps five real objects, applies random operations biased to carries, bounds and mixed systems, and logs the full internal state after each; `CommonTimeTrace` accepts a line only if the model's next state is what the object holds.",
  "Model exhaustive at small constants; the code is checked on the recorded histories. Doubles are compared with 2 ns slack where the argument is a double (1 ms beyond 2e5 s).")

P("C02", "Calendar, day-of-year, MJD/JD and clock views of an instant agree",
  "For every day of the supported range the civil date, the day of year, the Julian and Modified Julian day numbers and the day of week denote the same day, consecutive days get consecutive dates (including leap years, the 1582 calendar change and the missing year 0), and converting to any of these forms and back returns the same day and time of day. "
  "Hours, minutes and seconds and seconds-of-day convert into each other without loss, including the last instant of a day. "
  "Comparisons between two times in the same form agree with the order of the instants they denote.",
  ["inputs"], "every day number the conversions document and every time of day",
  "Tests check a handful of dates; calendar rules fail on isolated days (century years, year ends, the calendar switch).",
  [TH + "TimeConverters.cpp", TH + "CivilTime.cpp", TH + "YDSTime.cpp", TH + "MJD.cpp", TH + "JulianDate.cpp", TH + "UnixTime.cpp", TH + "PosixTime.cpp", TH + "ANSITime.cpp"],
  [("calendar conversion", TH + "TimeConverters.cpp"), ("per-format conversion to and from instants", TH + "CivilTime.cpp")],
  "`Calendar.tla` has the day-successor as the transition and closed forms for day number and date; `CalendarMC` walks day by day (thorough: the whole 3.4 million day range in strides) checking closed form = walk. The driver converts day numbers in both directions through the real routines and every time format; `CalendarTrace` checks each against the closed forms.",
  "Quick covers all days around year ends, leap days, century years and the calendar change plus random days; thorough adds many more. Unix times before 1970 are outside the property.")

P("C03", "Week numbers, rollovers and Z-counts of every constellation stay consistent",
  "For each constellation, an instant converts to full week, short week, rollover count, day of week and seconds of week that identify it uniquely, and converts back to the same instant; instants before the constellation's first week are refused. "
  "Setting the short week or the rollover count changes only that part of the full week, and resolving a short week against a year picks a week of that year. "
  "Z-count arithmetic, differences, ordering and same-time-block tests agree with one line of 1.5 s counts, never go below zero, and a refused operation changes nothing.",
  ["inputs", "histories"], "every instant and constellation, and every history of week and Z-count register operations",
  "Tests use single weeks; errors appear only at week edges, rollovers and negative carries.",
  [TH + "Week.hpp", TH + "WeekSecond.cpp", TH + "GPSWeekZcount.cpp", TH + "GPSZcount.cpp", TH + "GPSWeekSecond.hpp", TH + "BDSWeekSecond.hpp"],
  [("short week / rollover views", TH + "Week.hpp"), ("Z-count carry", TH + "GPSWeekZcount.cpp")],
  "`Weeks.tla` models week registers with radix views and Z-count registers; `WeeksMC` checks at small radices that the views recombine, that Z-count moves are additions on the line and that the candidates for a short week are unique. The driver exercises all five week classes and both Z-count classes; `WeeksTrace` recomputes every result.",
  "Short-week resolution is checked only for years in which the short week occurs.")

P("C04", "Leap seconds and relations between time systems are right and composable",
  "The number of leap seconds for any date from 1972 on is the published value, constant within a month and growing by one at each announced insertion. "
  "Corrections between any two supported time systems are opposite in the two directions, compose through any third system, equal the defined constants (GPS, Galileo and NavIC are TAI-19 s, BeiDou TAI-33 s, TT is TAI+32.184 s, UTC and GLONASS follow the leap seconds), and are refused for unknown systems. "
  "A broadcast polynomial correction applies to exactly its two systems, with opposite signs in the two directions.",
  ["inputs"], "every month since 1960 and every pair and triple of time systems; every broadcast correction type, coefficient and time offset",
  "Tests check fifteen dates and one direction for most pairs; a wrong table row, sign or boundary month stays unseen.",
  ["core/lib/RefTime/TimeSystem.cpp", "core/lib/RefTime/TimeSystemCorr.cpp", "core/lib/RefTime/TimeSystemCorr.hpp"],
  [("leap second table", "core/lib/RefTime/TimeSystem.cpp"), ("sign by direction", "core/lib/RefTime/TimeSystemCorr.cpp")],
  "`LeapSec.tla` gives the leap second insertions and walks month by month; `LeapSecMC` checks the walk against the closed form, the 1980 and 2006 epochs and the continuity at 1972. The driver records the real table for every month 1950-2060 and random pairs/triples of systems and broadcast corrections; `LeapSecTrace` checks value, antisymmetry and composition.",
  "Two recorded findings: pre-1972 drift and the TDB periodic term (both asserted by existing tests). QZS corrections, which the library refuses, and the BDGP drift and QZGP polynomial, which it leaves out, are unspecified.")

P("C05", "Time ranges: membership, overlap, precedence, order and text form agree",
  "A time range contains exactly the instants between its ends, each end counted according to its inclusion flag; prior-to, after, overlap and containment between ranges agree with the instants the ranges contain. "
  "Ordering ranges is a strict weak order by start (an inclusive start before an exclusive one at the same time) and equality compares both ends and both flags. "
  "A range whose end precedes its start can never be created, printing a range and parsing it gives the range back, and a failed parse leaves the range as it was.",
  ["inputs", "histories"], "every pair of ranges over any four instants with every inclusion flag combination, and histories of set/copy/parse/print",
  "Tests check a few pairs; the flag combinations at touching ends are 16 per end-point arrangement.",
  [TH + "TimeRange.cpp", TH + "TimeRange.hpp"],
  [("boundary tests", TH + "TimeRange.cpp")],
  "`TimeRange.tla` represents a range as the set of points of a half-step line; `TimeRangeMC` checks trichotomy, symmetry and the order laws for all pairs over four instants. The driver runs all those pairs on the real class (split over shards) and random histories; `TimeRangeTrace` recomputes every relation and the membership of every point.",
  "Ranges with coinciding ends that are not both included are compared only for equality, order and containment. Damaged text that the lenient scanner accepts is unspecified.")

P("C06", "Printing a time and scanning it back are inverse, for every format",
  "Printing a time replaces each recognised field, with its width, padding and precision, by the corresponding view of that instant (civil, day of year, week and seconds of every constellation, Z-counts, Unix, Julian), leaves other text alone, and leaves a field as written when the instant cannot be expressed in it. "
  "Scanning text printed with any format that identifies an instant gives that instant, to the format's resolution, with its time system, whatever the order of the fields and whether fields have widths or delimiters; each time class reads its own default text. "
  "Mixed scanning changes exactly the named parts of the target instant; incomplete or unrecognisable text raises an error instead of giving a time.",
  ["inputs"], "every instant, time system and format",
  "Tests print and scan a handful of formats per class for one or two instants; field letters, orders, widths and rollovers multiply.",
  [TH + "TimeString.cpp", TH + "TimeTag.cpp", TH + "CivilTime.cpp", TH + "YDSTime.cpp", TH + "GPSWeekZcount.cpp", TH + "QZSWeekSecond.hpp", TH + "GALWeekSecond.hpp", TH + "BDSWeekSecond.hpp", TH + "IRNWeekSecond.hpp"],
  [("field substitution", TH + "TimeString.cpp"), ("scan into an instant", TH + "TimeString.cpp"), ("splitting text by format", TH + "TimeTag.cpp")],
  "`TimeText.tla` gives every letter's text as a view of <<day, second, us>>, and what a complete or partial set of letters rebuilds; `TimeTextMC` walks days around the GPS epoch checking that views rebuild the instant. The driver prints random formats over all letters (TLC computes the whole expected string) and scans back complete formats in random field order with scanTime, mixedScanTime into an unrelated target, and each class's own reader; partial formats are scanned over an unrelated instant and compared with `Override`.",
  "Instants at microsecond grain, years 1000 on; Unix-based letters to 2038; Julian dates at 1/32 day so the decimals are exact. Mixed scanning of civil dates is checked only with year, month and day together.")

P("C07", "Broadcast ephemeris stores return the set a receiver would use, or refuse",
  "After any history of adds, edits, clears and rationalizations, a store (GPS, Galileo, BeiDou, QZSS) holds, per satellite, exactly the admitted sets in order of validity, one copy of each transmission of a set (the earliest), whatever the order they came in. "
  "A lookup in user mode gives the most recently broadcast set valid at that time, in nearest mode the valid neighbour nearer in reference time; when there is none it raises InvalidRequest and never returns another satellite's, an unhealthy (when only healthy sets are wanted) or an expired set. "
  "Position, health, presence, counts, lists and time limits agree with the stored sets; edit removes exactly what is outside the interval; rationalizing a GPS store ends earlier sets where an upload begins and extends second sets, nothing else.",
  ["inputs", "histories"], "every sequence of add/edit/clear/rationalize/lookup calls, order of arrival, satellite and lookup time",
  "Tests load one or two RINEX files in order and look up a few times; out-of-order arrival, retransmissions, uploads and boundaries combine freely.",
  ["core/lib/GNSSEph/OrbitEphStore.cpp", "core/lib/GNSSEph/OrbitEphStore.hpp", "core/lib/GNSSEph/GPSEphemerisStore.cpp", "ext/lib/GNSSEph/BDSEphemerisStore.cpp", "ext/lib/GNSSEph/GalEphemerisStore.cpp", "ext/lib/GNSSEph/QZSEphemerisStore.cpp"],
  [("adding a set and its duplicates", GE + "OrbitEphStore.cpp"), ("user and nearest lookup", GE + "OrbitEphStore.cpp"), ("rationalize", GE + "GPSEphemerisStore.cpp")],
  "`EphStore.tla` defines the tables, both lookups, edit and rationalize; `EphStoreMC` explores every order of adding sets and checks that the table is independent of order and both lookups against their definitions over the set of broadcasts; `EphRatMC` checks uploads. The driver feeds real ephemerides (realistic broadcast cycles with uploads, and small dense worlds) to each store in random orders and looks up around every boundary; `EphStoreTrace` computes each answer and whole tables.",
  "Ephemerides at 6 s grain; one end of validity per reference time; a rationalize that would move one set onto another's key ends the history.")

P("C08", "The orbit-element store finds elements by validity, else the nearest",
  "After any history of adds, edits, clears and rationalizations the store holds, per satellite, the admitted element sets ordered by begin of validity, one copy per transmission (the earliest); elements of a system it does not carry are refused and leave no trace. "
  "findOrbElem gives the latest set whose validity covers the time, findNearOrbElem that set or else the one nearest in time, findToe the set of that reference time; otherwise InvalidRequest. Position, health, listings, maps and limits agree with the tables, and rationalize adjusts validity only at uploads, also across week boundaries.",
  ["inputs", "histories"], "every sequence of calls, order of arrival, satellite, system and time",
  "Tests use one fixed data set per function; order of arrival, duplicates and week boundaries multiply.",
  [GE + "OrbElemStore.cpp", GE + "OrbElemStore.hpp", GE + "OrbElem.cpp", GE + "OrbElemBase.cpp"],
  [("adding elements", GE + "OrbElemStore.cpp"), ("lookups", GE + "OrbElemStore.cpp"), ("rationalize", GE + "OrbElemStore.cpp")],
  "`OrbElem.tla` extends `EphStore.tla` with this store's sameness, fallback and system rules; `OrbElemMC` explores all insertion orders of a small world. The driver adds elements through a minimal OrbElem subclass in random order; `OrbElemTrace` predicts tables, lookups and exceptions.",
  "6 s grain; rationalize that would move one set onto another ends the history.")

P("C09", "The GLONASS ephemeris store answers from the record in force, within its span",
  "After any history of adds, edits and clears the store holds one record per satellite and epoch (the last given), only healthy ones when so configured. A lookup uses the coming record when within 15 minutes, otherwise the last one before if still within 15 minutes, and raises InvalidRequest otherwise, for unknown satellites and for times of another time system; health, position, listings and time limits agree with the records held.",
  ["inputs", "histories"], "every sequence of add/edit/clear/lookup calls",
  "Tests use one file and a few epochs; spacing, boundaries and health settings are not covered.",
  [GE + "GloEphemerisStore.cpp", GE + "GloEphemerisStore.hpp"],
  [("adding and editing", GE + "GloEphemerisStore.cpp"), ("choice of record", GE + "GloEphemerisStore.cpp")],
  "`GloStore.tla` defines tables and the choice of record; `GloStoreMC` explores small stores and checks the choice against its definition over all records. `GloStoreTrace` checks recorded histories of the real store.",
  "At exactly 900 s after an epoch either answer is accepted; orbit integration accuracy is not checked here.")

P("C10", "Position and clock tables answer from the right neighbours, within limits",
  "After any history of adding whole records or single quantities, editing and clearing, a table of positions or clocks holds for each satellite and time the values last given. A lookup between entries uses the window of entries centred on the time; it raises InvalidRequest for unknown satellites, other time systems, too few entries on either side, gaps and windows wider than allowed - also among the first entries - and otherwise returns at an entry that entry's values and between entries values that reproduce data lying on a line, with velocities, drifts and accelerations taken from the stored ones or from the slope of the lower quantity. Counts, listings, limits and the nominal time step agree with the tables.",
  ["inputs", "histories"], "every sequence of add/edit/clear/configure/lookup calls and every table shape",
  "Tests use two SP3 files; near-end times, gaps, short tables, single-quantity tables and their combinations are not sampled.",
  [GE + "TabularSatStore.hpp", GE + "PositionSatStore.cpp", GE + "ClockSatStore.cpp"],
  [("window search", GE + "TabularSatStore.hpp"), ("interpolation", GE + "PositionSatStore.cpp"), ("clocks", GE + "ClockSatStore.cpp")],
  "`TabStore.tla` defines tables, centred and off-centre windows, gap and width limits, and values where the data are linear; `TabStoreMC` explores all small tables and shows that the windows are what their description says. `TabStoreTrace` validates recorded histories of PositionSatStore and ClockSatStore.",
  "Interpolated values are compared where the window's data lie on a line, and at entries.")

P("C11", "Loading SP3 and RINEX clock files stores exactly the files' records",
  "Whatever the sequence of files, rejection settings and clock source, the position and clock tables hold for each satellite and epoch exactly the record of the last accepted file that has it: position, velocity, clock, drift and their sigmas from the P, V, EP and EV lines of that satellite only, converted to the documented units, without records rejected as bad or predicted; the last record of a file counts like every other, with or without an EOF line. A file of another time system, or loaded before, is refused and changes nothing; listings, limits, file counts and getXvt in metres and seconds agree with the tables.",
  ["inputs", "histories"], "every sequence of files (SP3 a-d, RINEX clock) and settings",
  "Tests load a few complete files; missing correlation records, rejected records, source changes and file ends combine in ways they do not cover.",
  [GE + "SP3EphemerisStore.cpp", "core/lib/FileHandling/SP3/SP3Data.cpp", "core/lib/FileHandling/SP3/SP3Header.cpp"],
  [("assembling records", GE + "SP3EphemerisStore.cpp"), ("reading lines", "core/lib/FileHandling/SP3/SP3Data.cpp")],
  "`Sp3Load.tla` is the reading machine (epoch, record being assembled, tables); `Sp3LoadMC` shows for all short files and all settings that its result is the declarative meaning of the file. `Sp3LoadTrace` checks histories in which the driver writes files, loads them and dumps the store.",
  "Files with lines in the order of the format; errors in the middle of a file are left to the file-stream property.")

FH = "core/lib/FileHandling/"
P("C12", "RINEX 3 observation files give back what was written, record by record",
  "A RINEX 3 observation header and its observation and event records, written and read again, give every field to the digits and characters the format keeps (explicit zeros, blanks, missing values, continuation lines of any length, all versions 3.00-3.04), records with nothing to write leave nothing, and writing what was read gives the same text. Every line has its label or columns as the format says; a header without a required record is refused. "
  "A record that cannot be read makes the read fail and leaves the stream where it was, however often it is repeated, and the record count counts successful reads.",
  ["inputs", "histories"], "every header, every sequence of records, and every place at which a file is damaged or cut",
  "Tests compare a few sample files; combinations of optional records, continuation counts, digits and damage are not sampled.",
  [FH + "RINEX3/Rinex3ObsHeader.cpp", FH + "RINEX3/Rinex3ObsData.cpp", FH + "RINEX3/RinexDatum.cpp", FH + "FFStream.cpp", FH + "FFTextStream.cpp"],
  [("header records", FH + "RINEX3/Rinex3ObsHeader.cpp"), ("data and event records", FH + "RINEX3/Rinex3ObsData.cpp"), ("failed reads", FH + "FFStream.cpp")],
  "`RecText.tla` says what decimals, exponents and strings survive fixed columns, `RecFile.tla` is a file of records behind a stream (put, open, damage, get), `Obs3.tla` the record layouts; `RecTextMC` and `RecFileMC` explore them. `Obs3Trace` checks histories: headers and records generated at random, the text each produced, the records read back, reads repeated at damaged records, and the second-generation text.",
  "Antenna and phase-shift fields within their columns; files of system S or I name a time system.")
P("C13", "RINEX navigation files of versions 2 and 3 give back what was written",
  "A RINEX navigation header and its records (GPS, GLONASS, Galileo, BeiDou, QZSS, SBAS in version 3; GPS, GLONASS, SBAS in version 2; through Rinex3Nav* and RinexNav* classes alike), written and read again, give every field to the digits the format keeps, in the columns, units and signs the format says, and writing what was read gives the same text. "
  "The week of transmission is the one within half a week of Toe however the file states the time; header records may come in any order, exponents in any letter, seconds may be 60; a header read into a used object has nothing of the old one. A record that cannot be read makes the read fail and leaves the stream where it was.",
  ["inputs", "histories"], "every header, every sequence of records, and every place at which a file is damaged or cut",
  "Tests compare a few sample files; week boundaries, systems, optional records, order and damage are not sampled.",
  [FH + "RINEX3/Rinex3NavHeader.cpp", FH + "RINEX3/Rinex3NavData.cpp", FH + "RINEX/RinexNavHeader.cpp", FH + "RINEX/RinexNavData.cpp", FH + "FFStream.cpp", "core/lib/Utilities/FormattedDouble.cpp"],
  [("header records", FH + "RINEX3/Rinex3NavHeader.cpp"), ("records and weeks", FH + "RINEX3/Rinex3NavData.cpp"), ("version 2 records", FH + "RINEX/RinexNavData.cpp"), ("failed reads", FH + "FFStream.cpp")],
  "`RnxNav.tla` has the layout of each system's record and header record, and the two statements of transmission time; `RnxNavMC` explores the week arithmetic, `RecTextMC` and `RecFileMC` text and files. `RnxNavTrace` checks histories: random headers and records, the text written, what both families of classes read from it, from the same file as another writer would put it, and from damaged files.",
  "No IRNSS records, no version 2 written at 2.0 by Rinex3Nav classes; exponents of two digits.")
P("C14", "Ephemerides made from RINEX records keep their epochs, validity and elements",
  "Turning a RINEX navigation record (version 2 or 3; GPS, Galileo, BeiDou, QZSS, GLONASS) into an ephemeris object puts Toc, Toe and the time of transmission into the right week, also when they lie on both sides of a week rollover; the satellite, its health, accuracy and every element are those of the record; the interval of validity follows the rules of its system (fit interval from IODC and flag for GPS) and isValid() says exactly whether a time is in it. "
  "Turning the object back gives the record, and converting again changes nothing. A record of one system is not accepted as an ephemeris of another. The older EngEphemeris agrees on epochs and fit interval.",
  ["inputs"], "every record: all positions of Toc, Toe and transmission in the week, all IODC, fit intervals, health and accuracy values",
  "Tests convert a few records from the middle of a week with the default fit interval.",
  [FH + "RINEX3/Rinex3NavData.cpp", FH + "RINEX/RinexNavData.cpp", GE + "GPSEphemeris.cpp", GE + "GalEphemeris.cpp", GE + "BDSEphemeris.cpp", GE + "QZSEphemeris.cpp", GE + "EngEphemeris.cpp"],
  [("conversions", FH + "RINEX3/Rinex3NavData.cpp"), ("GPS validity", GE + "GPSEphemeris.cpp"), ("old GPS class", GE + "EngEphemeris.cpp")],
  "`EphConv.tla` is the conversion both ways: epochs by the half-week rule, the fit interval table, the start and end of validity of each system, health bits and URA classes. `EphConvMC` explores records around the rollover (round trip, idempotence, non-empty validity, shift invariance). `EphConvTrace` checks random records converted by the code, the objects' isValid() at and around the limits, and the records made back.",
  "Galileo health is derived, so the bits of the record are not demanded back; whole seconds.")

P("C15", "GPS LNAV subframes: parity, paging, page layouts and truncated weeks",
  "Parity of a 30-bit word is that of IS-GPS-200 for upright and for inverted data; fixParity gives the word its parity, and solves the two non-information bits so that the next word starts from zeros; a subframe passes checkParity exactly when all ten words do. The subframe and page of a TOW count, the page of an SV/page identifier and the format of a subframe are those of the interface specification. "
  "subframeConvert puts every field of the ten formats, with its sign, scale and split parts, in its output, and completes a truncated week to the nearest full one. An EngEphemeris or EngAlmanac that collected subframes in any order reports the values of the latest of each kind, refuses what was not received, and puts Toe, Toc, Toa and the NMCT validity in the right week.",
  ["inputs", "histories"], "every word, previous word, subframe bit pattern, week and order of arrival",
  "Tests decode a few recorded subframes; layout errors in rarely transmitted pages, sign extension, inverted words and week boundaries are not reached.",
  [GE + "EngNav.cpp", GE + "EngEphemeris.cpp", GE + "EngAlmanac.cpp", GE + "AlmOrbit.cpp"],
  [("parity, paging, layouts", GE + "EngNav.cpp"), ("collecting an ephemeris", GE + "EngEphemeris.cpp"), ("collecting an almanac", GE + "EngAlmanac.cpp")],
  "`LNav.tla` states the code, the paging rule, the layouts as a table and the collections. `LNavMC` runs the broadcast through a whole week (paging follows the count, with its reset) and proves by enumeration that every error of up to three bits (the two carried-over bits included) is noticed, that the closing words can always be completed, that layout parts are disjoint and avoid parity bits, and that week completion is the nearest. `LNavTrace` checks words, subframes, histories of added subframes and pages executed by the code; a decoded number is compared through its exact binary mantissa.",
  "Numbers carrying powers of pi are compared to 40 bits. A Toe or Toc past the end of the week, or a fit flag with an unassigned IODC, is refused by the code and not generated.")

P("C16", "Packed navigation messages behave as the sequence of bits packed into them",
  "A PackedNavBits is the sequence of bits packed so far, of any length, with its metadata. Packing an integer, scaled number, angle or text appends exactly its field (truncated division, rounding to the nearest, two's complement) or throws InvalidParameter when it does not fit and changes nothing; reading any range, in one part or split, signed, unsigned or sign-magnitude, gives the number those bits stand for or throws when the range is not in the message. "
  "Appending, overwriting, inverting, backing up, trimming, clearing, copying and raw input do what they say for the content and keep the metadata; trimming, copying and cloning change nothing observable. Equality, matching of ranges and of chosen metadata, and the order (shorter first, then the first differing bit) depend on content and metadata only; hexadecimal output is the content.",
  ["inputs", "histories"], "every sequence of packing, editing, copying and reading operations, every field width, value and scale",
  "Tests pack a few fields into a fresh object and compare trimmed ones; writing to a copied or trimmed message, widths near 64 bits, comparisons of untrimmed messages and failing calls are not reached.",
  [GE + "PackedNavBits.cpp", GE + "PackedNavBits.hpp"],
  [("packing, reading, comparing, output", GE + "PackedNavBits.cpp")],
  "`NavBits.tla` defines fields, division, rounding, sign extension, overwriting, matching, ordering and hexadecimal words on strings of bits (numbers are 64-bit strings, so there is no width limit). `NavBitsMC` explores a message under construction (every field reads back as last written) and proves by enumeration that the order is strict weak and that the arithmetic on bit strings is the arithmetic of integers. `NavBitsTrace` checks long random histories of four interacting messages: content, metadata and exception after every operation.",
  "After a refused addString or rawBitInput the characters or words before the offending one may be present; values read as floating point have at most 50 bits.")

P("C17", "Names of satellites, signals and messages are read as written",
  "Every enumerated name (systems, bands, codes, observation types, messages, frames, time systems) belongs to one value and is read as that value; no other string is. A satellite written in RINEX or SP3 form has the character of its system and the number the format has for it (SBAS less 100, QZSS 193 on from 1, RINEX QZSS 183 to 192 from 83, the absent number as -1), and reading the text, in any letter case and spacing, gives the satellite; systems the format lacks are invalid. Satellites are totally ordered by system, then number. "
  "A RINEX 3 code of a system is valid iff it is in the table of that system; it stands for the band, code and type of the table, and is written and read again in any version as the same signal, BeiDou's 1561 MHz band by its 3.02 name in that version. Observation identifiers match with wildcards, are ordered by band, code and type, and each signal carries the message its system defines on it.",
  ["inputs", "histories"], "every name, satellite number, system character, and every combination of system, type, band, attribute and version",
  "Tests list examples; the tables and the two-way conversions have some 3000 combinations, with kludges on single codes, numbers and versions.",
  ["core/lib/GNSSCore/RinexSatID.cpp", GE + "SP3SatID.cpp", "core/lib/GNSSCore/RinexObsID.cpp", "core/lib/GNSSCore/RinexObsID_Generated.cpp", "core/lib/GNSSCore/ObsID.cpp", GE + "NavID.cpp"],
  [("satellite text forms", "core/lib/GNSSCore/RinexSatID.cpp"), ("code tables", "core/lib/GNSSCore/RinexObsID_Generated.cpp"), ("messages", GE + "NavID.cpp")],
  "`Names.tla` is the tables of the formats (systems, observation codes with band and code, messages), the number shown and meant, the renaming of RINEX 3.02, wildcards and orders. `NamesMC` checks on the tables themselves that every text is read as what was written, in every version, and that different things have different texts. `NamesTrace` walks the complete tables and random texts, identifiers and pairs through the code, with a memory of the names and codes met, so that one text never stands for two things.",
  "BeiDou B1C X has no name in RINEX 3.02; SP3 has no text for QZSS numbers below 193; RINEX 'M' (mixed) is read but not written.")
P("C18", "Command lines give programs the options, values and errors that were meant",
  "A command line is taken one option at a time, in order, up to -- or the first word that is no option: letters singly or in clusters, names in full or by their beginning, arguments attached, after = or as the next word. Every option has exactly its occurrences, with their values and places; the words left over are the trailing option's or an error; and there is one error for each word that is not understood and each rule broken (required, greatest number, kind of value, one-of, all-of, n-of, mutually exclusive, dependent), and no other. "
  "A CommandLine also takes words from option files with comments and quotes, skips ignored ones, replaces deprecated ones and splits lists and list files; afterwards each target holds what was given for it, or else what it held before; unknown words are returned; and nothing carries over from one command line to another.",
  ["inputs", "histories"], "every set of options and relations, every sequence of words and option files, one after another in one process",
  "Tests give single well-formed lines; errors come from orders of words, abbreviations, clusters, files in files, and from state left by an earlier line.",
  ["core/lib/CommandLine/CommandOption.cpp", "core/lib/CommandLine/CommandOptionParser.cpp", "core/lib/CommandLine/CommandLine.cpp", "core/lib/CommandLine/CommandLine.hpp"],
  [("option machine", "core/lib/CommandLine/CommandOptionParser.cpp"), ("kinds and relations", "core/lib/CommandLine/CommandOption.cpp"), ("option files and lists", "core/lib/CommandLine/CommandLine.cpp")],
  "`Args.tla` is the machine that takes words (next word, place in a cluster, occurrences, errors) and the judgement of the relations between options; `CmdLine.tla` the machine before it, with the ignoring, file and deprecation states, the matching and the conversion to targets (satellites by `Names.tla`). `ArgsMC` runs the machine on all lines of up to four words of a small alphabet and checks that each word is taken once, that splitting a cluster or attaching an argument changes nothing, and that options after -- are words. `CmdLineTrace` replays random declarations, lines and files, many in one process, and compares counts, values, orders, errors, unknown words, return codes and targets.",
  "Not asked: an abbreviation of several names; options named -? or :; a CommandOptionParser used for a second line (it adds to what it has). The wording of messages is not compared, only their number.")
P("C19", "Text is cut, searched, replaced and formatted as it says",
  "Operations on text do what the text itself determines: stripping removes whole occurrences from the ends, up to the number asked; replacing takes occurrences from left to right, each once; justification keeps the end it says and pads the other; words are the stretches without the delimiter, and counting, picking, removing and splitting them agree with each other; fields in quotes keep their delimiters; a pattern gives its first, longest match; tests for digits, decimals, scientific numbers and letters accept those and nothing else; hexadecimal and decimal texts change into each other and keep what follows. "
  "Numbers are written with the digits, exponent, sign, lead, width and alignment asked, correctly rounded, never with a piece cut off, and are read back as written.",
  ["inputs", "histories"], "every text, every sequence of operations on it, every number and format",
  "Nearly every file format and the command line stand on these functions; the cases that matter are empty texts, no words, counts of none or too many, carries and long exponents.",
  ["core/lib/Utilities/StringUtils.hpp", "core/lib/Utilities/StringUtils.cpp", "core/lib/Utilities/FormattedDouble.cpp"],
  [("text operations", "core/lib/Utilities/StringUtils.hpp"), ("numbers with exponents", "core/lib/Utilities/StringUtils.cpp"), ("numbers as objects", "core/lib/Utilities/FormattedDouble.cpp")],
  "`Text.tla` has one text as its state; operations replace it and questions are answered by the sets of places where occurrences, words and delimiters begin. `TextMC` takes every text of up to five characters of a small alphabet through every operation and checks the laws between them (words and what remains when they are removed, stripping twice, replacing and counting, fields put together and taken apart, lines not too long), and the number formats on exact examples. `TextTrace` replays random sequences of operations on random texts, both forms of each function, patterns, quoted fields, hexadecimal texts, wrapped lines and numbers, with their texts and what they read back as.",
  "Where words() is asked for more words than there are, delimiters at the end may come along. Not asked: replaceAll of an empty text, unbalanced quotes, exponents of FORTRAN texts longer than their field.")
P("C20","A chain of message filters passes or rejects each message once",
  "Every navigation message given to a chain of filters is, by the end, passed on, rejected by one filter, or (an ephemeris subframe) kept as a part of an ephemeris: never lost, passed twice, or passed by a filter that its contents fail. Parity, emptiness, preamble, hand-over word, message type and sanity tests judge by the words; turning messages upright changes exactly the bits it must; votes pass what enough sources agree on; an order filter's output is in order of time and what comes too late is rejected; an ephemeris is complete when its three parts come from one source and frame. "
  "The manager names the filters that rejected something in the last call, at the end as well, and the depth of the chain is what it holds. The same bits are read however a message is kept.",
  ["inputs", "histories"], "every chain of filters, every sequence of messages from any number of sources, late, damaged, inverted or repeated, through the manager or directly, with an end in between",
  "Everything decoded from raw navigation data passes such a chain first; filters that hold messages make the result depend on the history.",
  ["core/lib/NavFilter/NavFilterMgr.cpp", "core/lib/NavFilter/LNavCrossSourceFilter.cpp", "core/lib/NavFilter/LNavOrderFilter.cpp", "core/lib/NavFilter/NavOrderFilter.cpp", "core/lib/NavFilter/LNavEphMaker.cpp", "core/lib/NavFilter/LNavCookFilter.cpp", "core/lib/NavFilter/CNavParityFilter.cpp", "core/lib/NavFilter/CNav2SanityFilter.cpp"],
  [("the chain", "core/lib/NavFilter/NavFilterMgr.cpp"), ("votes", "core/lib/NavFilter/LNavCrossSourceFilter.cpp"), ("order", "core/lib/NavFilter/NavOrderFilter.cpp"), ("ephemerides", "core/lib/NavFilter/LNavEphMaker.cpp"), ("bits as words", "core/lib/NavFilter/NavMsgDataWords.hpp")],
  "`NavFilt.tla` is the chain as a state machine: each filter has a memory (messages held, parts of ephemerides), takes what the one before passed and gives messages and rejections; the end lets them go in turn. `NavFiltMC` runs every chain of up to two filters on every sequence of up to four messages and checks that no message is lost or doubled, order, votes and tests. `NavFiltTrace` replays random chains of the real filters for legacy, civil and second civil messages, through NavFilterMgr and directly, over week ends, with damage, inversion, several receivers, codes and bands, late messages and reuse after the end; parity and the 24-bit check are computed in TLA+.",
  "Contents with equal votes: either may win. Subframes that are a blank almanac page except for a few bits are made so that it is clear whether they are. Messages of one time lie at rising addresses (their order is by address).")

P("C21","Files are found by their specification",
  "A file specification gives every set of values and time one name, and a name gives back each field and the time down to the grain of the fields; a new specification leaves nothing of the one before. "
  "FileSpecFind finds, in any tree of directories, exactly the files whose path fits the specification (fixed texts, widths, digits), whose period begins before the end and not before the period the beginning lies in, and whose fields have values that are asked for: none of a period, year or directory is lost because the search spans several, and no file is found twice. "
  "FileHunter finds exactly the files from the beginning of the first chunk to the end, that pass every filter, in order of the fields of the file name, ascending or descending. Sorting keeps all files, in the order of the kinds of fields, those alike as they came, whatever their directories, and of files that differ in version only the latest.",
  ["inputs", "histories"], "every specification of fixed-width fields over up to four levels, every tree of files that fit, nearly fit or do not, every span of times and every filter",
  "Processing selects its input this way; a file that is missed or taken by mistake goes unnoticed, and what is found depends on the whole tree and on where years, weeks and days turn.",
  ["core/lib/FileDirProc/FileSpec.cpp", "core/lib/FileDirProc/FileSpecFind.cpp", "core/lib/FileDirProc/FileHunter.cpp", "core/lib/TimeHandling/TimeString.cpp"],
  [("names and fields", "core/lib/FileDirProc/FileSpec.cpp"), ("the descent", "core/lib/FileDirProc/FileSpecFind.cpp"), ("hunting", "core/lib/FileDirProc/FileHunter.cpp"), ("times of names", "core/lib/TimeHandling/TimeString.cpp")],
  "`FileFind.tla` defines names, fields, the times they say and what is found, on top of the calendar and the language of times; `FileFindMC` searches small trees level by level, pruning as one would, and checks that it always ends with what the definition says; `FileSortMC` puts every list of up to three names in order and checks the laws of sorting and of versions. `FileFindTrace` replays random specifications: names printed and read, lists sorted, and trees of real files in a scratch directory (with near misses of every kind) searched by FileSpecFind, with filters or texts, and by FileHunter, with reuse, about turns of years, months and weeks.",
  "Time fields go from coarse to fine down the levels (the search prunes by what is known so far); names hold valid dates and no wildcards; no directory has the name of a file that is looked for. Times of names have no time system of their own, so FileHunter is asked in no particular one. Files of the same fields come in any order from FileHunter.")


P("C22","RINEX 2 observation files say what was put into them",
  "A RINEX 2 observation header or record that is written, however many types, satellites, counts of observations, wavelength factors and auxiliary records it has, becomes the lines and continuation lines of the format, as many as are announced, and reading them gives the header and record again, each value at its place to the digits of the format, with its indicators, epoch (in the right century, up to the turn of minute and century) and clock offset, in whatever way the file was laid out by others: order of the header, blanks for GPS and for zeros, lines without their ends, seconds of 60. "
  "Reading what was read and written again changes nothing. Damage is reported and the records before it stand; a line that is no epoch line is passed over. The RINEX 3 classes read the same file with each type under the code it stands for, and written as version 2 again it holds the same observations and counts.",
  ["inputs", "histories"], "every header and sequence of records with any number of types, satellites and events, in any layout, damaged at any place",
  "Tests read fixed files and compare the text of a copy; continuation lines, events in the midst, mixed systems and damage are decided by how the lines add up.",
  ["core/lib/FileHandling/RINEX/RinexObsHeader.cpp", "core/lib/FileHandling/RINEX/RinexObsData.cpp", "core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp", "core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp"],
  [("header", "core/lib/FileHandling/RINEX/RinexObsHeader.cpp"), ("records", "core/lib/FileHandling/RINEX/RinexObsData.cpp"), ("version 2 in the RINEX 3 classes", "core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp"), ("codes of version 2 types", "core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp")],
  "`Obs2.tla` writes headers and records as lines from lists of fields, with chunks for continuation lines, and says what a reader keeps of each; `Obs2MC` reads every list line by line and checks that it is rebuilt with the announced count and no stall, and that two digits give the year within fifty years of the first observation. `Obs2Trace` replays random files: lines compared in full, read back, written again, in other layouts, damaged, with a reader that goes on after a failure, through the RINEX 3 classes and back (the codes of the types by the rules of the header).",
  "Values are no rounding ties. A lost satellite count, or an observation record without satellites, is not written. Events without a time are passed over by the native reader and have the time of the record before in the RINEX 3 one. BeiDou, QZSS and IRNSS are no part of version 2.")

P("C23","What is in force at a time is what was last given for it",
  "Collections kept by time answer for the time asked. Weather: the observations are those inserted, one for each time, and not removed; the most recent is the last at or before the time; an answer within an interval is the observation at hand, the closer of the two around the time, or lies on the line between them, and there is none only if none is near; the span is that of what is kept, also when all is removed. Ionosphere: the model in force is the last of those valid from a time not after the one asked, a model already in force is not taken again, nothing outside an edited span remains, and with none in force it says so. "
  "Satellites: the number, satellite and block of a NAVSTAR satellite are those of its history at that time, in both directions, unambiguous, available exactly if there are any; descriptions read from one or more files are found by number, by satellite and by slot and channel from their start until before their end, complete, and a line that is wrong is reported and leaves nothing behind.",
  ["inputs", "histories"], "every sequence of insertions, removals, edits and files, every time from before the first to after the last and on every border",
  "Tests ask for one or two times in the midst of a small fixed table; answers are wrong at the borders, after removals, with one entry or none, and after a line that failed.",
  ["core/lib/GNSSCore/WxObsMap.cpp", "core/lib/GNSSCore/IonoModelStore.cpp", "core/lib/GNSSCore/SVNumXRef.cpp", "core/lib/GNSSCore/SatMetaDataStore.cpp"],
  [("weather", "core/lib/GNSSCore/WxObsMap.cpp"), ("ionosphere", "core/lib/GNSSCore/IonoModelStore.cpp"), ("satellite numbers", "core/lib/GNSSCore/SVNumXRef.cpp"), ("descriptions", "core/lib/GNSSCore/SatMetaDataStore.cpp")],
  "`InForce.tla` keeps each collection as a set of records and says what holds at a time; `SvnTable.tla` is the history of the NAVSTAR satellites. `InForceMC` runs every history of up to four additions, removals and edits and checks that what is in force is what was given last (although a model already in force is not kept twice), that what is near lies around the time, and that the table has no clashes. `InForceTrace` replays random histories with times on and beside the borders; the model of the ionosphere that was used is known by its correction; files of descriptions have wrong lines of every kind, in every order, and several are loaded one after another.",
  "A model that was refused because it was in force does not come back when another is inserted between. Before the first observation the most recent is the first. Observations have all three values; lines have no empty columns. A description may overlap another: either is found.")
P("C24","A BINEX record written in any form reads back, and nothing else does",
  "Both variable-length integers take the least number of bytes, in either byte order, come back as they were, with the number of bytes they took, from a buffer and from a stream, and refuse what they cannot hold and bytes that end early; \"no value\" is one byte and stays no value. Data of every kind put into a message at an offset replaces what is there, extends the message at its end, moves the offset past it, and is found again at that offset; what would lie outside is refused and moves nothing. "
  "A record in each of its eight forms is written as sync byte, identifier, length, message, check value over all of these (exclusive or, CRC-16 or CRC-32 by its form and length) and, if reverse-readable, reversed length and second sync byte; the sizes it reports are those written. A stream of records gives the same records in order, counted, forward or from its last byte backward, then its end; cut or damaged bytes give the whole records before them, then an error that leaves the stream before the bad record, and never a record that was not written.",
  ["inputs", "histories"], "every integer, every sequence of updates and extractions, every record below one mebibyte in each form, every sequence of records, every cut and damaged byte",
  "Tests write some forty values big endian and read a file of short records forward; other byte orders, lengths where the form changes, reverse-readable records and damage are never read.",
  ["core/lib/FileHandling/Binex/BinexData.cpp", "core/lib/FileHandling/Binex/BinexData.hpp", "core/lib/FileHandling/Binex/BinexStream.hpp", "core/lib/Utilities/BinUtils.hpp"],
  [("integers, buffers and records", "core/lib/FileHandling/Binex/BinexData.cpp"), ("check values", "core/lib/Utilities/BinUtils.hpp")],
  "`Binex.tla` gives both integers byte by byte (magnitudes in base 2^24), the three check values, the bytes of a record, and what reading any bytes at all gives, forward and backward. `BinexMC` writes every pair of records from a set with identifiers and messages at every change of length and checks that they read back from both ends, that a stream cut anywhere gives the whole records only and that no damaged byte of a message or check value passes; the integers are decoded around every change of size, and the check values match the published ones. `BinexTrace` replays random integers, updates, extractions, records (lengths around 128, 4096 and 16384), streams read by getRecord with and without exceptions and by BinexStream, and cut and damaged copies whose reading the specification computes.",
  "Messages of a mebibyte or more need MD5, which the code does not have. The bytes of MGFZI cannot be read from reversed bytes, whose first byte does not tell their number; one extracted from an empty message says so by its size. A damaged byte of a length may by chance make another valid record: the specification reads it as the code must.")
