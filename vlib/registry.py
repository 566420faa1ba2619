from .check import Check, Part, MC

CHECKS = {}


def add(pid, *a, **k):
    CHECKS[pid] = Check(pid, *a, **k)


add("C01",
    [Part("c01", "CommonTimeTrace", quick=5000, thorough=150000)],
    [MC("CommonTimeMC")],
    ["double arithmetic is compared to the exact instant within 2 ns (1 ms for spans over 2e5 s)"])

add("C02",
    [Part("c02", "CalendarTrace", quick=5000, thorough=100000)],
    [MC("CalendarMC", tiers=("quick",)), MC("CalendarMC", "CalendarMCFull.cfg", tiers=("thorough",))],
    ["day-number range 0..3442447, the range the routines document"])

add("C03",
    [Part("c03", "WeeksTrace", quick=5000, thorough=150000)],
    [MC("WeeksMC")],
    ["short weeks are disambiguated only for years in which that short week occurs"])

add("C04",
    [Part("c04", "LeapSecTrace", quick=4000, thorough=100000)],
    [MC("LeapSecMC")],
    ["dates before 1960 and the unsupported QZS conversions are outside the property"])

add("C05",
    [Part("c05", "TimeRangeTrace", quick=4000, thorough=100000)],
    [MC("TimeRangeMC")],
    ["ranges whose end points coincide without both being included are compared only for equality, order and containment"])

add("C06",
    [Part("c06", "TimeTextTrace", quick=6000, thorough=100000)],
    [MC("TimeTextMC")],
    ["years 1000 and later; Unix-based letters up to 2038; 32-bit Z-counts below week 4096"])

add("C07",
    [Part("c07", "EphStoreTrace", quick=4000, thorough=100000)],
    [MC("EphStoreMC"), MC("EphStoreMC", "EphStoreMCNear.cfg"), MC("EphRatMC"), MC("EphStoreMC", "EphStoreMCFull.cfg", tiers=("thorough",))],
    ["one end of validity per reference time; store-wide limits are unspecified between edit() and the next clear()/rationalize()",
     "a rationalize() that would move one set onto the time of another ends the checked history"])

add("C08",
    [Part("c08", "OrbElemTrace", quick=4000, thorough=100000)],
    [MC("OrbElemMC")],
    ["after clear() only the same satellite system is added again; rationalize() that would move one set onto another ends the checked history"])

add("C09",
    [Part("c09", "GloStoreTrace", quick=4000, thorough=60000)],
    [MC("GloStoreMC")],
    ["at exactly 900 s after a record's epoch, with no later record near enough, either answer is accepted"])

add("C10",
    [Part("c10", "TabStoreTrace", quick=4000, thorough=80000)],
    [MC("TabStoreMC")],
    ["interpolated values are compared where the data in the window lie on a line, and at table entries; the order is at least 4 except for linear clocks"])

add("C11",
    [Part("c11", "Sp3LoadTrace", quick=3000, thorough=60000)],
    [MC("Sp3LoadMC"), MC("Sp3LoadMC", "Sp3LoadMCFull.cfg", tiers=("thorough",))],
    ["files in the order P, EP, V, EV of the format; errors in the middle of a file are C18's"])

add("C12",
    [Part("c12", "Obs3Trace", quick=2500, thorough=40000)],
    [MC("RecTextMC"), MC("RecFileMC")],
    ["seconds are written with 7 decimals; header strings are kept to their column width; a scale factor or phase shift applies to all the codes of its record"])

add("C13",
    [Part("c13", "RnxNavTrace", quick=2500, thorough=40000)],
    [MC("RnxNavMC"), MC("RecTextMC"), MC("RecFileMC")],
    ["values with two-digit exponents; a header's flags agree with its correction tables; version 2 seconds in tenths, version 3 whole seconds"])

add("C14",
    [Part("c14", "EphConvTrace", quick=4000, thorough=400000)],
    [MC("EphConvMC")],
    ["epochs in whole seconds; orbit epoch and transmission within half a week of the clock epoch; the old EngEphemeris with fit intervals in hours"])

add("C15",
    [Part("c15", "LNavTrace", quick=4000, thorough=200000)],
    [MC("LNavMC")],
    ["full weeks from 1100; day number of the leap second at most 7; words are 30 bits"])

add("C16",
    [Part("c16", "NavBitsTrace", quick=6000, thorough=500000)],
    [MC("NavBitsMC")],
    ["fields of 1 to 64 bits; values read as floating point have at most 50 bits; ranges given to copyBits lie in the message"])

add("C17",
    [Part("c17", "NamesTrace", quick=8000, thorough=400000)],
    [MC("NamesMC")],
    ["satellite numbers of 1 to 99 (QZSS 183 to 202, SBAS 101 to 199) and the absent number; observation codes of letters and the digits 1 to 9"])

add("C18",
    [Part("c18", "CmdLineTrace", quick=3000, thorough=120000)],
    [MC("ArgsMC")],
    ["abbreviations of long names fit one option; letters and names of options are graphic characters other than : ; ? W"])

add("C19",
    [Part("c19", "TextTrace", quick=8000, thorough=400000)],
    [MC("TextMC")],
    ["texts of up to 40 graphic characters; patterns of characters, any character, and repetition; numbers of at most 15 digits that are no rounding ties"])

add("C20",
    [Part("c20", "NavFiltTrace", quick=2000, thorough=100000)],
    [MC("NavFiltMC")],
    ["messages of one format per chain, each given once, those of one time at rising addresses; blank legacy almanac pages are clear-cut"])

add("C22",
    [Part("c22", "Obs2Trace", quick=1500, thorough=40000)],
    [MC("Obs2MC"), MC("RecTextMC"), MC("RecFileMC")],
    ["values of at most seven decimals and no rounding ties; the number of satellites of a record agrees with its observations"])

add("C21",
    [Part("c21", "FileFindTrace", quick=3000, thorough=100000)],
    [MC("FileFindMC"), MC("FileSortMC"), MC("FileFindMC", "FileFindMCFull.cfg", tiers=("thorough",))],
    ["fields of a fixed width, the time from coarse to fine down the levels; names are graphic characters without wildcards; names of files hold valid dates"])

add("C23",
    [Part("c23", "InForceTrace", quick=12000, thorough=300000)],
    [MC("InForceMC")],
    ["weather and files have whole seconds; models of the ionosphere are given in any order"])
add("C24", [Part("c24", "BinexTrace", quick=6000, thorough=250000)], [MC("BinexMC"), MC("BinexMC", "BinexMCLong.cfg", tiers=("thorough",))],
    ["messages of a mebibyte or more (MD5 check values, which the code does not compute) are out of scope",
     "MGFZI read from reversed bytes and extracted from an empty message are unspecified"])
