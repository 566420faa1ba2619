SPECIFICATION Spec
CONSTANTS MaxN = 40
 Years = {1980, 1994, 1999, 2000, 2001, 2019, 2049, 2050, 2051, 2079, 2099}
INVARIANTS Rebuilt Count NoStall Century
CHECK_DEADLOCK FALSE
