------------------------------ MODULE SvnTable -----------------------------
(* The NAVSTAR satellites: which number of the code each had, from when until *)
(* when (days, tenths of seconds), and its block.                            *)
Assigned == <<
  <<1, 4, <<2443562, 0>>, <<2446264, 630000>>>>,
  <<2, 7, <<2443673, 0>>, <<2447204, 863999>>>>,
  <<3, 6, <<2443788, 0>>, <<2448761, 852600>>>>,
  <<4, 8, <<2443853, 0>>, <<2448043, 863999>>>>,
  <<5, 5, <<2444279, 0>>, <<2445832, 863999>>>>,
  <<6, 9, <<2444356, 0>>, <<2448322, 133200>>>>,
  <<8, 11, <<2445530, 0>>, <<2449112, 12000>>>>,
  <<9, 13, <<2445865, 0>>, <<2449112, 658200>>>>,
  <<10, 12, <<2445952, 0>>, <<2450169, 863999>>>>,
  <<11, 3, <<2446369, 0>>, <<2449457, 756000>>>>,
  <<13, 2, <<2447688, 0>>, <<2453138, 612600>>>>,
  <<14, 14, <<2447572, 0>>, <<2451649, 496200>>>>,
  <<15, 15, <<2448166, 0>>, <<2454175, 863999>>>>,
  <<16, 16, <<2447757, 0>>, <<2451831, 27000>>>>,
  <<17, 17, <<2447872, 0>>, <<2453425, 792000>>>>,
  <<18, 18, <<2447916, 0>>, <<2451775, 277200>>>>,
  <<19, 19, <<2447821, 0>>, <<2452164, 792000>>>>,
  <<20, 20, <<2447977, 0>>, <<2450431, 863999>>>>,
  <<21, 21, <<2448106, 0>>, <<2452667, 792000>>>>,
  <<22, 22, <<2449022, 0>>, <<2452858, 792000>>>>,
  <<23, 23, <<2448222, 0>>, <<2453049, 792000>>>>,
  <<23, 32, <<2454071, 0>>, <<2457413, 720000>>>>,
  <<24, 24, <<2448442, 0>>, <<2455835, 863999>>>>,
  <<25, 25, <<2448676, 0>>, <<2455184, 808800>>>>,
  <<26, 26, <<2448811, 0>>, <<2457043, 863999>>>>,
  <<27, 27, <<2448875, 0>>, <<2455784, 863999>>>>,
  <<27, 27, <<2455912, 814800>>, <<2456207, 863999>>>>,
  <<27, 30, <<2456630, 0>>, <<2456644, 863999>>>>,
  <<27, 26, <<2457080, 0>>, <<2457098, 863999>>>>,
  <<28, 28, <<2448723, 0>>, <<2450676, 863999>>>>,
  <<29, 29, <<2448975, 0>>, <<2454397, 863999>>>>,
  <<30, 30, <<2450339, 0>>, <<2455778, 863999>>>>,
  <<31, 31, <<2449077, 0>>, <<2453668, 863999>>>>,
  <<32, 1, <<2448949, 0>>, <<2454543, 792000>>>>,
  <<32, 24, <<2456001, 0>>, <<2456042, 863999>>>>,
  <<32, 30, <<2456527, 0>>, <<2456554, 863999>>>>,
  <<32, 26, <<2457059, 0>>, <<2457078, 863999>>>>,
  <<33, 3, <<2450171, 0>>, <<2456888, 863999>>>>,
  <<34, 4, <<2449287, 0>>, <<2457336, 792000>>>>,
  <<34, 4, <<2457732, 0>>, <<2457757, 576000>>>>,
  <<34, 18, <<2458186, 0>>, <<2458918, 792000>>>>,
  <<35, 5, <<2449230, 0>>, <<2454917, 738600>>>>,
  <<35, 1, <<2455714, 0>>, <<2455755, 863999>>>>,
  <<35, 30, <<2455780, 720000>>, <<2456414, 792000>>>>,
  <<35, 30, <<2456415, 0>>, <<2456419, 792000>>>>,
  <<35, 3, <<2456906, 0>>, <<2456953, 0>>>>,
  <<36, 6, <<2449787, 0>>, <<2456720, 863999>>>>,
  <<36, 10, <<2457282, 0>>, <<2457322, 863999>>>>,
  <<36, 4, <<2457950, 0>>, <<2458087, 863999>>>>,
  <<36, 4, <<2458402, 0>>, <<2458487, 863999>>>>,
  <<36, 4, <<2458683, 0>>, <<2458764, 863999>>>>,
  <<37, 7, <<2449121, 0>>, <<2454302, 863999>>>>,
  <<37, 1, <<2454763, 0>>, <<2454838, 863999>>>>,
  <<37, 24, <<2456043, 0>>, <<2456147, 863999>>>>,
  <<37, 30, <<2456555, 0>>, <<2456629, 863999>>>>,
  <<38, 8, <<2450759, 0>>, <<2457126, 863999>>>>,
  <<38, 4, <<2457887, 0>>, <<2457949, 863999>>>>,
  <<39, 9, <<2449165, 0>>, <<2456805, 863999>>>>,
  <<39, 9, <<2456822, 0>>, <<2456871, 863999>>>>,
  <<40, 10, <<2450281, 0>>, <<2457238, 863999>>>>,
  <<41, 14, <<2451859, 0>>, <<2459058, 576000>>>>,
  <<43, 13, <<2450653, 0>>, <<3442448, 0>>>>,
  <<44, 28, <<2451742, 0>>, <<3442448, 0>>>>,
  <<45, 21, <<2452730, 0>>, <<3442448, 0>>>>,
  <<46, 11, <<2451459, 0>>, <<3442448, 0>>>>,
  <<47, 22, <<2452995, 0>>, <<3442448, 0>>>>,
  <<48, 7, <<2454541, 0>>, <<3442448, 0>>>>,
  <<49, 1, <<2454915, 0>>, <<2455688, 576000>>>>,
  <<49, 24, <<2455959, 0>>, <<2456000, 863999>>>>,
  <<49, 24, <<2456148, 0>>, <<2456162, 863999>>>>,
  <<49, 27, <<2456219, 0>>, <<2456293, 863999>>>>,
  <<49, 27, <<2456379, 0>>, <<2456422, 602999>>>>,
  <<49, 30, <<2456422, 603000>>, <<2456526, 863999>>>>,
  <<49, 30, <<2456645, 0>>, <<2456709, 863400>>>>,
  <<49, 6, <<2456751, 0>>, <<2456793, 863999>>>>,
  <<49, 8, <<2457143, 0>>, <<2457205, 576000>>>>,
  <<49, 4, <<2457423, 0>>, <<2457728, 546000>>>>,
  <<49, 4, <<2457759, 0>>, <<2457886, 863999>>>>,
  <<49, 4, <<2458089, 0>>, <<2458390, 863999>>>>,
  <<50, 5, <<2455071, 0>>, <<3442448, 0>>>>,
  <<51, 20, <<2451676, 0>>, <<3442448, 0>>>>,
  <<52, 31, <<2454004, 0>>, <<3442448, 0>>>>,
  <<53, 17, <<2453640, 0>>, <<3442448, 0>>>>,
  <<54, 18, <<2451940, 0>>, <<2458183, 792000>>>>,
  <<55, 15, <<2454391, 0>>, <<3442448, 0>>>>,
  <<56, 16, <<2452669, 0>>, <<3442448, 0>>>>,
  <<57, 29, <<2454456, 0>>, <<3442448, 0>>>>,
  <<58, 12, <<2454057, 0>>, <<3442448, 0>>>>,
  <<59, 19, <<2453085, 0>>, <<3442448, 0>>>>,
  <<60, 23, <<2453180, 0>>, <<2459010, 647999>>>>,
  <<61, 2, <<2453163, 0>>, <<3442448, 0>>>>,
  <<62, 25, <<2455345, 108000>>, <<3442448, 0>>>>,
  <<63, 1, <<2455763, 345960>>, <<3442448, 0>>>>,
  <<64, 30, <<2456710, 0>>, <<3442448, 0>>>>,
  <<65, 24, <<2456205, 0>>, <<3442448, 0>>>>,
  <<66, 27, <<2456428, 0>>, <<3442448, 0>>>>,
  <<67, 6, <<2456795, 0>>, <<3442448, 0>>>>,
  <<68, 9, <<2456872, 0>>, <<3442448, 0>>>>,
  <<69, 3, <<2456960, 0>>, <<3442448, 0>>>>,
  <<70, 32, <<2457424, 486000>>, <<3442448, 0>>>>,
  <<71, 26, <<2457107, 669600>>, <<3442448, 0>>>>,
  <<72, 8, <<2457219, 0>>, <<3442448, 0>>>>,
  <<73, 10, <<2457327, 589800>>, <<3442448, 0>>>>,
  <<74, 4, <<2458492, 828000>>, <<2458677, 720000>>>>,
  <<74, 4, <<2458778, 720000>>, <<3442448, 0>>>>,
  <<75, 18, <<2458921, 810000>>, <<3442448, 0>>>>,
  <<76, 23, <<2459045, 0>>, <<3442448, 0>>>>,
  <<77, 14, <<2459171, 198000>>, <<3442448, 0>>>> >>
Blocks == <<
  <<1, "Block I">>,
  <<2, "Block I">>,
  <<3, "Block I">>,
  <<4, "Block I">>,
  <<5, "Block I">>,
  <<6, "Block I">>,
  <<8, "Block I">>,
  <<9, "Block I">>,
  <<10, "Block I">>,
  <<11, "Block I">>,
  <<13, "Block II">>,
  <<14, "Block II">>,
  <<15, "Block II">>,
  <<16, "Block II">>,
  <<17, "Block II">>,
  <<18, "Block II">>,
  <<19, "Block II">>,
  <<20, "Block II">>,
  <<21, "Block II">>,
  <<22, "Block IIA">>,
  <<23, "Block IIA">>,
  <<24, "Block IIA">>,
  <<25, "Block IIA">>,
  <<26, "Block IIA">>,
  <<27, "Block IIA">>,
  <<28, "Block IIA">>,
  <<29, "Block IIA">>,
  <<30, "Block IIA">>,
  <<31, "Block IIA">>,
  <<32, "Block IIA">>,
  <<33, "Block IIA">>,
  <<34, "Block IIA">>,
  <<35, "Block IIA">>,
  <<36, "Block IIA">>,
  <<37, "Block IIA">>,
  <<38, "Block IIA">>,
  <<39, "Block IIA">>,
  <<40, "Block IIA">>,
  <<41, "Block IIR">>,
  <<43, "Block IIR">>,
  <<44, "Block IIR">>,
  <<45, "Block IIR">>,
  <<46, "Block IIR">>,
  <<47, "Block IIR">>,
  <<48, "Block IIR_M">>,
  <<49, "Block IIR_M">>,
  <<50, "Block IIR_M">>,
  <<51, "Block IIR">>,
  <<52, "Block IIR_M">>,
  <<53, "Block IIR_M">>,
  <<54, "Block IIR">>,
  <<55, "Block IIR_M">>,
  <<56, "Block IIR">>,
  <<57, "Block IIR_M">>,
  <<58, "Block IIR_M">>,
  <<59, "Block IIR">>,
  <<60, "Block IIR">>,
  <<61, "Block IIR">>,
  <<62, "Block IIF">>,
  <<63, "Block IIF">>,
  <<64, "Block IIF">>,
  <<65, "Block IIF">>,
  <<66, "Block IIF">>,
  <<67, "Block IIF">>,
  <<68, "Block IIF">>,
  <<69, "Block IIF">>,
  <<70, "Block IIF">>,
  <<71, "Block IIF">>,
  <<72, "Block IIF">>,
  <<73, "Block IIF">>,
  <<74, "GPS III">>,
  <<75, "GPS III">>,
  <<76, "GPS III">>,
  <<77, "GPS III">> >>
=============================================================================
