prop("C14", "Legacy GPS navigation subframes decode per IS-GPS-200 with sound parity",
 "For every set of subframe 1-5 contents, decoding the 30-bit words through EngNav, EngEphemeris, EngAlmanac, BrcKeplerOrbit or BrcClockCorrection gives each field the value, scale, sign and position IS-GPS-200 assigns; week numbers extend to the nearest full week and Toe, Toc and the fit interval fall in the right week around week boundaries; valid parity is accepted, any one to three bit errors in a word are detected and fixParity repairs upright and inverted words; page, SV ID and Z-count maps follow table 20-V; absent subframes are refused and no 300-bit pattern causes undefined behaviour.",
 ["inputs", "histories"], "random subframes with boundary values in every field, weeks 1..3000, every order of arrival, random corruptions of 1-3 bits, hostile words",
 "The decoders are table driven and depend on bit patterns, on signs and on week boundaries that the sampled fixtures do not reach.",
 ["core/lib/GNSSEph/EngNav.cpp", "core/lib/GNSSEph/EngEphemeris.cpp", "core/lib/GNSSEph/EngAlmanac.cpp", "core/lib/GNSSEph/BrcKeplerOrbit.cpp", "core/lib/GNSSEph/BrcClockCorrection.cpp"],
 [{"name": "decode table", "where": "EngNav::formats, convertQuant, subframeConvert"}, {"name": "subframe collection", "where": "EngEphemeris::haveSubframe, unifiedConvert, setSF1..3, loadData"}, {"name": "parity", "where": "EngNav::computeParity, fixParity, checkParity"}],
 "random field values encoded by an independent encoder; non-trivial when the words are new", ["parity", "pages", "weeks", "ephemeris", "almanac", "nmct", "hostile"],
 note="Oracle: an independent encoder of IS-GPS-200 subframes and parity (harness/lnav.hpp).")
