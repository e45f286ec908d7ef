prop("C16", "Ephemeris validity windows, health and URA follow the interface documents",
 "For every broadcast ephemeris (GPS, QZSS, Galileo, BeiDou, any Toe, Toc, transmit time, IODC and fit flag, including week crossings) adjustValidity yields the documented begin and end of validity, isValid is true exactly on the closed window, fit intervals follow the IODC tables, health decodes per system and per signal, unloaded objects are refused, and URA indices map to accuracies and back per the legacy, nominal and CNAV tables with out-of-range indices refused or clamped.",
 ["inputs"], "random and boundary Toe/Toc/transmit times, all IODC values, all health words, accuracies on, next to and between every table entry",
 "The windows decide which ephemeris a position uses; their edges and the week crossings are rarely sampled.",
 ["core/lib/GNSSEph/GPSEphemeris.cpp", "core/lib/GNSSEph/QZSEphemeris.cpp", "core/lib/GNSSEph/BDSEphemeris.cpp", "core/lib/GNSSEph/GalEphemeris.cpp", "core/lib/GNSSEph/OrbitEph.cpp", "core/lib/GNSSEph/GPS_URA.hpp"],
 [{"name": "validity", "where": "adjustValidity, isValid, getFitInterval"}, {"name": "health", "where": "isHealthy, deriveHealth"}, {"name": "URA", "where": "GPS_URA.hpp"}],
 "random ephemeris times and flags; non-trivial when new", ["gps", "others", "ura"],
 note="Oracle: independent arithmetic in total seconds and transcribed tables.")
