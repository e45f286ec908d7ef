prop("C15", "Broadcast orbits evaluate to the ICD position, velocity and clock",
 "For every set of broadcast elements (eccentricity up to 0.5, every angle, harmonic and rate), system (GPS, QZSS, Galileo, BeiDou including its GEO frame) and time, OrbitEph, OrbElem, BDSEphemeris, BrcKeplerOrbit and AlmOrbit return the Earth-fixed position of the interface document to 0.02 mm, the velocity of that document (the derivative at the mean motion in force) to 0.1 um/s, the clock polynomial and its derivative, and the eccentricity relativity term, using the constants of the system; health travels with the position; unloaded objects are refused; data comparison sees every field.",
 ["inputs"], "random elements incl. zero and extreme values, Toe anywhere in weeks 1..3000 incl. week edges, evaluation up to days away",
 "The model has some twenty parameters and a handful of sampled ephemerides exercises few of their signs, sizes and combinations.",
 ["core/lib/GNSSEph/OrbitEph.cpp", "core/lib/GNSSEph/OrbElem.cpp", "core/lib/GNSSEph/BDSEphemeris.cpp", "core/lib/GNSSEph/BrcKeplerOrbit.cpp", "core/lib/GNSSEph/BrcClockCorrection.cpp", "core/lib/GNSSEph/AlmOrbit.cpp"],
 [{"name": "orbit model", "where": "OrbitEph::svXvt, OrbElem::svXvt, BDSEphemeris::svXvt, BrcKeplerOrbit::svXvt, AlmOrbit::svXvt"}, {"name": "clock and relativity", "where": "svClockBias, svClockDrift, svRelativity"}],
 "random element sets and times; non-trivial when new", ["orbiteph", "orbelem", "bdsgeo", "brckep", "alm"],
 note="Oracle: independent long-double evaluation of the interface documents; velocity by high-order differences of that position.")
