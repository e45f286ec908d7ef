prop("C29", "Corrected ranges, range deviations and receiver clocks follow the geometry",
 "The corrected ephemeris range - at receive time, at transmit time with or without a pseudorange, or at satellite time - is the distance the signal travels from the satellite at transmission to the receiver, whatever coordinate system the receiver is given in, less the satellite clock and relativity; its direction cosines, azimuth, elevation, satellite state and transmit time belong to it, and the ord functions agree. An observed range deviation is the observation less that range, troposphere and ionosphere, with the health and IODC of the ephemeris used. The receiver clock of an epoch is the mean deviation of exactly the satellites that its modes, health, elevation mask, flags and sigma stripping admit, each reported with its status; the linear model is the least-squares line through the last half hour; models are valid only for times and counts they cover.",
 ["inputs", "history"], "random receivers, satellites, clocks, observations, epochs, modes, masks and outliers",
 "Tests compare two copies of the same code, use toy geometry and a single regression value; large satellite clocks, receivers in other coordinate systems, mixed status and reset paths are not exercised.",
 ["core/lib/GNSSEph/EphemerisRange.cpp", "core/lib/GNSSEph/EphemerisRange.hpp", "core/lib/GNSSCore/Xvt.cpp", "core/lib/ORD/ord.cpp", "core/lib/ORD/ord.hpp", "core/lib/ClockModel/ObsRngDev.cpp", "core/lib/ClockModel/ObsRngDev.hpp", "core/lib/ClockModel/ObsClockModel.cpp", "core/lib/ClockModel/ObsClockModel.hpp", "core/lib/ClockModel/LinearClockModel.cpp", "core/lib/ClockModel/LinearClockModel.hpp", "core/lib/ClockModel/EpochClockModel.hpp", "core/lib/ClockModel/ORDEpoch.hpp", "core/lib/ClockModel/ObsEpochMap.cpp"],
 [{"name": "ranges", "where": "CorrectedEphemerisRange, Xvt, ord::RawRange1-4"}, {"name": "deviations", "where": "ObsRngDev, ord corrections"}, {"name": "clocks", "where": "ObsClockModel, EpochClockModel, LinearClockModel, ORDEpoch"}],
 "random scenes; non-trivial when new", ["range", "ordcalc", "gps", "clock", "linear"],
 note="Oracle: iterated light-time solution with rotation of the Earth (agreement to millimetres, the order of the library's approximations), reference selection and long-double least squares.")
