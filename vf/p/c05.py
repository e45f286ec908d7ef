prop("C05", "Leap seconds and time-system corrections",
 "For every date from 1972 on the leap-second count equals the IERS history (and is 0 before 1960); for every date and every pair among GPS, GLO, GAL, BDT, IRN, UTC, TAI, TT and TDB the correction to add has the defined offset (TAI=GPS+19, TAI=BDT+33, TT=TAI+32.184, TAI=UTC+leaps, |TDB-TT| < 2 ms by the Astronomical Almanac series), is antisymmetric, composes through any third system and is zero for identical systems; unknown systems are refused. A RINEX time-system correction yields A0+A1(t-tref) (or the constant) with opposite signs in the two directions, refusing other systems. EphTime keeps the instant under addition, casts to/from CommonTime and system conversion.",
 ["inputs"], "every day 1950-2100; random dates biased to every leap-second edge; all pairs of systems; random A0/A1/reference times",
 "The unit tests check one date per pair; an error in one table row or one branch of the pairwise conversion shows only for specific dates and pairs.",
 ["core/lib/RefTime/TimeSystem.cpp", "core/lib/RefTime/TimeSystemCorr.cpp", "ext/lib/Geomatics/EphTime.hpp"],
 [{"name": "leap-second table", "where": "TimeSystem.cpp getLeapSeconds"}, {"name": "two-step conversion through TAI", "where": "TimeSystem.cpp getTimeSystemCorrection"}, {"name": "per-type correction", "where": "TimeSystemCorr.cpp Correction"}],
 "dates exhaustive by day plus random instants around leap-second days; non-trivial when date+pair is new",
 ["leap", "corr", "names", "tsc", "ephtime"], note="Oracle: IERS/USNO tables restated by MJD, defining constants, Astronomical Almanac TDB series.")
