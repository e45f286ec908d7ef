prop("C02", "Time arithmetic is exact and time ordering is a total order",
 "Adding any interval to a time, by one operation or a long history of them, gives the mathematically exact sum to within 3e-11 s per floating-point operation (and exactly for integer seconds, milliseconds and days), always leaves the time in normal form with its time system, and subtracting recovers the interval. Within one time system (or with the wildcard system) the six comparison operators agree with the exact difference for every pair; between different specific systems times are never equal, and ordering or differencing them throws. The tolerance-based epoch type compares by the smaller of the two tolerances, and its field accessors and setters agree with the calendar.",
 ["inputs", "histories"], "times over the supported range, intervals from 1e-12 s to decades, operation histories up to 200 steps, all time systems",
 "Carries across millisecond, day, week and sign boundaries depend on the exact operands; the tests use a handful of sums.",
 ["core/lib/TimeHandling/CommonTime.cpp", "core/lib/TimeHandling/CommonTime.hpp", "core/lib/TimeHandling/Epoch.cpp", "core/lib/TimeHandling/Epoch.hpp"],
 [{"name": "add/normalize", "where": "core/lib/TimeHandling/CommonTime.cpp addSeconds, add, normalize"}, {"name": "comparison operators", "where": "CommonTime.cpp, Epoch.cpp"}],
 "random times and intervals biased to carries (multiples of 1 ms, 1 s, 86400 s +- tiny), histories of 20-200 mixed operations; non-trivial when (time, interval) is new",
 ["single", "seq", "order", "epoch"], observe=["CommonTime::getInternal after every operation"],
 note="Oracle: 128-bit integer attosecond arithmetic. Overflow of the supported range is not claimed (the code documents but does not enforce it).")
