prop("C21", "Mixed-system broadcast store answers as each system's own store would",
 "A mixed-constellation broadcast store loaded from a file or record by record, in any order and with any mix of systems, answers every position, clock, velocity and health request for a satellite exactly as a store holding only that satellite's ephemerides would at the same instant, whatever time system the request is in and whatever was asked before (leap seconds and the loaded fine corrections applied with the right sign); it counts, lists, spans and reports precisely the satellites and records it holds, and clearing removes them all.",
 ["inputs", "histories"], "random mixes of GPS, Galileo, GLONASS, BeiDou and QZSS satellites with healthy and unhealthy records in shuffled order, random correction networks, queries in seven time systems around record edges and leap-second dates",
 "Tests load a few fixture files and query in the satellites' own time systems.",
 ["core/lib/GNSSEph/Rinex3EphemerisStore.cpp", "core/lib/GNSSEph/Rinex3EphemerisStore.hpp", "core/lib/GNSSEph/GloEphemerisStore.hpp", "core/lib/RefTime/TimeSystem.cpp"],
 [{"name": "dispatch", "where": "Rinex3EphemerisStore::getXvt, computeXvt, getSVHealth, addEphemeris"}, {"name": "time conversion", "where": "correctTimeSystem, expandTimeCorrMap"}, {"name": "contents", "where": "size, addToList, getIndexSet, getInitialTime, getFinalTime, clear"}],
 "random satellite sets and correction networks; non-trivial when new", ["answers", "network", "requests"],
 note="Oracle: one single-satellite store per satellite (itself judged by C17 and C19) fed with the same records and queried at an instant converted by an independent leap-second table and correction sum.")
