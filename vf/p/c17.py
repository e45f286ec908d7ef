prop("C17", "Ephemeris stores return the elements a receiver would have used",
 "For every history of broadcast element sets (several satellites, repeated copies, uploads, cutovers, gaps, any arrival order) the ephemeris stores keep one copy per set, the earliest; a lookup returns a stored set of that satellite valid at the time, namely the most recently begun one (or the nearest by Toe in near mode), and nothing when none is valid; health, XVT and refusal agree with the set found; rationalize ends the sets that precede an upload, extends none and keeps keys and time limits consistent; edit, list, size and clear keep exactly the claimed sets.",
 ["inputs", "histories"], "random multi-satellite histories with uploads in shuffled order, lookups on, next to and between all edges, before and after edit and rationalize",
 "Correct selection depends on the whole history of additions and on interval edges, far more combinations than fixture files contain.",
 ["core/lib/GNSSEph/OrbitEphStore.cpp", "core/lib/GNSSEph/OrbitEphStore.hpp", "core/lib/GNSSEph/GPSEphemerisStore.cpp", "core/lib/GNSSEph/OrbElemStore.cpp"],
 [{"name": "element tables", "where": "OrbitEphStore::addEphemeris, OrbElemStore::addOrbElem, edit"}, {"name": "selection", "where": "findUserOrbitEph, findNearOrbitEph, findOrbElem, findNearOrbElem, findToe"}, {"name": "rationalize", "where": "GPSEphemerisStore::rationalize, OrbElemStore::rationalize"}],
 "random broadcast histories; non-trivial when new", ["plain", "rationalGPS", "rationalElem"],
 note="Oracle: a list of the kept sets searched by brute force.")
