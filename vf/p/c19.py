prop("C19", "GLONASS ephemerides integrate the ICD orbit and are found within 15 minutes",
 "For every GLONASS state vector and every time within 15 minutes of its epoch, position, velocity and clock equal the integration of the interface document's equations of motion (central term, second zonal harmonic, Earth rotation, luni-solar acceleration) forwards and backwards with any step, and times outside are refused; the store keeps the last record per satellite and epoch (only healthy ones when asked), answers every time within 15 minutes of a record from such a record with its health, refuses all others and other time systems, and edits, lists and limits match the kept records.",
 ["inputs", "histories"], "random GLONASS orbits, all offsets and edges, integration steps 1-60 s; random stores with overlapping records, gaps, edits",
 "The unit tests follow a single file's records; integrator errors and edge selection show only off the records and across histories.",
 ["core/lib/GNSSEph/GloEphemeris.cpp", "core/lib/GNSSEph/GloEphemerisStore.cpp", "core/lib/GNSSCore/PZ90Ellipsoid.hpp", "core/lib/GNSSCore/Xvt.cpp"],
 [{"name": "Runge-Kutta integration", "where": "GloEphemeris::svXvtOverrideFit, derivative"}, {"name": "clock and relativity", "where": "GloEphemeris::svXvt"}, {"name": "record search", "where": "GloEphemerisStore::getXvt, computeXvt, getSVHealth, findEphemeris"}, {"name": "edit and limits", "where": "GloEphemerisStore::edit"}],
 "random state vectors and store histories; non-trivial when new", ["orbit", "reverse", "store"],
 note="Oracle: long-double Runge-Kutta integration in the Earth-fixed frame with 5 s steps.")
