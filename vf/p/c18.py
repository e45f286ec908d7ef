prop("C18", "Tabular orbit and clock stores interpolate the right points or refuse",
 "For every table of precise positions, velocities, accelerations or clocks and every time: at a tabulated epoch the store returns the stored record; between epochs it returns the Lagrange (or linear clock) interpolation of the points centred on the time, with velocity, drift and acceleration from their own table or as the derivative of the next lower quantity; it refuses times with too few points on a side, across a gap or over too wide an interval; counts, limits, satellite lists, edits and file loading with its reject flags keep exactly the claimed records.",
 ["inputs", "histories"], "random tables with jitter and gaps, all interpolation orders, times on and around every edge, gap and interval limits, generated SP3 files with bad and predicted records",
 "The unit test interpolates one IGS file at a few epochs; edges, exact epochs, gaps and mixed quantities are not reachable from one file.",
 ["core/lib/GNSSEph/TabularSatStore.hpp", "core/lib/GNSSEph/PositionSatStore.cpp", "core/lib/GNSSEph/ClockSatStore.cpp", "core/lib/GNSSEph/SP3EphemerisStore.cpp", "core/lib/Math/MiscMath.hpp"],
 [{"name": "interval selection", "where": "TabularSatStore::getTableInterval"}, {"name": "interpolation", "where": "PositionSatStore::getValue, ClockSatStore::getValue, LagrangeInterpolation"}, {"name": "edit and limits", "where": "TabularSatStore::edit, getInitialTime, getFinalTime"}, {"name": "file loading", "where": "SP3EphemerisStore::loadSP3Store"}],
 "random tables and files; non-trivial when new", ["position", "clock", "limits", "load"],
 note="Oracle: long-double Lagrange sums on a window chosen by brute force; polynomials where any window must agree.")
