prop("C42", "A satellite pass keeps its data in time, and iterating visits every epoch",
 "A satellite pass holds exactly the data given to it, in time order, with time, count, offset, flags and indicators, whatever sequence of additions, edits, trims, splits, decimations, renamings, copies and clearings it went through; data out of order, after too long a gap or of other types are refused as documented, and the number of good data, the limits and the overlap with other passes always agree with the data. Smoothing replaces ranges by the phase plus the average real bias and phases by themselves less the nearest integer, on the good data only; the GLONASS channel found is that of the data. An iterator over a list of passes visits each epoch once, in order of time or its reverse, with exactly the data of the passes that are not excluded.",
 ["inputs", "histories"], "histories of 20-60 operations, steps 0.1-300 s; passes of 1-120 epochs smoothed; lists of up to 24 passes of 6 satellites",
 "The repository has no test of these classes.",
 ["ext/lib/Geomatics/" + f for f in ("SatPass.cpp", "SatPass.hpp", "SatPassIterator.cpp", "SatPassIterator.hpp")],
 [{"name": "pass", "where": "SatPass::addData, push_back, setFlag, trimAfter, split, decimate, index, hasOverlap"}, {"name": "smoothing", "where": "SatPass::smooth, smoothSF, getGLOchannel"}, {"name": "iteration", "where": "SatPassIterator::reset, next"}],
 "random histories, signals and lists of passes; non-trivial when the history is new", ["history", "signal", "list"],
 note="Oracle: a plain list of the data given, formulas of the biases in long double, and the set of all data by epoch.")
