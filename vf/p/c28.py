prop("C28", "Position solutions find the receiver; RAIM drops exactly the bad satellites",
 "Given pseudoranges from satellites of one or more systems, the position solution is the (weighted) least-squares position and one clock per system - the true ones when the data are exact - with the covariance, partials, post-fit and pre-fit residuals, RMS, RAIM slopes, dilutions of precision, iteration counts, flags, printed lines and return codes that belong to it; satellites marked, of other systems or without ephemeris take no part and are marked; RAIM keeps all satellites when they fit, otherwise rejects no more than allowed and the subset of least residual, and reports degraded or failed solutions as such; the memory holds the information-weighted average of the solutions and the a priori of each system's clock; the legacy solver and the Bancroft start value agree with the same geometry.",
 ["inputs", "history"], "random receivers, constellations of 1-4 systems, noise, gross errors, weights, limits, marks, missing ephemerides, epochs with memory",
 "Tests run one data set and some string outputs; multi-system memory, satellites to be ignored, slopes, unmarked systems, several outliers and every limit are not exercised.",
 ["core/lib/PosSol/PRSolution.cpp", "core/lib/PosSol/PRSolution.hpp", "core/lib/PosSol/Combinations.hpp", "ext/lib/PosSol/PRSolutionLegacy.cpp", "ext/lib/PosSol/PRSolutionLegacy.hpp", "ext/lib/PosSol/Bancroft.cpp", "ext/lib/PosSol/Bancroft.hpp"],
 [{"name": "preparation", "where": "PreparePRSolution"}, {"name": "solution", "where": "SimplePRSolution, DOPCompute"}, {"name": "RAIM", "where": "RAIMCompute, Combinations"}, {"name": "memory", "where": "WtdAveStats, addToMemory, updateAPSolution"}, {"name": "legacy", "where": "PRSolutionLegacy, Bancroft"}],
 "random scenes; non-trivial when new", ["simple", "raim", "memory", "legacy", "bancroft", "combinations"],
 note="Oracle: forward model of the measurement, long-double Gauss-Newton, and enumeration of satellite subsets; near-ties and ill-conditioned geometries are counted and not judged.")
