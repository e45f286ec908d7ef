prop("C26", "Statistics, robust fits and interpolation compute what their definitions say",
 "The conventional, sequential, weighted, two-sample, bivariate and power-sum statistics give the count, extremes, mean, variance, higher moments, slope, intercept, correlation and conditional sigma of exactly the samples they hold, however those were added, subtracted, combined, reset or saved and reloaded, and a spread is never negative or not-a-number; medians, quartiles, deviations, M-estimates, sorts, quantiles, the Anderson-Darling statistic and stem-and-leaf plots describe the sample given and leave it alone when asked to; Lagrange interpolation and its derivatives evaluate the interpolating polynomial; polynomial fits are the (weighted) least-squares fit, the robust one is not moved by a few gross errors; and triple geometry (angles, rotations, radial/along/cross frames) agrees with vector algebra.",
 ["inputs", "history"], "random samples (constant, offset by 1e9, all zero, duplicated), random add/subtract/combine/reload orders, random nodes and abscissae, outliers",
 "Tests use one or two fixed samples; empty and constant samples, combining with an empty set, reloading, small samples and off-centre interpolation are not exercised.",
 ["core/lib/Math/Stats.hpp", "core/lib/Math/BivarStats.hpp", "core/lib/Math/PowerSum.cpp", "core/lib/Math/PowerSum.hpp", "core/lib/Math/PolyFit.hpp", "core/lib/Math/MiscMath.hpp", "core/lib/Math/RACRotation.cpp", "core/lib/Math/Triple.cpp", "ext/lib/Geomatics/RobustStats.cpp", "ext/lib/Geomatics/RobustStats.hpp"],
 [{"name": "moments", "where": "Stats.hpp, BivarStats.hpp, PowerSum.cpp"}, {"name": "robust", "where": "RobustStats.hpp, RobustStats.cpp"}, {"name": "interpolation", "where": "MiscMath.hpp, PolyFit.hpp"}, {"name": "geometry", "where": "Triple.cpp, RACRotation.cpp"}],
 "random samples and nodes; non-trivial when new", ["onesample", "twosample", "interpolation", "robust", "triple"],
 note="Oracle: definitions evaluated in extended precision over the plain list of samples.")
