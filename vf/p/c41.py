prop("C41", "Special functions and statistical distributions have the values of definition",
 "The gamma, beta and error functions, their incomplete and inverse forms, factorials and binomial coefficients of both families have the values their definitions give, to the precision each family claims, for the whole range of arguments for which the result can be represented. The densities and probabilities of the normal, chi-square, Student and F distributions are those of the definitions for every number of degrees of freedom, the inverses give the statistic whose probability was asked for, and arguments outside the domain are refused or answered as documented.",
 ["inputs"], "arguments from 1e-30 to 1e5, degrees of freedom to 900, probabilities from 1e-9 to 1-1e-9",
 "The repository has no test of either family.",
 ["ext/lib/Geomatics/SpecialFuncs.cpp", "ext/lib/Geomatics/SpecialFuncs.hpp"] + ["ext/lib/Math/" + f for f in ("SpecialFunctions.cpp", "SpecialFunctions.hpp", "BaseDistribution.hpp", "GaussianDistribution.cpp", "GaussianDistribution.hpp", "Chi2Distribution.cpp", "Chi2Distribution.hpp", "StudentDistribution.cpp", "StudentDistribution.hpp")],
 [{"name": "functions", "where": "SpecialFuncs.cpp lnGamma, incompGamma, incompleteBeta; SpecialFunctions.cpp gamma, erf, inverf, gammaP, regIncompleteBeta"}, {"name": "distributions", "where": "NormalCDF, ChisqCDF, StudentsCDF, FDistCDF and inverses; GaussianDistribution, Chi2Distribution, StudentDistribution"}],
 "random arguments over the domain; non-trivial when the arguments are new", ["values"],
 note="Oracle: the C library's and Boost.Math's functions in long double.")
