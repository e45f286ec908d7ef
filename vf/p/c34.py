E = "ext/lib/Geomatics/"
prop("C34", "Square root information, its filter, smoother and least squares keep information",
 "Every operation on a square root information object changes the information matrix and vector it stands for exactly as defined, state by state by name: permuting, extending, appending and splitting move information without losing any, merging and measurement updates add it, transformations and shifts carry it over, process noise and fixing change only what they say, removal of states agrees in every form, and clearing leaves nothing. The filter's measurement, time and smoother updates, dense or sparse, weighted or not, equal the Kalman filter and fixed interval smoother; least squares gives the solution, covariance and residuals of the normal equations, whether in one batch or many, and a stationary point when linearized; factorisations multiply back, name lists are ordered sets, and singular or ill-dimensioned problems are refused as documented.",
 ["inputs", "configurations", "histories"], "random well conditioned, and some singular, information of 1 to 8 states with permuted, overlapping and new names; histories of up to six operations, filters of up to six steps",
 "None of these classes has a test; the tests of Namelist cover single operations.",
 [E + f for f in ("SRI.cpp", "SRI.hpp", "SRIFilter.cpp", "SRIFilter.hpp", "SRIleastSquares.cpp", "SRIleastSquares.hpp", "SRIMatrix.hpp")] + ["core/lib/Geomatics/Namelist.hpp", "core/lib/Geomatics/Namelist.cpp"],
 [{"name": "operations on information", "where": "SRI::permute, split, reshape, operator+=, append, transform, Qbump, stateFix, stateFixAndRemove"}, {"name": "filter and smoother", "where": "SRIFilter::measurementUpdate, timeUpdate, smootherUpdate, DMsmootherUpdate"}, {"name": "least squares", "where": "SRIleastSquares::dataUpdate"}, {"name": "factorisation", "where": "SRIMatrix lowerCholesky, upperCholesky, inverseUT, inverseLT, LDL, UDU"}, {"name": "names", "where": "Namelist"}],
 "random information and operation histories; non-trivial when new", ["lists", "factor", "info", "filter", "squares"],
 note="Oracle: information matrix and vector in extended precision keyed by name; Kalman filter, Rauch-Tung-Striebel smoother and normal equations in covariance form.")
