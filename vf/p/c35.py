E = "ext/lib/Geomatics/"
prop("C35", "Sparse vectors and matrices equal dense ones and store only non-zero elements",
 "Every operation on a SparseVector or SparseMatrix gives exactly what the same operation gives on the dense Vector or Matrix, whatever the pattern of zeros, including empty rows and columns, zero lengths and non-square shapes: construction and conversion either way, element access and assignment, sub-vectors and sub-matrices, resizing, truncation and zeroizing, sums, differences, scaling, negation, transposition, joining, row and column copies and swaps, all nine products with sparse and dense factors on either side, norms, dot products, angles and ranges, and printing. No zero is ever stored, so the data size is the number of non-zero elements, and ill-dimensioned operands are refused. The inverses, Cholesky factors, triangular inverses and Householder transformation multiply back, and matrices that are singular or not positive definite are refused.",
 ["inputs", "histories"], "random vectors and matrices up to 9 by 9 of every density, exact dyadic and ordinary values; histories of up to eight operations",
 "SparseVector and SparseMatrix have no tests.",
 [E + f for f in ("SparseVector.hpp", "SparseVector.cpp", "SparseMatrix.hpp")],
 [{"name": "vectors", "where": "SparseVector"}, {"name": "matrices", "where": "SparseMatrix"}, {"name": "products", "where": "operator*, matrixTimesTranspose, transformDiag"}, {"name": "inverses and factors", "where": "inverse, lowerCholesky, inverseLT, SparseHouseholder"}],
 "random operands and operation histories; non-trivial when new", ["vectors", "matrices", "products", "solve"],
 note="Oracle: dense matrices in extended precision; products and sums of dyadic values are compared exactly.")
