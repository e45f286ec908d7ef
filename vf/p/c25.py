prop("C25", "Vectors, matrices and decompositions satisfy their algebraic definitions",
 "Every vector and matrix operation (arithmetic, concatenation, slices, rows, columns, minors, transposes, norms, copies, resizing, printing) gives the value its mathematical definition gives, whatever the sizes, and incompatible sizes are refused with an exception; LU, Cholesky, singular-value and Householder decompositions multiply back to the matrix they decompose, have the triangular or orthogonal factors they promise and solve linear systems; all four inverses are inverses to the accuracy the conditioning of the matrix allows; determinants and condition numbers are right in value and sign; and singular or indefinite input is reported, never turned into numbers.",
 ["inputs"], "random sizes 1 to 8, matrices of chosen singular values, permutations, zero and tiny pivots, rank-deficient and indefinite matrices",
 "Tests use a handful of fixed 2x2 to 4x4 matrices; rectangular shapes, pivoting, offsets of slices and the size checks are hardly touched.",
 ["core/lib/Math/Matrix/Matrix.hpp", "core/lib/Math/Matrix/MatrixBase.hpp", "core/lib/Math/Matrix/MatrixBaseOperators.hpp", "core/lib/Math/Matrix/MatrixFunctors.hpp", "core/lib/Math/Matrix/MatrixImplementation.hpp", "core/lib/Math/Matrix/MatrixOperators.hpp", "core/lib/Math/Vector/Vector.hpp", "core/lib/Math/Vector/VectorBase.hpp", "core/lib/Math/Vector/VectorBaseOperators.hpp", "core/lib/Math/Vector/VectorOperators.hpp", "core/lib/Math/MiscMath.hpp"],
 [{"name": "operators", "where": "MatrixOperators.hpp, VectorOperators.hpp, MatrixBase.hpp"}, {"name": "decompositions", "where": "MatrixFunctors.hpp SVD, LUDecomp, Cholesky, CholeskyCrout, Householder"}],
 "random vectors and matrices; non-trivial when new", ["vectors", "matrices", "square", "rectangular"],
 note="Oracle: element-by-element definitions, residuals and determinants in extended precision with full pivoting.")
