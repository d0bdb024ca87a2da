# The properties, as data: gen.py writes properties.jsonl and MANIFEST.json from it.
P = []
def prop(id, title, statement, text, why, files, mech, tech, note, over=("inputs",)):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, tech=tech, note=note))
I = "TooN/internal/"

prop("V01", "Vector and matrix arithmetic equals its textbook definition",
 "For conforming operands every sum, difference, product (scalar, dot, outer, cross, matrix-vector, vector-matrix, matrix-matrix, diagonal), quotient, negation, comparison and compound assignment yields the textbook result, in the element type that the builtin arithmetic of the operands' element types gives. This holds for every mixture of static, dynamic and resizable sizes, row- and column-major storage, slices, transposes, rows, columns, read-only views and wrapped memory, leaves the other operands unchanged, and still holds when the result is assigned over one of the operands.",
 "all operand values, sizes 0..60 and at times up to 2500, storage forms of each operand independently, element types float/double/long double/int/complex mixed",
 "The tests multiply a handful of fixed static double matrices; a wrong stride, index order, element conversion or aliasing in one combination of storage forms is never instantiated.",
 [I+"operators.hh", I+"vector.hh", I+"matrix.hh", I+"vbase.hh", I+"mbase.hh"],
 [("lazy operator objects evaluated into a fresh result", I+"operators.hh"), ("compound assignment loops", I+"vector.hh, "+I+"matrix.hh"), ("element addressing by row and column stride", I+"mbase.hh")],
 "property-based testing: generated operands in generated storage forms against a long double reference model",
 "each element compared with the model within a rounding bound (exactly for integers)")

prop("V02", "Views alias exactly the elements they designate",
 "A slice, row, column, transpose, diagonal, row/column reinterpretation or any chain of those refers to exactly the elements of the original object that its definition names: reading gives their current values and writing through it changes those and no others, whatever the layout and size kind of the original and whether bounds are given statically or at run time. The view reports the size its definition gives and never copies.",
 "chains of up to four view operations with generated offsets and lengths on generated vectors and matrices of every size kind and layout, followed by writes through the view and through the original",
 "The slice test prints a few fixed slices of one matrix; wrong strides for nested, transposed or column-major views need specific shapes and chains.",
 [I+"vbase.hh", I+"mbase.hh", I+"vector.hh", I+"matrix.hh", I+"slice_error.hh"],
 [("slice classes carrying pointer, size and stride", I+"vbase.hh, "+I+"mbase.hh"), ("stride computation for transposes and sub-blocks", I+"mbase.hh")],
 "model-based property testing: generated view chains against an index-set model", "all element positions of the view and of the original compared after each write", ("inputs", "histories"))

prop("V03", "Copies, assignments, swaps and resizes keep every object's own contents",
 "Constructing, copying, moving, assigning (also from itself, from expressions and from views), swapping, clearing and resizing vectors and matrices gives each object exactly the sequence of values those operations define: a copy is independent of its source, assignment writes through a view, a resizable vector takes the size of what is assigned to it, and resizing keeps the elements that remain. No history reads or writes memory it does not own, leaks it or frees it twice, whatever the element type and wherever the storage lives.",
 "histories of up to 60 operations over a pool of static (small and large), dynamic and resizable vectors and matrices and views of them, with plain and resource-owning element types; standard containers of them under insertion, erasure, sorting and rotation",
 "The tests perform single resizes and swaps; ownership and size errors need a particular sequence of operations on particular kinds of object.",
 [I+"allocator.hh", I+"vector.hh", I+"matrix.hh", I+"operators.hh"],
 [("static / heap / dynamic / resizable storage", I+"allocator.hh"), ("resize on assignment", I+"vector.hh"), ("swap overloads", I+"operators.hh")],
 "stateful model-based testing under address and undefined-behaviour sanitizers with allocation accounting", "whole pool compared with the model after every operation", ("histories",))

prop("V04", "Errors the library promises to detect abort the program; valid calls never do",
 "With bounds checking on, an index or slice outside an object always stops the program before any memory is touched; combining or assigning vectors and matrices of mismatched run-time sizes by the operators always stops it, with or without bounds checking; so do data initialisers and fills of the wrong length, and slices whose compile-time and run-time bounds disagree. No call with valid indices and sizes is ever rejected.",
 "every kind of object and operation with generated valid and invalid indices, offsets, lengths and sizes, including extreme integers",
 "The tests never exercise a rejected call at run time (two check that one program fails to compile).",
 [I+"dchecktest.hh", I+"size_mismatch.hh", I+"slice_error.hh", I+"overfill_error.hh", I+"comma.hh", I+"vbase.hh", I+"mbase.hh"],
 [("run-time size tests", I+"size_mismatch.hh"), ("slice tests", I+"slice_error.hh"), ("bounds tests", I+"vbase.hh, "+I+"mbase.hh"), ("fill counting", I+"comma.hh")],
 "property-based testing: each generated call is classified valid or invalid by a model and must return or abort accordingly", "abort observed in process through a signal handler; memory around the object checked")

prop("V05", "Initialisers put every value in the place its position names",
 "Filling a vector or matrix from a list of values (comma lists, data lists, brace lists, make-vector) puts the k-th value at element k, or at row k/columns, column k mod columns, whatever the storage layout, size kind and element type, and values assigned through a view initialise exactly the viewed elements.",
 "all lengths the interfaces accept, storage forms, layouts, element types and generated values",
 "The fill test prints one 4x4 case; other arities, layouts and views are separate code paths.",
 [I+"comma.hh", I+"data.hh", I+"data_functions.hh", I+"make_vector.hh", I+"vector.hh"],
 [("comma insertion", I+"comma.hh"), ("data lists", I+"data.hh, "+I+"data_functions.hh"), ("make-vector functions", I+"make_vector.hh")],
 "property-based testing against a positional model, over every arity", "exact comparison")

prop("V06", "Zeros, Ones and Identity behave as the constants they name",
 "Assigning, constructing from, adding, subtracting or scaling the constants zeros, ones and identity (optionally sized, optionally scaled by a factor) gives what the corresponding explicit vector or matrix would give, for every storage form, layout and element type. A sized constant resizes a resizable vector, an unsized one keeps its size.",
 "storage forms, sizes, element types, scale factors and generated contents",
 "The zeros test checks four prints; scaled and mixed-type combinations and views are not instantiated.",
 [I+"objects.h", I+"operators.hh"],
 [("constant operator objects", I+"objects.h")],
 "property-based testing against the explicit constant in a reference model", "each documented form of use compared entry by entry")

prop("V07", "Diagonal matrices act exactly like the dense matrices they stand for",
 "Every product, negation, inverse, assignment and element access of a diagonal matrix with vectors, matrices and other diagonal matrices gives what the dense matrix with that diagonal gives, for every size kind, layout and view of the partners. A vector viewed as a diagonal shares its elements.",
 "sizes, storage forms and values of the diagonal and of the partner",
 "The diagonal test covers one fixed 4x4 case and no dynamic sizes or views.",
 [I+"diagmatrix.h", I+"vbase.hh"],
 [("diagonal operators", I+"diagmatrix.h")],
 "property-based testing against a dense reference model", "every operator compared entry by entry")

prop("V08", "Streaming a vector or matrix out and back in preserves it",
 "Writing any vector, matrix, rigid motion, scaled motion or group element to a text stream with enough digits and reading it back into an object of the same shape restores the same values, also when several objects follow each other in one stream. The text lists the elements in row order, one matrix row per line, honouring the stream's field width.",
 "object types, shapes, storage forms and values; sequences of objects in one stream; field widths and precisions",
 "The tests only print; reading back, widths and views are not exercised.",
 [I+"operators.hh", "TooN/se2.h", "TooN/se3.h", "TooN/so2.h", "TooN/so3.h", "TooN/sim2.h", "TooN/sim3.h", "TooN/sl.h"],
 [("stream operators", I+"operators.hh"), ("group stream operators", "TooN/se3.h and others")],
 "property-based round-trip testing", "values equal after the round trip; tokens compared with the model")

prop("V09", "Wrapped foreign memory is used in place",
 "A vector or matrix wrapped around caller-owned memory, or around planar complex arrays, reads and writes exactly the addressed elements of that memory in the declared order, also through further views and arithmetic, neither copying nor freeing it. Handing out the address of an object's data gives contiguous access in the documented layout, and the members of a named-element vector are exactly its elements, in order.",
 "sizes, offsets, element types, layouts, sequences of writes through the wrapper and through the raw memory",
 "No test wraps memory except one planar complex print.",
 [I+"reference.hh", I+"planar_complex.hh", I+"vbase.hh", I+"mbase.hh", "TooN/named_elements.h"],
 [("reference storage", I+"reference.hh"), ("pair-of-pointers storage", I+"planar_complex.hh")],
 "model-based property testing under address sanitizer with guard words", "raw memory compared with the model after every step", ("inputs", "histories"))

prop("V10", "Vector and matrix helper functions match their mathematical definitions",
 "Norms, normalisation, projection, unprojection, trace, cross-product matrices, symmetrising, the 2x2 inverse, overall, row-wise and column-wise minima and maxima with their positions, finite/NaN tests and filling with a constant all give the value of their mathematical definition for every storage form (extrema: every writable one), and change nothing but their result.",
 "sizes, storage forms, element types and values including ties, zeros, infinities and NaN",
 "None of these helpers is tested.",
 ["TooN/helpers.h"],
 [("helper templates", "TooN/helpers.h")],
 "property-based testing against a reference model", "each helper compared with its definition")

prop("V11", "Debug initialisation marks every uninitialised element and nothing else",
 "In a build that asks for storage to be pre-filled with NaN or a given value, every element of a newly created or newly grown vector or matrix that the program did not initialise holds that value, initialised or retained elements are never overwritten, and results of initialised computations are the same as in a build without it.",
 "build modes, object kinds, sizes, element types, histories of construction and resizing",
 "No test builds with debug initialisation.",
 [I+"debug.hh", I+"allocator.hh"],
 [("pre-fill hook", I+"debug.hh"), ("its call sites", I+"allocator.hh")],
 "model-based property testing of the same histories in four build modes", "every element inspected after each construction and resize", ("histories", "configurations"))

prop("V12", "Mistakes that the types show do not compile; correct programs do",
 "A program that adds, compares, assigns, multiplies, swaps or solves with objects whose static sizes do not fit, slices beyond a static size, initialises a static object with too many values (or data lists of the wrong length), resizes what cannot be resized, or writes to a read-only object, to a view of one, or to the matrix of a group element, is rejected by the compiler; every program without such a mistake, whatever mixture of static, dynamic, sliced, transposed, wrapped and read-only operands it uses, is accepted.",
 "programs: operations, size kinds and sizes of each operand, storage forms, constness, kind of mistake",
 "Two tests check one rejected program each.",
 [I+"size_mismatch.hh", I+"slice_error.hh", I+"overfill_error.hh", I+"vbase.hh", I+"mbase.hh", I+"operators.hh", "TooN/so3.h"],
 [("static size tests", I+"size_mismatch.hh"), ("static slice tests", I+"slice_error.hh"), ("read-only views", I+"vbase.hh, "+I+"mbase.hh")],
 "property-based testing: generated programs, which a model of sizes and constness declares right or wrong, given to the compiler", "accepted or rejected")

prop("V13", "Wrong run-time sizes stop decompositions, solvers, groups and least squares",
 "Whatever is built on vectors and matrices checks the run-time sizes it is given, with or without bounds checking: decomposing, inverting, exponentiating, taking the trace, determinant or symmetric part of a matrix that is not square, computing a decomposition of another size than the object was made for, back-substituting, eliminating or measuring with a right-hand side of the wrong length, adding measurements, priors or other systems of the wrong sizes to a least-squares problem, and applying, exponentiating, constructing or taking the adjoint of a group element with dynamic operands of the wrong size stops the program instead of computing something; with the right sizes each of these calls is accepted, whatever the storage form of the operands.",
 "every such operation, static and dynamic objects, right and wrong sizes of each operand, storage forms (contiguous, slice, other layout, transposed)",
 "No test hands a wrong run-time size to anything.",
 ["TooN/Cholesky.h", "TooN/Lapack_Cholesky.h", "TooN/LU.h", "TooN/SVD.h", "TooN/SymEigen.h", "TooN/determinant.h", "TooN/gaussian_elimination.h", "TooN/helpers.h", "TooN/wls.h", "TooN/irls.h", "TooN/so3.h", "TooN/se2.h", "TooN/se3.h", "TooN/sim2.h", "TooN/sim3.h", "TooN/sl.h", I+"size_mismatch.hh", I+"objects.h"],
 [("size tests", I+"size_mismatch.hh"), ("their uses", "TooN/Cholesky.h, TooN/LU.h, TooN/helpers.h, TooN/wls.h, TooN/se3.h")],
 "property-based testing: generated calls with right and wrong sizes, classified by a model of what each call needs", "abort or return")

prop("V14", "Small static objects are exactly their elements and allocate nothing",
 "A static vector, matrix or diagonal matrix whose elements take at most 1000 bytes (the documented limit) contains its elements and nothing else (sizeof is the number of elements times their size), and constructing, copying, combining, slicing, transposing, filling, swapping or multiplying such objects, group elements and static solvers built on them allocates no memory; a larger static object is a handle on the heap and costs one allocation when it is made; a dynamic vector or matrix costs one allocation when it is made from a size, another object or an expression, and none when a vector is moved, or when objects of either kind are assigned to, updated in place, swapped, viewed or sliced. The elements lie contiguously in the order of the layout from get_data_ptr() on.",
 "static sizes on both sides of the limit for elements of 4 and 8 bytes and both layouts, sequences of operations on moderate static, large static, dynamic and resizable objects, groups, static solvers, generated values and positions",
 "The tests compare values; none looks at object sizes or counts allocations, which real-time and memory-mapped users rely on.",
 [I+"allocator.hh", I+"vbase.hh", I+"mbase.hh", I+"vector.hh", I+"matrix.hh", I+"operators.hh", "TooN/TooN.h", "doc/documentation.h"],
 [("stack or heap", I+"allocator.hh (StackOrHeap)"), ("move and assignment", I+"allocator.hh, "+I+"vector.hh")],
 "property-based testing: generated operation sequences under an allocation ledger", "number of allocations against the model")

prop("V15", "Operations on distinct objects share no state, whatever runs beside them",
 "No operation keeps state outside the objects it is given (the debug macro that fills with random values aside): vector, matrix and group operations, helper functions, decompositions, elimination, determinants, least squares, numerical derivatives, optimisers and streams run in several threads at once on distinct objects, or inside the function which an optimiser or a numerical derivative calls, without a data race and with the results they give when run alone; an object which is only asked through its const functions can be asked from several threads at once.",
 "lists of one to four computations of one to three kinds in each of two to four threads, the same objects asked from several threads, computations nested in the user's functions of outer ones, and repetitions in other orders, with generated sizes (static and dynamic) and values",
 "The tests are single-threaded programs which run each function by itself; a static temporary, a cached workspace or a lazily filled table gives right answers in all of them.",
 [I+"operators.hh", I+"comma.hh", "TooN/helpers.h", "TooN/so3.h", "TooN/se3.h", "TooN/SymEigen.h", "TooN/SVD.h", "TooN/LU.h", "TooN/Cholesky.h", "TooN/wls.h", "TooN/functions/derivatives.h", "TooN/optimization/golden_section.h", "TooN/optimization/brent.h", "TooN/optimization/conjugate_gradient.h", "TooN/optimization/downhill_simplex.h"],
 [("temporaries are local", "TooN/functions/derivatives.h, TooN/so3.h, TooN/SymEigen.h")],
 "property-based testing: generated computations run concurrently under ThreadSanitizer, nested and repeated, compared with the same run alone", "the same computation run alone; ThreadSanitizer's happens-before analysis", ("schedules", "inputs"))

prop("N01", "Determinants",
 "The determinant of a square matrix, computed by any of the offered methods and for every size kind and layout, equals the mathematical determinant to within rounding, so it is multiplicative, invariant under transposition, changes sign when two rows are exchanged, and vanishes for singular matrices.",
 "sizes 1..12 and up to 40, generic, integer, triangular, permuted, singular and badly scaled matrices, static and dynamic, float and double",
 "The test compares fixed random matrices of generic position; zero pivots, permutation parity and the size dispatch are not all reached.",
 ["TooN/determinant.h", "TooN/gaussian_elimination.h", "TooN/LU.h"],
 [("elimination with pivoting and sign tracking", "TooN/determinant.h"), ("size dispatch", "TooN/determinant.h")],
 "property-based testing against a long double complete-pivoting oracle, plus exact integer cases", "backward-error tolerance")

prop("N02", "Gaussian elimination and Gauss-Jordan solve and invert",
 "Gaussian elimination returns x with Ax = b for one or many right-hand sides, and Gauss-Jordan reduction of [A|B] turns it into [I|inverse(A)B], for every non-singular A whatever the row exchanges needed, with residuals of rounding size; systems whose run-time sizes do not match are rejected.",
 "sizes, storage forms, right-hand sides, matrices needing generated row exchanges, badly scaled matrices",
 "Two fixed-size random tests of generic matrices.",
 ["TooN/gaussian_elimination.h", "TooN/gauss_jordan.h"],
 [("partial pivoting", "TooN/gaussian_elimination.h, TooN/gauss_jordan.h")],
 "property-based testing: residual and inverse oracle", "backward-error tolerance scaled by the condition number")

prop("N03", "Cholesky decompositions factor, solve, invert and measure",
 "For a symmetric positive definite matrix both Cholesky decompositions give factors that multiply back to it, solutions and inverses with rounding-size residuals, the right determinant, full rank and Mahalanobis distances, for every size kind, layout and right-hand side shape; only one triangle of the input is needed, and for a semi-definite or indefinite matrix the reported rank or failure is right.",
 "sizes 1..12, condition numbers up to 1e8, vector and matrix right-hand sides, semi-definite matrices of every rank, reuse of one object",
 "The tests decompose fixed random positive definite matrices of one size.",
 ["TooN/Cholesky.h", "TooN/Lapack_Cholesky.h"],
 [("LDL^T factorisation", "TooN/Cholesky.h"), ("LAPACK potrf wrapper", "TooN/Lapack_Cholesky.h")],
 "property-based testing: reconstruction, residual and closed-form oracles", "backward-error tolerance")

prop("N04", "LU decomposition solves, inverts and gives the determinant",
 "For every non-singular square matrix the LU decomposition solves systems with vector and matrix right-hand sides, yields the inverse and the determinant with its sign, whatever row exchanges are needed, for static and dynamic sizes, single and double precision, and flags singular matrices; the packed factors multiply back to the row-permuted matrix.",
 "sizes 1..12, permuted, triangular, integer, singular and badly scaled matrices, single and many right-hand sides, reuse of one object",
 "The test solves one fixed system.",
 ["TooN/LU.h"],
 [("LAPACK getrf wrapper with transposed storage", "TooN/LU.h")],
 "property-based testing: residual, inverse and determinant oracles", "backward-error tolerance")

prop("N05", "QR decompositions give orthogonal Q and upper triangular R with A = QR",
 "For every matrix with at least as many columns as rows (the documented domain), including ones that are already triangular, rank deficient, zero or have zero columns, both QR decompositions give an orthogonal Q and an upper triangular R whose product is the input, or with pivoting the input with its columns in the order get_P() reports and the diagonal of R sorted by magnitude.",
 "shapes wide and square up to 40 rows, static and dynamic, triangular, zero, rank deficient, graded matrices",
 "The test factors one fixed matrix.",
 ["TooN/QR.h", "TooN/QR_Lapack.h"],
 [("Householder reflections", "TooN/QR.h"), ("LAPACK geqp3 wrapper", "TooN/QR_Lapack.h")],
 "property-based testing: orthogonality, triangularity and reconstruction", "backward-error tolerance")

prop("N06", "Singular value decomposition and pseudo-inverse",
 "For every real matrix, tall, wide or square, the SVD gives orthonormal factors and non-negative, non-increasing singular values that multiply back to the input; solving and pseudo-inverting give the minimum-norm least-squares solution in which singular values below the stated condition number are discarded, and the reported rank counts those that are kept. The determinant of a square matrix is right up to sign.",
 "shapes up to 8x8 in both orientations, static and dynamic, generated spectra with gaps around the condition cut-off, rank deficiency, right-hand sides of both shapes",
 "Tests do not use it at all.",
 ["TooN/SVD.h"],
 [("LAPACK gesvd wrapper", "TooN/SVD.h"), ("inverse of the diagonal with condition cut-off", "TooN/SVD.h")],
 "property-based testing: reconstruction, orthogonality, Moore-Penrose conditions, spectrum oracle", "backward-error tolerance")

prop("N07", "Golub-Reinsch singular value decomposition",
 "For every real matrix with at least as many rows as columns the built-in SVD gives factors with orthonormal columns and singular values that multiply back to the input, with the requested parts only, in descending order after reordering, and minimum-norm solutions and pseudo-inverses that discard singular values below the condition cut-off.",
 "shapes up to 8 columns, generated spectra with repeated, tiny and zero values, triangular, diagonal and zero matrices",
 "The test decomposes one fixed matrix.",
 ["TooN/GR_SVD.h"],
 [("bidiagonalisation and implicit QR", "TooN/GR_SVD.h")],
 "property-based testing: reconstruction, orthogonality, Moore-Penrose conditions, spectrum oracle", "backward-error tolerance")

prop("N08", "Symmetric eigendecomposition and functions of symmetric matrices",
 "For every symmetric matrix the eigendecomposition returns real eigenvalues in ascending order and an orthonormal set of eigenvectors that multiply back to the input; solving, (pseudo-)inverses, square roots, inverse square roots, determinant and positive-definiteness derived from them agree with their definitions.",
 "sizes 1..10 static and dynamic including the special-cased 2 and 3, generated spectra with repeated, zero, tiny, huge and mixed-sign values, diagonal and near-diagonal matrices",
 "Tests decompose generic random matrices; repeated, zero and near-degenerate spectra in the closed forms are not reached.",
 ["TooN/SymEigen.h"],
 [("closed forms for 2x2 and 3x3", "TooN/SymEigen.h"), ("LAPACK syev wrapper", "TooN/SymEigen.h")],
 "property-based testing: reconstruction, orthogonality, spectrum oracle, function identities", "backward-error tolerance")

prop("N09", "Matrix exponential, logarithm and square root",
 "The matrix exponential equals the power series for every square matrix, so commuting exponents add, the exponential of the negative is the inverse and the determinant is the exponential of the trace; the matrix square root squares to its argument and the logarithm inverts the exponential wherever they are defined.",
 "sizes 1..6 static and dynamic, norms from 1e-6 to 30, symmetric, skew, nilpotent and generic matrices; square roots and logarithms of matrices near and away from the identity",
 "Not tested.",
 ["TooN/helpers.h"],
 [("scaling and squaring, Taylor series", "TooN/helpers.h"), ("Denman-Beavers iteration", "TooN/helpers.h")],
 "property-based testing against a long double series oracle and algebraic identities", "relative tolerance")

GW = "Group laws hold to rounding for generated elements over the whole parameter range, not just the few elements a test prints."
prop("G01", "Planar rotations and rigid motions form their groups",
 "For planar rotations and rigid motions, composition, inverse, action on points, lines in homogeneous form and matrices, exponential, logarithm, generators and adjoint agree with the corresponding matrix group: exponential and logarithm invert each other on the principal range, also at and near zero and half-turn angles, and the adjoint transports tangent vectors.",
 "all angles, small and large translations, mixed precision and storage forms of the operands",
 "No test covers planar motions. " + GW, ["TooN/so2.h", "TooN/se2.h"],
 [("closed-form exponential and logarithm", "TooN/so2.h, TooN/se2.h")],
 "property-based testing against the matrix group (long double series exponential)", "relative tolerance 1e-9")
prop("G02", "3D rotations form the rotation group",
 "For 3D rotations, composition, inverse, action on vectors and matrices, exponential, logarithm, generators, adjoint, the rotation between two directions and the coercion of a nearby matrix to a rotation agree with the matrix group: results are orthonormal with determinant one, exponential and logarithm invert each other for every angle up to a half turn, near zero and near the half turn too.",
 "rotation vectors of every direction, angles from 0 and 1e-12 to just below and beyond pi, direction pairs including parallel and opposite ones, float and double",
 "The test prints a few fixed rotations; angle thresholds and the near-pi branch need specific inputs. " + GW, ["TooN/so3.h"],
 [("Rodrigues formula with series at small angles", "TooN/so3.h"), ("logarithm branches", "TooN/so3.h"), ("Gram-Schmidt coercion", "TooN/so3.h")],
 "property-based testing against the matrix group (long double series exponential)", "relative tolerance 1e-9")
prop("G03", "3D rigid motions form the rigid motion group",
 "For 3D rigid motions, composition, inverse, left/right multiplication by rotations, action on points, homogeneous points and planes, matrices, exponential, logarithm, generators, generator fields, adjoint and co-adjoint of vectors and matrices agree with the corresponding 4x4 matrix group, for every angle and translation.",
 "twists with angle 0, tiny, moderate, near pi; translations from 0 to 1e3; points, matrices and storage forms",
 "Not tested directly. " + GW, ["TooN/se3.h"],
 [("closed-form exponential and logarithm", "TooN/se3.h"), ("adjoint formulae", "TooN/se3.h")],
 "property-based testing against the 4x4 matrix group (long double series exponential)", "relative tolerance 1e-8")
prop("G04", "Planar similarity transforms form their group",
 "For planar similarity transforms (rotation, translation, positive scale), composition, inverse, action on points, exponential, logarithm, generators and adjoint agree with the corresponding 3x3 matrix group, for all combinations of zero, tiny and large angle and log-scale.",
 "tangent vectors with each of angle and log-scale zero, tiny, moderate, large; points",
 "Not tested. " + GW, ["TooN/sim2.h"],
 [("exponential coefficients by case", "TooN/sim2.h")],
 "property-based testing against the 3x3 matrix group (long double series exponential)", "relative tolerance 1e-8")
prop("G05", "3D similarity transforms form their group",
 "For 3D similarity transforms (rotation, translation, positive scale), composition, inverse, action on points and homogeneous points, exponential, logarithm, generators, and adjoint agree with the corresponding 4x4 matrix group, for all combinations of zero, tiny and large angle and log-scale.",
 "tangent vectors with each of angle and log-scale zero, tiny, moderate, large; points",
 "The test prints a few fixed exponentials. " + GW, ["TooN/sim3.h"],
 [("exponential coefficients by case", "TooN/sim3.h")],
 "property-based testing against the 4x4 matrix group (long double series exponential)", "relative tolerance 1e-8")
prop("G06", "Special linear group elements have determinant one and obey group laws",
 "For the special linear group of every dimension offered, construction from a matrix normalises the determinant to one, exponentials of tangent vectors are the matrix exponentials of the matching traceless combination of generators, the logarithm inverts the exponential near the identity, and composition, inverse and action agree with matrices.",
 "dimensions 2..5, tangent vectors up to moderate norm, generic matrices of positive determinant, generators",
 "Not tested. " + GW, ["TooN/sl.h"],
 [("generator basis and coefficient recovery", "TooN/sl.h")],
 "property-based testing against the matrix group (long double series exponential)", "relative tolerance 1e-8")

prop("N10", "A decomposition answers for the last matrix it was given, whatever came before",
 "Every decomposition object is a value: its answers (solutions, inverses, factors, determinants, ranks, eigenvalues, roots) are those of a newly made object of the matrix it was last made from, computed for, or copied, moved, swapped or assigned from, in whatever order the questions are asked, whatever it or any other object was asked or computed before (singular and indefinite matrices included), and whatever later happens to the matrix it was given.",
 "histories of up to 40 constructions, recomputations, copies, moves, assignments, swaps, destructions and questions over pools of up to four objects, for every decomposition, static and dynamic sizes, definite, indefinite and singular matrices",
 "The tests construct each decomposition once and ask it once; stale or shared state needs a sequence.",
 ["TooN/Cholesky.h", "TooN/Lapack_Cholesky.h", "TooN/LU.h", "TooN/SVD.h", "TooN/GR_SVD.h", "TooN/SymEigen.h", "TooN/QR.h", "TooN/QR_Lapack.h"],
 [("objects own copies of their matrices and factors", "TooN/SVD.h, TooN/LU.h, TooN/Cholesky.h")],
 "stateful model-based testing: generated histories, each answer compared with a new object's", "answers of a new object", ("histories",))

prop("E01", "Weighted least squares accumulates and solves the stated problem",
 "However measurements are added (one at a time, by sparse block, in batches with or without covariance, with priors, or by merging two accumulators), the estimator's information matrix and vector equal the weighted sums that define them, and its solution minimises the weighted squared error plus priors; clearing returns it to the start. Additions whose run-time sizes do not fit are refused like every size mismatch.",
 "histories of up to 40 additions of every kind, clears and merges, extreme magnitudes, every layout and element type of the measurements, static and dynamic sizes, each offered decomposition",
 "Not tested.", ["TooN/wls.h"],
 [("accumulation of J^T W J", "TooN/wls.h")],
 "stateful model-based testing against explicitly stacked normal equations", "relative tolerance 1e-9 scaled by the condition number", ("histories",))
prop("E02", "Robust reweighting functions and iteratively reweighted least squares",
 "Each reweighting function returns the weight w(x), the scale w(x)+xw'(x) and the integral of xw(x) that its documentation defines, for every residual and inlier deviation; iteratively reweighted accumulation equals weighted accumulation with those weights, keeps the sum of the objective over the residuals and the objective's true Hessian, and merging or clearing accumulators behaves as for plain weighted least squares.",
 "residuals and inlier deviations of every magnitude and sign, histories of additions, clears and merges",
 "Not tested.", ["TooN/irls.h"],
 [("reweighting policies", "TooN/irls.h"), ("weighted accumulation", "TooN/irls.h")],
 "model-based property testing against the definitions", "relative tolerance", ("inputs", "histories"))

prop("F01", "Numerical derivatives approximate the true derivatives",
 "Numerical gradients and Hessians, with their error estimates, agree with the analytic derivatives of smooth functions of any number of variables to the accuracy of extrapolated central differences; the Hessian is symmetric, and the variants with and without error estimates return the same derivatives.",
 "polynomials, exponentials and trigonometric functions of 1..6 variables with generated coefficients, points with coordinates from 0 to 1e7, functions not defined everywhere around the point",
 "Not tested.", ["TooN/functions/derivatives.h"],
 [("Ridders extrapolation", "TooN/functions/derivatives.h"), ("per-coordinate perturbation", "TooN/functions/derivatives.h")],
 "property-based testing against analytic derivatives", "relative tolerance 1e-6 and an error-estimate sanity check")
prop("F02", "Automatic differentiation numbers carry the true derivatives through the library",
 "With forward automatic differentiation numbers as elements, the functions that make vectors and group elements differentiable give each parameter the derivative index asked for; values and derivatives of everything the library computes from them (products, sums, norms, inverses, images, small solvers, determinants) are the true ones, and the functions that extract values, single derivatives and Jacobians place each in the row and column its index names.",
 "dimensions, derivative counts fixed at compile time or run time, first index, group elements, points, operations on vectors and matrices with generated contents",
 "Not tested (FADBAD++ is not installed here; the check supplies a stand-in number type with its interface).", ["TooN/functions/fadbad.h", "TooN/so2.h", "TooN/so3.h", "TooN/se2.h", "TooN/se3.h"],
 [("makers of differentiable vectors and group elements", "TooN/functions/fadbad.h"), ("extraction of derivatives and Jacobians", "TooN/functions/fadbad.h")],
 "property-based testing against the group generators and against central differences in long double", "rounding for what has closed forms, 1e-6 relative for what is compared with differences")

prop("O01", "Downhill simplex descends, is consistent and converges on smooth functions",
 "The downhill simplex never raises its best value, always reports as value the function at the reported point, keeps its vertices' values consistent, stops by its stated criterion, and reaches the minimum of convex quadratic functions; restarting keeps the best point and re-expands the simplex as documented. Every step is one of those documented, at the documented points.",
 "convex quadratics and classic test functions of 1..5 variables, of ordinary and extreme scale, infinite beyond a wall, generated starts and sizes, histories of iterate and restart",
 "One fixed function and start.", ["TooN/optimization/downhill_simplex.h"],
 [("reflect, expand, contract, shrink", "TooN/optimization/downhill_simplex.h")],
 "stateful property testing: per-step invariants plus convergence", "function values compared exactly, minimum to 1e-4", ("inputs", "histories"))
prop("O02", "Conjugate gradient descends and solves quadratics",
 "Nonlinear conjugate gradient minimisation never raises the objective from one accepted iterate to the next, reports iterates consistent with the function, recognises convergence, and finds the minimum along each search direction, minimises positive definite quadratics and other smooth convex functions of any dimension from every start, and neither fails nor goes uphill where the function is not defined beyond some point.",
 "positive definite quadratics of 1..8 variables with generated conditioning, smooth test functions, of ordinary and extreme scale, infinite or undefined beyond a wall, generated starts",
 "Not tested.", ["TooN/optimization/conjugate_gradient.h"],
 [("bracketing line search and Polak-Ribiere update", "TooN/optimization/conjugate_gradient.h")],
 "property-based testing: per-iteration invariants plus convergence", "objective compared with the known minimum", ("inputs", "histories"))
prop("O03", "Line searches return the minimum of a bracketed unimodal function",
 "Given a bracket of a unimodal function, the golden section and Brent line searches return a point inside the bracket and the function's value there, no higher than at the bracket's middle point, within tolerance of the minimum, after no more than the allowed number of iterations.",
 "quartic, absolute-value, exponential and trigonometric unimodal functions of ordinary and extreme scale, infinite near the ends of the bracket, generated brackets and tolerances",
 "Not tested.", ["TooN/optimization/golden_section.h", "TooN/optimization/brent.h"],
 [("interval reduction", "TooN/optimization/golden_section.h, TooN/optimization/brent.h")],
 "property-based testing against analytically known minima", "position within the stated tolerance")
