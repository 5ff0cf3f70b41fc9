prop(
    "C12",
    "Reported shapes, ranks, and data types are those of the dense matrix",
    "For a matrix of any type, and for the result of any operation on matrices, the shape, batch shape, matrix shape, rank, and data type that it "
    "reports, as a whole or by position, are those of its dense version, before and after conversion to dense; its textual "
    "representation states them. If all operands have one data type, so has the result. The broadcasted shape of any number of "
    "matrices or shapes is the one that NumPy gives, and shapes that do not broadcast are refused.",
    ["inputs", "programs"],
    "All matrices of every type, nested, tiled, with factors of different batch shapes and data types; results of one or two operations; up to "
    "four shapes of up to four dimensions.",
    "Tests look at the shapes and data types of fixture matrices whose factors all have one batch shape and one data type.",
    f("ops/shape", "ops/shape_batch", "ops/shape_matrix", "ops/shape_batch_broadcast", "ops/shape_matrix_broadcast", "ops/dtype", "ops/rank", "ops/uprank", "shape", "matrix"),
    [("shapes of composite matrices", "matrix/ops/shape_batch.py, matrix/ops/shape_matrix.py"), ("broadcasting of shapes", "matrix/shape.py"), ("representations", "matrix/{matrix,constant,diagonal,lowrank,woodbury,kronecker}.py")],
    PBT + " against the metadata of the dense NumPy array",
)

prop(
    "C13",
    "Matrices are values: no history of operations changes them or later results",
    "No operation changes a matrix or an array that it was given, whether or not it keeps intermediate results (the dense version, a Cholesky "
    "factor, a Schur complement) for later. So after any sequence of operations, in which matrices and their parts are shared and "
    "used again, every matrix still denotes the value it had when it was made, and every further operation gives the same result that it gives on "
    "a fresh copy.",
    ["histories", "programs"],
    "All sequences of operations over pools of matrices of every type; sharing of arrays, parts, and whole matrices; results used as operands of later operations, "
    "the same one twice included.",
    "Tests apply one operation to fresh fixtures; an intermediate result that is kept wrongly, or an array that is written to, "
    "shows only in what is computed afterwards.",
    f("matrix", "ops/dense", "ops/cholesky", "ops/schur", "ops/pd_schur", "ops/fill_diag", "ops/algorithms/align", "ops/add", "ops/take"),
    [("intermediate results that matrices keep", "matrix/ops/{dense,cholesky,schur,pd_schur}.py"), ("sharing of parts", "matrix/ops/*.py"), ("alignment of columns", "matrix/ops/algorithms/align.py")],
    PBT + ", stateful: histories against a dense model",
)

prop(
    "C14",
    "Operations keep the structure of their operands",
    "The type of a result is as specific as the structure of its operands allows. Zero is neutral in sums and absorbs in products of any kind. "
    "Sums of matrices of one type and products of both kinds of matrices of one type keep that type (sums of Kronecker products excepted); so do scaling by "
    "numbers and constants, negation, casts, broadcasts of the batch, and reading a result's transpose (with lower and upper triangular swapped). The "
    "element-wise product with a diagonal matrix is diagonal, with a triangular matrix triangular; low-rank plus diagonal is a Woodbury matrix, and so are Woodbury matrices "
    "times, plus, or solved by diagonal and Woodbury matrices; matrix products with a low-rank or constant matrix are low-rank; the Kronecker "
    "product of anything is a Kronecker product. Inverses, positive-definite inverses, and Cholesky factors of diagonal, Woodbury, and Kronecker matrices, submatrices, blocks on the diagonal, and "
    "tiled blocks keep their structure as well. Nothing else becomes of a chain of such operations.",
    ["inputs", "programs"],
    "All operations on all pairs of types, of all sizes, batch shapes and data types, with any parts; chains of operations.",
    "Tests look at the types of the results for fixture operands; not for those with other batch shapes, other ranks, other parts, or that are results themselves.",
    f("ops/add", "ops/multiply", "ops/matmul", "ops/divide", "ops/solve", "ops/inv", "ops/pd_inv", "ops/cholesky", "ops/root", "ops/negative", "ops/transpose", "ops/block", "ops/kron", "ops/take", "ops/submatrix", "ops/broadcast_batch_to", "ops/cast"),
    [("dispatch on the pair of types", "matrix/ops/*.py"), ("structured results", "matrix/{diagonal,constant,lowrank,woodbury,kronecker,triangular,zero}.py")],
    PBT + " against a table of result types",
)

prop(
    "C15",
    "Users are warned exactly when an operation converts structure to dense",
    "Whenever an operation converts a structured operand, or a structured factor of one, to a dense matrix because there is no structured way to do it (for example, adding a low-rank "
    "to a triangular matrix, multiplying a low-rank matrix element-wise by a dense one, indexing or reshaping a structured matrix, or assembling blocks "
    "of different types), the user is given a `ToDenseWarning`. Operations that keep the structure, operations that read numbers off the structure (sums, traces, "
    "diagonals, products), requests for the dense version, and sums and products with dense operands that have a dense result anyhow, give no such "
    "warning.",
    ["inputs", "programs"],
    "All operations on all pairs of types, of all sizes, batch shapes, and data types. That there is no warning is required of operands whose parts are "
    "numeric or dense.",
    "Tests check for warnings with fixture operands of one size and shape of the parts.",
    f("util", "ops/add", "ops/multiply", "ops/matmul", "ops/solve", "ops/reshape", "ops/block", "ops/take", "ops/diag", "ops/submatrix", "ops/isnan", "ops/matmul_diag", "ops/concat"),
    [("warnings and redirection to dense", "matrix/util.py: ToDenseWarning, redirect"), ("dispatch on the pair of types", "matrix/ops/*.py")],
    PBT + " against a table of warnings",
)

prop(
    "C16",
    "With JAX, eager or compiled, operations give what they give with NumPy",
    "Matrices of JAX arrays give the same values and the same types of results as matrices of NumPy arrays. This also holds when a function of such operations is traced for compilation "
    "with some or all of the arrays abstract, as `B.jit` does after it recorded the control flow in a first run, and when what was compiled is run with other values of the same control "
    "flow. Matrices of concrete arrays may be made outside of the function and be used in it and afterwards. A matrix is abstract if and only if one of its parts is. Indices, and masks that only determine a size, may be abstract.",
    ["programs", "inputs"],
    "All sequences of operations on matrices of every type with JAX arrays, traced in all or some of the arrays.",
    "Tests run with NumPy but for a handful of calls; which comparisons and sizes depend on values only shows when they are abstract.",
    f("ops/isabstract", "ops/algorithms/align", "ops/add", "ops/take", "ops/submatrix", "ops/to_numpy", "promote", "ops/multiply", "ops/eye", "ops/util", "shape"),
    [("recorded control flow", "matrix/ops/add.py, matrix/ops/algorithms/align.py, matrix/ops/take.py"), ("abstractness", "matrix/ops/isabstract.py"), ("lazy dimensions", "matrix/constant.py, matrix/ops/*.py")],
    PBT + ", stateful: histories, differential between JAX (eager, traced, compiled) and a dense NumPy model",
)

prop(
    "C17",
    "Operands, arguments, and parts that do not fit are refused",
    "Where sizes or batch shapes do not fit (and would not fit in NumPy either), sums, differences, products, quotients, matrix products in any transposition, solves, quadratic forms, ratios, "
    "and concatenations of any two types raise an exception instead of giving a result: at once, or, for products and for factors of low-rank and Kronecker products of which only the batch shapes do not fit, at the latest when the result is used. The same goes for inverses, factorisations, and determinants of matrices "
    "that are not square, positions and axes that are out of range, masks of another length, shapes that an object cannot be broadcast, reshaped or tiled to, and the construction of matrices from parts of which "
    "ranks, sizes or batch shapes do not agree (tiled blocks may raise when they are used). Positions and target shapes for zero and constant matrices are excepted.",
    ["inputs"],
    "All pairs of types and all misfits of sizes and batch shapes; solves of zero excepted; factors of Kronecker products that align are compared as wholes.",
    "Tests check one or two misfits of one pair of types; the structured rules each need a check of their own, because what they compute from the parts often goes through.",
    f("shape", "ops/add", "ops/multiply", "ops/matmul", "ops/solve", "ops/take", "ops/submatrix", "ops/reshape", "lowrank", "woodbury", "kronecker", "triangular", "tiledblocks", "ops/inv", "ops/logdet", "ops/cholesky", "ops/root"),
    [("compatibility of shapes", "matrix/shape.py: assert_compatible, assert_matrix, assert_square"), ("constructors", "matrix/{lowrank,woodbury,kronecker,triangular,tiledblocks,constant}.py")],
    PBT + ": misfits that NumPy refuses as well must be refused",
)

prop(
    "C19",
    "Sums of low-rank matrices share columns, and what cancels leaves no trace",
    "In sums and differences of low-rank, constant, Woodbury, and diagonal matrices, equal columns are identified, in whichever order the operands have them: the rank of the result is at most the number of "
    "different columns on either side. A low-rank part that cancels exactly disappears: `L - L` is a zero matrix, `(D + L) - L` is a diagonal matrix, and it keeps on working in longer "
    "chains of sums, negations, and scalings. In particular, `inv(inv(D + L)) - L` is diagonal. The inverse of a Woodbury matrix "
    "has a low-rank part of the same rank, products of low-rank matrices have no larger rank than the factors, and element-wise products no larger rank than the product of the ranks.",
    ["programs", "inputs"],
    "All programs of sums over low-rank matrices that share columns with each other, of all sizes, batch shapes, and data types; well-conditioned inverses.",
    "Tests add two fixtures that share all or no columns; which columns match depends on the order, the norms, the batch, and the history of the operands.",
    f("ops/algorithms/align", "ops/add", "ops/inv", "ops/schur", "ops/matmul", "ops/multiply", "ops/negative", "ops/subtract", "promote", "lowrank"),
    [("alignment of columns", "matrix/ops/algorithms/align.py: align"), ("cancellation", "matrix/ops/add.py: add(LowRank, LowRank)"), ("inverse of Woodbury matrices", "matrix/ops/inv.py")],
    PBT + ", model-based: programs against a model of columns and coefficients",
)

prop(
    "C18",
    "The textual form of a matrix shows its type, shape, data type, rank, and parts",
    "The string of a matrix is a line that states the type, the batch shape, the shape, and the data type, and for low-rank matrices the rank and for tiled blocks the axis, as they are. The representation in addition shows all parts that "
    "determine the matrix, by name and in order, nested to any depth, with the lines of a part below each other; the factors of a low-rank matrix that were not given are not shown. For tiled "
    "blocks, it shows every block with the number of repetitions. This holds for the results of operations as well.",
    ["inputs"],
    "All matrices of all types, nested in any way, of all sizes, batch shapes, and data types; results of one operation on one or two of those.",
    "Tests compare the text of one matrix of every type.",
    f("matrix", "zero", "constant", "diagonal", "lowrank", "woodbury", "kronecker", "triangular", "tiledblocks", "util"),
    [("headers", "matrix/matrix.py: AbstractMatrix.__str_meta__"), ("indentation of parts", "matrix/util.py: indent"), ("representations", "matrix/*.py: __repr__")],
    PBT + " against a model of the textual form",
)

prop(
    "C20",
    "Operators, methods, numbers, and arrays work as the functions do on matrices",
    "A number (of Python or NumPy), a vector, a matrix, or a batch of matrices that is given as a plain array may stand on either side of a matrix of any type in sums, differences, "
    "products, quotients, matrix products, of floating-point numbers or of integers, by operator, by in-place operator (the matrix on the left), and by function; the result is a matrix that equals the one computed from the dense versions, where vectors are columns. Plain arrays "
    "may be operands of solves, quadratic forms, Kronecker products, diagonals of products, blocks, and concatenations as well. "
    "The attributes and methods of matrices (transpose, powers, reshaping, flattening, squeezing, the diagonal, shape, data type, and indexing with "
    "integers, slices, lists, masks, ellipses, and new axes) do what NumPy's do to the dense version.",
    ["inputs"],
    "All types of matrices, all sizes and batch shapes, all kinds of numbers and arrays on either side.",
    "Tests combine fixtures with one number and one array of the same shape.",
    f("matrix", "promote", "util", "ops/add", "ops/subtract", "ops/multiply", "ops/divide", "ops/matmul", "ops/power", "ops/reshape", "ops/take", "ops/solve", "ops/iqf", "ops/kron"),
    [("operators and methods", "matrix/matrix.py"), ("promotion of numbers and arrays", "matrix/promote.py"), ("rules for numbers and arrays", "matrix/ops/*.py")],
    PBT + ", differential against NumPy",
)

prop(
    "C21",
    "Operations on structured matrices do not form the dense matrix",
    "An operation on zero, diagonal, constant, low-rank, Woodbury, and Kronecker matrices that gives no warning about conversion to dense does not, in passing either, form a dense matrix: when the matrices "
    "are large, the memory it takes stays well below that of one dense matrix. This holds for sums, products, quadratic forms with thin matrices, "
    "solves, inverses, factorisations, determinants, sampling, sums, traces, diagonals, and rows, columns, and submatrices that are structured; for operands that are results of such operations too.",
    ["inputs", "programs"],
    "Chains of up to five operations over up to three matrices with 480 to 576 rows of which the parts take at most a twelfth of the memory of a dense matrix; a violation is memory in excess of a quarter of it.",
    "Tests look at the values and the types of the results of small matrices, where forming the dense matrix on the way goes unnoticed.",
    f("ops/add", "ops/multiply", "ops/matmul", "ops/matmul_diag", "ops/inv", "ops/pd_inv", "ops/logdet", "ops/iqf", "ops/iqf_diag", "ops/solve", "ops/sample", "ops/sum", "ops/trace", "ops/diag", "ops/cholesky", "ops/root", "ops/schur", "ops/ratio", "ops/submatrix"),
    [("structured rules", "matrix/ops/*.py"), ("the matrix inversion and determinant lemmas", "matrix/ops/inv.py, matrix/ops/logdet.py, matrix/ops/schur.py")],
    PBT + ", stateful: chains of operations under a bound on the memory in use",
)

prop(
    "C22",
    "Computations with Gaussians of structured covariances give the dense results",
    "For Gaussian distributions with means of any type and positive-definite dense, diagonal, Woodbury (a positive diagonal plus a positive-definite low-rank part), and Kronecker covariances, also as "
    "sums, scalings, and congruences of such, what is computed with the operations of the library equals the dense formulas for every element of the batch: log-densities, also "
    "where part of the observations is missing; entropies, Kullback-Leibler divergences, and Wasserstein distances; the mean and the variance given observations, "
    "by quadratic forms, by solves, or by inverses; the evidence, the weights, and the fit of a regression on features, which the same matrix computes in the space of the functions; and "
    "the means and covariances of a Kalman filter.",
    ["programs", "inputs"],
    "Covariances of all types with any parts and well-conditioned; means, observations, and cross-covariances of all types; all sizes and batch shapes that broadcast; up to three steps of a filter.",
    "Tests look at one operation at a time on fixtures; what these computations rely on is that results of operations, kept factors, and batches fit together.",
    f("ops/iqf", "ops/iqf_diag", "ops/logdet", "ops/ratio", "ops/solve", "ops/pd_inv", "ops/root", "ops/cholesky", "ops/pd_schur", "ops/submatrix", "ops/matmul", "ops/matmul_diag", "ops/add", "ops/subtract", "ops/trace"),
    [("quadratic forms and determinants", "matrix/ops/{iqf,iqf_diag,logdet,ratio}.py"), ("inverses and roots", "matrix/ops/{pd_inv,solve,root,pd_schur}.py"), ("assembly of covariances", "matrix/ops/{add,matmul,submatrix}.py")],
    PBT + ", metamorphic and against dense formulas",
)

prop(
    "C23",
    "Derivatives and vectorisation with JAX go through structured matrices",
    "When matrices are made from JAX arrays, whatever is computed from them has, as a function of these arrays, the derivatives of the dense formula, in forward and in reverse mode, "
    "with and without recorded control flow; and mapped over a further axis of the arrays, it gives the stack of the single results. This holds for arrays with generic values (columns of low-rank "
    "matrices that coincide although they come from different arrays are merged, which loses a part of the derivative; roots and data type casts are left out).",
    ["inputs", "programs"],
    "Single operations on all types, histories of up to six operations over pools of matrices, and densities, divergences, and evidences of Gaussians; few sizes and batch shapes.",
    "Tests do not differentiate, nor do they vectorise.",
    f("ops/add", "ops/multiply", "ops/matmul", "ops/inv", "ops/logdet", "ops/iqf", "ops/iqf_diag", "ops/cholesky", "ops/solve", "ops/algorithms/align", "ops/dense", "ops/util", "ops/pd_schur", "ops/schur"),
    [("recorded control flow", "matrix/ops/add.py, matrix/ops/algorithms/align.py"), ("kept intermediate results", "matrix/ops/util.py")],
    PBT + ", differential: derivatives by JAX against finite differences of the same program with NumPy",
)
