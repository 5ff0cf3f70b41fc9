"""Writes `properties.jsonl` and `MANIFEST.json`. Run by hand only, never by a check."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PBT = "property-based testing (Hypothesis, structured generators with shrinking)"
NOTE = (
    "Search over generated inputs: no violation among the cases that the evidence counts, not a proof. "
    "Trusts NumPy's dense arithmetic as the oracle, and compares up to a tolerance that scales with the "
    "magnitude of the terms."
)

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note=NOTE, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "row": {
                "id": id,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe or [],
                },
            },
            "technique": technique,
            "note": note,
        }
    )


def f(*names):
    return [f"matrix/{n}.py" for n in names]


TYPES = (
    "all matrix types (zero, dense, diagonal, constant, lower and upper triangular, low-rank, Woodbury, "
    "Kronecker) and plain numeric arrays, numbers, and vectors"
)

prop(
    "C01",
    "Sums and differences of structured matrices equal those of the dense matrices",
    "Adding or subtracting matrices of any two types, or a matrix and a number, vector, or numeric matrix, in any "
    "order and association, gives a matrix whose dense version is the sum or difference of the dense versions, "
    "with batch dimensions broadcast. The sizes of the matrices agree, or the smaller operand is a number, a "
    "column vector, or a numeric, dense, constant, or zero matrix that broadcasts as a NumPy array would. This "
    "also holds when the operands share low-rank columns, in all or only in some elements of the batch and up to "
    "a multiple, and for any magnitude of the values.",
    ["inputs", "programs"],
    "All pairs and chains of matrices of " + TYPES + "; all sizes, batch shapes that broadcast, data types, and "
    "magnitudes; all orders and associations of sums and differences.",
    "Tests add fixed pairs of fixture matrices of one or two sizes with independent random values, so shared columns, "
    "extreme scales, chains of sums, and unusual batch shapes of the factors are not reached.",
    f("ops/add", "ops/subtract", "ops/algorithms/align", "promote", "lowrank", "woodbury"),
    [
        ("dispatch on the pair of types", "matrix/ops/add.py: add"),
        ("alignment of shared low-rank columns", "matrix/ops/algorithms/align.py: align"),
        ("promotion of numeric operands", "matrix/promote.py"),
    ],
    PBT + " against dense NumPy sums",
)

prop(
    "C02",
    "Element-wise products and quotients equal those of the dense matrices",
    "Multiplying matrices of any two types element-wise, in either order, or dividing a matrix by a number, "
    "constant, or dense matrix without zeros, gives a matrix whose dense version is the element-wise product or "
    "quotient of the dense versions, with batch dimensions broadcast. The sizes of the matrices agree, or the "
    "smaller operand is a number, a column vector, or a numeric, dense, constant, or zero matrix that broadcasts as "
    "a NumPy array would. Only the product of two Kronecker products whose factors have different sizes may be "
    "refused with an assertion error.",
    ["inputs", "programs"],
    "All pairs and triples of matrices of " + TYPES + "; all sizes, batch shapes that broadcast, data types, and magnitudes.",
    "Tests multiply fixed pairs of fixture matrices; low-rank factors with a batch of their own, rectangular "
    "matrices, rows and columns that broadcast, and repeated products are hardly reached.",
    f("ops/multiply", "ops/divide", "promote"),
    [("dispatch on the pair of types", "matrix/ops/multiply.py: multiply"), ("division", "matrix/ops/divide.py: divide")],
    PBT + " against dense NumPy products",
)

prop(
    "C03",
    "Matrix products equal those of the dense matrices, for all transposition flags",
    "The matrix product of matrices of any two types, or of a matrix with a numeric matrix or vector on either side, "
    "computed by function or operator and with either operand transposed or not, gives a value whose dense version is "
    "the product of the (transposed) dense versions, with batch dimensions broadcast. The product of several matrices is "
    "the same, and the diagonal of a product that is computed without forming the product equals the diagonal of the "
    "product. Only the product of two Kronecker products whose factors cannot be composed may be refused with an "
    "assertion error.",
    ["inputs", "programs"],
    "All pairs and triples of matrices of " + TYPES + " with composable sizes; all combinations of transposition flags, "
    "batch shapes that broadcast, data types, and magnitudes.",
    "Tests multiply square fixture matrices, mostly of one size, for which transposing the wrong operand or taking "
    "the wrong dimension often goes unnoticed.",
    f("ops/matmul", "ops/matmul_diag", "promote"),
    [("dispatch on the pair of types", "matrix/ops/matmul.py: matmul"), ("diagonals of products", "matrix/ops/matmul_diag.py")],
    PBT + " against dense NumPy products",
)

prop(
    "C04",
    "Element-wise functions, transposes, casts, and like-constructors match dense",
    "Negation, absolute value, square root, integer and fractional powers (where the values allow them), transposition, "
    "casts to another data type, and detection of NaNs give, for a matrix of any type and for any chain of them, the result "
    "of the same operation on the dense version. Matrices of zeros or ones that are "
    "constructed from another matrix have its shape and data type, and the identity matrix that is constructed from a "
    "square matrix has its size and data type. Diagonal matrices that are filled with a number or a batch of numbers, and the matrices that numbers and "
    "arrays, or constant matrices, are converted to, denote the same.",
    ["inputs", "programs"],
    "Every matrix of every type, with nested Kronecker products and tiled blocks; all sizes, batch shapes, data types, "
    "magnitudes; all chains of up to three operations; NaNs at any position.",
    "Tests apply one function to one fixture matrix of each type, without chains, NaNs inside of factors, or factors that "
    "have batch shapes of their own.",
    f("ops/negative", "ops/abs", "ops/sqrt", "ops/power", "ops/transpose", "ops/cast", "ops/isnan", "ops/ones", "ops/zeros", "ops/eye", "ops/fill_diag", "promote", "ops/dense"),
    [("one method for every type", "matrix/ops/{negative,abs,sqrt,power,transpose,cast,isnan}.py"), ("conversion to dense", "matrix/ops/dense.py")],
    PBT + " against dense NumPy functions",
)

prop(
    "C05",
    "Sums, means, traces, and diagonals equal those of the dense matrices",
    "The sum and the mean of a matrix of any type, over all entries or over any positive or negative axis, its trace, and its "
    "diagonal equal those of its dense version, including for rectangular matrices. The results have the shape that "
    "NumPy gives, also when the factors of the matrix have different batch shapes.",
    ["inputs"],
    "Every matrix of every type; all sizes including rectangular ones, axes, batch shapes of the factors, data types, and magnitudes.",
    "Tests sum fixture matrices whose factors all have the same batch shape.",
    f("ops/sum", "ops/mean", "ops/trace", "ops/diag", "ops/diag_extract"),
    [("sums without forming the matrix", "matrix/ops/sum.py"), ("diagonals without forming the matrix", "matrix/ops/diag.py")],
    PBT + " against dense NumPy reductions",
)

prop(
    "C06",
    "Selecting, reshaping, broadcasting, and tiling match the dense matrices",
    "Taking rows, columns, or batch elements by indices or by masks, principal submatrices by masks or by distinct indices in "
    "increasing order, indexing, reshaping, flattening, squeezing, broadcasting the batch or the matrix dimensions, and tiling "
    "a matrix of any type give the result of the same operation on its dense version. Indices may be negative, repeated, and "
    "in any order when taking, and masks may select nothing.",
    ["inputs"],
    "Every matrix of every type; all sizes and batch shapes; all axes, indices, masks, slices, target shapes, and repetitions.",
    "Tests take a few fixed indices from fixture matrices; orders, repetitions, empty selections, and factors with batch shapes "
    "of their own are not covered.",
    f("ops/take", "ops/submatrix", "ops/reshape", "ops/squeeze", "ops/broadcast_to", "ops/broadcast_batch_to", "ops/tile", "matrix"),
    [("structured selection", "matrix/ops/take.py, matrix/ops/submatrix.py"), ("structured broadcasting", "matrix/ops/broadcast_batch_to.py")],
    PBT + " against dense NumPy selections",
)

prop(
    "C07",
    "Block, block-diagonal, concatenated, Kronecker, and tiled matrices match dense",
    "Assembling matrices of any types into a block matrix, a block-diagonal matrix, a concatenation along any axis, a Kronecker "
    "product, or a matrix of repeated blocks gives a matrix whose dense version is that assembled from the dense versions of the "
    "parts, with batch dimensions broadcast. This also holds when the structure of the parts is recognised, such as a grid of which only "
    "the diagonal blocks are not zero, or parts that are all constant, diagonal, or zero.",
    ["inputs"],
    "All grids up to 3 by 3, up to 4 diagonal blocks, up to 3 Kronecker factors, and tiled blocks along any axis; parts of " + TYPES
    + "; all aligned sizes and batch shapes that broadcast.",
    "Tests assemble a few fixed grids; which structure is recognised depends on the types at every position of the grid and on their "
    "shapes, of which they sample a handful.",
    f("ops/block", "ops/block_diag", "ops/concat", "ops/kron", "tiledblocks", "kronecker", "ops/dense"),
    [("recognition of structure in grids", "matrix/ops/block.py"), ("block-diagonal matrices", "matrix/ops/block_diag.py"), ("tiled blocks", "matrix/tiledblocks.py")],
    PBT + " against dense NumPy assembly",
)

prop(
    "C08",
    "Cholesky factors and square roots reproduce the matrix",
    "For a positive-definite dense, diagonal, Woodbury, or Kronecker matrix, and for constant, low-rank, and zero matrices where they are "
    "supported, the Cholesky decomposition times its transpose reproduces the matrix up to the regularisation that the library "
    "applies, and is lower triangular for square factors. The root is a symmetric matrix whose square reproduces the matrix. Asking again, "
    "after any other use of the matrix, gives the same answer. (Here and below, a Woodbury matrix is positive definite by its parts: the diagonal part "
    "is positive, and the low-rank part is symmetric with a positive-definite middle factor.)",
    ["inputs", "histories"],
    "All positive (semi-)definite matrices of these types, with factors of different batch shapes, including those that result from up to three "
    "operations that keep them so; repeated requests.",
    "Tests decompose fixture matrices once; matrices that other operations produce, different batch shapes of the factors, and "
    "decompositions of a matrix that was cached are not covered.",
    f("ops/cholesky", "ops/root"),
    [("cached decompositions", "matrix/ops/cholesky.py"), ("roots", "matrix/ops/root.py")],
    PBT + " with a reconstruction oracle",
)

prop(
    "C09",
    "Inverses and solutions of linear systems are right",
    "The inverse of a well-conditioned dense, diagonal, Woodbury, or Kronecker matrix, and the inverse for positive-definite matrices of one whose parts are so too, "
    "times that matrix is the identity. Solving a linear system with such a matrix or a triangular one, against a right-hand side of any type, "
    "gives what, multiplied by the matrix, is the right-hand side; solving against a triangular matrix uses the triangle that the type of the matrix "
    "prescribes, and solving with a Cholesky factor solves the system of the matrix that it factorises. Batch dimensions broadcast, and the matrix "
    "still denotes the same value afterwards.",
    ["inputs", "programs"],
    "All well-conditioned matrices of these types, nested and after up to three other operations; right-hand sides of " + TYPES
    + "; batch shapes that broadcast.",
    "Tests invert fixture matrices of one or two sizes; the matrix inversion lemma is used with factors of other shapes, ranks, "
    "batch shapes, and with non-symmetric low-rank parts, which are not covered.",
    f("ops/inv", "ops/pd_inv", "ops/solve", "ops/triangular_solve", "ops/cholesky_solve", "ops/schur", "ops/pd_schur"),
    [("matrix inversion lemma", "matrix/ops/inv.py, matrix/ops/pd_inv.py"), ("Schur complements", "matrix/ops/schur.py, matrix/ops/pd_schur.py")],
    PBT + " against dense NumPy inverses",
)

prop(
    "C10",
    "Quadratic forms, ratios, log-determinants, and Schur complements are right",
    "For a well-conditioned positive-definite dense, diagonal, Woodbury, or Kronecker matrix A, whose parts are positive definite as well, and matrices B and C of any type, the inverse "
    "quadratic form equals B^T A^-1 C, its diagonal variant equals the diagonal of that, the ratio of a positive semi-definite matrix S to A equals the "
    "trace of A^-1 S, and the log-determinant equals the logarithm of the determinant, for every element of the broadcast "
    "batch. The log-determinant of a triangular matrix with a positive diagonal is right too. Schur complements of Woodbury matrices equal the inverse of "
    "the middle factor plus the quadratic form of the low-rank factors in the inverse of the diagonal part.",
    ["inputs", "programs"],
    "All well-conditioned positive-definite matrices of these types, nested and after up to three other operations; B and C of " + TYPES
    + ", equal or different; batch shapes that broadcast.",
    "Tests evaluate these on fixture matrices; other ranks, sizes, nesting, batch shapes of the factors, and the same object passed twice "
    "or different ones are hardly covered.",
    f("ops/iqf", "ops/iqf_diag", "ops/ratio", "ops/logdet", "ops/schur", "ops/pd_schur"),
    [("quadratic forms via Cholesky", "matrix/ops/iqf.py, matrix/ops/iqf_diag.py"), ("determinant lemma", "matrix/ops/logdet.py"), ("ratio", "matrix/ops/ratio.py")],
    PBT + " against dense NumPy linear algebra",
)

prop(
    "C11",
    "Samples have exactly the prescribed covariance and advance the random state",
    "Samples with a positive (semi-)definite matrix of any supported type as covariance are a linear map of fresh standard normal noise such "
    "that the joint covariance of all samples is block-diagonal: the matrix for every sample, and zero between different samples and between different elements of "
    "the batch. The same random state gives the same samples, the state that is returned or the global state gives different ones, and an explicit "
    "state and the global state agree.",
    ["inputs", "histories"],
    "All positive (semi-)definite matrices with factors of different batch shapes, after other operations; 1 to 3 samples; all seeds.",
    "Tests compare an empirical covariance of many samples of a fixture matrix with a loose tolerance, and not between samples or elements of a batch.",
    f("ops/sample", "ops/cholesky", "ops/root"),
    [("samples from a root", "matrix/ops/sample.py"), ("sum of independent samples for Woodbury", "matrix/ops/sample.py: sample(Woodbury)")],
    PBT + " with probing noise that makes the covariance exact",
    NOTE + " The covariance is exact for the NumPy back end; for JAX it is a statistical test with eight standard deviations of slack.",
)

exec(open(os.path.join(VERIF, "tools", "docs_more.py")).read())

NA = []


if __name__ == "__main__":
    have = {x[:-3].upper() for x in os.listdir(os.path.join(VERIF, "pbt", "props")) if x.startswith("c")}
    rows = [p for p in P if p["row"]["id"] in have]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in rows:
            fh.write(json.dumps(p["row"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./check --sanity",
        "checks": [
            {
                "property": p["row"]["id"],
                "quick_cmd": f"./check {p['row']['id']} --tier quick",
                "thorough_cmd": f"./check {p['row']['id']} --tier thorough",
                "evidence_file": f"evidence/{p['row']['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in rows
        ],
        "not_applicable": NA,
        "notes": "No hooks in /repo: everything is observed through the public interface. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
    print(len(rows), "properties")
