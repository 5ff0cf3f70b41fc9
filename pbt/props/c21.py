"""C21: structured operations never form the dense matrix."""

import tracemalloc
import warnings

import numpy as np

from .. import structure as S
from ..boot import B, ToDenseWarning, matrix

ID = "C21"
N_QUICK = 6000
RULE = (
    "Chains of 1 to 5 structured operations on square matrices of the types zero, diagonal, constant, low-rank, Woodbury, and Kronecker with 480 to 576 rows, numbers, and thin dense matrices; during "
    "every operation, the memory that is allocated at most is less than a quarter of one dense matrix. Non-trivial: an operation is run that gives no warning."
)
KINDS = ["zero", "diag", "const", "lr", "wb", "kron"]
FACTORS = [(24, 20), (20, 26), (24, 24), (25, 20), (2, 250), (240, 2)]
BIN = ["add", "add", "sub", "mul", "mm", "mm_t", "mm_diag", "block_diag"]
UN = [
    "neg", "T", "scale", "divs", "scal_add", "cast", "sum", "sum-1", "sum-2", "mean", "trace", "diag", "bcb", "ones", "zeros", "eye", "promo", "shape", "pow", "abs", "submat", "take", "take1", "takeb", "uprank",
    "thin_mm", "mm_thin", "thin_diag",
]  # fmt: skip
PD = ["inv", "pd_inv", "logdet", "solve_thin", "iqf", "iqf_diag", "ratio", "schur", "sample", "chol", "root", "solve", "iqf_lr", "iqf_diag_same"]
RESULTS = {"neg", "T", "scale", "divs", "scal_add", "cast", "promo", "inv", "pd_inv", "ones", "zeros", "eye", "abs", "pow", "bcb", "uprank"}


def _gen(c):
    left, right = c.pick(*FACTORS)
    n = left * right
    batch = c.pick([], [], [2])
    xs = []
    for _ in range(c.int(1, 3)):
        kind = c.pick(*KINDS, "lr", "wb", "kron")
        xs.append({"kind": kind, "seed": c.int(0, 99), "rank": c.int(1, 2), "batch": batch if c.chance(2) else [], "pd": kind in ("diag", "wb", "kron"), "sym": c.chance(2)})
    count, pd = len(xs), [x["pd"] for x in xs]
    steps = []
    for _ in range(c.int(1, 5)):
        how = c.int(0, 2)
        i = c.int(0, count - 1)
        ok = [k for k in range(count) if pd[k]]
        if how == 0:
            op = c.pick(*BIN)
            steps.append([op, i, c.int(0, count - 1)])
            new = op in ("add", "sub", "mul", "mm", "mm_t")
        elif how == 1 and ok:
            i = c.pick(*ok)
            op = c.pick(*PD)
            steps.append([op, i, c.int(0, count - 1)])
            new = op in RESULTS
        else:
            op = c.pick(*UN)
            steps.append([op, i])
            new = op in RESULTS
        if new:
            count += 1
            pd.append(False)
    return {"factors": [left, right], "xs": xs, "steps": steps, "seed": c.int(0, 99)}


def _make(x, left, right):
    rng = np.random.default_rng(x["seed"])
    n, b = left * right, x["batch"]
    u = lambda *s: rng.uniform(0.5, 1.5, s)  # noqa
    k = x["kind"]
    if k == "zero":
        return matrix.Zero(np.float64, *b, n, n)
    if k == "diag":
        return matrix.Diagonal(u(*b, n))
    if k == "const":
        return matrix.Constant(u(*b), n, n)
    if k == "lr" and not x["sym"]:
        return matrix.LowRank(rng.normal(size=(*b, n, x["rank"])), rng.normal(size=(*b, n, x["rank"])), matrix.Dense(u(*b, x["rank"], x["rank"])))
    if k == "lr":
        return matrix.LowRank(rng.normal(size=(*b, n, x["rank"])))
    if k == "wb":
        return matrix.Woodbury(matrix.Diagonal(u(*b, n)), matrix.LowRank(rng.normal(size=(*b, n, x["rank"])), middle=matrix.Diagonal(u(*b, x["rank"]))))
    parts = []
    for d in (left, right):
        if x["sym"] or d > 100:
            parts.append(matrix.Diagonal(u(*b, d)))
        else:
            q = rng.normal(size=(*b, d, d)) / d
            parts.append(matrix.Dense(q @ np.swapaxes(q, -1, -2) + np.eye(d)))
    return matrix.Kronecker(*parts)


def _do(op, x, y, thin, n):
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    if op == "mm":
        return x @ y
    if op == "mm_t":
        return B.matmul(x, y, tr_a=True)
    if op == "mm_diag":
        return B.matmul_diag(x, y, tr_b=True)
    if op == "block_diag":
        return B.block_diag(x, y)
    if op == "scal_add":
        return x + 2.5
    if op == "shape":
        return B.shape(x), B.dtype(x), B.rank(x)
    if op == "submat":
        return B.submatrix(x, np.arange(0, n, 2))
    if op == "take":
        return B.take(x, [0, 5], axis=-2)
    if op == "take1":
        return B.take(x, [0, 5], axis=-1)
    if op == "takeb":
        return B.take(x, [0], axis=0) if B.shape_batch(x) else None
    if op == "thin_mm":
        return B.matmul(thin, x, tr_a=True)
    if op == "mm_thin":
        return B.matmul(x, thin)
    if op == "thin_diag":
        return B.matmul_diag(thin, B.matmul(x, thin), tr_a=True)
    if op == "logdet":
        return B.logdet(x)
    if op == "solve_thin":
        return B.solve(x, thin)
    if op == "solve":
        return B.solve(x, y)
    if op == "iqf":
        return B.iqf(x, thin)
    if op == "iqf_lr":
        return B.iqf(x, thin, 2 * thin)
    if op == "iqf_diag":
        return B.iqf_diag(x, thin, 2 * thin)
    if op == "iqf_diag_same":
        return B.iqf_diag(x, thin)
    if op == "ratio":
        return B.ratio(matrix.LowRank(B.dense(thin)), x)
    if op == "schur":
        return B.schur(x) if isinstance(x, matrix.Woodbury) else None
    if op == "sample":
        return B.sample(x, 2)
    if op == "pd_inv":
        return B.pd_inv(x)
    arg = {"pow": 2, "cast": np.float32, "bcb": [2] if not B.shape_batch(x) else []}.get(op)
    return S.apply_un(op, x, arg)


def _size(x):
    shape = [int(d) for d in B.shape(x)] if isinstance(x, (matrix.AbstractMatrix, np.ndarray)) else [1]
    return int(np.prod(shape[-2:]))


def _rank(x):
    return x.rank if isinstance(x, matrix.LowRank) else x.lr.rank if isinstance(x, matrix.Woodbury) else 1


def _run(case, t):
    left, right = case["factors"]
    n = left * right
    objs = [_make(x, left, right) for x in case["xs"]]
    thin = matrix.Dense(np.random.default_rng(case["seed"]).normal(size=(n, 2)))
    bound = n * n * 8 // 4
    ran = 0
    done = []
    tracemalloc.start()
    try:
        for op, *idx in case["steps"]:
            if any(i >= len(objs) for i in idx):
                break
            xs = [objs[i] for i in idx]
            kinds = [type(x).__name__ for x in xs]
            res = None
            if all(x is not None for x in xs) and np.prod([_rank(x) for x in xs]) <= 16 and _allowed(op, xs):
                done.append(f"{op}({', '.join(kinds)})")
                what = f"{'; '.join(done)} with {left} x {right} = {n} rows, batches {[x['batch'] for x in case['xs']]}"
                y = xs[1] if len(xs) > 1 else None
                with t.sut(what):
                    tracemalloc.reset_peak()
                    before = tracemalloc.get_traced_memory()[0]
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        res = _do(op, xs[0], y, thin, n)
                    peak = tracemalloc.get_traced_memory()[1] - before
                if any(issubclass(q.category, ToDenseWarning) for q in w):
                    # Then it may do so.
                    t.tag(f"warned:{op}:{':'.join(kinds)}")
                    res = None
                else:
                    ran += 1
                    t.tag(f"{op}:{':'.join(kinds)}")
                    t.require(peak < bound, lambda: f"{what}: {peak} bytes are allocated, a dense matrix has {8 * n * n}")
            if op in RESULTS or op in ("add", "sub", "mul", "mm", "mm_t"):
                ok = isinstance(res, matrix.AbstractMatrix) and type(res).__name__ in ("Zero", "Diagonal", "Constant", "LowRank", "Woodbury", "Kronecker")
                objs.append(res if ok else None)
    finally:
        tracemalloc.stop()
    if not ran:
        t.trivial()


def _allowed(op, xs):
    x = xs[0]
    kinds = {type(q).__name__ for q in xs}
    if op in ("solve_thin", "solve", "iqf", "iqf_lr", "iqf_diag", "iqf_diag_same", "ratio", "logdet", "inv", "pd_inv", "chol", "root", "sample", "schur"):
        if type(x).__name__ not in ("Diagonal", "Woodbury", "Kronecker"):
            return False
    return True


def describe(case):
    return f"{[x['kind'] for x in case['xs']]}, {case['factors']}, {case['steps']}"


FAMILIES = {"chain": (1, _gen, _run)}
