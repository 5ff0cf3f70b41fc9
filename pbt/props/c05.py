"""C05: sums, means, traces, and diagonals."""

import numpy as np

from .. import gen, ops, specs
from ..boot import B
from ..compare import check, prec_of
from ..specs import Ref

ID = "C05"
N_QUICK = 34000
RULE = (
    "One matrix of any type, with factors that have different batch shapes, random sizes "
    "(rectangular included), data types, and scales; `sum` and `mean` over everything or over any "
    "positive or negative axis, `trace`, `diag`, `diag_extract`, and `.diagonal()`. "
    "Non-trivial: structured, with a reference that is not all zero."
)

STRUCT = ops.ALL[:-1] + ["kron", "lr", "wb"]


def _gen(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    s = gen.matrix(c, rows, cols, STRUCT, depth=2)
    f = c.pick("sum", "sum", "sum", "mean", "mean", "trace", "diag", "diag", "diag_extract", "diagonal")
    case = {"x": s, "fn": f, "warm": ops.warm_flags(c)}
    if f in ("sum", "mean"):
        rank = len(specs.shape_of(s))
        case["axis"] = None if c.chance(5) else c.int(-rank, rank - 1)
    return case


def _gen_kron(c):
    """Kronecker products with factors of any shape: square or not, nested, numeric."""
    c.setup()
    kinds = ["dense", "diag", "num", "lr", "const", "lt", "zero", "kron", "wb"]
    a, b = (c.dim(False), c.dim(False)), (c.dim(False), c.dim(False))
    if c.chance(3):
        b = a[::-1]
    s = {"k": "kron", "left": gen.matrix(c, *a, kinds), "right": gen.matrix(c, *b, kinds)}
    f = c.pick("sum", "sum", "mean", "trace", "diag")
    case = {"x": s, "fn": f, "warm": ops.warm_flags(c)}
    if f in ("sum", "mean"):
        rank = len(specs.shape_of(s))
        case["axis"] = None if c.chance(5) else c.int(-rank, rank - 1)
    return case


def _run(case, t):
    s, f = case["x"], case["fn"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    axis = case.get("axis")
    what = f"{f}{'' if f not in ('sum', 'mean') else f'(axis={axis})'} of {specs.describe(s)}"
    where = "none" if axis is None else axis % r.val.ndim - r.val.ndim
    t.tag(f"{f}:{s['k']}", f"{f}:axis={where}", ops.batch_tag(r))
    prec = prec_of(specs.dtypes_in(s))
    with t.sut(what):
        if f in ("sum", "mean"):
            if axis is None:
                res = getattr(B, f)(x)
            else:
                res = getattr(B, f)(x, axis=axis)
            n = 1 if f == "sum" else r.val.size if axis is None else r.val.shape[axis]
            ref = Ref(r.val.sum(axis=axis) / n, r.mag.sum(axis=axis) / n)
        elif f == "trace":
            res = B.trace(x)
            ref = Ref(*[np.trace(v, axis1=-2, axis2=-1) for v in (r.val, r.mag)])
        else:
            res = x.diagonal() if f == "diagonal" else getattr(B, f)(x)
            ref = Ref(*[np.diagonal(v, axis1=-2, axis2=-1) for v in (r.val, r.mag)])
    if not np.any(ref.val):
        t.trivial()
    # Scale by batch element.
    axes = 1
    is_matrix = False
    if f in ("sum", "mean") and axis is not None and axis % r.val.ndim < r.val.ndim - 2:
        axes, is_matrix = 2, None
    check(t, res, ref, what, prec, matrix_axes=axes, is_matrix=is_matrix)


def describe(case):
    return f"{case['f']}: {case['fn']} (axis={case.get('axis')}) of {specs.describe(case['x'])}"


FAMILIES = {
    "any": (6, _gen, _run),
    "kron": (1, _gen_kron, _run),
}
