"""C03: matrix products denote the products of the dense matrices."""

import operator

import numpy as np

from .. import gen, ops, specs
from ..boot import B
from ..compare import check, prec_of
from ..specs import Ref

ID = "C03"
N_QUICK = 34000
RULE = (
    "Two or three matrices of all types with composable sizes, any combination of transposition "
    "flags, broadcasting batch shapes, mixed data types and scales, numeric matrices and vectors on "
    "either side, shared low-rank columns, caches filled or not; multiplied with `matmul`, `mm`, or "
    "`@`, and diagonals of products computed with `matmul_diag`. Non-trivial: a structured operand and "
    "a reference that is not identically zero."
)


def _with_tr(c, rows, cols, kinds, allow_tr=True, kind=None):
    """A matrix that has the given size after transposing if its flag is set."""
    tr = allow_tr and c.chance(3)
    s = gen.matrix(c, cols, rows, kinds, kind=kind) if tr else gen.matrix(c, rows, cols, kinds, kind=kind)
    return s, tr


def _sizes(c, big=True):
    n = c.dim(big)
    how = c.int(0, 3)
    if how <= 1:
        return n, n, n
    if how == 2:
        return (n, n, c.dim(big)) if c.chance(2) else (c.dim(big), n, n)
    return n, c.dim(big), c.dim(big)


def _pair(c):
    c.setup()
    n, m, k = _sizes(c)
    op = c.pick("matmul", "matmul", "mm", "@")
    a, tr_a = _with_tr(c, n, m, ops.ALL, op != "@")
    b, tr_b = _with_tr(c, m, k, ops.ALL, op != "@")
    return {"xs": [a, b], "tr": [tr_a, tr_b], "op": op, "warm": [ops.warm_flags(c), ops.warm_flags(c)]}


def _vector(c):
    c.setup()
    n = c.dim()
    if c.chance(2):
        a, tr = _with_tr(c, n, c.dim(), ops.ALL[:-1])
        m = specs.shape_of(a)[-2 if tr else -1]
        return {"xs": [a, c.leaf((), (m,))], "tr": [tr, False], "op": "matmul", "warm": [ops.warm_flags(c), 0]}
    b, tr = _with_tr(c, n, c.dim(), ops.ALL[:-1])
    m = specs.shape_of(b)[-1 if tr else -2]
    return {"xs": [c.leaf((), (m,)), b], "tr": [True, tr], "op": "matmul", "warm": [0, ops.warm_flags(c)]}


def _triple(c):
    c.setup()
    big = c.chance(3)
    n, m, k = _sizes(c, big)
    l = c.pick(n, m, k, c.dim(big))
    xs, trs = zip(*[_with_tr(c, *d, ops.ALL) for d in ((n, m), (m, k), (k, l))])
    return {"xs": list(xs), "tr": list(trs), "op": c.pick("matmul", "mm"), "warm": [ops.warm_flags(c) for _ in xs]}


def _kron(c):
    """Kronecker products with composable factors, and with everything else."""
    c.setup()
    kinds = ["dense", "diag", "lt", "ut", "const", "lr", "zero", "kron"]
    (n1, m1, k1), (n2, m2, k2) = _sizes(c, False), _sizes(c, False)
    ta, tb = c.chance(3), c.chance(3)

    def mk(tr, p, q):
        return gen.matrix(c, q, p, kinds) if tr else gen.matrix(c, p, q, kinds)

    a = {"k": "kron", "left": mk(ta, n1, m1), "right": mk(ta, n2, m2)}
    if c.chance(2):
        b = {"k": "kron", "left": mk(tb, m1, k1), "right": mk(tb, m2, k2)}
    else:
        q = c.dim()
        b = gen.matrix(c, q, m1 * m2, ops.ALL) if tb else gen.matrix(c, m1 * m2, q, ops.ALL)
        if c.chance(2):
            # Also from the other side.
            return {"xs": [b, a], "tr": [not tb, not ta], "op": "matmul", "warm": [0, ops.warm_flags(c)]}
    return {"xs": [a, b], "tr": [ta, tb], "op": "matmul", "warm": [ops.warm_flags(c), ops.warm_flags(c)]}


def _diag(c):
    c.setup()
    n, m, _ = _sizes(c)
    a, tr_a = _with_tr(c, n, m, ops.ALL)
    b, tr_b = _with_tr(c, m, n, ops.ALL)
    return {"xs": [a, b], "tr": [tr_a, tr_b], "op": "matmul_diag", "warm": [ops.warm_flags(c), ops.warm_flags(c)]}


def _mismatched_kron(xs, trs):
    """Can two Kronecker products with differently sized factors meet?"""
    ks = [s for s in xs if s["k"] == "kron"]
    if len(ks) < 2:
        return False
    if len(xs) > 2:
        return True
    (a, b), (ta, tb) = xs, trs
    for side in ("left", "right"):
        sa, sb = specs.shape_of(a[side])[-2:], specs.shape_of(b[side])[-2:]
        sa = sa[::-1] if ta else sa
        sb = sb[::-1] if tb else sb
        if sa[1] != sb[0]:
            return True
        # The factors may be Kronecker products themselves.
        if _mismatched_kron([a[side], b[side]], trs):
            return True
    return False


def _run(case, t):
    xs, op, trs = case["xs"], case["op"], case["tr"]
    if sum(specs.kind(s) == "num" for s in xs) >= 2 and len(xs) == 2 or all(
        specs.kind(s) == "num" for s in xs
    ):
        return t.trivial()
    if len(xs) == 3 and specs.kind(xs[1]) == "num" and "num" in (specs.kind(xs[0]), specs.kind(xs[2])):
        # Products of only numeric matrices are not up to this code.
        return t.trivial()
    refs = [specs.ref(s) for s in xs]
    t.tag("op:" + op, "pair:" + ops.kinds_tag(*xs[:2]), ops.batch_tag(*refs), "tr:" + "".join("NT"[x] for x in trs))
    objs = [ops.make(t, s, w) for s, w in zip(xs, case["warm"])]
    what = f" {op} ".join(specs.describe(s) + ("'" if tr else "") for s, tr in zip(xs, trs))
    rs = [ops.r_t(r) if tr else r for r, tr in zip(refs, trs)]
    allow = ()
    prec = prec_of(*[specs.dtypes_in(s) for s in xs])
    if op == "matmul_diag":
        if all(s["k"] == "kron" for s in xs):
            allow = (AssertionError,)
        with t.sut(what, allow=allow):
            res = B.matmul_diag(*objs, tr_a=trs[0], tr_b=trs[1])
        ref = Ref(
            np.einsum("...ij,...ji->...i", rs[0].val, rs[1].val),
            np.einsum("...ij,...ji->...i", rs[0].mag, rs[1].mag),
        )
        if not np.any(ref.val):
            t.trivial()
        check(t, res, ref, what, prec, matrix_axes=1, is_matrix=False)
        return
    if _mismatched_kron(xs, trs):
        allow = (AssertionError,)
    ref = rs[0]
    for r in rs[1:]:
        ref = ops.r_mm(ref, r)
    with t.sut(what, allow=allow):
        if op == "@":
            res = operator.matmul(*objs)
        else:
            f = B.matmul if op == "matmul" else B.mm
            res = f(*objs, **dict(zip(("tr_a", "tr_b", "tr_c"), trs)))
    if not np.any(ref.val):
        t.trivial()
    check(t, res, ref, what, prec, is_matrix=True)


def describe(case):
    return f"{case['f']}: {case['op']} of " + " , ".join(
        specs.describe(s) + ("'" if tr else "") for s, tr in zip(case["xs"], case["tr"])
    )


FAMILIES = {
    "pair": (5, _pair, _run),
    "vector": (1, _vector, _run),
    "triple": (2, _triple, _run),
    "kron": (2, _kron, _run),
    "diag": (2, _diag, _run),
}
