"""C01: sums and differences denote the sums and differences of the dense matrices."""

import operator

import numpy as np

from .. import gen, ops, specs
from ..boot import B
from ..compare import check, prec_of

ID = "C01"
N_QUICK = 30000
RULE = (
    "Pairs and chains of 2 to 4 matrices of all types (zero, dense, diagonal, constant, "
    "triangular, low-rank, Woodbury, Kronecker, numeric, scalars, vectors) with random sizes, "
    "batch shapes that broadcast, shared low-rank columns, mixed data types, and scales from "
    "1e-9 to 1e9; summed or subtracted in random order and association by function or "
    "operator, with caches filled or not. Non-trivial: at least one operand is structured and the "
    "reference is not identically zero."
)


def _pair(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    a = gen.matrix(c, rows, cols, ops.ALL)
    b = gen.matrix(c, rows, cols, ops.ALL)
    return {"xs": [a, b], "op": c.pick("add", "sub", "+", "-"), "warm": [ops.warm_flags(c), ops.warm_flags(c)]}


def _small(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    a = gen.matrix(c, rows, cols, ops.ALL[:-1])
    b = ops.small_operand(c, rows, cols)
    xs = [a, b] if c.chance(2) else [b, a]
    return {"xs": xs, "op": c.pick("add", "sub", "+", "-"), "warm": [ops.warm_flags(c), ops.warm_flags(c)]}


def _lowrank(c):
    """Low-rank sums: shared columns, cancellation."""
    c.setup()
    rows, cols = ops.pair_shapes(c)
    kinds = ["lr", "lr", "lr", "const"] + (["wb", "diag"] if rows == cols else [])
    xs = [gen.matrix(c, rows, cols, kinds) for _ in range(c.int(2, 4))]
    if c.chance(3):
        xs[c.int(0, len(xs) - 1)] = xs[c.int(0, len(xs) - 1)]
    return {"xs": xs, "op": c.pick("add", "sub", "+", "-"), "warm": [ops.warm_flags(c) for _ in xs], "left": c.chance(2)}


def _chain(c):
    c.setup()
    rows, cols = ops.pair_shapes(c, big=False)
    xs = [gen.matrix(c, rows, cols, ops.ALL) for _ in range(c.int(3, 4))]
    return {"xs": xs, "op": c.pick("add", "sub", "+", "-"), "warm": [ops.warm_flags(c) for _ in xs], "left": c.chance(2)}


FUNS = {
    "add": (B.add, ops.r_add),
    "sub": (B.subtract, ops.r_sub),
    "+": (operator.add, ops.r_add),
    "-": (operator.sub, ops.r_sub),
}


def _all_numeric(xs):
    return all(specs.kind(s) == "num" for s in xs)


def _run(case, t):
    xs, op = case["xs"], case["op"]
    if _all_numeric(xs):
        return t.trivial()
    f, rf = FUNS[op]
    refs = [specs.ref(s) for s in xs]
    t.tag("op:" + op, "pair:" + ops.kinds_tag(*xs[:2]), ops.batch_tag(*refs))
    objs = [ops.make(t, s, w) for s, w in zip(xs, case["warm"])]
    what = f" {op} ".join(specs.describe(s) for s in xs)
    if case.get("left", True):
        order = list(range(len(xs)))
        res, ref = objs[0], refs[0]
        num = specs.kind(xs[0]) == "num"
        for i in order[1:]:
            if num and specs.kind(xs[i]) == "num":
                # Sums of only numeric values are not up to this code.
                return t.trivial()
            num = False
            with t.sut(what):
                res = f(res, objs[i])
            ref = rf(ref, refs[i])
    else:
        res, ref = objs[-1], refs[-1]
        num = specs.kind(xs[-1]) == "num"
        for i in reversed(range(len(xs) - 1)):
            if num and specs.kind(xs[i]) == "num":
                return t.trivial()
            num = False
            with t.sut(what):
                res = f(objs[i], res)
            ref = rf(refs[i], ref)
    if not np.any(ref.val):
        t.trivial()
    prec = prec_of(*[specs.dtypes_in(s) for s in xs])
    check(t, res, ref, what, prec, is_matrix=True)


def describe(case):
    return f"{case['f']}: {case['op']} of " + " , ".join(specs.describe(s) for s in case["xs"])


FAMILIES = {
    "pair": (5, _pair, _run),
    "small": (2, _small, _run),
    "lowrank": (3, _lowrank, _run),
    "chain": (2, _chain, _run),
}
