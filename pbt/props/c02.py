"""C02: element-wise products and quotients denote those of the dense matrices."""

import operator

import numpy as np

from .. import gen, ops, specs
from ..boot import B
from ..compare import check, prec_of

ID = "C02"
N_QUICK = 32000
RULE = (
    "Pairs and triples of matrices of all types with random sizes, broadcasting batch shapes, "
    "mixed data types and scales; multiplied element-wise in either order, with numbers, "
    "vectors, rows, columns, constants, and zeros that broadcast, and divided by numbers, "
    "constants, and dense matrices that are bounded away from zero; by function or operator, "
    "with caches filled or not. Non-trivial: a structured operand and a reference that is not "
    "identically zero, or a Kronecker product of differently sized factors that is refused."
)

FUNS = {"mul": B.multiply, "*": operator.mul, "div": B.divide, "/": operator.truediv}


def _pair(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    xs = [gen.matrix(c, rows, cols, ops.ALL) for _ in range(2)]
    return {"xs": xs, "op": c.pick("mul", "*"), "warm": [ops.warm_flags(c) for _ in xs]}


def _small(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    a = gen.matrix(c, rows, cols, ops.ALL[:-1])
    b = ops.small_operand(c, rows, cols)
    xs = [a, b] if c.chance(2) else [b, a]
    return {"xs": xs, "op": c.pick("mul", "*"), "warm": [ops.warm_flags(c) for _ in xs]}


def _triple(c):
    c.setup()
    rows, cols = ops.pair_shapes(c, big=False)
    xs = [gen.matrix(c, rows, cols, ops.ALL) for _ in range(3)]
    return {"xs": xs, "op": c.pick("mul", "*"), "warm": [ops.warm_flags(c) for _ in xs]}


def _kron(c):
    """Kronecker products with factors of the same sizes, so structure is preserved."""
    c.setup()
    l, r = (c.int(1, 4), c.int(1, 4)), (c.int(1, 4), c.int(1, 4))
    kinds = ["dense", "diag", "lt", "const", "lr", "zero"]
    xs = [
        {"k": "kron", "left": gen.matrix(c, *l, kinds), "right": gen.matrix(c, *r, kinds)}
        for _ in range(2)
    ]
    return {"xs": xs, "op": c.pick("mul", "*"), "warm": [ops.warm_flags(c) for _ in xs]}


def _divide(c):
    c.setup(exps=False)
    rows, cols = ops.pair_shapes(c)
    a = gen.matrix(c, rows, cols, ops.ALL)
    how = c.int(0, 5)
    r, k = c.pick((rows, cols), (rows, cols), (1, 1), (rows, 1), (1, cols))
    if how == 0:
        b = {"k": "py", "v": c.pick(2, -4, 0.5, -2.5, 3)}
    elif how == 1:
        b = c.leaf((), (), "nz")
    elif how == 2:
        b = c.leaf(c.sub_batch(), (r, k), "nz")
    elif how == 3:
        b = {"k": "dense", "mat": c.leaf(c.sub_batch(), (r, k), "nz")}
    else:
        b = gen.constant(c, r, k, "nz")
    return {"xs": [a, b], "op": c.pick("div", "/"), "warm": [ops.warm_flags(c), ops.warm_flags(c)]}


def _mismatched_kron(xs):
    a, b = xs
    if a["k"] != "kron" or b["k"] != "kron":
        return False
    return any(
        specs.shape_of(a[s])[-2:] != specs.shape_of(b[s])[-2:]
        or _mismatched_kron([a[s], b[s]])
        for s in ("left", "right")
    )


def _run(case, t):
    xs, op = case["xs"], case["op"]
    if specs.kind(xs[0]) == "num" and specs.kind(xs[1]) == "num":
        return t.trivial()
    f = FUNS[op]
    rf = ops.r_mul if op in ("mul", "*") else ops.r_div
    refs = [specs.ref(s) for s in xs]
    t.tag("op:" + op, "pair:" + ops.kinds_tag(*xs[:2]), ops.batch_tag(*refs))
    objs = [ops.make(t, s, w) for s, w in zip(xs, case["warm"])]
    what = f" {op} ".join(specs.describe(s) for s in xs)
    # Refusing Kronecker products with differently sized factors is fine. Computing
    # something that is wrong is not.
    allow = (AssertionError,) if any(x["k"] == "kron" for x in xs) and (
        len(xs) > 2 or _mismatched_kron(xs)
    ) else ()
    res, ref = objs[0], refs[0]
    for o, r in zip(objs[1:], refs[1:]):
        with t.sut(what, allow=allow):
            res = f(res, o)
        ref = rf(ref, r)
    if not np.any(ref.val):
        t.trivial()
    prec = prec_of(*[specs.dtypes_in(s) for s in xs])
    check(t, res, ref, what, prec, is_matrix=True)


def describe(case):
    return f"{case['f']}: {case['op']} of " + " , ".join(specs.describe(s) for s in case["xs"])


FAMILIES = {
    "pair": (5, _pair, _run),
    "small": (3, _small, _run),
    "triple": (1, _triple, _run),
    "kron": (1, _kron, _run),
    "divide": (2, _divide, _run),
}
