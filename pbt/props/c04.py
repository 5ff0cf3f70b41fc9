"""C04: element-wise functions, transposition, casts, and constructors of like matrices."""

import numpy as np
from plum import convert

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import check, prec_of, to_np
from ..specs import Ref

ID = "C04"
N_QUICK = 36000
RULE = (
    "One matrix of any type (nested Kronecker products and tiled blocks included), random sizes, "
    "batch shapes, data types, scales; a chain of 1 to 3 of negation, absolute value, "
    "square root, power, transposition, cast; or `isnan` with NaNs planted at random places; or "
    "`ones`, `zeros`, `eye`, `one`, `zero`; or `fill_diag` and conversions of numbers, arrays, and constants. "
    "Non-trivial: the matrix is structured and not all zero, or has a NaN, or is made from a number or array."
)

STRUCT = ops.ALL[:-1]
NP_DT = {"f8": np.float64, "f4": np.float32}


def _setup(c):
    c.setup()
    if c.exp_policy:
        # Single precision overflows.
        c.dtype_policy = "f8"


def _unary(c):
    _setup(c)
    rows, cols = ops.pair_shapes(c)
    if c.chance(2):
        s = gen.matrix(c, rows, cols, STRUCT, depth=2)
        fs = ["neg", "abs", "T", "T", "pow", "cast"]
    else:
        s = gen.matrix(c, rows, cols, STRUCT, prop="nonneg", depth=2)
        fs = ["sqrt", "sqrt", "abs", "T", "pow", "cast", "frac"]
    chain = []
    for _ in range(c.int(1, 3)):
        f = c.pick(*fs)
        if f == "neg":
            fs = [g for g in fs if g != "frac" and g != "sqrt"]
        if f == "pow":
            e = c.pick(2, 2.0, 3, 1)
            chain.append(["pow", e])
            fs = [g for g in fs if g != "pow"]
        elif f == "frac":
            chain.append(["pow", c.pick(0.5, 1.5)])
        elif f == "cast":
            chain.append(["cast", "f8" if c.exp_policy else c.pick("f8", "f4")])
        elif f == "T":
            chain.append([c.pick("T", ".T")])
        elif f == "neg":
            chain.append([c.pick("neg", "-")])
        else:
            chain.append([f])
    return {"x": s, "chain": chain, "warm": ops.warm_flags(c)}


def _tiled(c):
    _setup(c)
    s = gen.tiled(c)
    chain = [[c.pick("T", ".T")] if c.chance(2) else ["cast", "f8" if c.exp_policy else "f4"] for _ in range(c.int(1, 3))]
    return {"x": s, "chain": chain, "warm": ops.warm_flags(c)}


def _nonpos_power(c):
    """Zero to a power that is not positive is not zero."""
    c.setup(exps=False, dtypes=False)
    n = c.dim()
    kind = c.pick("diag", "lt", "ut", "const", "dense", "kron", "zero")
    e = c.pick(0, 0, -1, -2, 0.0, -0.5)
    if kind == "kron":
        s = {"k": "kron", "left": gen.diagonal(c, c.dim(False), "pos"), "right": {"k": "dense", "mat": c.leaf(c.sub_batch(), (c.dim(False), c.dim(False)), "pos")}}
        if e < 0:
            s["left"] = {"k": "dense", "mat": c.leaf(c.sub_batch(), (c.dim(False), c.dim(False)), "pos")}
    elif kind in ("lt", "ut"):
        s = {"k": kind, "mat": c.leaf(c.sub_batch(), (n, n), "pos", tri=kind[0])}
    elif kind == "dense":
        s = {"k": kind, "mat": c.leaf(c.sub_batch(), (n, n), "pos")}
    elif kind == "diag":
        s = gen.diagonal(c, n, "pos")
    else:
        s = gen.matrix(c, n, c.dim(), prop="nonneg", kind=kind)
    return {"x": s, "chain": [["pow", e]], "warm": ops.warm_flags(c)}


def _isnan(c):
    c.setup(dtypes=False)
    rows, cols = ops.pair_shapes(c)
    kinds = ["dense", "diag", "const", "lt", "ut", "kron", "zero", "dense", "diag"]
    s = gen.matrix(c, rows, cols, kinds, depth=1)
    if not c.chance(6):
        _plant_nan(c, s)
    return {"x": s, "warm": ops.warm_flags(c)}


def _plant_nan(c, s):
    k = s["k"]
    if k in ("dense", "lt", "ut"):
        _plant_nan(c, s["mat"])
    elif k == "diag":
        # LAB constructs batched diagonal matrices by multiplication with zeros, so
        # only diagonals without a batch dimension keep NaNs on the diagonal.
        if len(s["diag"]["shape"]) == 1:
            _plant_nan(c, s["diag"])
    elif k == "const":
        _plant_nan(c, s["const"])
    elif k == "arr":
        s["nan"] = [c.int(0, 30) for _ in range(c.int(1, 2))]
    elif k == "kron":
        # NaN times zero is NaN, also for matrices that are zero by their structure, but
        # `Zero` does not multiply.
        s["left"] = {"k": "dense", "mat": c.leaf(c.sub_batch(), specs.shape_of(s["left"])[-2:])}
        s["right"] = {"k": "dense", "mat": c.leaf(c.sub_batch(), specs.shape_of(s["right"])[-2:])}
        _plant_nan(c, s[c.pick("left", "right")])


def _like(c):
    c.setup()
    f = c.pick("ones", "zeros", "eye", "one", "zero")
    if f == "eye":
        rows = cols = c.dim()
    else:
        rows, cols = ops.pair_shapes(c)
    s = gen.tiled(c) if f != "eye" and c.chance(8) else gen.matrix(c, rows, cols, STRUCT)
    return {"x": s, "fn": f, "warm": ops.warm_flags(c)}


def _filled(c):
    """Matrices that are made from numbers, arrays, and constant matrices."""
    c.setup()
    fn = c.pick("fill_diag", "fill_diag", "convert", "convert", "lowrank")
    if fn == "fill_diag":
        v = {"k": "py", "v": c.pick(1, 0, -2, 0.5)} if c.chance(4) else c.leaf(c.batch, ())
        return {"fn": fn, "v": v, "n": c.dim()}
    if fn == "lowrank":
        return {"fn": fn, "v": gen.matrix(c, c.dim(), c.dim(), kind="const")}
    if c.chance(3):
        v = {"k": "py", "v": c.pick(1, 0, -2, 0.5, 0.0)}
    elif c.chance(4):
        v = c.leaf((), ())
    else:
        v = c.leaf((), (c.dim(),)) if c.chance(4) else c.leaf(c.batch, (c.dim(), c.dim()))
    return {"fn": fn, "v": v}


def _run_filled(case, t):
    fn, s = case["fn"], case["v"]
    what = f"{fn} of {specs.describe(s)}"
    t.tag(f"{fn}:{s['k']}")
    v = specs.build(s)
    if fn == "fill_diag":
        n = case["n"]
        what += f" with {n} rows"
        val = np.asarray(v, dtype=float)
        r = Ref(np.where(np.eye(n, dtype=bool), val[..., None, None], 0.0))
        with t.sut(what):
            x = B.fill_diag(v, n)
        want = matrix.Diagonal
    elif fn == "lowrank":
        r = specs.ref(s)
        with t.sut(what):
            x = convert(v, matrix.LowRank)
        want = matrix.LowRank
    else:
        r = specs.ref(s)
        with t.sut(what):
            x = convert(v, matrix.AbstractMatrix)
        want = (matrix.Zero if not isinstance(v, np.ndarray) and v == 0 else matrix.Constant) if np.ndim(v) == 0 else matrix.Dense
        if np.ndim(v) == 1:
            # Vectors become columns as soon as they are used.
            with t.sut(what):
                x = B.uprank(x)
    t.require(type(x) is want, lambda: f"{what}: type {type(x).__name__}")
    dt = np.dtype(B.dtype(x))
    want_dt = np.dtype(type(v)) if s["k"] == "py" else np.dtype(B.dtype(v))
    t.require(dt == want_dt, lambda: f"{what}: data type {dt}, expected {want_dt}")
    check(t, x, r, what, is_matrix=True)


def _apply(f, x, r):
    """Apply one function to an object and to its reference."""
    name = f[0]
    if name in ("neg", "-"):
        return (B.negative(x) if name == "neg" else -x), ops.r_neg(r)
    if name == "abs":
        return B.abs(x), Ref(np.abs(r.val), r.mag)
    if name == "sqrt":
        return B.sqrt(x), Ref(np.sqrt(r.val), np.sqrt(r.mag))
    if name == "pow":
        e = f[1]
        res = x**e if isinstance(e, int) else B.power(x, e)
        with np.errstate(all="ignore"):
            return res, Ref(r.val**e, r.mag ** abs(e))
    if name in ("T", ".T"):
        return (B.transpose(x) if name == "T" else x.T), ops.r_t(r)
    if name == "cast":
        return B.cast(NP_DT[f[1]], x), r
    raise ValueError(name)


def _run(case, t):
    s = case["x"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    names = [f[0] for f in case["chain"]]
    what = f"{case['chain']} of {specs.describe(s)}"
    t.tag(*[f"{n}:{s['k']}" for n in names], ops.batch_tag(r), "chain:" + str(len(names)))
    prec = prec_of(specs.dtypes_in(s), {f[1] for f in case["chain"] if f[0] == "cast"})
    if prec == "f4" and np.max(r.mag, initial=0) > 1e12:
        return t.trivial()
    for f in case["chain"]:
        with t.sut(what):
            x, r = _apply(f, x, r)
            if f[0] == "cast" and B.dtype(x) != NP_DT[f[1]]:
                t.violate(f"{what}: data type {B.dtype(x)} after a cast to {f[1]}")
    if not np.any(r.val):
        t.trivial()
    if prec == "f4":
        # Products of more than a few numbers overflow or underflow.
        with np.errstate(all="ignore"):
            big = np.max(r.mag[np.isfinite(r.mag)], initial=0)
        if big > 1e30 or big < 1e-30:
            return t.trivial()
    # Square roots of numbers that are zero up to rounding are not accurate.
    roots = [f for f in case["chain"] if f[0] == "sqrt" or (f[0] == "pow" and 0 < f[1] < 1)]
    tol = (1e-3, 1e-3) if roots and prec == "f4" else None
    check(t, x, r, what, prec, tol, is_matrix=True)


def _run_isnan(case, t):
    s = case["x"]
    with np.errstate(all="ignore"):
        r = np.isnan(specs.ref(s).val)
    x = ops.make(t, s, case["warm"])
    what = f"isnan of {specs.describe(s)}"
    with t.sut(what):
        res = np.asarray(B.isnan(x))
    t.tag(f"isnan:{s['k']}")
    if not r.any():
        t.trivial()
    t.require(res.shape == r.shape, lambda: f"{what}: shape {res.shape}, expected {r.shape}")
    t.require(bool(np.all(res == r)), lambda: f"{what}: wrong at {np.argwhere(res != r)[0].tolist()}")


def _run_like(case, t):
    s, f = case["x"], case["fn"]
    r = specs.ref(s).val
    x = ops.make(t, s, case["warm"])
    what = f"{f} of {specs.describe(s)}"
    t.tag(f"{f}:{s['k']}")
    with t.sut(what):
        res = getattr(B, f)(x)
        dt, want_dt = B.dtype(res), B.dtype(x)
    t.require(np.dtype(dt) == np.dtype(want_dt), lambda: f"{what}: data type {dt}, expected {want_dt}")
    if f in ("one", "zero"):
        t.require(np.shape(res) == () and float(res) == (f == "one"), lambda: f"{what}: {res!r}")
        return
    if f == "eye":
        want = Ref(np.eye(r.shape[-1]))
        t.require(type(res) is matrix.Diagonal, lambda: f"{what}: type {type(res).__name__}")
    else:
        want = Ref(np.full(r.shape, float(f == "ones")))
        kind = matrix.Constant if f == "ones" else matrix.Zero
        t.require(type(res) is kind, lambda: f"{what}: type {type(res).__name__}")
    check(t, res, want, what, is_matrix=True)


def describe(case):
    return f"{case['f']}: {case.get('chain', case.get('fn', ''))} of {specs.describe(case['x'] if 'x' in case else case['v'])}"


FAMILIES = {
    "unary": (8, _unary, _run),
    "tiled": (2, _tiled, _run),
    "nonpos_power": (1, _nonpos_power, _run),
    "isnan": (2, _isnan, _run_isnan),
    "like": (2, _like, _run_like),
    "filled": (1, _filled, _run_filled),
}
