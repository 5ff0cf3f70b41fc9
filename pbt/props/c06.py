"""C06: selection, reshaping, broadcasting, and tiling."""

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import check, prec_of
from ..specs import Ref

ID = "C06"
N_QUICK = 38000
RULE = (
    "One matrix of any type (tiled blocks included); `take` along any axis with indices in any order, "
    "with repetitions, negative, as list, tuple, or array, or with masks (possibly all `False`); "
    "`submatrix`; indexing with ints, slices, ellipses, new axes, and index arrays; `reshape`, "
    "`flatten`, `squeeze`; `broadcast_to` in batch and matrix dimensions; `broadcast_batch_to`; `tile`. "
    "Non-trivial: a structured matrix that is not all zero."
)

STRUCT = ops.ALL[:-1]


def _any(c, rows, cols):
    if c.chance(8):
        return gen.tiled(c)
    return gen.matrix(c, rows, cols, STRUCT, depth=2)


def _selection(c, n):
    how = c.int(0, 3)
    as_ = c.pick("list", "tuple", "array")
    if how == 0:
        return {"mask": [bool(c.int(0, 1)) for _ in range(n)], "as": as_}
    if how == 1:
        return {"idx": [c.int(-n, n - 1) for _ in range(c.int(1, n + 1))], "as": as_}
    return {"idx": [c.int(0, n - 1) for _ in range(c.int(1, n + 1))], "as": as_}


def _decode(sel):
    v = sel.get("mask", sel.get("idx"))
    w = {"list": list, "tuple": tuple, "array": np.array}[sel["as"]](v)
    return w, np.array(v)


def _take(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    s = _any(c, rows, cols)
    shape = specs.shape_of(s)
    axis = c.int(-len(shape), len(shape) - 1) if c.chance(2) else c.pick(-2, -1, len(shape) - 1)
    case = {"x": s, "axis": axis, "sel": _selection(c, shape[axis]), "warm": ops.warm_flags(c)}
    if c.chance(4) and axis in (-2, len(shape) - 2):
        case["axis"] = None  # The default.
    return case


def _run_take(case, t):
    s, axis = case["x"], case["axis"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    sel, sel_np = _decode(case["sel"])
    a = -2 if axis is None else axis
    what = f"take({case['sel']}, axis={axis}) of {specs.describe(s)}"
    t.tag(f"take:{s['k']}:{a % r.val.ndim - r.val.ndim}", "sel:" + ("mask" if "mask" in case["sel"] else "idx"))
    if "mask" in case["sel"]:
        sel_np = np.where(sel_np)[0]
    with t.sut(what):
        res = B.take(x, sel) if axis is None else B.take(x, sel, axis=axis)
    ref = ops.r_map(lambda v: np.take(v, sel_np, axis=a), r)
    if not np.any(ref.val):
        t.trivial()
    check(t, res, ref, what, prec_of(specs.dtypes_in(s)), is_matrix=True)


def _submatrix(c):
    c.setup()
    n = c.dim()
    if c.chance(3):
        # Factors of different batch shapes.
        s = gen.matrix(c, n, n, ["lr", "wb", "kron"], depth=2)
    else:
        s = gen.matrix(c, n, n, STRUCT + ["num"], depth=2)
    return {"x": s, "sel": _selection(c, n), "warm": ops.warm_flags(c)}


def _run_submatrix(case, t):
    s = case["x"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    sel, sel_np = _decode(case["sel"])
    if "mask" in case["sel"]:
        sel_np = np.where(sel_np)[0]
    what = f"submatrix({case['sel']}) of {specs.describe(s)}"
    t.tag(f"submatrix:{s['k']}")
    if s["k"] in ("lt", "ut", "diag", "wb") and "idx" in case["sel"] and not case.get("raw"):
        # A submatrix of a diagonal matrix is only diagonal if no index is repeated, and one
        # of a triangular matrix is only triangular if the order is kept.
        seen = list(dict.fromkeys(int(i) % r.val.shape[-1] for i in sel_np))
        if s["k"] in ("lt", "ut"):
            seen = sorted(seen)
        sel_np = np.array(seen)
        sel = {"list": list, "tuple": tuple, "array": np.array}[case["sel"]["as"]](seen)
    with t.sut(what):
        res = B.submatrix(x, sel)
    ref = ops.r_map(lambda v: v[..., sel_np, :][..., :, sel_np], r)
    if not np.any(ref.val):
        t.trivial()
    check(t, res, ref, what, prec_of(specs.dtypes_in(s)), is_matrix=s["k"] not in ("arr", "cols"))


def _index(c, n):
    how = c.int(0, 4)
    if how == 0:
        return {"i": c.int(-n, n - 1)}
    if how == 1:
        return {"s": [c.pick(None, c.int(-n, n)), c.pick(None, c.int(-n, n)), c.pick(None, 1, 2, -1)]}
    return {"s": [None, None, None]}


def _getitem(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    s = _any(c, rows, cols)
    shape = specs.shape_of(s)
    items = [_index(c, d) for d in shape]
    how = c.int(0, 5)
    if how == 0:
        items = ["...", items[-1]]
    elif how == 1:
        items = [items[0], "...", items[-1]]
    elif how == 2:
        items = items[: c.int(1, len(items))]
    elif how == 3:
        items = ["..."]
    elif how == 4:
        items.insert(c.int(0, len(items)), None)
        if c.chance(3):
            items = [{"a": [c.int(-shape[0], shape[0] - 1) for _ in range(c.int(1, 3))]}]
    return {"x": s, "item": items, "warm": ops.warm_flags(c)}


def _run_getitem(case, t):
    s = case["x"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])

    def dec(i):
        if i == "...":
            return Ellipsis
        if i is None:
            return None
        if "i" in i:
            return i["i"]
        if "a" in i:
            return np.array(i["a"])
        return slice(*i["s"])

    item = tuple(map(dec, case["item"]))
    if len(item) == 1:
        item = item[0]
    what = f"[{case['item']}] of {specs.describe(s)}"
    t.tag(f"getitem:{s['k']}")
    with t.sut(what):
        res = x[item]
    ref = ops.r_map(lambda v: v[item], r)
    if not np.any(ref.val):
        t.trivial()
    check(t, res, ref, what, prec_of(specs.dtypes_in(s)), is_matrix=False)


def _reshape(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    s = _any(c, rows, cols)
    shape = list(specs.shape_of(s))
    f = c.pick("flatten", "reshape", "reshape", ".reshape", ".reshape(t)", "squeeze", ".squeeze")
    new = [-1]
    if "reshape" in f:
        how = c.int(0, 4)
        if how == 0:
            new = [-1]
        elif how == 1:
            new = [-1, shape[-1]]
        elif how == 2:
            new = shape[::-1]
        elif how == 3:
            new = [*shape[:-2], shape[-1] * shape[-2]]
        else:
            new = [*shape, 1]
    return {"x": s, "fn": f, "new": new, "warm": ops.warm_flags(c)}


def _run_reshape(case, t):
    s, f, new = case["x"], case["fn"], case["new"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    what = f"{f}({new}) of {specs.describe(s)}"
    t.tag(f"{f}:{s['k']}")
    with t.sut(what):
        if f == "flatten":
            res = x.flatten()
        elif f == "reshape":
            res = B.reshape(x, *new)
        elif f == ".reshape":
            res = x.reshape(*new)
        elif f == ".reshape(t)":
            res = x.reshape(tuple(new))
        elif f == "squeeze":
            res = B.squeeze(x)
        else:
            res = x.squeeze()
    if "squeeze" in f:
        ref = ops.r_map(np.squeeze, r)
    else:
        ref = ops.r_map(lambda v: np.reshape(v, new), r)
    if not np.any(ref.val):
        t.trivial()
    check(t, res, ref, what, prec_of(specs.dtypes_in(s)), matrix_axes=ref.val.ndim, is_matrix=False)


def _broadcast(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    f = c.pick("broadcast_to", "broadcast_to", "broadcast_batch_to")
    matrix_dims = f == "broadcast_to" and c.chance(2)
    if matrix_dims:
        r, k = c.pick((1, 1), (rows, 1), (1, cols))
        s = gen.matrix(c, r, k, STRUCT)
    else:
        s = gen.matrix(c, rows, cols, STRUCT + (["num"] if f == "broadcast_batch_to" else []), depth=2)
    shape = specs.shape_of(s)
    batch = list(shape[:-2])
    batch = [c.int(1, 3) if d == 1 and c.chance(2) else d for d in batch]
    batch = [c.int(1, 3) for _ in range(c.int(0, 2))] + batch
    target = batch if f == "broadcast_batch_to" else [*batch, *((rows, cols) if matrix_dims else shape[-2:])]
    return {"x": s, "fn": f, "to": target, "warm": ops.warm_flags(c)}


def _run_broadcast(case, t):
    s, f, to = case["x"], case["fn"], case["to"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    what = f"{f}({to}) of {specs.describe(s)}"
    t.tag(f"{f}:{s['k']}")
    with t.sut(what):
        res = getattr(B, f)(x, *to)
    full = to if f == "broadcast_to" else [*to, *r.val.shape[-2:]]
    if full == list(r.val.shape):
        t.tag("broadcast:same")
    ref = ops.r_map(lambda v: np.broadcast_to(v, full), r)
    if not np.any(ref.val):
        t.trivial()
    is_matrix = s["k"] not in ("arr", "cols")
    check(t, res, ref, what, prec_of(specs.dtypes_in(s)), is_matrix=is_matrix)
    if is_matrix and list(r.val.shape[-2:]) == full[-2:]:
        t.require(
            type(res) is type(x),
            lambda: f"{what}: broadcasting of only the batch changed {type(x).__name__} to {type(res).__name__}",
        )


def _tile(c):
    c.setup()
    rows, cols = ops.pair_shapes(c, big=False)
    s = _any(c, rows, cols)
    return {"x": s, "reps": [c.int(1, 3) for _ in specs.shape_of(s)], "warm": ops.warm_flags(c)}


def _run_tile(case, t):
    s = case["x"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    what = f"tile({case['reps']}) of {specs.describe(s)}"
    t.tag(f"tile:{s['k']}")
    with t.sut(what):
        res = B.tile(x, *case["reps"])
    ref = ops.r_map(lambda v: np.tile(v, case["reps"]), r)
    if not np.any(ref.val):
        t.trivial()
    check(t, res, ref, what, prec_of(specs.dtypes_in(s)), is_matrix=True)


def describe(case):
    rest = {k: v for k, v in case.items() if k not in ("x", "f", "warm")}
    return f"{case['f']}: {rest} of {specs.describe(case['x'])}"


FAMILIES = {
    "take": (5, _take, _run_take),
    "submatrix": (2, _submatrix, _run_submatrix),
    "getitem": (2, _getitem, _run_getitem),
    "reshape": (2, _reshape, _run_reshape),
    "broadcast": (3, _broadcast, _run_broadcast),
    "tile": (2, _tile, _run_tile),
}
