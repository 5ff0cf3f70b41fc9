"""C07: assembling matrices from blocks."""

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import check, prec_of
from ..specs import Ref, kron_np

ID = "C07"
N_QUICK = 32000
RULE = (
    "Grids of 1 to 3 by 1 to 3 blocks (`block`), 1 to 4 blocks (`block_diag`), concatenations along any "
    "axis, Kronecker products of 2 or 3 matrices, and tiled blocks (dense, concatenated, or "
    "block-diagonal), of all types, with aligned sizes and batch shapes that broadcast. Non-trivial: more "
    "than one block, and a reference that is not all zero."
)

STRUCT = ops.ALL[:-1]


def _warm(c, xs):
    return [ops.warm_flags(c) for _ in xs]


def _block(c):
    c.setup()
    n, m = c.int(1, 3), c.int(1, 3)
    mostly = c.pick("diag", "zero", "any", "any")
    if mostly == "diag":
        m = n
        heights = widths = [c.dim(False) for _ in range(n)]
        if c.chance(6):
            widths = widths[::-1]
    else:
        heights = [c.dim(False) for _ in range(n)]
        widths = [c.dim(False) for _ in range(m)]
    rows = []
    for i in range(n):
        row = []
        for j in range(m):
            h, w = heights[i], widths[j]
            if mostly == "any" or c.chance(12):
                kinds = ops.ALL
            elif mostly == "zero" or i != j:
                kinds = ["zero"]
            else:
                kinds = ["diag", "diag", "diag", "zero"] if h == w else ["zero"]
            row.append(gen.matrix(c, h, w, kinds))
        rows.append(row)
    return {"rows": rows, "warm": [_warm(c, row) for row in rows]}


def _cat(rs, axis):
    """Concatenate references with broadcasting of batch dimensions."""
    batch = np.broadcast_shapes(*[r.val.shape[:-2] for r in rs])
    ys = [ops.r_map(lambda v: np.broadcast_to(v, batch + v.shape[-2:]), r) for r in rs]
    return Ref(*[np.concatenate([getattr(y, a) for y in ys], axis=axis) for a in ("val", "mag")])


def _run_block(case, t):
    rows = case["rows"]
    flat = [s for row in rows for s in row]
    refs = [[specs.ref(s) for s in row] for row in rows]
    objs = [[ops.make(t, s, w) for s, w in zip(row, ws)] for row, ws in zip(rows, case["warm"])]
    what = "block of " + "; ".join(" , ".join(map(specs.describe, row)) for row in rows)
    if all(specs.kind(s) == "num" for s in flat):
        t.trivial()
    t.tag(f"block:{len(rows)}x{len(rows[0])}")
    with t.sut(what):
        res = B.block(*objs)
    batch = np.broadcast_shapes(*[r.val.shape[:-2] for row in refs for r in row])
    ref = _cat([_cat(row, -1) for row in refs], -2)
    t.tag("block:" + type(res).__name__)
    if not np.any(ref.val) or len(flat) == 1:
        t.trivial()
    check(t, res, ref, what, prec_of(*[specs.dtypes_in(s) for s in flat]), is_matrix=True if len(flat) > 1 else None)


def _block_diag(c):
    c.setup()
    how = c.pick("diag", "zero", "any", "any")
    kinds = {"diag": ["diag"], "zero": ["zero"], "any": ops.ALL}[how]
    xs = []
    for _ in range(c.int(1, 4)):
        rows, cols = ops.pair_shapes(c, big=False)
        if how == "diag":
            cols = rows
        xs.append(gen.matrix(c, rows, cols, ops.ALL if c.chance(12) else kinds))
    return {"xs": xs, "warm": _warm(c, xs)}


def r_block_diag(rs):
    batch = np.broadcast_shapes(*[r.val.shape[:-2] for r in rs])
    rows, cols = sum(r.val.shape[-2] for r in rs), sum(r.val.shape[-1] for r in rs)
    out = Ref(np.zeros(batch + (rows, cols)), np.zeros(batch + (rows, cols)))
    i = j = 0
    for r in rs:
        h, w = r.val.shape[-2:]
        out.val[..., i : i + h, j : j + w] = r.val
        out.mag[..., i : i + h, j : j + w] = r.mag
        i, j = i + h, j + w
    return out


def _run_block_diag(case, t):
    xs = case["xs"]
    refs = [specs.ref(s) for s in xs]
    objs = [ops.make(t, s, w) for s, w in zip(xs, case["warm"])]
    what = "block_diag of " + " , ".join(map(specs.describe, xs))
    num = all(specs.kind(s) == "num" for s in xs)
    with t.sut(what):
        res = B.block_diag(*objs)
    ref = r_block_diag(refs)
    t.tag("block_diag:" + type(res).__name__, f"block_diag:{len(xs)}")
    if not np.any(ref.val) or len(xs) == 1:
        t.trivial()
    check(t, res, ref, what, prec_of(*[specs.dtypes_in(s) for s in xs]), is_matrix=None if len(xs) == 1 else not num)


def _concat(c):
    c.setup(pools=False)
    full = c.batch
    axis = c.pick(-2, -1, *range(-2 - len(full), 0))
    rows, cols = c.dim(False), c.dim(False)
    if c.chance(2):
        cols = rows
    xs = []
    for _ in range(c.int(1, 5)):
        h, w, bt = rows, cols, list(full)
        if axis == -2:
            h = c.pick(rows, c.dim(False))
        elif axis == -1:
            w = c.pick(cols, c.dim(False))
        else:
            bt[axis + 2] = c.int(1, 3)
        kinds = ["zero", "dense", "diag", "const", "lt", "ut", "kron", "lr", "wb"]
        ok = [k for k in kinds if h == w or k not in gen.SQUARE_ONLY]
        kind = c.pick(*ok)
        # Concatenation does not broadcast: all parts must have the same batch shape.
        save, c.batch = c.batch, tuple(bt)
        s = gen.matrix(c, h, w, kind=kind, depth=0)
        for _ in range(4):
            if specs.shape_of(s)[:-2] == tuple(bt):
                break
            s = gen.matrix(c, h, w, kind=kind, depth=0)
        else:
            s = {"k": "dense", "mat": c.leaf(tuple(bt), (h, w))}
        c.batch = save
        xs.append(s)
    return {"xs": xs, "axis": axis + 2 + len(full) if c.chance(3) else axis, "warm": _warm(c, xs)}


def _run_concat(case, t):
    xs, axis = case["xs"], case["axis"]
    refs = [specs.ref(s) for s in xs]
    objs = [ops.make(t, s, w) for s, w in zip(xs, case["warm"])]
    what = f"concat(axis={axis}) of " + " , ".join(map(specs.describe, xs))
    t.tag(f"concat:{axis % refs[0].val.ndim - refs[0].val.ndim}", f"concat:n={len(xs)}")
    with t.sut(what):
        res = B.concat(*objs, axis=axis)
    ref = Ref(*[np.concatenate([getattr(r, a) for r in refs], axis=axis) for a in ("val", "mag")])
    if not np.any(ref.val) or len(xs) == 1:
        t.trivial()
    check(t, res, ref, what, prec_of(*[specs.dtypes_in(s) for s in xs]), is_matrix=True)


def _kron(c):
    c.setup()
    kinds = STRUCT
    xs = [gen.matrix(c, *ops.pair_shapes(c, big=False), kinds) for _ in range(c.pick(2, 2, 3))]
    if c.chance(3):
        for i in range(len(xs)):
            if c.chance(2):
                xs[i] = gen.matrix(c, *ops.pair_shapes(c, big=False), kind=c.pick("const", "zero"))
    return {"xs": xs, "left": c.chance(2), "warm": _warm(c, xs)}


def _run_kron(case, t):
    xs = case["xs"]
    refs = [specs.ref(s) for s in xs]
    objs = [ops.make(t, s, w) for s, w in zip(xs, case["warm"])]
    what = "kron of " + " , ".join(map(specs.describe, xs))
    t.tag("kron:" + ops.kinds_tag(*xs[:2]))

    def rk(a, b):
        return Ref(kron_np(a.val, b.val), kron_np(a.mag, b.mag))

    with t.sut(what):
        if case["left"] or len(xs) == 2:
            res, ref = objs[0], refs[0]
            for o, r in zip(objs[1:], refs[1:]):
                res, ref = B.kron(res, o), rk(ref, r)
        else:
            res = B.kron(objs[0], B.kron(objs[1], objs[2]))
            ref = rk(refs[0], rk(refs[1], refs[2]))
    if not np.any(ref.val):
        t.trivial()
    check(t, res, ref, what, prec_of(*[specs.dtypes_in(s) for s in xs]), is_matrix=True)


def _tiled(c):
    c.setup()
    s = gen.tiled(c)
    how = c.pick("dense", "dense", "block_diag", "concat")
    case = {"fn": how, "xs": [s], "warm": [0]}
    if how == "block_diag" and s["axis"] % len(specs.shape_of(s)) < len(specs.shape_of(s)) - 2:
        # Blocks along a batch axis do not need to broadcast.
        case["fn"] = how = "dense"
    if how == "concat":
        n = c.int(1, 2)
        shape = list(specs.shape_of(s))
        for _ in range(n):
            case["xs"].append(s)
        case["axis"] = s["axis"]
        if c.chance(4):
            case["axis"] = c.int(-len(shape), len(shape) - 1)
        case["warm"] = _warm(c, case["xs"])
    return case


def _run_tiled(case, t):
    xs = case["xs"]
    s = xs[0]
    r = specs.ref(s)
    objs = [ops.make(t, s, w) for s, w in zip(xs, case["warm"])]
    f = case["fn"]
    what = f"{f} of " + " , ".join(map(specs.describe, xs))
    t.tag(f"tiled:{f}:{s['axis']}")
    is_matrix = True
    if f == "dense":
        with t.sut(what):
            res, ref = B.dense(objs[0]), r
        is_matrix = False
    elif f == "concat":
        axis = case["axis"]
        with t.sut(what):
            res = B.concat(*objs, axis=axis)
        ref = Ref(*[np.concatenate([getattr(r, a)] * len(xs), axis=axis) for a in ("val", "mag")])
    else:
        with t.sut(what):
            res = B.block_diag(objs[0])
        blocks = [specs.ref(b) for b, rep in s["blocks"] for _ in range(rep)]
        ref = r_block_diag(blocks)
        is_matrix = None
    if not np.any(ref.val):
        t.trivial()
    check(t, res, ref, what, prec_of(specs.dtypes_in(s)), is_matrix=is_matrix)


def describe(case):
    xs = case.get("xs") or [s for row in case["rows"] for s in row]
    return f"{case['f']} ({case.get('fn', case.get('axis', ''))}) of " + " , ".join(map(specs.describe, xs))


FAMILIES = {
    "block": (4, _block, _run_block),
    "block_diag": (3, _block_diag, _run_block_diag),
    "concat": (3, _concat, _run_concat),
    "kron": (2, _kron, _run_kron),
    "tiled": (3, _tiled, _run_tiled),
}
