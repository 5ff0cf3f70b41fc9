"""C17: operands that do not fit are refused."""

import json

import numpy as np

from .. import gen, ops, specs
from .. import structure as S
from ..boot import B, matrix
from ..compare import to_np

ID = "C17"
N_QUICK = 50000
RULE = (
    "Two or three operands of any types of which the sizes or the batch shapes do not fit, for sums, products, quotients, matrix products with transposition flags, solves, "
    "quadratic forms, ratios, and concatenations; matrices that are not square where they must be; selections, axes, and shapes that do not fit; parts that "
    "do not make a matrix. NumPy refuses all of them; so must the operation or constructor itself. If only batch shapes do not fit, for products and for the factors of low-rank and Kronecker products, and for tiled blocks, the first use of the result may refuse instead. Non-trivial: every case."
)
KINDS = ["zero", "dense", "num", "diag", "const", "lt", "ut", "lr", "wb", "kron"]


def _mat(c, batch, rows, cols, kinds=KINDS, prop="gen", kind=None):
    """A matrix that has exactly the given batch shape."""
    kinds = [k for k in kinds if rows == cols or k not in S.SQUARE]
    kind = kind or c.pick(*kinds)
    save, c.pools = c.batch, {}
    c.batch = tuple(batch)
    if kind == "zero":
        s = {"k": "zero", "shape": [*batch, rows, cols]}
    elif kind == "const":
        s = gen.constant(c, rows, cols)
        s["shape"] = [*batch, rows, cols]
    else:
        for _ in range(3):
            s = gen.matrix(c, rows, cols, kind=kind, prop=prop)
            if specs.shape_of(s)[:-2] == tuple(batch):
                break
        else:
            s = {"k": "dense", "mat": c.leaf(batch, (rows, cols))}
    c.batch = save
    return s


def _fits(*shapes):
    try:
        np.broadcast_shapes(*shapes)
        return True
    except ValueError:
        return False


BIN = ["add", "sub", "mul", "div", "mm", "mm", "mm_diag", "solve", "iqf", "iqf_diag", "ratio", "concat", "triple", "operator"]


def _gen_bin(c):
    c.setup(exps=False, dtypes=False)
    op = c.pick(*BIN)
    by_batch = c.chance(3)
    ba = list(c.pick((), (2,), (3,), (2, 3)))
    bb = list(c.pick((), (2,), (3,), (2, 3)))
    if by_batch:
        if not ba:
            ba = [2]
        bb = list(ba)
        j = c.int(0, len(bb) - 1)
        # Different, and neither is one.
        bb[j] = ba[j] + c.int(1, 2)
        if c.chance(3):
            bb = bb[j:]
    elif not _fits(ba, bb):
        bb = []
    n, m = c.int(1, 4), c.int(1, 4)
    square = op in ("solve", "ratio", "iqf", "iqf_diag") or c.chance(2)
    if square:
        m = n
    tr = [False, False]
    no_zero = op in ("solve", "iqf", "iqf_diag", "ratio", "div")
    kinds = [k for k in KINDS if not (no_zero and k == "zero")]
    prop = {"solve": "inv", "iqf": "pd", "iqf_diag": "pd"}.get(op, "gen")
    kinds_a = [k for k in kinds if k in ("dense", "diag", "wb", "kron")] if prop != "gen" else kinds
    if op == "ratio":
        prop, kinds_a = "pd", ["dense", "diag", "wb"]
    if op in ("mm", "mm_diag", "triple"):
        tr = [c.chance(3), c.chance(3)]
        k = m
        if not by_batch:
            k = m + c.int(1, 3) if c.chance(2) or m == 1 else c.int(1, m - 1)
        sa, sb = [n, m], [k, n if op == "mm_diag" or c.chance(2) else c.int(1, 4)]
        if square and not by_batch:
            sb = [k, k]
        sa, sb = (sa[::-1] if tr[0] else sa), (sb[::-1] if tr[1] else sb)
    elif op in ("solve", "iqf", "iqf_diag"):
        sa = [n, n]
        sb = [n if by_batch else n + c.int(1, 3) if c.chance(2) or n == 1 else c.int(1, n - 1), c.int(1, 4)]
        if c.chance(2) and not by_batch:
            sb[1] = sb[0]
    elif op == "ratio":
        sa = sb = [n, n]
        if not by_batch:
            k = n + c.int(1, 3)
            sb = [k, k]
            if c.chance(2):
                sa, sb = sb, sa
    elif op == "concat":
        sa, sb = [n, m], [n + (0 if by_batch else c.int(1, 3)), c.int(1, 4)]
    else:
        sa, sb = [n, m], [n, m]
        if not by_batch:
            j = c.int(0, 1)
            if sa[j] == 1:
                sa[j] = 2
            sb = list(sa)
            sb[j] = sa[j] + c.int(1, 2) if c.chance(2) or sa[j] == 2 else sa[j] - 1
            if square and c.chance(2):
                sa, sb = [sa[j]] * 2, [sb[j]] * 2
            if c.chance(2):
                sa, sb = sb, sa
    a = _mat(c, ba, *sa, kinds_a, prop)
    if op == "div":
        b = {"k": "dense", "mat": c.leaf(bb, sb, "nz")}
        if c.chance(3):
            b = {"k": "const", "const": c.leaf(bb, (), "nz"), "shape": sb}
    elif op == "ratio":
        b = _mat(c, bb, *sb, kinds_a, "pd")
    else:
        b = _mat(c, bb, *sb, kinds)
    if a["k"] in ("arr", "cols") and b["k"] in ("arr", "cols"):
        a = {"k": "dense", "mat": a}
    case = {"op": op, "xs": [a, b], "tr": tr, "warm": ops.warm_flags(c)}
    if op == "triple":
        case["first"] = _mat(c, [], c.int(1, 4), sa[1] if tr[0] else sa[0])
    if op == "operator":
        case["operator"] = c.pick("+", "-", "*", "@")
    return case


def _np_refuses(op, a, b, tr, case):
    try:
        if op in ("mm", "mm_diag", "triple"):
            a = np.swapaxes(a, -1, -2) if tr[0] else a
            b = np.swapaxes(b, -1, -2) if tr[1] else b
            if op == "mm_diag":
                # Only the diagonal is computed, so sizes of one broadcast.
                np.swapaxes(a, -1, -2) * b
            else:
                a @ b
            return False
        if op in ("solve", "iqf", "iqf_diag"):
            a @ b
        elif op == "ratio":
            if a.shape[-1] == b.shape[-1]:
                a * b
            else:
                return True
        elif op == "concat":
            a, b = np.broadcast_arrays(a[..., :1], b[..., :1])
            return False
        elif op == "operator" and case["operator"] == "@":
            a @ b
        else:
            a + b
        return False
    except ValueError:
        return True


def _run_bin(case, t):
    op, tr = case["op"], case["tr"]
    ra, rb = [specs.ref(s).val for s in case["xs"]]
    if op == "concat" and ra.shape[-2] != rb.shape[-2]:
        pass
    elif not _np_refuses(op, ra, rb, tr, case):
        return t.trivial()
    objs = [ops.make(t, s, case["warm"]) for s in case["xs"]]
    kw = {"tr_a": tr[0], "tr_b": tr[1]} if any(tr) else {}
    what = f"{case.get('operator', op)}{tr if any(tr) else ''} of " + ", ".join(specs.describe(s) for s in case["xs"])
    t.tag(f"{op}:{specs.kind(case['xs'][0])}:{specs.kind(case['xs'][1])}")
    a, b = objs

    def f():
        if op == "iqf":
            return B.iqf(a, b)
        if op == "iqf_diag":
            return B.iqf_diag(a, b)
        if op == "ratio":
            return B.ratio(a, b)
        if op == "concat":
            return B.concat(a, b, axis=-1)
        if op == "triple":
            first = specs.build(case["first"])
            return B.matmul(first, a, b, tr_b=tr[0], tr_c=tr[1])
        if op == "operator":
            o = case["operator"]
            return a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a @ b
        return S.F_BIN[op](a, b, **kw)

    # Batch shapes of the parts of low-rank and Kronecker products are checked when they are used.
    _refused(t, what, f, now=op == "concat" or not _sizes_fit(ra, rb, op, tr, case))


def _sizes_fit(ra, rb, op, tr, case):
    """Whether only the batch shapes do not fit."""
    ra, rb = ra[(0,) * (ra.ndim - 2)], rb[(0,) * (rb.ndim - 2)]
    return not _np_refuses(op, ra, rb, tr, case)


def _refused(t, what, f, now=True):
    """`now`: the call itself must refuse. Otherwise, the first use of its result may."""
    try:
        res = f()
    except Exception:
        return
    try:
        v = to_np(res)
    except Exception as e:
        if now:
            t.violate(f"{what} is only refused when the result is used: {type(e).__name__}: {str(e)[:200]}")
        return
    t.violate(f"{what} is not refused: the result is {v.tolist()}")


NONSQUARE = {
    "inv": B.inv,
    "pd_inv": B.pd_inv,
    "cholesky": B.cholesky,
    "root": B.root,
    "logdet": B.logdet,
    "eye": B.eye,
}


def _gen_square(c):
    c.setup(exps=False, dtypes=False)
    n = c.int(1, 4)
    m = c.pick(*[k for k in range(1, 6) if k != n])
    return {"fn": c.pick(*NONSQUARE), "x": _mat(c, c.batch, n, m, ["zero", "dense", "const", "lr", "kron"])}


def _run_square(case, t):
    x = ops.make(t, case["x"])
    fn = case["fn"]
    t.tag(f"{fn}:{case['x']['k']}")
    _refused(t, f"{fn} of {specs.describe(case['x'])}", lambda: NONSQUARE[fn](x))


def _gen_arg(c):
    c.setup(exps=False, dtypes=False)
    rows, cols = ops.pair_shapes(c, False)
    how = c.pick("take", "take", "mask", "sub", "take2d", "axis", "sum", "mean", "bc", "bcb", "reshape", "item", "item", "items", "tile")
    uniform = how in ("tile",)
    # All entries of these are the same, and positions and target shapes aren't checked.
    avoid = how in ("take", "mask", "sub", "bc", "bcb")
    kinds = ["zero", "const"] if uniform else [k for k in KINDS[:-1] + ["kron"] if k != "num" and not (avoid and k in ("zero", "const"))]
    if how == "sub":
        cols = rows
    s = _mat(c, c.batch, rows, cols, kinds)
    if avoid and any(f'"{k}"' in json.dumps(s) for k in ("zero", "const")):
        # The same holds for factors of Kronecker products.
        s = {"k": "dense", "mat": c.leaf(specs.shape_of(s)[:-2], specs.shape_of(s)[-2:])}
    shape = specs.shape_of(s)
    rank = len(shape)
    axis = c.int(-rank, rank - 1)
    size = shape[-1] if how == "sub" else shape[axis]
    case = {"x": s, "how": how, "axis": axis, "warm": ops.warm_flags(c)}
    if how in ("take", "sub"):
        idx = [c.int(0, size - 1) for _ in range(c.int(0, 2))]
        idx.insert(c.int(0, len(idx)), size + c.int(0, 2) if c.chance(2) else -size - c.int(1, 3))
        case["arg"] = idx
    elif how == "mask":
        k = c.pick(*[q for q in range(1, size + 4) if q != size])
        case["arg"] = [True] * k
    elif how in ("axis", "sum", "mean"):
        case["arg"] = rank + c.int(0, 2) if c.chance(2) else -rank - c.int(1, 3)
    elif how == "bc":
        target = list(shape)
        j = c.int(0, rank - 1)
        if target[j] == 1:
            # One dimension fewer.
            target = target[1:] if rank > 2 and shape[0] != 1 else None
        else:
            target[j] += 1
        if target is not None and _broadcasts(shape, target):
            target = None
        case["arg"] = target
    elif how == "bcb":
        target = list(shape[:-2])
        ok = [j for j, d in enumerate(target) if d > 1]
        if ok:
            target[c.pick(*ok)] += 1
            case["arg"] = target
        else:
            case["arg"] = None
    elif how == "reshape":
        size = int(np.prod(shape))
        case["arg"] = [size + c.int(1, 5)] if c.chance(2) else [size, 2]
    elif how == "item":
        j = c.int(0, rank - 1)
        case["arg"] = [j, shape[j] + c.int(0, 2) if c.chance(2) else -shape[j] - c.int(1, 2)]
    elif how == "tile":
        k = c.pick(*[q for q in range(1, rank + 3) if q != rank])
        case["arg"] = [c.int(1, 2) for _ in range(k)]
    return case


def _broadcasts(shape, target):
    try:
        np.broadcast_to(np.zeros(shape), target)
        return True
    except ValueError:
        return False


def _run_arg(case, t):
    how, axis, arg = case["how"], case["axis"], case.get("arg")
    if arg is None and how in ("bc", "bcb"):
        return t.trivial()
    x = ops.make(t, case["x"], case["warm"])
    rank = specs.ref(case["x"]).val.ndim

    def f():
        if how in ("take", "mask"):
            return B.take(x, arg, axis=axis)
        if how == "sub":
            return B.submatrix(x, arg)
        if how == "take2d":
            return B.take(x, np.array([[0]]), axis=axis)
        if how == "axis":
            return B.take(x, [0], axis=arg)
        if how == "sum":
            return B.sum(x, axis=arg)
        if how == "mean":
            return B.mean(x, axis=arg)
        if how == "bc":
            return B.broadcast_to(x, *arg)
        if how == "bcb":
            return B.broadcast_batch_to(x, *arg)
        if how == "reshape":
            return B.reshape(x, *arg)
        if how == "item":
            return x[(slice(None),) * arg[0] + (arg[1],)]
        if how == "items":
            return x[(0,) * (rank + 1)]
        if how == "tile":
            return B.tile(x, *arg)
        raise ValueError(how)

    t.tag(f"{how}:{case['x']['k']}")
    _refused(t, f"{how}({arg}, axis={axis}) of {specs.describe(case['x'])}", f)


def _gen_parts(c):
    c.setup(exps=False, dtypes=False)
    how = c.pick("tri", "dims", "lr_rank", "lr_middle", "lr_batch", "wb_size", "wb_batch", "kron_batch", "const_batch", "tb", "tb_axis", "vec_rank", "modulo")
    n, m, k = c.int(1, 4), c.int(1, 4), c.int(1, 3)
    batch = list(c.batch) or [2]
    j = c.int(0, len(batch) - 1)
    other = list(batch)
    if other[j] == 1:
        batch[j] = 2
    other[j] = batch[j] + 1
    return {
        "how": how,
        "n": n,
        "m": m,
        "k": k,
        "d": c.int(1, 2),
        "batch": batch,
        "other": other,
        "lower": c.chance(2),
        "middle": c.chance(2),
    }


def _run_parts(case, t):
    n, m, k, d, how = (case[q] for q in ("n", "m", "k", "d", "how"))
    batch, other = case["batch"], case["other"]
    one = lambda *s: np.ones(s) + np.arange(int(np.prod(s, dtype=int))).reshape(s)  # noqa
    tri = matrix.LowerTriangular if case["lower"] else matrix.UpperTriangular

    def f():
        if how == "tri":
            return tri(one(n))
        if how == "dims":
            dims = [n] if case["middle"] else []
            return matrix.Zero(float, *dims) if case["lower"] else matrix.Constant(1.0, *dims)
        if how == "lr_rank":
            return matrix.LowRank(one(n, k), one(m, k + d))
        if how == "lr_middle":
            return matrix.LowRank(one(n, k), one(m, k), one(k + d, k) if case["lower"] else one(k, k + d))
        if how == "lr_batch":
            if case["middle"]:
                return matrix.LowRank(one(*batch, n, k), one(m, k), one(*other, k, k))
            return matrix.LowRank(one(*batch, n, k), one(*other, m, k))
        if how == "wb_size":
            return matrix.Woodbury(matrix.Diagonal(one(n + 1)), matrix.LowRank(one(n + 1 + d, k)))
        if how == "wb_batch":
            return matrix.Woodbury(matrix.Diagonal(one(*batch, n)), matrix.LowRank(one(*other, n, k)))
        if how == "kron_batch":
            return matrix.Kronecker(one(*batch, n, m), one(*other, n, m))
        if how == "const_batch":
            return matrix.Constant(one(*batch), *other, n, m)
        if how == "tb":
            return matrix.TiledBlocks((matrix.Dense(one(n, m + 1)), 2), (matrix.Dense(one(n, m + 1 + d)), 1), axis=-2)
        if how == "tb_axis":
            return matrix.TiledBlocks((matrix.Dense(one(n, m)), 2), axis=2 + d)
        if how == "modulo":
            return pow(matrix.Diagonal(one(n)) if case["lower"] else matrix.Dense(one(n, n)), k, 2 + d)
        if how == "vec_rank":
            return matrix.Diagonal(np.array(1.0))
        raise ValueError(how)

    t.tag(how)
    # The constructors of the others do not look at the batch shapes, or at how blocks align.
    _refused(t, f"{case}", f, now=how not in ("tb", "tb_axis", "kron_batch", "lr_batch"))


def describe(case):
    if case["f"] == "pair":
        return f"{case['op']}{case['tr']}: " + ", ".join(specs.describe(s) for s in case["xs"])
    if "x" in case:
        return f"{case.get('fn', case.get('how'))}({case.get('arg')}) of {specs.describe(case['x'])}"
    return str(case)


FAMILIES = {
    "pair": (6, _gen_bin, _run_bin),
    "square": (1, _gen_square, _run_square),
    "argument": (3, _gen_arg, _run_arg),
    "parts": (1, _gen_parts, _run_parts),
}
