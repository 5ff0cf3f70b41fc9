"""C20: operators, methods, and numbers and arrays as operands."""

import operator

import numpy as np

from .. import gen, ops, specs
from .. import structure as S
from ..boot import B, matrix
from ..compare import check, to_np
from ..specs import Ref

ID = "C20"
N_QUICK = 36000
RULE = (
    "A matrix of any type with a number (Python or NumPy), vector, matrix, or batch of matrices on the left or on the right, by operator, in-place operator, or function; "
    "the result is a matrix and equals that of the dense matrices, vectors being columns. Methods and attributes, with all ways to give their arguments, against NumPy applied to the "
    "dense matrix. Non-trivial: the matrix is structured."
)
KINDS = ["zero", "dense", "diag", "const", "lt", "ut", "lr", "wb", "kron"]
OPS = {
    "+": (operator.add, B.add, operator.iadd),
    "-": (operator.sub, B.subtract, operator.isub),
    "*": (operator.mul, B.multiply, operator.imul),
    "/": (operator.truediv, B.divide, operator.itruediv),
    "@": (operator.matmul, B.matmul, operator.imatmul),
}
FORMS = ["int", "float", "np.float64", "np.float32", "np.int64", "0d", "vector", "array", "array", "row", "column", "batch"]


def _gen_op(c):
    c.setup(exps=False, dtypes=False)
    ints = c.chance(4)
    if ints:
        c.dtype_policy = "i8"
    rows, cols = ops.pair_shapes(c, False)
    op = c.pick(*OPS)
    left = c.chance(2)
    kinds = KINDS
    if op == "/" and left:
        # Nothing is divided by structural zeros.
        kinds = ["dense", "const"]
    forms = FORMS if op != "@" else ["array", "array", "batch", "column", "vector"]
    form = c.pick(*forms)
    s = gen.matrix(c, rows, cols, [k for k in kinds if rows == cols or k not in S.SQUARE])
    if op == "/" and left:
        batch = c.sub_batch()
        s = {"k": "dense", "mat": c.leaf(batch, (rows, cols), "nz")}
        if c.chance(2):
            s = {"k": "const", "const": c.leaf(batch, (), "nz"), "shape": [rows, cols]}
        if ints:
            # Divide by integers.
            s["mat" if s["k"] == "dense" else "const"]["dtype"] = "i8"
    mode = "nz" if op == "/" else "gen"
    if form in ("int", "np.int64"):
        v = c.pick(1, 2, -3) if op == "/" else c.pick(0, 1, 2, -3)
    elif form in ("float", "np.float64", "np.float32", "0d"):
        v = c.pick(1.0, 0.5, -2.5) if op == "/" else c.pick(0.0, 1.0, 0.5, -2.5)
    else:
        if op == "@":
            inner = rows if left else cols
            other = c.int(1, 4)
            if form == "vector":
                # A column: on the left, the matrix has to have one row.
                if left:
                    form = "array"
                other = 1
            if form == "column":
                other = 1
            shape = (other, inner) if left else (inner, other)
            if form == "vector":
                shape = (inner,)
        else:
            shape = {"vector": (rows,), "row": (1, cols), "column": (rows, 1)}.get(form, (rows, cols))
        v = c.leaf(c.sub_batch() if form == "batch" else (), shape, mode)
    # An array cannot become a matrix in place.
    how = c.pick("op", "op", "fun") if left and form in ("0d", "vector", "array", "row", "column", "batch") else c.pick("op", "op", "fun", "in")
    return {"op": op, "left": left, "form": form, "v": v, "x": s, "how": how, "warm": ops.warm_flags(c)}


def _other(case):
    v, form = case["v"], case["form"]
    if form == "int":
        return int(v)
    if form == "float":
        return float(v)
    if form in ("np.float64", "np.float32", "np.int64"):
        return getattr(np, form[3:])(v)
    if form == "0d":
        return np.array(v)
    return specs.build(v)


def _run_op(case, t):
    op, form = case["op"], case["form"]
    x = ops.make(t, case["x"], case["warm"])
    y = _other(case)
    ry = np.asarray(y, dtype=float)
    if ry.ndim == 1:
        ry = ry[:, None]
    rx = specs.ref(case["x"])
    ry = Ref(ry, np.abs(ry))
    what = f"{form} {op} {specs.describe(case['x'])}" if case["left"] else f"{specs.describe(case['x'])} {op} {form}"
    what += f" ({case['how']})"
    if case["x"]["k"] == "dense":
        t.trivial()
    t.tag(f"{op}:{'left' if case['left'] else 'right'}:{case['x']['k']}:{form}")
    a, b = (y, x) if case["left"] else (x, y)
    ra, rb = (ry, rx) if case["left"] else (rx, ry)
    f = OPS[op][{"op": 0, "fun": 1, "in": 2}[case["how"]]]
    before = np.array(y, copy=True)
    with t.sut(what):
        res = f(a, b)
    ref = {"+": ops.r_add, "-": ops.r_sub, "*": ops.r_mul, "/": ops.r_div, "@": ops.r_mm}[op](ra, rb)
    check(t, res, ref, what, is_matrix=True, prec="f4" if form == "np.float32" else "f8")
    t.require(np.array_equal(before, y), lambda: f"{what}: the operand was changed")
    check(t, x, rx, f"{what}: the matrix afterwards")


# Functions of a matrix and an array ---------------------------------------------------

MIXED = ["solve", "solve_left", "iqf", "iqf_diag", "kron", "kron_left", "mm3", "matmul_diag", "matmul_diag_left", "ratio", "block", "concat"]


def _gen_mixed(c):
    c.setup(exps=False, dtypes=False)
    n, m = c.int(1, 4), c.int(1, 4)
    fn = c.pick(*MIXED)
    pd = fn in ("solve", "iqf", "iqf_diag", "ratio")
    if pd:
        x = ops.pd_matrix(c, n, ["dense", "diag", "wb", "kron"])
    elif fn == "solve_left":
        x = gen.matrix(c, n, m, [k for k in KINDS if n == m or k not in S.SQUARE and k != "zero"])
    else:
        x = gen.matrix(c, n, m if fn not in ("matmul_diag",) else m, [k for k in KINDS if n == m or k not in S.SQUARE])
    if x["k"] == "zero" and fn == "solve_left":
        x = {"k": "diag", "diag": c.leaf(c.sub_batch(), (n,))}
    rows, cols = n, (n if specs.shape_of(x)[-1] == n else m)
    b = c.sub_batch()
    if fn == "solve_left":
        y = c.leaf(b, (n, n), "inv")
    elif fn == "ratio":
        y = c.leaf(b, (n, n), "pd")
    elif fn in ("kron", "kron_left"):
        y = c.leaf(b, (c.int(1, 3), c.int(1, 3)))
    elif fn in ("matmul_diag", "matmul_diag_left", "mm3"):
        y = c.leaf(b, (cols, rows))
    elif fn in ("block", "concat"):
        y = c.leaf(specs.shape_of(x)[:-2], (rows, c.int(1, 3)))
    else:
        y = c.leaf(b, (n, c.int(1, 3)))
    return {"fn": fn, "x": x, "y": y, "warm": ops.warm_flags(c)}


def _run_mixed(case, t):
    fn = case["fn"]
    x = ops.make(t, case["x"], case["warm"])
    y = specs.build(case["y"])
    rx, ry = specs.ref(case["x"]), specs.ref(case["y"])
    what = f"{fn} of {specs.describe(case['x'])} and an array of shape {np.shape(y)}"
    t.tag(f"{fn}:{case['x']['k']}")
    tol, atol, numeric = None, 0.0, None
    loose = (1e-7, 1e-7)
    with t.sut(what):
        if fn == "solve":
            res = B.solve(x, y)
            v = np.linalg.solve(*_same(rx.val, ry.val))
            ref, tol = _rough(v, rx), loose
        elif fn == "solve_left":
            res = B.solve(y, x)
            ref, tol = _rough(np.linalg.solve(*_same(ry.val, rx.val)), ry), loose
        elif fn in ("iqf", "iqf_diag"):
            res = B.iqf(x, y) if fn == "iqf" else B.iqf_diag(x, y)
            v = np.swapaxes(ry.val, -1, -2) @ np.linalg.solve(*_same(rx.val, ry.val))
            if fn == "iqf_diag":
                v = np.diagonal(v, axis1=-2, axis2=-1)
            ref, tol = _rough(v, rx), loose
        elif fn == "kron":
            res, ref = B.kron(x, y), _kron(rx, ry)
        elif fn == "kron_left":
            res, ref = B.kron(y, x), _kron(ry, rx)
        elif fn == "mm3":
            res, ref = B.matmul(x, y, x), ops.r_mm(ops.r_mm(rx, ry), rx)
        elif fn == "matmul_diag":
            res = B.matmul_diag(x, y)
            ref = ops.r_map(lambda q: np.diagonal(q, axis1=-2, axis2=-1), ops.r_mm(rx, ry))
        elif fn == "matmul_diag_left":
            res = B.matmul_diag(y, x)
            ref = ops.r_map(lambda q: np.diagonal(q, axis1=-2, axis2=-1), ops.r_mm(ry, rx))
        elif fn == "ratio":
            res = B.ratio(matrix.Dense(y), x)
            v = np.trace(np.linalg.solve(*_same(rx.val, ry.val)), axis1=-2, axis2=-1)
            ref, tol = Ref(v, np.abs(v) + np.max(ops.cond(rx.val))), loose
        elif fn == "block":
            res = B.block([x, y])
            ref = ops.r_map(lambda p, q: np.concatenate([p, q], -1), rx, ry)
        elif fn == "concat":
            res = B.concat(x, y, axis=-1)
            ref = ops.r_map(lambda p, q: np.concatenate([p, q], -1), rx, ry)
    check(t, res, ref, what, tol=tol, atol=1e-9 if tol else 0.0, matrix_axes=min(2, ref.val.ndim))


def _same(a, b):
    batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    return np.broadcast_to(a, (*batch, *a.shape[-2:])), np.broadcast_to(b, (*batch, *b.shape[-2:]))


def _rough(v, ra):
    return Ref(v, np.broadcast_to(np.abs(v).max() + 1.0, v.shape) * max(1.0, float(np.max(ops.cond(ra.val)))))


def _kron(a, b):
    def f(p, q):
        p, q = _same(p, q)
        r = p[..., :, None, :, None] * q[..., None, :, None, :]
        return r.reshape(*p.shape[:-2], p.shape[-2] * q.shape[-2], p.shape[-1] * q.shape[-1])

    return Ref(f(a.val, b.val), f(a.mag, b.mag))


# Methods ------------------------------------------------------------------------------

METHODS = ["T", "neg", "pos_power", "reshape", "reshape_tuple", "reshape_list", "flatten", "squeeze", "diagonal", "shape", "dtype", "getitem", "getitem", "getitem", "tiled_getitem"]


def _index(c, d):
    """An index along a dimension of length `d`."""
    how = c.int(0, 6)
    if how == 0:
        return ["i", c.int(-d, d - 1)]
    if how == 1:
        return ["s", c.pick(None, 0, 1, -1), c.pick(None, d, 1, -1), c.pick(None, 1, 2, -1)]
    if how == 2:
        return ["a", [c.int(-d, d - 1) for _ in range(c.int(1, 3))]]
    if how == 3:
        return ["l", [c.int(-d, d - 1) for _ in range(c.int(1, 3))]]
    if how == 4:
        return ["m", [bool(c.int(0, 1)) for _ in range(d)]]
    return ["s", None, None, None]


def _gen_method(c):
    c.setup(exps=False, dtypes=False)
    rows, cols = ops.pair_shapes(c, False)
    how = c.pick(*METHODS)
    s = gen.matrix(c, rows, cols, [k for k in KINDS if rows == cols or k not in S.SQUARE])
    shape = specs.shape_of(s)
    case = {"how": how, "x": s, "warm": ops.warm_flags(c)}
    size = int(np.prod(shape))
    if how.startswith("reshape"):
        d = c.pick(*[k for k in range(1, size + 1) if size % k == 0])
        case["arg"] = c.pick([size], [-1], [d, -1], [-1, d], [d, size // d], [1, d, size // d])
    elif how == "pos_power":
        case["arg"] = c.pick(1, 2, 3)
    elif how == "getitem":
        k = c.int(1, len(shape))
        ix = [_index(c, d) for d in shape[:k]]
        fancy = 0
        for j, q in enumerate(ix):
            if q[0] in "alm":
                fancy += 1
                if fancy > 1:
                    # Lists of indices along multiple dimensions would have to broadcast.
                    ix[j] = ["i", 0]
        extra = c.int(0, 5)
        if extra == 0:
            ix = [["e"]] + [_index(c, shape[-1])]
        elif extra == 1:
            ix.insert(c.int(0, len(ix)), ["n"])
        case["arg"] = ix
        case["single"] = len(ix) == 1 and c.chance(2)
    return case


def _key(q):
    if q[0] == "i":
        return q[1]
    if q[0] == "s":
        return slice(*q[1:])
    if q[0] == "a":
        return np.array(q[1])
    if q[0] == "l":
        return list(q[1])
    if q[0] == "m":
        return np.array(q[1])
    return Ellipsis if q[0] == "e" else None


def _run_method(case, t):
    how, arg, s = case["how"], case.get("arg"), case["x"]
    ref = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    if s["k"] == "dense":
        t.trivial()
    t.tag(f"{how}:{s['k']}")
    what = f"{how}({arg if arg is not None else ''}) of {specs.describe(s)}"
    f = is_matrix = None
    with t.sut(what):
        if how == "T":
            res, f = x.T, lambda v: np.swapaxes(v, -1, -2)
            is_matrix = True
        elif how == "neg":
            res, is_matrix = -x, True
            ref = ops.r_neg(ref)
        elif how == "pos_power":
            res, is_matrix = x**arg, True
            ref = Ref(ref.val**arg, ref.mag**arg)
        elif how == "reshape":
            res, f = x.reshape(*arg), lambda v: v.reshape(arg)
        elif how == "reshape_tuple":
            res, f = x.reshape(tuple(arg)), lambda v: v.reshape(arg)
        elif how == "reshape_list":
            res, f = x.reshape(list(arg)), lambda v: v.reshape(arg)
        elif how == "flatten":
            res, f = x.flatten(), lambda v: v.reshape(-1)
        elif how == "squeeze":
            res = x.squeeze()
            got = np.squeeze(to_np(res))
            t.require(got.shape == ref.val.squeeze().shape, lambda: f"{what}: shape {got.shape}")
            ref, res = ops.r_map(np.squeeze, ref), got
        elif how == "diagonal":
            if specs.shape_of(s)[-1] != specs.shape_of(s)[-2]:
                return t.trivial()
            res, f = x.diagonal(), lambda v: np.diagonal(v, axis1=-2, axis2=-1)
        elif how == "shape":
            got = x.shape
            t.require(tuple(got) == ref.val.shape, lambda: f"{what} is {got}, not {ref.val.shape}")
            t.require(tuple(got) == tuple(B.shape(x)), lambda: f"{what} is not that of the function")
            return
        elif how == "dtype":
            got, want = x.dtype, B.dtype(x)
            t.require(np.dtype(got) == np.dtype(want), lambda: f"{what} is {got}, not {want}")
            return
        elif how == "tiled_getitem":
            tb = matrix.TiledBlocks((x, 2), (x, 1), axis=-2)
            res = tb[..., -1]
            f = lambda v: np.concatenate([v, v, v], -2)[..., -1]  # noqa
        else:
            key = tuple(_key(q) for q in arg)
            if case["single"]:
                key = key[0]
            res = x[key]
            f = lambda v: v[key]  # noqa
            is_matrix = False
    if f is not None:
        ref = ops.r_map(f, ref)
    check(t, res, ref, what, is_matrix=is_matrix, matrix_axes=0 if how == "getitem" else min(2, ref.val.ndim))


def describe(case):
    if case["f"] == "operator":
        return f"{case['form']} {case['op']} {specs.describe(case['x'])}, array on the {'left' if case['left'] else 'right'}"
    return f"{case.get('fn', case.get('how'))} of {specs.describe(case['x'])}"


FAMILIES = {
    "operator": (5, _gen_op, _run_op),
    "mixed": (2, _gen_mixed, _run_mixed),
    "method": (3, _gen_method, _run_method),
}
