"""C12: reported shapes, ranks, and data types are those of the dense version."""

import json

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import to_np

ID = "C12"
N_QUICK = 50000
RULE = (
    "One matrix of any type (nested, tiled, factors of different batch shapes and data types), or the result of "
    "one or two operations on such matrices: `shape`, `shape_batch`, `shape_matrix` (also by position), `rank`, `dtype`, "
    "`.shape`, `.dtype`, `str`, `repr`, before and after conversion to dense, against the dense version; broadcasted "
    "shapes of 1 to 4 matrices or shapes against NumPy. Non-trivial: a structured matrix, or more than one shape."
)


def _np_dtype(x):
    return np.dtype(x)


def _same_dims(got, want):
    return isinstance(got, tuple) and tuple(int(d) for d in got) == tuple(want)


def _squeeze(x):
    return x[0] if len(x) == 1 else tuple(x)


NAMES = {
    "zero": "zero matrix",
    "dense": "dense matrix",
    "diag": "diagonal matrix",
    "const": "constant matrix",
    "lt": "lower-triangular matrix",
    "ut": "upper-triangular matrix",
    "lr": "low-rank matrix",
    "wb": "Woodbury matrix",
    "kron": "Kronecker product",
    "tb": "tile of blocks",
}
KIND_OF = {
    "Zero": "zero",
    "Dense": "dense",
    "Diagonal": "diag",
    "Constant": "const",
    "LowerTriangular": "lt",
    "UpperTriangular": "ut",
    "LowRank": "lr",
    "Woodbury": "wb",
    "Kronecker": "kron",
    "TiledBlocks": "tb",
}


def _tuple_str(x):
    x = tuple(int(d) for d in x)
    return "(" + ", ".join(map(str, x)) + ("," if len(x) == 1 else "") + ")"


def metadata(t, x, want_shape, dims, what, text=True):
    """Check everything that a matrix reports about itself. `dims` are positions."""
    is_matrix = isinstance(x, matrix.AbstractMatrix)
    with t.sut(what + ": metadata"):
        shape = B.shape(x)
        batch, mat = B.shape_batch(x), B.shape_matrix(x)
        rank, dtype = B.rank(x), B.dtype(x)
        one_b = [(i, B.shape_batch(x, i)) for i in dims if -len(batch) <= i < len(batch)]
        one_m = [(i, B.shape_matrix(x, i)) for i in dims if -2 <= i < 2]
        one_s = [(i, B.shape(x, i)) for i in dims if -rank <= i < rank]
        two = B.shape(x, 0, -1) if rank >= 2 else None
        attrs = (x.shape, x.dtype)
        header = str(x) if is_matrix and text else None
        long = repr(x) if is_matrix and text else None
    want_shape = tuple(want_shape)
    pairs = [
        ("shape", shape, want_shape),
        ("shape_batch", batch, want_shape[:-2]),
        ("shape_matrix", mat, want_shape[-2:]),
        (".shape", attrs[0], want_shape),
    ]
    for name, got, want in pairs:
        t.require(_same_dims(tuple(got), want), lambda: f"{what}: {name} is {got}, expected {want}")
    t.require(rank == len(want_shape), lambda: f"{what}: rank is {rank}, expected {len(want_shape)}")
    for name, got, full in [("shape_batch", one_b, want_shape[:-2]), ("shape_matrix", one_m, want_shape[-2:]), ("shape", one_s, want_shape)]:
        for i, v in got:
            t.require(v == full[i], lambda: f"{what}: {name}(., {i}) is {v}, expected {full[i]}")
    if two is not None:
        t.require(tuple(two) == (want_shape[0], want_shape[-1]), lambda: f"{what}: shape(., 0, -1) is {two}")
    t.require(_np_dtype(attrs[1]) == _np_dtype(dtype), lambda: f"{what}: .dtype is {attrs[1]}, dtype is {dtype}")
    if header is not None:
        kind = KIND_OF.get(type(x).__name__)
        name = np.dtype(dtype).name if np.dtype(dtype).name in header else getattr(dtype, "__name__", str(dtype))
        for part in [
            NAMES.get(kind, ""),
            "batch=" + _tuple_str(want_shape[:-2]) + ",",
            "shape=" + _tuple_str(want_shape[-2:]) + ",",
            "dtype=" + name,
        ]:
            t.require(part in header, lambda: f"{what}: {part!r} is not in {header!r}")
        t.require(long.startswith(header[:-1]), lambda: f"{what}: {long!r} does not start with {header!r}")
        _repr_parts(t, x, long, what)
    return dtype


def _repr_parts(t, x, long, what):
    """The representation of a composite matrix shows its parts, in full."""
    n = type(x).__name__
    parts = {"Woodbury": ("diag", "lr"), "Kronecker": ("left", "right"), "LowRank": ("left",)}.get(n, ())
    for p in parts:
        part = getattr(x, p)
        if isinstance(part, matrix.AbstractMatrix):
            lines = [q.strip() for q in repr(part).split("\n")]
            flat = [q.strip() for q in long.split("\n")]
            i = [k for k, q in enumerate(flat) if q.startswith(f"{p}=" + lines[0].rstrip(">"))]
            t.require(bool(i), lambda: f"{what}: the representation does not show `{p}`: {long!r}")


def _gen(c):
    c.setup()
    rows, cols = ops.pair_shapes(c)
    x = gen.tiled(c) if c.chance(6) else gen.matrix(c, rows, cols, ops.ALL, depth=2)
    return {"x": x, "warm": ops.warm_flags(c), "dims": [c.int(-3, 3), c.int(-2, 1)]}


def _run(case, t):
    s = case["x"]
    what = specs.describe(s)
    r = specs.ref(s)
    raw = specs.leaf_array(s).shape if specs.kind(s) == "num" and s["k"] != "py" else None
    if specs.kind(s) == "num":
        t.trivial()
        if raw is None or len(raw) < 2:
            return
    x = ops.make(t, s, case["warm"])
    t.tag(f"meta:{specs.kind(s)}", ops.batch_tag(r))
    dtype = metadata(t, x, r.val.shape, case["dims"], what)
    with t.sut(what + ": dense"):
        d = B.dense(x)
        n = B.to_numpy(x)
        rank2 = B.uprank(x)
    t.require(isinstance(d, np.ndarray) and isinstance(n, np.ndarray), lambda: f"{what}: the dense version is a {type(d)}")
    t.require(d.dtype == _np_dtype(dtype), lambda: f"{what}: dtype is {dtype}, dense dtype is {d.dtype}")
    t.require(d.shape == r.val.shape, lambda: f"{what}: dense shape {d.shape}, expected {r.val.shape}")
    t.require(np.array_equal(d, n, equal_nan=True), lambda: f"{what}: to_numpy differs from dense")
    t.require(tuple(B.shape(rank2)) == r.val.shape, lambda: f"{what}: uprank has shape {B.shape(rank2)}")
    # Nothing changes after conversion.
    again = metadata(t, x, r.val.shape, case["dims"], what + " (after dense)", text=False)
    t.require(_np_dtype(again) == _np_dtype(dtype), lambda: f"{what}: dtype changed from {dtype} to {again}")


# Results of operations ----------------------------------------------------------------

BIN = {
    "add": (B.add, np.add),
    "sub": (B.subtract, np.subtract),
    "mul": (B.multiply, np.multiply),
    "mm": (B.matmul, np.matmul),
    "kron": (B.kron, None),
}
UN = {
    "neg": (B.negative, np.negative),
    "T": (B.transpose, lambda v: np.swapaxes(v, -1, -2)),
    "abs": (B.abs, np.abs),
    "sum0": (lambda x: B.sum(x, axis=-1), lambda v: np.sum(v, axis=-1)),
    "sum1": (lambda x: B.sum(x, axis=-2), lambda v: np.sum(v, axis=-2)),
    "sum": (B.sum, np.sum),
    "diag": (B.diag_extract, lambda v: np.diagonal(v, axis1=-2, axis2=-1)),
    "take": (lambda x: B.take(x, [0], axis=-2), lambda v: v[..., [0], :]),
    "eye": (B.eye, lambda v: np.zeros(v.shape[-2:], v.dtype)),  # Without a batch.
    "zeros": (B.zeros, np.zeros_like),
    "ones": (B.ones, np.ones_like),
    "trace": (B.trace, lambda v: np.trace(v, axis1=-2, axis2=-1)),
    "cast4": (lambda x: B.cast(np.float32, x), lambda v: v.astype(np.float32)),
    "cast8": (lambda x: B.cast(np.float64, x), lambda v: v.astype(np.float64)),
}


def _result(c):
    c.setup(exps=False)
    c.dtype_policy = c.pick("f8", "f4", "mixed", "f4", "i8")
    n = c.dim(False)
    rows, cols = (n, n) if c.chance(2) else (n, c.dim(False))
    how = c.int(0, 2)
    a = gen.matrix(c, rows, cols, ops.ALL[:-1])
    if how == 0:
        return {"xs": [a], "op": c.pick(*UN), "dims": [c.int(-3, 3)]}
    op = c.pick(*BIN)
    if op == "mm":
        b = gen.matrix(c, cols, c.dim(False), ops.ALL)
    elif op == "kron":
        b = gen.matrix(c, c.dim(False), c.dim(False), ops.ALL[:-1])
    else:
        b = gen.matrix(c, rows, cols, ops.ALL)
    return {"xs": [a, b], "op": op, "dims": [c.int(-3, 3)], "then": c.pick(None, None, *UN)}


def _run_result(case, t):
    xs, op = case["xs"], case["op"]
    what = f"{op} of " + ", ".join(specs.describe(s) for s in xs)
    objs = [ops.make(t, s) for s in xs]
    if any(specs.kind(s) == "num" for s in xs[:1]):
        return t.trivial()
    dense = [to_np(x) for x in objs]
    f, g = UN[op] if len(xs) == 1 else BIN[op]
    if op == "eye" and dense[0].shape[-1] != dense[0].shape[-2]:
        return t.trivial()
    t.tag(f"result:{op}")
    try:
        with t.sut(what):
            res = f(*objs)
    except Exception:
        if op in ("mul", "mm") and all(s["k"] == "kron" for s in xs):
            return t.trivial()
        raise
    if op == "kron":
        want = specs.kron_np(*dense)
    else:
        want = g(*dense)
    then = case.get("then")
    if then and not (then == "eye" and want.shape[-1] != want.shape[-2]):
        f, g = UN[then]
        what = f"{then} of {what}"
        with t.sut(what):
            res = f(res)
        want = g(want)
    _check_result(t, res, want, what, case["dims"], specs_exact(xs), specs_loose(xs))


def specs_exact(xs):
    """Do all values have one and the same data type? Python numbers have none in NumPy,
    and the data type of zero matrices does not take part in promotion."""
    ds = set().union(*[specs.dtypes_in(s) for s in xs])
    return len(ds) == 1 and not ds & {"pyint", "pyfloat"}


def specs_loose(xs):
    """Are there Python numbers or zero matrices? Zeros absorb other data types."""
    ds = set().union(*[specs.dtypes_in(s) for s in xs])
    return bool(ds & {"pyint", "pyfloat"}) or '"zero"' in json.dumps(xs)


def _check_result(t, res, want, what, dims, exact, loose):
    if isinstance(res, matrix.AbstractMatrix):
        dtype = metadata(t, res, want.shape, dims, what, text=False)
        with t.sut(what):
            d = B.dense(res)
        if exact or not loose:
            t.require(
                d.dtype == _np_dtype(dtype), lambda: f"{what}: dtype is {dtype}, dense dtype is {d.dtype}"
            )
    else:
        dtype = B.dtype(res)
        shape = tuple(B.shape(res))
        t.require(shape == want.shape, lambda: f"{what}: shape is {shape}, expected {want.shape}")
    if exact:
        t.require(_np_dtype(dtype) == want.dtype, lambda: f"{what}: dtype is {dtype}, expected {want.dtype}")


# Broadcasted shapes -------------------------------------------------------------------


def _shapes(c):
    c.setup(batches=gen.BATCHES + [(2,), (2, 3), (3,)])
    rows, cols = ops.pair_shapes(c, big=False)
    n = c.int(1, 4)
    xs = []
    for _ in range(n):
        r, k = c.pick((rows, cols), (rows, cols), (1, cols), (rows, 1), (1, 1))
        if c.chance(8):
            r = rows + c.int(0, 1)
        xs.append(gen.matrix(c, r, k, ["dense", "zero", "const", "diag", "lr", "kron", "num"], depth=0))
    if c.chance(6):
        # A batch that does not match.
        xs.append(gen.matrix(c, rows, cols, ["zero"], depth=0))
        xs[-1]["shape"] = [c.int(2, 4)] + xs[-1]["shape"][-2:]
    return {"xs": xs}


def _np_broadcast(shapes):
    try:
        return np.broadcast_shapes(*shapes)
    except ValueError:
        return None


def _run_shapes(case, t):
    xs = case["xs"]
    objs = [ops.make(t, s) for s in xs]
    shapes = [specs.shape_of(s) for s in xs]
    if len(xs) == 1:
        t.trivial()
    for name, cut in [
        ("shape_broadcast", lambda q: q),
        ("shape_batch_broadcast", lambda q: q[:-2]),
        ("shape_matrix_broadcast", lambda q: q[-2:]),
    ]:
        want = _np_broadcast([cut(q) for q in shapes])
        what = f"{name} of shapes {shapes}"
        t.tag(f"{name}:{'ok' if want is not None else 'no'}")
        try:
            got = getattr(B, name)(*objs)
        except RuntimeError as e:
            got = None
            t.require(want is None, lambda: f"{what}: raised {e}")
            continue
        t.require(want is not None, lambda: f"{what}: gave {got}, but these do not broadcast")
        t.require(tuple(got) == tuple(want), lambda: f"{what}: gave {got}, expected {want}")


def _pure(c):
    n = c.int(1, 4)
    full = [c.int(1, 4) for _ in range(c.int(0, 4))]
    shapes = []
    for _ in range(n):
        s = [1 if c.chance(3) else d for d in full]
        how = c.int(0, 7)
        if how <= 3 and s:
            s = s[c.int(0, len(s)) :]
        elif how == 4 and s:
            s[c.int(0, len(s) - 1)] = c.int(1, 5)
        shapes.append(s)
    return {"shapes": shapes}


def _run_pure(case, t):
    import importlib

    ms = importlib.import_module("matrix.shape")

    shapes = [tuple(s) for s in case["shapes"]]
    want = _np_broadcast(shapes)
    same_rank = len({len(s) for s in shapes}) == 1
    if len(shapes) == 1:
        t.trivial()
    t.tag(f"pure:{want is not None}:{same_rank}")

    def call(f, *a):
        try:
            return tuple(f(*a))
        except RuntimeError:
            return None

    got = call(ms.expand_and_broadcast, *shapes)
    t.require(got == want, lambda: f"expand_and_broadcast of {shapes}: {got}, expected {want}")
    got = call(ms.broadcast, *shapes)
    w = want if same_rank else None
    t.require(got == w, lambda: f"broadcast of {shapes}: {got}, expected {w}")
    if len(shapes) == 2:
        got = ms.compatible(*shapes)
        t.require(got == (want is not None), lambda: f"compatible of {shapes}: {got}")
        try:
            ms.assert_compatible(*shapes)
            ok = True
        except AssertionError:
            ok = False
        t.require(ok == (want is not None), lambda: f"assert_compatible of {shapes}: {ok}")


def describe(case):
    if "shapes" in case:
        return f"{case['f']}: {case['shapes']}"
    xs = case.get("xs") or [case["x"]]
    return f"{case['f']}: {case.get('op', '')} {case.get('then') or ''} " + ", ".join(specs.describe(s) for s in xs)


FAMILIES = {
    "meta": (5, _gen, _run),
    "result": (6, _result, _run_result),
    "shapes": (2, _shapes, _run_shapes),
    "pure": (2, _pure, _run_pure),
}
