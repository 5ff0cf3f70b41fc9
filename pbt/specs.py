"""Matrix specifications.

A *spec* is a JSON value that describes one matrix. `build` turns it into the object
under test, using only public constructors of `matrix`; `ref` turns it into the dense
array that it denotes, using only NumPy. The two never share code beyond decoding the
numbers, so `ref` is an independent oracle for what the object denotes.
"""

import numpy as np

from .boot import B, matrix

DTYPES = {
    "f8": np.float64,
    "f4": np.float32,
    "i8": np.int64,
}

_Z = np.array([((b + 1) // 2) * (1 if b % 2 else -1) for b in range(256)], dtype=float)


class Ref:
    """Dense value with a magnitude bound.

    Attributes:
        val: the exact dense array (float64).
        mag: entrywise bound on the magnitude of the terms that make up `val`. It
            scales the tolerance, so a result that is a difference of large terms is
            not held to the size of the difference.
    """

    __slots__ = ("val", "mag")

    def __init__(self, val, mag=None):
        self.val = np.asarray(val, dtype=np.float64)
        self.mag = np.abs(self.val) if mag is None else np.asarray(mag, np.float64)


# Leaves -------------------------------------------------------------------------------


def leaf_values(s):
    """Decode an array leaf to float64 values (before any casting)."""
    shape = tuple(s["shape"])
    n = int(np.prod(shape, dtype=int))
    raw = np.frombuffer(bytes.fromhex(s["hex"]), dtype=np.uint8)
    assert raw.size == n, "Corrupt leaf."
    z = _Z[raw].reshape(shape)
    mode = s.get("mode", "gen")
    dt = s.get("dtype", "f8")
    if mode == "gen":
        v = z / 16
    elif mode == "coarse":
        v = np.sign(z) * (np.abs(z) % 3)
    elif mode == "pos":  # Positive, bounded away from zero.
        v = 0.5 + np.abs(z) / 32
    elif mode == "nz":  # Non-zero, either sign, bounded away from zero.
        v = np.where(z < 0, -1.0, 1.0) * (0.5 + np.abs(z) / 32)
    elif mode == "pd":  # Positive-definite matrix, well conditioned.
        k = shape[-1]
        m = z / 64
        v = m @ np.swapaxes(m, -1, -2) / max(k, 1) + np.eye(k) * (0.5 + np.abs(z[..., :1, :1]) / 64)
        v = np.round(v * 1024) / 1024
        v = (v + np.swapaxes(v, -1, -2)) / 2
    elif mode == "inv":  # Non-symmetric, well conditioned: diagonally dominant.
        k = shape[-1]
        m = z / (64 * max(k, 1))
        d = np.where(z < 0, -1.0, 1.0) * (3.0 + np.abs(z) / 64)
        v = np.where(np.eye(k, dtype=bool), d, m)
    elif mode == "tri":  # General entries, diagonal bounded away from zero.
        k = shape[-1]
        v = np.where(
            np.eye(k, dtype=bool), np.where(z < 0, -1.0, 1.0) * (1 + np.abs(z) / 64), z / 64
        )
    elif mode == "trip":  # Like `tri`, but with a positive diagonal.
        k = shape[-1]
        v = np.where(np.eye(k, dtype=bool), 1 + np.abs(z) / 64, z / 64)
    elif mode == "nonneg":
        v = np.abs(z) / 16
    else:
        raise ValueError(f"Unknown mode {mode!r}.")
    if dt == "i8":
        v = np.round(v * (4 if mode in ("gen", "nonneg", "nz") else 1))
    else:
        v = v * 10.0 ** s.get("exp", 0)
    if dt == "f4":
        v = v.astype(np.float32).astype(np.float64)
    for i in s.get("nan", []):
        v = v.copy()
        v.reshape(-1)[i % v.size] = np.nan
    if s.get("tri") == "l":
        v = np.tril(v)
    elif s.get("tri") == "u":
        v = np.triu(v)
    return v


def cols_values(s):
    """Decode a `cols` leaf: a selection of columns of a pool that several specs of
    one case share, with optional perturbation of some entries in some batch
    element."""
    pool = leaf_values(s["pool"])
    v = pool[..., s["idx"]].copy()
    for j, sc in enumerate(s.get("scale", [])):
        v[..., j] *= sc
    t = s.get("tweak")
    if t is not None:  # Change one column in one batch element only.
        flat = v.reshape((-1,) + v.shape[-2:])
        flat[t["b"] % flat.shape[0], :, t["j"] % v.shape[-1]] += t["d"] * (
            1 + np.arange(v.shape[-2])
        )
        v = flat.reshape(v.shape)
    return v


def leaf_array(s):
    """The NumPy array that is handed to the code under test."""
    v = cols_values(s) if s["k"] == "cols" else leaf_values(s)
    src = s["pool"] if s["k"] == "cols" else s
    v = v.astype(DTYPES[src.get("dtype", "f8")])
    return v


# Real objects -------------------------------------------------------------------------


def build(s, to=None, reg=None, memo=None):
    """Build the object that a spec describes.

    Args:
        s (dict): Spec.
        to (function, optional): Applied to every leaf array, e.g. to move it to JAX.
        reg (list, optional): Collects every leaf array that is handed out.
        memo (dict, optional): If given, then equal specs become one and the same object.
    """
    if memo is not None:
        key = repr(s)
        if key not in memo:
            memo[key] = _build(s, to, reg, memo)
        return memo[key]
    return _build(s, to, reg, None)


def _build(s, to, reg, memo):
    to = to or (lambda x: x)

    def leaf(q):
        x = to(leaf_array(q))
        if reg is not None:
            reg.append(x)
        return x

    def go(q):
        return build(q, to, reg, memo)

    k = s["k"]
    if k in ("arr", "cols"):
        return leaf(s)
    if k == "py":
        return s["v"]
    if k == "zero":
        return matrix.Zero(DTYPES[s.get("dtype", "f8")], *s["shape"])
    if k == "dense":
        return matrix.Dense(go(s["mat"]))
    if k == "diag":
        return matrix.Diagonal(go(s["diag"]))
    if k == "const":
        return matrix.Constant(go(s["const"]), *s["shape"])
    if k == "lt":
        return matrix.LowerTriangular(go(s["mat"]))
    if k == "ut":
        return matrix.UpperTriangular(go(s["mat"]))
    if k == "lr":
        left = go(s["left"])
        kw = {}
        if s.get("right") == "left":
            kw["right"] = left
        elif s.get("right") is not None:
            kw["right"] = go(s["right"])
        if s.get("middle") is not None:
            kw["middle"] = go(s["middle"])
        return matrix.LowRank(left, **kw)
    if k == "wb":
        return matrix.Woodbury(go(s["diag"]), go(s["lr"]))
    if k == "kron":
        return matrix.Kronecker(go(s["left"]), go(s["right"]))
    if k == "tb":
        blocks, kw = [(go(b), rep) for b, rep in s["blocks"]], {"axis": s["axis"]}
        # There are three ways to make these.
        if len(blocks) > 1 and all(rep == 1 for _, rep in blocks):
            return matrix.TiledBlocks(*(b for b, _ in blocks), **kw)
        if len(blocks) == 1 and blocks[0][1] > 1:
            return matrix.TiledBlocks(*blocks[0], **({} if s["axis"] == -2 else kw))
        return matrix.TiledBlocks(*blocks, **kw)
    raise ValueError(f"Unknown kind {k!r}.")


# Reference ----------------------------------------------------------------------------


def _t(x):
    return np.swapaxes(x, -1, -2)


def _diag(v):
    return np.where(np.eye(v.shape[-1], dtype=bool), v[..., :, None], 0.0)


def kron_np(a, b):
    batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    out = a[..., :, None, :, None] * b[..., None, :, None, :]
    return out.reshape(
        batch + (a.shape[-2] * b.shape[-2], a.shape[-1] * b.shape[-1])
    )


def matmul_np(a, b):
    # Not `np.matmul`: keep the order of summation independent of the code under test.
    return np.einsum("...ij,...jk->...ik", a, b)


def uprank(v):
    """Ranks 0 and 1 become 1x1 matrices and column vectors."""
    if v.ndim == 0:
        return v[None, None]
    if v.ndim == 1:
        return v[:, None]
    return v


def ref(s):
    """The dense value that a spec denotes. Numerics are taken to be matrices."""
    k = s["k"]
    if k in ("arr", "cols"):
        return Ref(uprank(leaf_array(s).astype(np.float64)))
    if k == "py":
        return Ref(uprank(np.array(float(s["v"]))))
    if k == "zero":
        return Ref(np.zeros(tuple(s["shape"])))
    if k == "dense":
        return ref(s["mat"])
    if k == "diag":
        if s["diag"]["k"] == "arr":
            return Ref(_diag(leaf_array(s["diag"]).astype(np.float64)))
        r = ref(s["diag"])  # Diagonal of another matrix.
        return Ref(
            _diag(np.diagonal(r.val, axis1=-2, axis2=-1)),
            _diag(np.diagonal(r.mag, axis1=-2, axis2=-1)),
        )
    if k == "const":
        c = (
            np.array(float(s["const"]["v"]))
            if s["const"]["k"] == "py"
            else leaf_array(s["const"]).astype(np.float64)
        )
        rows, cols = s["shape"][-2:]
        batch = np.broadcast_shapes(c.shape, tuple(s["shape"][:-2]))
        return Ref(np.broadcast_to(c[..., None, None], batch + (rows, cols)).copy())
    if k == "lt":
        return ref(s["mat"])
    if k == "ut":
        return ref(s["mat"])
    if k == "lr":
        l = ref(s["left"])
        r = l if s.get("right") in (None, "left") else ref(s["right"])
        if s.get("middle") is None:
            m = Ref(np.eye(l.val.shape[-1]))
        else:
            m = ref(s["middle"])
        return Ref(
            matmul_np(matmul_np(l.val, m.val), _t(r.val)),
            matmul_np(matmul_np(l.mag, m.mag), _t(r.mag)),
        )
    if k == "wb":
        d, l = ref(s["diag"]), ref(s["lr"])
        return Ref(d.val + l.val, d.mag + l.mag)
    if k == "kron":
        a, b = ref(s["left"]), ref(s["right"])
        return Ref(kron_np(a.val, b.val), kron_np(a.mag, b.mag))
    if k == "tb":
        rs = [(ref(b), rep) for b, rep in s["blocks"]]
        rank = max(r.val.ndim for r, _ in rs)
        axis = s["axis"] if s["axis"] < 0 else s["axis"] - rank
        out = []
        for attr in ("val", "mag"):
            xs = []
            for r, rep in rs:
                x = getattr(r, attr)
                x = x.reshape((1,) * (rank - x.ndim) + x.shape)
                xs.append((x, rep))
            target = list(
                np.broadcast_shapes(
                    *[tuple(1 if i == axis + rank else d for i, d in enumerate(x.shape)) for x, _ in xs]
                )
            )
            ys = []
            for x, rep in xs:
                t = list(target)
                t[axis] = x.shape[axis]
                x = np.broadcast_to(x, t)
                ys.extend([x] * rep)
            out.append(np.concatenate(ys, axis=axis))
        return Ref(*out)
    raise ValueError(f"Unknown kind {k!r}.")


def shape_of(s):
    return ref(s).val.shape


def kind(s):
    return "num" if s["k"] in ("arr", "cols", "py") else s["k"]


def dtypes_in(s):
    """All data types that occur in a spec."""
    out = set()

    def go(q):
        if isinstance(q, dict):
            if q.get("k") in ("arr", "zero"):
                out.add(q.get("dtype", "f8"))
            elif q.get("k") == "py":
                out.add("pyint" if isinstance(q["v"], int) else "pyfloat")
            for v in q.values():
                go(v)
        elif isinstance(q, list):
            for v in q:
                go(v)

    go(s)
    return out


def describe(s):
    """Short description of a spec for statistics and samples."""
    k = s["k"]
    if k in ("arr", "cols"):
        return f"num{list(shape_of_leaf(s))}"
    if k == "py":
        return f"py({s['v']})"
    if k in ("dense", "diag", "lt", "ut"):
        q = s.get("mat", s.get("diag"))
        return f"{k}({describe(q)})"
    if k == "zero":
        return f"zero{s['shape']}"
    if k == "const":
        return f"const({describe(s['const'])},{s['shape']})"
    if k == "lr":
        r = s.get("right")
        r = r if isinstance(r, str) or r is None else describe(r)
        m = None if s.get("middle") is None else describe(s["middle"])
        return f"lr({describe(s['left'])},right={r},middle={m})"
    if k == "wb":
        return f"wb({describe(s['diag'])},{describe(s['lr'])})"
    if k == "kron":
        return f"kron({describe(s['left'])},{describe(s['right'])})"
    if k == "tb":
        return (
            "tb(" + ",".join(f"{describe(b)}x{rep}" for b, rep in s["blocks"]) + f",axis={s['axis']})"
        )
    return k


def shape_of_leaf(s):
    if s["k"] == "cols":
        return tuple(s["pool"]["shape"][:-1]) + (len(s["idx"]),)
    return tuple(s["shape"])
