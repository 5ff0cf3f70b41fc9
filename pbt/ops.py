"""Operands, references for operations, and helpers that all properties share."""

import numpy as np

from . import gen, specs
from .boot import B, matrix
from .specs import Ref

ALL = ["zero", "dense", "diag", "const", "lt", "ut", "lr", "wb", "kron", "num"]


def warm_flags(c):
    """Which caches of an operand to fill before the operation under test."""
    return c.pick(0, 0, 0, 1, 2, 3)


def warm(x, flags):
    """Fill the `dense` cache of a matrix. This must not change anything."""
    if flags & 1 and isinstance(x, matrix.AbstractMatrix):
        B.dense(x)
    return x


def make(t, s, flags=0, **kw):
    with t.sut(f"constructing {specs.describe(s)}"):
        x = warm(specs.build(s, **(kw or {"memo": t.memo})), flags)
    if flags & 2 and isinstance(x, matrix.AbstractMatrix):
        try:
            # Other checks decide whether these work.
            if isinstance(x, matrix.Woodbury):
                B.schur(x)
            if is_pd(s):
                B.cholesky(x)
        except Exception:
            pass
    return x


def is_pd(s):
    """Is a matrix surely positive definite?"""
    v = specs.ref(s).val
    if v.dtype.kind not in "fi" or v.shape[-1] != v.shape[-2] or not np.all(np.isfinite(v)) or not np.array_equal(v, np.swapaxes(v, -1, -2)):
        return False
    e = np.linalg.eigvalsh(v)
    return bool(np.all(e[..., 0] > 1e-3 * e[..., -1]) and np.all(e[..., 0] > 1e-6))


# Reference arithmetic -----------------------------------------------------------------


def r_add(a, b):
    return Ref(a.val + b.val, a.mag + b.mag)


def r_neg(a):
    return Ref(-a.val, a.mag)


def r_sub(a, b):
    return Ref(a.val - b.val, a.mag + b.mag)


def r_mul(a, b):
    return Ref(a.val * b.val, a.mag * b.mag)


def r_div(a, b):
    # Assumes that `b` is computed accurately.
    return Ref(a.val / b.val, a.mag / np.abs(b.val) * (b.mag / np.abs(b.val)))


def r_mm(a, b):
    return Ref(specs.matmul_np(a.val, b.val), specs.matmul_np(a.mag, b.mag))


def r_t(a):
    return Ref(np.swapaxes(a.val, -1, -2), np.swapaxes(a.mag, -1, -2))


def r_map(f, *rs):
    """Apply a selection or a sum to values and magnitudes alike."""
    return Ref(f(*[r.val for r in rs]), f(*[r.mag for r in rs]))


# Shapes of pairs ----------------------------------------------------------------------


def pair_shapes(c, big=True):
    """Shape of a pair of equally shaped matrices: square half of the time."""
    n = c.dim(big)
    return (n, n) if c.chance(2) else (n, c.dim(big))


def small_operand(c, rows, cols):
    """A number, vector, `Dense`, `Constant`, or `Zero` whose matrix shape broadcasts to
    the given one."""
    how = c.int(0, 7)
    r, k = c.pick((1, 1), (rows, 1), (1, cols))
    if how == 0:
        return {"k": "py", "v": c.pick(2, 0, 1, -1, 0.5, -2.5, 0.0)}
    if how == 1:
        return c.leaf((), ())
    if how == 2:
        # Numeric vectors are column vectors.
        return c.leaf((), (rows,))
    if how == 3:
        return c.leaf(c.sub_batch(), (r, k))
    if how == 4:
        return gen.matrix(c, r, k, kind="dense")
    if how == 5:
        return gen.matrix(c, r, k, kind="zero")
    return gen.matrix(c, r, k, kind="const")


def kinds_tag(*ss):
    return "+".join(specs.kind(s) for s in ss)


def batch_tag(*refs):
    bs = [r.val.shape[:-2] for r in refs]
    if all(b == () for b in bs):
        return "batch:none"
    if len(set(bs)) == 1:
        return "batch:same"
    return "batch:broadcast"


# Positive (semi-)definite matrices that are the result of other operations ------------

PD_KINDS = ["dense", "diag", "wb", "kron", "num"]


def pd_matrix(c, n, kinds=PD_KINDS, depth=2):
    return gen.matrix(c, n, n, kinds, prop="pd", depth=depth)


def psd_matrix(c, n, kinds=("lr", "const", "zero", "dense", "diag", "wb", "kron")):
    """A matrix that is positive semi-definite, possibly singular."""
    kind = c.pick(*kinds)
    if kind == "zero":
        return gen.matrix(c, n, n, kind="zero")
    return gen.matrix(c, n, n, prop="pd", kind=kind)


def derive(c, n, steps_max=3):
    """Steps that turn a positive-definite matrix into another one."""
    steps = []
    for _ in range(c.int(0, steps_max)):
        how = c.int(0, 8)
        if how == 0:
            steps.append(["scale", c.pick(2, 0.5, 3.0), c.chance(2)])
        elif how == 1:
            steps.append(["div", c.pick(2, 0.5, 4.0)])
        elif how in (2, 3):
            steps.append(["add", psd_matrix(c, n), c.chance(2)])
        elif how == 4:
            steps.append(["T"])
        elif how == 5:
            steps.append(["neg2"])
        elif how == 6:
            steps.append(["mul", gen.matrix(c, n, n, prop="pd", kind=c.pick("const", "diag", "dense"))])
        elif how == 7:
            steps.append(["addc", c.pick(1, 0.5, 2.0)])
        else:
            steps.append(["congr", gen.matrix(c, n, n, prop="inv", kind=c.pick("diag", "dense", "diag"))])
    return steps


def apply_steps(x, r, steps):
    for s in steps:
        how = s[0]
        if how == "scale":
            x = x * s[1] if s[2] else s[1] * x
            r = Ref(r.val * s[1], r.mag * s[1])
        elif how == "div":
            x = x / s[1]
            r = Ref(r.val / s[1], r.mag / s[1])
        elif how == "add":
            y = specs.build(s[1])
            x = y + x if s[2] else x + y
            r = r_add(r, specs.ref(s[1]))
        elif how == "addc":
            x = x + s[1]
            r = Ref(r.val + s[1], r.mag + s[1])
        elif how == "T":
            x, r = B.transpose(x), r_t(r)
        elif how == "neg2":
            x = -(-x)
        elif how == "mul":
            x = x * specs.build(s[1])
            r = r_mul(r, specs.ref(s[1]))
        elif how == "congr":
            y, q = specs.build(s[1]), specs.ref(s[1])
            x = B.mm(y, x, y, tr_c=True)
            r = r_mm(r_mm(q, r), r_t(q))
        else:
            raise ValueError(how)
    return x, r


def describe_steps(steps):
    return ", ".join(
        " ".join(specs.describe(q) if isinstance(q, dict) else str(q) for q in s) for s in steps
    )


def cond(v):
    """Largest condition number over the batch."""
    if v.size == 0:
        return 1.0
    with np.errstate(all="ignore"):
        k = np.linalg.cond(v)
    return float(np.max(np.where(np.isfinite(k), k, np.inf)))
