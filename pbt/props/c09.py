"""C09: inverses and solves."""

import warnings

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import check, prec_of, to_np
from ..specs import Ref, matmul_np

ID = "C09"
N_QUICK = 30000
RULE = (
    "A well-conditioned matrix (dense, diagonal, Woodbury with a general or a positive-definite low-rank "
    "part, nested Kronecker, or numeric; triangular for solves), possibly transformed by other operations "
    "that keep it positive definite, inverted with `inv` or `pd_inv` or solved against a right-hand side "
    "of any type with `solve`, `triangular_solve`, or `cholesky_solve`; batch shapes broadcast. "
    "Non-trivial: condition number of everything that is inverted below 1e5, and a right-hand side that "
    "is not zero."
)
MAX_COND = 1e5
TOL = {"f8": (1e-7, 1e-7), "f4": (2e-2, 2e-2)}


def _inv_of(v):
    return np.linalg.inv(v)


def _wb_cond(s):
    """Largest condition number of anything that the matrix inversion lemma inverts."""
    d, l = specs.ref(s["diag"]), s["lr"]
    left = specs.ref(l["left"]).val
    right = left if l.get("right") in (None, "left") else specs.ref(l["right"]).val
    rank = left.shape[-1]
    if right.shape[-1] != rank:
        return np.inf
    m = np.eye(rank) if l.get("middle") is None else specs.ref(l["middle"]).val
    k = ops.cond(m)
    if not np.isfinite(k) or k > MAX_COND:
        return np.inf
    di = 1 / np.diagonal(d.val, axis1=-2, axis2=-1)
    schur = np.linalg.inv(m) + matmul_np(np.swapaxes(right * di[..., None], -1, -2), left)
    return max(k, ops.cond(schur), ops.cond(d.val))


def _worst_cond(s):
    k = s["k"]
    if k == "kron":
        return max(_worst_cond(s["left"]), _worst_cond(s["right"]))
    out = ops.cond(specs.ref(s).val)
    if k == "wb":
        out = max(out, _wb_cond(s))
    return out


def _gen_inv(c):
    c.setup(exps=False)
    n = c.dim()
    kinds = ["dense", "diag", "wb", "wb", "kron", "kron"]
    if c.chance(2):
        return {
            "x": gen.matrix(c, n, n, kinds, prop="pd", depth=2),
            "steps": ops.derive(c, n) if c.chance(2) else [],
            "fn": c.pick("pd_inv", "pd_inv", "inv"),
            "warm": ops.warm_flags(c),
        }
    return {"x": gen.matrix(c, n, n, kinds, prop="inv", depth=2), "steps": [], "fn": "inv", "warm": ops.warm_flags(c)}


def _prepare(case, t, what):
    s = case["x"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    with t.sut(what + " (preparing)"):
        x, r = ops.apply_steps(x, r, case["steps"])
    return x, r


def _ok(t, case, r, prec):
    k = max(_worst_cond(case["x"]), ops.cond(r.val))
    limit = MAX_COND if prec == "f8" else 50
    if not k < limit or not np.max(r.mag, initial=1) < 1e8 * np.max(np.abs(r.val), initial=1e-300):
        t.trivial()
        t.tag("ill-conditioned")
        return False
    return True


def _prec(case):
    ds = specs.dtypes_in(case["x"]) | set().union(
        *[specs.dtypes_in(q) for s in case["steps"] for q in s if isinstance(q, dict)], set()
    )
    if "b" in case:
        ds = ds | specs.dtypes_in(case["b"])
    return "f4" if "f4" in ds else "f8"


def _run_inv(case, t):
    s, f = case["x"], case["fn"]
    what = f"{f} of {specs.describe(s)}" + (f" after {ops.describe_steps(case['steps'])}" if case["steps"] else "")
    x, r = _prepare(case, t, what)
    prec = _prec(case)
    if not _ok(t, case, r, prec):
        return
    t.tag(f"{f}:{type(x).__name__}", ops.batch_tag(r), f"steps:{len(case['steps'])}")
    with t.sut(what):
        res = getattr(B, f)(x)
    ref = _inv_of(r.val)
    mag = np.broadcast_to(np.abs(ref).max(axis=(-2, -1), keepdims=True), ref.shape)
    check(t, res, Ref(ref, mag), what, prec, TOL[prec], is_matrix=True if specs.kind(s) != "num" or case["steps"] else None)
    with t.sut(what + ": the matrix afterwards"):
        after = to_np(x)
    check(t, after, r, what + ": the matrix afterwards", prec)


def _gen_solve(c):
    c.setup(exps=False)
    n = c.dim()
    f = c.pick("solve", "solve", "triangular_solve", "cholesky_solve")
    steps = []
    if f == "solve":
        how = c.int(0, 3)
        if how == 0:
            a = gen.matrix(c, n, n, kind=c.pick("lt", "ut"), prop="inv")
        elif how == 1:
            a = gen.matrix(c, n, n, ["dense", "diag", "wb", "kron"], prop="inv", depth=2)
        else:
            a = gen.matrix(c, n, n, ["dense", "diag", "wb", "kron", "num"], prop="pd", depth=2)
            steps = ops.derive(c, n, 2) if c.chance(3) else []
    elif f == "triangular_solve":
        a = gen.matrix(c, n, n, kind=c.pick("lt", "ut"), prop="inv")
    else:
        a = gen.matrix(c, n, n, kind=c.pick("lt", "ut", "diag"), prop="inv")
    case = {"x": a, "steps": steps, "fn": f}
    if f == "cholesky_solve" and c.chance(3):
        # Kronecker products with aligned factors.
        p, q = c.int(1, 4), c.int(1, 4)
        ks = ["lt", "ut", "diag"]
        case["x"] = {"k": "kron", "left": gen.matrix(c, p, p, kind=c.pick(*ks), prop="inv"), "right": gen.matrix(c, q, q, kind=c.pick(*ks), prop="inv")}
        case["b"] = {
            "k": "kron",
            "left": gen.matrix(c, p, c.dim(False), kind="dense"),
            "right": gen.matrix(c, q, c.dim(False), kind="dense"),
        }
    else:
        m = n if c.chance(2) else c.dim(False)
        case["b"] = gen.matrix(c, n, m, ops.ALL if specs.kind(a) != "num" else ops.ALL[:-1])
        if specs.kind(a) != "num" and c.chance(10):
            case["b"] = c.leaf((), (n,))  # A column vector.
    if f == "triangular_solve":
        case["lower"] = c.pick(True, False)
    case["warm"] = ops.warm_flags(c)
    case["warm_b"] = ops.warm_flags(c)
    return case


def _run_solve(case, t):
    s, f, bs = case["x"], case["fn"], case["b"]
    what = f"{f}({specs.describe(s)}" + (f" after {ops.describe_steps(case['steps'])}" if case["steps"] else "") + f", {specs.describe(bs)})"
    x, r = _prepare(case, t, what)
    if not isinstance(x, matrix.AbstractMatrix) and specs.kind(bs) == "num":
        return t.trivial()
    prec = _prec(case)
    if f == "cholesky_solve":
        ra = Ref(matmul_np(r.val, np.swapaxes(r.val, -1, -2)))
    else:
        ra = r
    if not _ok(t, case, ra, prec):
        return
    rb = specs.ref(bs)
    if not case.get("raw") and bs["k"] == "zero" and np.broadcast_shapes(rb.val.shape[:-2], r.val.shape[:-2]) != rb.val.shape[:-2]:
        # Solving against zero returns the zero matrix as it is. See `known_findings.json`.
        t.tag("zero-batch")
        return t.trivial()
    b = ops.make(t, bs, case["warm_b"])
    t.tag(f"{f}:{type(x).__name__}\\{specs.kind(bs)}", ops.batch_tag(r, rb))
    with t.sut(what):
        if f == "triangular_solve":
            # The flag does not matter: the type of the matrix decides.
            res = B.triangular_solve(x, b, lower_a=case["lower"])
        else:
            res = getattr(B, f)(x, b)
    ref = matmul_np(_inv_of(ra.val), rb.val)
    mag = matmul_np(np.abs(_inv_of(ra.val)), rb.mag)
    if not np.any(rb.val):
        t.trivial()
    if mag.size and np.max(mag) > 0:
        top = mag.max(axis=(-2, -1), keepdims=True)
        mag = np.broadcast_to(top, mag.shape)
    check(t, res, Ref(ref, mag), what, prec, TOL[prec])
    with t.sut(what + ": the matrix afterwards"):
        after = to_np(x)
    check(t, after, r, what + ": the matrix afterwards", prec)


def describe(case):
    return f"{case['f']}: {case['fn']} of {specs.describe(case['x'])} [{ops.describe_steps(case['steps'])}]" + (
        f" , {specs.describe(case['b'])}" if "b" in case else ""
    )


FAMILIES = {"inv": (4, _gen_inv, _run_inv), "solve": (5, _gen_solve, _run_solve)}
