"""C08: Cholesky decompositions and square roots."""

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import check, prec_of, to_np
from ..specs import Ref

ID = "C08"
N_QUICK = 26000
RULE = (
    "A positive (semi-)definite matrix of any type that supports it (zero, dense, diagonal, constant, "
    "low-rank, Woodbury, Kronecker; factors with different batch shapes), possibly transformed by up to "
    "three operations that keep it so (scaling, sums, transposition, element-wise and congruence "
    "products), and used for up to two other computations; then `cholesky` or `root`, twice. Non-trivial: not zero."
)

KINDS = ["dense", "diag", "wb", "kron", "lr", "const", "zero", "lr", "wb"]


def _gen(c):
    c.setup(exps=False, dtypes=False)
    n = c.dim()
    s = ops.psd_matrix(c, n, KINDS)
    uses = [c.pick(*USES) for _ in range(c.int(0, 2))]
    return {"x": s, "steps": ops.derive(c, n, 2 if c.chance(2) else 0), "fn": c.pick("cholesky", "cholesky", "root"), "warm": ops.warm_flags(c), "uses": uses}


def _use(x, use):
    """Use the matrix for something else. Other checks decide whether that works."""
    if use in ("inv", "pd_inv", "logdet") and not isinstance(x, (matrix.Dense, matrix.Diagonal, matrix.Woodbury, matrix.Kronecker)):
        return
    try:
        {
            "T": lambda: B.transpose(x),
            "TT": lambda: B.cholesky(B.transpose(x)),
            "neg": lambda: B.negative(x),
            "twice": lambda: x + x,
            "scale": lambda: 3.0 * x,
            "prod": lambda: x @ x,
            "cholesky": lambda: B.cholesky(x),
            "root": lambda: B.root(x),
            "pd_inv": lambda: B.pd_inv(x),
            "inv": lambda: B.inv(x),
            "logdet": lambda: B.logdet(x),
            "sample": lambda: B.sample(np.random.RandomState(0), x),
        }[use]()
    except Exception:
        pass


USES = ["T", "TT", "neg", "twice", "scale", "prod", "cholesky", "root", "pd_inv", "inv", "logdet", "sample"]


def _single(c):
    c.setup(exps=False, dtypes=False)
    c.dtype_policy = "f4"
    n = c.dim(False)
    s = ops.psd_matrix(c, n, ["diag", "const", "lr", "dense", "kron"])
    return {"x": s, "steps": [], "fn": c.pick("cholesky", "root"), "warm": ops.warm_flags(c)}


def _is_pd(s):
    """Is a Cholesky decomposition to be lower triangular?"""
    k = s["k"]
    if k == "kron":
        return _is_pd(s["left"]) and _is_pd(s["right"])
    return k in ("dense", "diag", "wb", "arr")


def _run(case, t):
    s, f = case["x"], case["fn"]
    r = specs.ref(s)
    x = ops.make(t, s, case["warm"])
    what = f"{f} of {specs.describe(s)}" + (f" after {ops.describe_steps(case['steps'])}" if case["steps"] else "")
    with t.sut(what + " (preparing)"):
        x, r = ops.apply_steps(x, r, case["steps"])
        if not isinstance(x, matrix.AbstractMatrix):
            return t.trivial()
        before = to_np(x).copy()
    prec = prec_of(specs.dtypes_in(s))
    t.tag(f"{f}:{type(x).__name__}", ops.batch_tag(r), f"steps:{len(case['steps'])}")
    if not np.any(r.val):
        t.trivial()
    for use in case.get("uses", []):
        _use(x, use)
    if case.get("uses"):
        what += f" after {', '.join(case['uses'])}"
    with t.sut(what):
        l = getattr(B, f)(x)
        l2 = getattr(B, f)(x)
        d = to_np(l)
        d2 = to_np(l2)
    t.require(isinstance(l, matrix.AbstractMatrix) or type(x) is matrix.LowRank, lambda: f"{what}: got a {type(l).__name__}")
    t.require(np.array_equal(d, d2), lambda: f"{what}: a second call gives another result")
    dt = np.swapaxes(d, -1, -2)
    # Decompositions add a tiny number to the diagonal.
    scale = float(np.max(r.mag)) if r.mag.size else 0.0
    if prec == "f4":
        tol = (1e-3, 1e-3)
    else:
        tol = (1e-7, 1e-7)
    if f == "cholesky":
        prod = Ref(r.val, r.mag)
        with t.sut(what):
            got = np.einsum("...ij,...kj->...ik", d, d)
        if case["steps"] == [] and _is_pd(s) and prec == "f8":
            t.require(
                not np.any(np.triu(d, 1)), lambda: f"{what}: the result is not lower triangular"
            )
            t.require(
                bool(np.all(np.diagonal(d, axis1=-2, axis2=-1) > 0)),
                lambda: f"{what}: the diagonal is not positive",
            )
        check(t, got, prod, what + ": L L'", prec, tol, atol=1e-10)
        if s["k"] in ("dense", "kron", "diag") and not case["steps"]:
            t.require(d.shape == r.val.shape, lambda: f"{what}: shape {d.shape}, expected {r.val.shape}")
        with t.sut(what + ": reported shape"):
            shape = tuple(B.shape(l))
        t.require(shape == d.shape, lambda: f"{what}: reported shape {shape}, dense shape {d.shape}")
    else:
        check(t, np.einsum("...ij,...jk->...ik", d, d), r, what + ": R R", prec, tol, atol=1e-10)
        check(t, dt, Ref(d, np.abs(d)), what + ": R'", prec, (1e-6, 1e-6) if prec == "f8" else (1e-2, 1e-2), atol=1e-6)
        ev = np.linalg.eigvalsh((d + dt) / 2)
        top = np.abs(ev).max(initial=0)
        t.require(
            bool(np.all(ev >= -(1e-5 if prec == "f8" else 1e-2) * (top + 1e-30))),
            lambda: f"{what}: the root has eigenvalue {ev.min()}",
        )
    with t.sut(what):
        after = to_np(x)
    t.require(np.array_equal(before, after), lambda: f"{what}: the matrix changed")


def describe(case):
    return f"{case['f']}: {case['fn']} of {specs.describe(case['x'])} [{ops.describe_steps(case['steps'])}]"


FAMILIES = {"any": (9, _gen, _run), "single": (1, _single, _run)}
