"""C10: quadratic forms, ratios, log-determinants, and Schur complements."""

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import check, to_np
from ..specs import Ref, matmul_np
from .c09 import MAX_COND, TOL, _ok, _prec, _wb_cond, _worst_cond

ID = "C10"
N_QUICK = 28000
RULE = (
    "A well-conditioned positive-definite matrix (dense, diagonal, Woodbury, nested Kronecker, numeric), "
    "possibly transformed by other operations that keep it positive definite; `logdet`, `iqf` and "
    "`iqf_diag` with one or two other matrices of any type, `ratio` with a positive semi-definite matrix of "
    "any type, `schur` and `pd_schur`; triangular `logdet`; batch shapes broadcast. Non-trivial: condition "
    "numbers below 1e5."
)


def _pd(c, n, steps=True):
    return {
        "x": gen.matrix(c, n, n, ["dense", "diag", "wb", "wb", "kron", "num"], prop="pd", depth=2),
        "steps": ops.derive(c, n, 2) if steps and c.chance(3) else [],
        "warm": ops.warm_flags(c),
    }


def _gen_logdet(c):
    c.setup(exps=False)
    n = c.dim()
    case = _pd(c, n)
    if c.chance(6):
        case["x"] = gen.matrix(c, n, n, kind=c.pick("lt", "ut"), prop="pd")
        case["steps"] = []
    return case


def _prep(case, t, what):
    r = specs.ref(case["x"])
    x = ops.make(t, case["x"], case["warm"])
    with t.sut(what + " (preparing)"):
        return ops.apply_steps(x, r, case["steps"])


def _desc(case):
    return specs.describe(case["x"]) + (f" after {ops.describe_steps(case['steps'])}" if case["steps"] else "")


def _run_logdet(case, t):
    what = f"logdet of {_desc(case)}"
    x, r = _prep(case, t, what)
    prec = _prec(case)
    if not isinstance(x, matrix.AbstractMatrix) or not _ok(t, case, r, prec):
        return t.trivial()
    t.tag(f"logdet:{type(x).__name__}", f"steps:{len(case['steps'])}")
    with t.sut(what):
        res = B.logdet(x)
    ref = np.linalg.slogdet(r.val)[1]
    tol = (1e-7, 0) if prec == "f8" else (1e-2, 0)
    # The mass of the log-eigenvalues sets the scale.
    mag = np.abs(ref) + r.val.shape[-1]
    check(t, res, Ref(ref, mag), what, prec, tol, matrix_axes=0, is_matrix=False)


def _gen_iqf(c):
    c.setup(exps=False)
    n = c.dim()
    case = _pd(c, n)
    case["fn"] = c.pick("iqf", "iqf_diag")
    k = n if c.chance(2) else c.dim(False)
    b = gen.matrix(c, n, k, ops.ALL)
    how = c.int(0, 2)
    if how == 0:
        case["bs"] = [b]
    elif how == 1:
        case["bs"] = [b, "same"]
    else:
        case["bs"] = [b, gen.matrix(c, n, k if case["fn"] == "iqf_diag" or c.chance(2) else c.dim(False), ops.ALL)]
    return case


def _zero_narrow(bs, r):
    """Does a zero matrix have fewer batch dimensions than what it is solved against?"""
    for s in bs:
        if s != "same" and s["k"] == "zero":
            b = specs.shape_of(s)[:-2]
            if np.broadcast_shapes(b, r.val.shape[:-2]) != b:
                return True
    return False


def _run_iqf(case, t):
    f, bs = case["fn"], case["bs"]
    what = f"{f}({_desc(case)}, " + ", ".join(b if b == "same" else specs.describe(b) for b in bs) + ")"
    x, r = _prep(case, t, what)
    prec = _prec(case)
    if any("f4" in specs.dtypes_in(b) for b in bs if b != "same"):
        prec = "f4"
    if not isinstance(x, matrix.AbstractMatrix) or not _ok(t, case, r, prec):
        return t.trivial()
    if _zero_narrow(bs, r):
        t.tag("zero-batch")
        return t.trivial()
    rb = specs.ref(bs[0])
    ob = ops.make(t, bs[0])
    args, rc = [ob], rb
    if len(bs) == 2:
        if bs[1] == "same":
            args.append(ob)
        else:
            rc = specs.ref(bs[1])
            args.append(ops.make(t, bs[1]))
    t.tag(f"{f}:{type(x).__name__}:{specs.kind(bs[0])}", f"{f}:{len(bs)}" + ("same" if "same" in bs else ""))
    with t.sut(what):
        res = getattr(B, f)(x, *args)
    inv = np.linalg.inv(r.val)

    def quad(v, i, w):
        return matmul_np(matmul_np(np.swapaxes(v, -1, -2), i), w)

    ref, mag = quad(rb.val, inv, rc.val), quad(rb.mag, np.abs(inv), rc.mag)
    axes = 2
    if f == "iqf_diag":
        ref, mag = (np.diagonal(v, axis1=-2, axis2=-1) for v in (ref, mag))
        axes = 1
    if not np.any(ref):
        t.trivial()
    check(t, res, Ref(ref, mag), what, prec, TOL[prec], matrix_axes=axes)


def _gen_ratio(c):
    c.setup(exps=False)
    n = c.dim()
    case = _pd(c, n, steps=False)
    case["a"] = ops.psd_matrix(c, n, ["dense", "diag", "wb", "kron", "lr", "const", "wb", "lr"])
    return case


def _run_ratio(case, t):
    a_s = case["a"]
    what = f"ratio({specs.describe(a_s)}, {_desc(case)})"
    x, r = _prep(case, t, what)
    prec = _prec(case)
    if "f4" in specs.dtypes_in(a_s):
        prec = "f4"
    if not isinstance(x, matrix.AbstractMatrix) or not _ok(t, case, r, prec):
        return t.trivial()
    if prec == "f4" and ops.cond(specs.ref(a_s).val) > 1e3 and a_s["k"] not in ("lr", "const"):
        return t.trivial()
    ra = specs.ref(a_s)
    a = ops.make(t, a_s)
    t.tag(f"ratio:{a_s['k']}/{specs.kind(case['x'])}", ops.batch_tag(ra, r))
    with t.sut(what):
        res = B.ratio(a, x)
    inv = np.linalg.inv(r.val)
    ref = np.einsum("...ij,...ji->...", inv, ra.val)
    mag = np.einsum("...ij,...ji->...", np.abs(inv), ra.mag)
    check(t, res, Ref(ref, mag), what, prec, TOL[prec], matrix_axes=0, is_matrix=False)


def _gen_schur(c):
    c.setup(exps=False)
    n = c.dim()
    pd = c.chance(2)
    return {
        "x": gen.matrix(c, n, n, kind="wb", prop="pd" if pd else "inv"),
        "steps": [],
        "order": c.pick(["schur"], ["schur", "schur"], *([["pd_schur"], ["pd_schur", "schur"], ["schur", "pd_schur"]] if pd else [])),
        "before": c.pick(None, None, "inv", "logdet" if pd else None, "pd_inv" if pd else None),
        "warm": ops.warm_flags(c),
    }


def _run_schur(case, t):
    s = case["x"]
    what = f"{case['order']} of {_desc(case)}"
    x, r = _prep(case, t, what)
    prec = _prec(case)
    if not _ok(t, case, r, prec):
        return t.trivial()
    t.tag(f"schur:{'+'.join(case['order'])}:{case['before']}")
    with t.sut(what):
        if case["before"]:
            getattr(B, case["before"])(x)
        outs = [getattr(B, f)(x) for f in case["order"]]
    d, l = specs.ref(s["diag"]).val, s["lr"]
    left = specs.ref(l["left"]).val
    right = left if l.get("right") in (None, "left") else specs.ref(l["right"]).val
    m = np.eye(left.shape[-1]) if l.get("middle") is None else specs.ref(l["middle"]).val
    di = 1 / np.diagonal(d, axis1=-2, axis2=-1)
    second = matmul_np(np.swapaxes(right * di[..., None], -1, -2), left)
    mi = np.linalg.inv(m)
    mag = np.abs(mi) + matmul_np(np.swapaxes(np.abs(right) * np.abs(di[..., None]), -1, -2), np.abs(left))
    for res in outs:
        check(t, res, Ref(mi + second, mag), what, prec, TOL[prec])


def describe(case):
    rest = {k: v for k, v in case.items() if k in ("fn", "order", "before")}
    more = [b if isinstance(b, str) else specs.describe(b) for b in case.get("bs", []) + ([case["a"]] if "a" in case else [])]
    return f"{case['f']} {rest}: {_desc(case)}" + (f" with {more}" if more else "")


FAMILIES = {
    "logdet": (3, _gen_logdet, _run_logdet),
    "iqf": (5, _gen_iqf, _run_iqf),
    "ratio": (3, _gen_ratio, _run_ratio),
    "schur": (1, _gen_schur, _run_schur),
}
