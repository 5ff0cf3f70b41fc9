"""C22: computations with Gaussians whose covariances are structured."""

import numpy as np

from .. import compare, gen, ops, specs
from ..boot import B, matrix
from ..specs import Ref, matmul_np
from .c09 import _worst_cond

ID = "C22"
N_QUICK = 20000
RULE = (
    "Gaussians with positive-definite covariances of all types that allow it, also as sums, congruences, and scalings of such, and means and observations of any type: "
    "log-densities with and without missing values, entropies, divergences, Wasserstein distances, conditioning on observations (all at once or one half after the other), "
    "regressions on features with the noise on top of a low-rank covariance, and filters of 1 to 3 steps, all computed with the operations of the library and "
    "compared with the dense formulas. Non-trivial: condition numbers below 1e4 throughout, and a covariance that is structured."
)
KINDS = ["dense", "diag", "wb", "wb", "kron"]
TOL = (1e-6, 1e-6)
MAX = 1e4
LOG_2PI = float(np.log(2 * np.pi))


def check(*args, **kw):
    """All inputs are of the order of one, and so are all errors."""
    compare.check(*args, atol=1e-8, **kw)


def _t(v):
    return np.swapaxes(v, -1, -2)


def _mm(*vs):
    out = vs[0]
    for v in vs[1:]:
        out = matmul_np(out, v)
    return out


class _Skip(Exception):
    """Badly conditioned, which is not what this is about."""


def _inv(v):
    if not ops.cond(v) < MAX:
        raise _Skip
    return np.linalg.inv(v)


def _cov(c, n, steps=2):
    return {"x": gen.matrix(c, n, n, KINDS, prop="pd", depth=2), "steps": ops.derive(c, n, steps) if c.chance(2) else [], "warm": ops.warm_flags(c)}


def _build_cov(t, s, what):
    r = specs.ref(s["x"])
    if not _worst_cond(s["x"]) < MAX:
        raise _Skip
    x = ops.make(t, s["x"], s["warm"])
    with t.sut(what + " (preparing)"):
        x, r = ops.apply_steps(x, r, s["steps"])
    if not ops.cond(r.val) < MAX or not np.max(r.mag) < 1e6:
        raise _Skip
    return x, r.val


def _desc(s):
    return specs.describe(s["x"]) + (f" after {ops.describe_steps(s['steps'])}" if s["steps"] else "")


def _mean(c, n):
    kind = c.pick("num", "num", "dense", "zero", "const", "py", "vector")
    if kind == "py":
        return {"k": "py", "v": c.pick(0, 1, 0.5)}
    if kind == "vector":
        return c.leaf((), (n,))
    return gen.matrix(c, n, 1, kind=kind)


def _scalar(t, res, want, mag, what):
    check(t, res, Ref(want, np.abs(want) + mag), what, tol=(1e-7, 0), matrix_axes=0, is_matrix=False)


# Densities ----------------------------------------------------------------------------


def _gen_density(c):
    c.setup(exps=False, dtypes=False)
    n = c.dim()
    fn = c.pick("logpdf", "logpdf", "missing", "entropy")
    if fn == "missing":
        c.batch = ()
    case = {"fn": fn, "cov": _cov(c, n, 2), "mean": _mean(c, n)}
    k = 1 if fn == "missing" or c.chance(2) else c.int(1, 4)
    case["y"] = c.leaf(c.sub_batch(), (n, k))
    if fn == "missing":
        case["mask"] = [not c.chance(3) for _ in range(n)]
        case["mask"][c.int(0, n - 1)] = True
    return case


def _logpdf(x, m, y):
    n = B.shape_matrix(x, 0)
    return -(B.logdet(x)[..., None] + n * LOG_2PI + B.iqf_diag(x, B.subtract(y, m))) / 2


def _run_density(case, t):
    fn = case["fn"]
    what = f"{fn} of {_desc(case['cov'])} with mean {specs.describe(case['mean'])}"
    x, v = _build_cov(t, case["cov"], what)
    y = ops.make(t, case["y"])
    m = ops.make(t, case["mean"])
    if not isinstance(x, matrix.AbstractMatrix):
        raise _Skip
    if case["mean"]["k"] != "py":
        # Sums of only numeric values are not up to this code.
        m = B.uprank(m)
    t.tag(f"{fn}:{type(x).__name__}:{specs.kind(case['mean'])}")
    ry, rm = specs.ref(case["y"]).val, specs.ref(case["mean"]).val
    if fn == "entropy":
        with t.sut(what):
            res = (B.logdet(x) + B.shape_matrix(x, 0) * (LOG_2PI + 1)) / 2
        want = (np.linalg.slogdet(v)[1] + v.shape[-1] * (LOG_2PI + 1)) / 2
        return _scalar(t, res, want, 2.0 * v.shape[-1], what)
    if fn == "missing":
        mask = np.array(case["mask"])
        what += f" for {case['mask']}"
        rm = np.broadcast_to(rm, (v.shape[-1], 1))
        with t.sut(what):
            m = m if case["mean"]["k"] == "py" else B.take(B.uprank(m), mask)
            x, y = B.submatrix(x, mask), B.take(y, mask)
        v, ry, rm = v[mask][:, mask], ry[mask], rm[mask]
    with t.sut(what):
        res = _logpdf(x, m, y)
    d = ry - rm
    quad = np.einsum("...ik,...ij,...jk->...k", d, _inv(v), d)
    mag = np.einsum("...ik,...ij,...jk->...k", np.abs(ry) + np.abs(rm), np.abs(_inv(v)), np.abs(ry) + np.abs(rm))
    want = -(np.linalg.slogdet(v)[1][..., None] + v.shape[-1] * LOG_2PI + quad) / 2
    if np.ndim(res) == want.ndim - 1 and want.shape[-1] == 1:
        want, mag = want[..., 0], mag[..., 0]
    check(t, res, Ref(want, np.abs(want) + mag + v.shape[-1]), what, tol=(1e-7, 0), matrix_axes=0, is_matrix=False)


# Divergences --------------------------------------------------------------------------


def _gen_div(c):
    c.setup(exps=False, dtypes=False)
    n = c.dim()
    fn = c.pick("kl", "kl", "w2")
    return {"fn": fn, "covs": [_cov(c, n, 2), _cov(c, n, 2)], "means": [_mean(c, n), _mean(c, n)]}


def _run_div(case, t):
    fn = case["fn"]
    what = f"{fn} of {_desc(case['covs'][0])} and {_desc(case['covs'][1])}"
    (a, va), (b, vb) = [_build_cov(t, s, what) for s in case["covs"]]
    ma, mb = [ops.make(t, s) for s in case["means"]]
    ra, rb = [specs.ref(s).val for s in case["means"]]
    n = va.shape[-1]
    t.tag(f"{fn}:{type(a).__name__}:{type(b).__name__}")
    if fn == "kl":
        if not isinstance(ma, matrix.AbstractMatrix) and not isinstance(mb, matrix.AbstractMatrix):
            # Sums of only numeric values are not up to this code.
            ma = matrix.Dense(B.uprank(ma)) if np.ndim(ma) else matrix.Constant(ma, n, 1)
        with t.sut(what):
            res = (B.iqf_diag(b, mb - ma)[..., 0] + B.ratio(a, b) + B.logdet(b) - B.logdet(a) - n) / 2
        i = _inv(vb)
        d = np.broadcast_to(rb - ra, np.broadcast_shapes((rb - ra).shape, (n, 1)))
        m = np.broadcast_to(np.abs(rb) + np.abs(ra), d.shape)
        want = np.einsum("...ik,...ij,...jk->...", d, i, d)
        want = (want + np.einsum("...ij,...ji->...", i, va) + np.linalg.slogdet(vb)[1] - np.linalg.slogdet(va)[1] - n) / 2
        mag = np.einsum("...ik,...ij,...jk->...", m, np.abs(i), m) + np.einsum("...ij,...ji->...", np.abs(i), np.abs(va)) + n
        check(t, res, Ref(want, np.abs(want) + mag), what, tol=(1e-7, 0), matrix_axes=0, is_matrix=False)
        return
    if isinstance(a, matrix.Kronecker) and isinstance(b, matrix.Kronecker):
        # Products of Kronecker products need factors that fit.
        raise _Skip
    with t.sut(what):
        r = B.root(a)
        res = B.trace(a) + B.trace(b) - 2 * B.trace(B.root(B.matmul(r, b, r)))
    # The eigenvalues of the products are positive.
    e = np.linalg.eigvals(_mm(va, vb)).real
    if not np.all(e > 1e-8 * np.max(e, axis=-1, keepdims=True)):
        raise _Skip
    want = np.trace(va, axis1=-2, axis2=-1) + np.trace(vb, axis1=-2, axis2=-1)
    mag = np.abs(want)
    want = want - 2 * np.sum(np.sqrt(e), axis=-1)
    check(t, res, Ref(want, mag), what, tol=(1e-5, 0), matrix_axes=0, is_matrix=False)


# Conditioning -------------------------------------------------------------------------


def _gen_cond(c):
    c.setup(exps=False, dtypes=False)
    n, k = c.dim(), c.dim(False)
    if c.chance(3):
        k = n
    case = {
        "fn": c.pick("post", "post", "diag"),
        "cov": _cov(c, n, 1),
        "noise": c.pick(None, "number", "diag"),
        "noisev": gen.diagonal(c, n, "pos"),
        "cross": gen.matrix(c, n, k, ops.ALL),
        "prior": gen.matrix(c, k, k, ["dense", "diag", "wb", "kron", "lr", "const"], prop="pd"),
        "y": c.leaf(c.sub_batch(), (n, 1)),
        "form": c.pick("iqf", "solve", "inv"),
    }
    if case["form"] == "inv" and case["cross"]["k"] == "kron":
        # Products of Kronecker products need factors that fit.
        case["form"] = "iqf"
    return case


def _run_cond(case, t):
    fn = case["fn"]
    what = f"{fn} given {_desc(case['cov'])} with noise {case['noise']} by {case['form']}, cross-covariance {specs.describe(case['cross'])}, prior {specs.describe(case['prior'])}"
    x, v = _build_cov(t, case["cov"], what)
    if case["noise"] == "number":
        with t.sut(what):
            x = x + 0.5 * B.eye(x)
        v = v + 0.5 * np.eye(v.shape[-1])
    elif case["noise"] == "diag":
        with t.sut(what):
            x = x + ops.make(t, case["noisev"])
        v = v + specs.ref(case["noisev"]).val
    cross, prior, y = [ops.make(t, case[q]) for q in ("cross", "prior", "y")]
    rc, rp, ry = [specs.ref(case[q]).val for q in ("cross", "prior", "y")]
    if case["cross"]["k"] == "zero":
        # Zero matrices have too small a batch (a finding of C09).
        b = rc.shape[:-2]
        if np.broadcast_shapes(b, v.shape[:-2], ry.shape[:-2]) != b:
            raise _Skip
    if not isinstance(x, matrix.AbstractMatrix):
        raise _Skip
    t.tag(f"{fn}:{type(x).__name__}:{specs.kind(case['cross'])}:{case['form']}")
    i = _inv(v)
    amp = np.abs(i)
    with t.sut(what):
        if case["form"] == "iqf":
            mean = B.iqf(x, cross, y)
            red = B.iqf_diag(x, cross) if fn == "diag" else B.iqf(x, cross)
        else:
            if case["form"] == "solve":
                sol, soly = B.solve(x, cross), B.solve(x, y)
            else:
                xi = B.pd_inv(x)
                sol, soly = B.matmul(xi, cross), B.matmul(xi, y)
            if not isinstance(cross, matrix.AbstractMatrix):
                # Products of only numeric values are not up to this code.
                cross = matrix.Dense(cross)
            mean = B.matmul(cross, soly, tr_a=True)
            red = B.matmul_diag(cross, sol, tr_a=True) if fn == "diag" else B.matmul(cross, sol, tr_a=True)
        if fn == "diag":
            if not isinstance(prior, matrix.AbstractMatrix):
                prior = matrix.Dense(prior)
            post = B.diag(prior) - red
        else:
            post = prior - red
    want = _mm(_t(rc), i, ry)
    mag = _mm(_t(np.abs(rc)), amp, np.abs(ry))
    check(t, mean, Ref(want, mag), what + ": mean", tol=TOL)
    want = rp - _mm(_t(rc), i, rc)
    mag = np.abs(rp) + _mm(_t(np.abs(rc)), amp, np.abs(rc))
    axes = 2
    if fn == "diag":
        want, mag = [np.diagonal(q, axis1=-2, axis2=-1) for q in (want, mag)]
        axes = 1
    check(t, post, Ref(want, mag), what + ": variance", tol=TOL, matrix_axes=axes)


# Regression on features ---------------------------------------------------------------


def _gen_reg(c):
    c.setup(exps=False, dtypes=False)
    n, k = c.dim(), c.int(1, 4)
    return {
        "phi": gen.factor(c, n, k, pool=False),
        "w": gen.matrix(c, k, k, ["dense", "diag"], prop="pd"),
        "noise": gen.diagonal(c, n, "pos"),
        "y": c.leaf(c.sub_batch(), (n, 1)),
        "scale": c.pick(1, 1, 2.0, 0.5),
    }


def _run_reg(case, t):
    what = f"regression on {specs.describe(case['phi'])} with weights {specs.describe(case['w'])} and noise {specs.describe(case['noise'])}"
    phi, w, noise, y = [ops.make(t, case[q]) for q in ("phi", "w", "noise", "y")]
    rphi, rw, rn, ry = [specs.ref(case[q]).val for q in ("phi", "w", "noise", "y")]
    s = case["scale"]
    t.tag(f"regression:{specs.kind(case['phi'])}:{specs.kind(case['w'])}")
    with t.sut(what):
        x = s * matrix.LowRank(phi, middle=w) + noise
        n = B.shape_matrix(x, 0)
        lml = -(B.logdet(x) + n * LOG_2PI + B.iqf_diag(x, y)[..., 0]) / 2
        # Posterior over weights, in the space of the functions.
        pw = matrix.Dense(phi) if not isinstance(phi, matrix.AbstractMatrix) else phi
        cross = s * B.matmul(pw, w)
        mean = B.iqf(x, cross, y)
        cov = s * w - B.iqf(x, cross)
        fitted = B.matmul(x - noise, B.solve(x, y))
    t.require(type(x) is matrix.Woodbury, lambda: f"{what}: the covariance is a {type(x).__name__}")
    rw = s * rw
    v = _mm(rphi, rw, _t(rphi)) + rn
    # In the space of the weights.
    d = np.diagonal(rn, axis1=-2, axis2=-1)[..., None]
    prec = _inv(rw) + _mm(_t(rphi), rphi / d)
    i = _inv(prec)
    _inv(v)
    wm = _mm(i, _t(rphi), ry / d)
    logdet = np.sum(np.log(d[..., 0]), axis=-1) + np.linalg.slogdet(prec)[1] + np.linalg.slogdet(rw)[1]
    quad = (_mm(_t(ry), ry / d) - _mm(_t(ry / d), rphi, wm))[..., 0, 0]
    qmag = _mm(_t(ry), ry / d)[..., 0, 0]
    check(t, lml, Ref(-(logdet + n * LOG_2PI + quad) / 2, np.abs(logdet) + n + qmag), what + ": evidence", tol=(1e-6, 0), matrix_axes=0)
    amp = np.max(np.abs(rw)) * (1 + np.max(np.abs(rphi)) ** 2 * np.max(np.abs(rw)) * n)
    batch = np.broadcast_shapes(v.shape[:-2], ry.shape[:-2])
    wm = np.broadcast_to(wm, batch + wm.shape[-2:])
    check(t, mean, Ref(wm, np.abs(wm) + 1), what + ": weights", tol=(1e-6, 1e-6))
    check(t, cov, Ref(np.broadcast_to(i, v.shape[:-2] + i.shape[-2:]), np.abs(i) + amp), what + ": covariance of the weights", tol=(1e-7, 1e-7))
    fit = _mm(rphi, wm)
    check(t, fitted, Ref(fit, np.abs(fit) + 1), what + ": fit", tol=(1e-6, 1e-6))


# Filters ------------------------------------------------------------------------------


def _gen_filter(c):
    c.setup(exps=False, dtypes=False)
    n, k = c.int(1, 6), c.int(1, 3)
    if c.chance(3):
        k = n
    return {
        "p": gen.matrix(c, n, n, KINDS, prop="pd"),
        "m": c.leaf(c.sub_batch(), (n, 1)),
        "a": gen.matrix(c, n, n, ["dense", "diag", "diag", "wb"], prop="inv"),
        "q": gen.matrix(c, n, n, KINDS + ["lr", "const", "zero"], prop="pd", kind=c.pick("dense", "diag", "wb", "kron", "lr", "const", "zero")),
        "h": gen.matrix(c, k, n, ["dense", "diag", "dense", "kron"]),
        "r": gen.matrix(c, k, k, ["dense", "diag", "wb"], prop="pd"),
        "dense": c.chance(2),
        "ys": [c.leaf(c.sub_batch(), (k, 1)) for _ in range(c.int(1, 3))],
    }


def _pd_parts(x):
    """Is a Woodbury matrix the sum of a positive-definite diagonal matrix and a positive-definite low-rank matrix? Functions
    for positive-definite matrices need that."""
    if not isinstance(x, matrix.Woodbury):
        return True
    m = np.asarray(B.dense(x.lr.middle))
    if m.shape[-1] != m.shape[-2] or not np.allclose(m, _t(m), rtol=1e-10, atol=1e-12):
        return False
    left, right = np.asarray(B.dense(x.lr.left)), np.asarray(B.dense(x.lr.right))
    if left.shape[-1] != right.shape[-1] or not np.allclose(*np.broadcast_arrays(left, right), rtol=1e-10, atol=1e-12):
        return False
    return bool(np.all(np.asarray(B.dense(x.diag.diag)) > 1e-3)) and bool(np.all(np.linalg.eigvalsh(m) > 1e-3)) and ops.cond(m) < MAX


def _run_filter(case, t):
    what = "filter with " + ", ".join(f"{q}={specs.describe(case[q])}" for q in "paqhr") + f" for {len(case['ys'])} steps"
    p, m, a, q, h, r = [ops.make(t, case[z]) for z in "pmaqhr"]
    vp, vm, va, vq, vh, vr = [specs.ref(case[z]).val for z in "pmaqhr"]
    t.tag("filter:" + ":".join(case[z]["k"] for z in "paqhr"))
    for j, ys in enumerate(case["ys"]):
        y, vy = ops.make(t, ys), specs.ref(ys).val
        with t.sut(f"{what}: step {j}"):
            m = B.matmul(a, m)
            p = B.matmul(a, p, a, tr_c=True) + q
            s = B.matmul(h, p, h, tr_c=True) + r
            hp = B.matmul(h, p)
        if not _pd_parts(s):
            raise _Skip
        with t.sut(f"{what}: update {j}"):
            # Updates.
            m = m + B.iqf(s, hp, y - B.matmul(h, m))
            p = p - B.iqf(s, hp)
            if case["dense"]:
                p = matrix.Dense(B.dense(p))
        vm = _mm(va, vm)
        vp = _mm(va, vp, _t(va)) + vq
        vs = _mm(vh, vp, _t(vh)) + vr
        vhp = _mm(vh, vp)
        i = _inv(vs)
        big = np.max(np.abs(vp), initial=1.0)
        if not big < 1e3:
            raise _Skip
        d = vy - _mm(vh, vm)
        mag = np.abs(vm) + _mm(_t(np.abs(vhp)), np.abs(i), np.abs(vy) + _mm(np.abs(vh), np.abs(vm)))
        vm = vm + _mm(_t(vhp), i, d)
        pmag = np.abs(vp) + _mm(_t(np.abs(vhp)), np.abs(i), np.abs(vhp))
        vp = vp - _mm(_t(vhp), i, vhp)
        check(t, m, Ref(vm, mag), f"{what}: mean after step {j}", tol=TOL)
        check(t, p, Ref(vp, pmag), f"{what}: covariance after step {j}", tol=TOL)


def _wrap(run):
    def go(case, t):
        try:
            run(case, t)
        except _Skip:
            t.tag("ill-conditioned")
            t.trivial()

    return go


def describe(case):
    out = {}
    for k, v in case.items():
        if isinstance(v, dict) and "k" in v:
            out[k] = specs.describe(v)
        elif isinstance(v, dict):
            out[k] = _desc(v)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            out[k] = [specs.describe(q) if "k" in q else _desc(q) for q in v]
        else:
            out[k] = v
    return out


FAMILIES = {
    "density": (3, _gen_density, _wrap(_run_density)),
    "divergence": (2, _gen_div, _wrap(_run_div)),
    "conditioning": (3, _gen_cond, _wrap(_run_cond)),
    "regression": (2, _gen_reg, _wrap(_run_reg)),
    "filter": (2, _gen_filter, _wrap(_run_filter)),
}
