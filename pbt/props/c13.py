"""C13: matrices are values: no history of operations changes them or later results."""

import operator

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import check, to_np
from ..specs import Ref, matmul_np

ID = "C13"
N_QUICK = 10000
RULE = (
    "Histories of 3 to 14 operations over a pool that starts with 2 to 4 square matrices of all types (some positive "
    "definite, sharing arrays and parts) and grows by the results; operands are picked from the pool, the same one twice included. "
    "Every result is compared with the dense model, and at the end every matrix and every array that was handed in is "
    "compared again. Non-trivial: an operand is used that was used by an earlier operation."
)

# name -> (arity, needs positive-definite first operand, result is positive definite if the operands are)
OPS = {
    "add": (2, False, "all"),
    "sub": (2, False, None),
    "mul": (2, False, "all"),
    "mm": (2, False, None),
    "mm_t": (2, False, None),
    "mm_tr": (2, False, None),
    "neg": (1, False, "inv"),
    "T": (1, False, "all"),
    "scale": (1, False, "all"),
    "addc": (1, False, None),
    "divc": (1, False, "all"),
    "abs": (1, False, None),
    "dense": (1, False, None),
    "repr": (1, False, None),
    "sum": (1, False, None),
    "sum_ax": (1, False, None),
    "mean": (1, False, None),
    "trace": (1, False, None),
    "diag": (1, False, None),
    "diag_of_mm": (2, False, None),
    "take": (1, False, None),
    "getitem": (1, False, None),
    "submatrix": (1, False, None),
    "perm_rev": (1, False, "all"),
    "perm_rot": (1, False, "all"),
    "perm_swap": (1, False, "all"),
    "subchol_swap": (1, True, None),
    "subchol_tail": (1, True, None),
    "subchol_mask": (1, True, None),
    "subinv_swap": (1, True, None),
    "subinv_rev": (1, "inv", None),
    "reshape": (1, False, None),
    "block": (2, False, None),
    "block_diag": (2, False, None),
    "kron": (2, False, None),
    "concat": (2, False, None),
    "like": (1, False, None),
    "cast": (1, False, None),
    "inv": (1, "inv", "all"),
    "pd_inv": (1, True, "all"),
    "chol": (1, True, None),
    "root": (1, True, None),
    "logdet": (1, True, None),
    "solve": (2, "inv", None),
    "iqf": (3, True, None),
    "iqf_diag": (3, True, None),
    "ratio": (2, True, None),
    "schur": (1, "inv", None),
    "sample": (1, True, None),
}
NAMES = list(OPS)
PD_NAMES = [k for k in NAMES if OPS[k][1]]
PD_TYPES = ("Dense", "Diagonal", "Woodbury", "Kronecker")


def _gen(c, sizes=(1, 2, 3, 4, 4), batches=((), (), (), (2,), (3,), (2, 2), (2, 1))):
    c.setup(exps=False, dtypes=False, batches=batches)
    n = c.pick(*sizes)
    # What is known about every matrix: 2 for positive definite, 1 for invertible.
    pool, pd = [], []
    for _ in range(c.int(2, 4)):
        how = c.int(0, 5)
        if how <= 2:
            pool.append(gen.matrix(c, n, n, ["dense", "diag", "wb", "wb", "kron"], prop="pd"))
            pd.append(2)
        elif how == 3:
            pool.append(gen.matrix(c, n, n, ["dense", "wb", "wb", "wb", "kron"], prop="inv"))
            pd.append(1)
        else:
            pool.append(gen.matrix(c, n, n, ops.ALL[:-1]))
            pd.append(0)
    shared = None
    if c.chance(3):
        # A Woodbury matrix and its parts.
        w = [i for i, s in enumerate(pool) if s["k"] == "wb"]
        if w:
            shared = w[0]
            pd.extend([pd[w[0]], 0])
    steps = []
    for _ in range(c.int(3, 14)):
        best = max(pd)
        ok = [k for k in NAMES if OPS[k][1] and (best == 2 or (best == 1 and OPS[k][1] == "inv"))]
        name = c.pick(*ok) if ok and c.chance(2) else c.pick(*[k for k in NAMES if not OPS[k][1]])
        arity, needs, keeps = OPS[name]
        idx = []
        for k in range(arity):
            have = list(range(len(pd)))
            if k == 0 and needs:
                have = [i for i in have if pd[i] >= (1 if needs == "inv" else 2)]
            elif name == "ratio":
                have = [i for i in have if pd[i] == 2]
            # Prefer what came last or was used last.
            recent = [i for i in have if i == len(pd) - 1 or (steps and i in steps[-1][1:])]
            idx.append(c.pick(*recent) if recent and c.chance(2) else c.pick(*have))
        step = [name, *idx]
        steps.append(step)
        if name in MATRIX_RESULT:
            level = min(pd[i] for i in idx)
            pd.append(level if keeps == "all" else min(level, 1) if keeps == "inv" else 0)
    return {"pool": pool, "shared": shared, "steps": steps}


#: Choices of positions, in any order, given in different ways.
CHOICES = {
    "rev": lambda n: np.arange(n)[::-1],
    "rot": lambda n: [*range(1, n), 0],
    "swap": lambda n: [1, 0, *range(2, n - 1)] if n > 1 else [0],
    "tail": lambda n: tuple(range(n - 1, 0, -2)) or (0,),
    "mask": lambda n: [i != 1 for i in range(n)],
}


def _chosen(name, n):
    """The positions as they are given, and as integers."""
    if name == "perm_swap":
        sel = [1, 0, *range(2, n)] if n > 1 else [0]
    else:
        sel = CHOICES[name.split("_")[1]](n)
    ints = np.arange(n)[np.array(sel)]
    return sel, ints


#: Operations of which the result, a matrix of the same size, joins the pool.
MATRIX_RESULT = {"add", "sub", "mul", "mm", "mm_t", "mm_tr", "neg", "T", "scale", "addc", "divc", "abs", "inv", "pd_inv", "like", "cast", "perm_rev", "perm_rot", "perm_swap"}


def _np_t(v):
    return np.swapaxes(v, -1, -2)


def _inv_ref(r):
    v = np.linalg.inv(r.val)
    # Errors in the matrix are amplified by the condition number.
    ratio = max(1.0, float(r.mag.max() / np.abs(r.val).max()))
    top = np.abs(v).max(axis=(-2, -1), keepdims=True) * ops.cond(r.val) * 20 * ratio
    return Ref(v, np.broadcast_to(top, v.shape))


def _blow(m):
    """Magnitude bound that is the same for all entries of a matrix."""
    return np.broadcast_to(m.max(axis=(-2, -1), keepdims=True), m.shape)


def _apply(name, xs, rs):
    """Result and its reference. `None` for no reference."""
    x, r = xs[0], rs[0]
    n = r.val.shape[-1]
    if name == "add":
        return xs[0] + xs[1], ops.r_add(*rs)
    if name == "sub":
        return xs[0] - xs[1], ops.r_sub(*rs)
    if name == "mul":
        return xs[0] * xs[1], ops.r_mul(*rs)
    if name == "mm":
        return xs[0] @ xs[1], ops.r_mm(*rs)
    if name == "mm_t":
        return B.matmul(xs[0], xs[1], tr_b=True), ops.r_mm(rs[0], ops.r_t(rs[1]))
    if name == "mm_tr":
        return B.matmul(xs[0], xs[1], tr_a=True), ops.r_mm(ops.r_t(rs[0]), rs[1])
    if name == "neg":
        return -x, ops.r_neg(r)
    if name == "T":
        return x.T, ops.r_t(r)
    if name == "scale":
        return 2 * x, Ref(2 * r.val, 2 * r.mag)
    if name == "addc":
        return x + 1, Ref(r.val + 1, r.mag + 1)
    if name == "divc":
        return x / 2, Ref(r.val / 2, r.mag / 2)
    if name == "abs":
        return B.abs(x), Ref(np.abs(r.val), r.mag)
    if name == "dense":
        return B.dense(x), r
    if name == "repr":
        str(x), repr(x), x.shape, x.dtype
        return None, None
    if name == "sum":
        return B.sum(x), ops.r_map(np.sum, r)
    if name == "sum_ax":
        return B.sum(x, axis=-2), ops.r_map(lambda v: v.sum(axis=-2), r)
    if name == "mean":
        return B.mean(x), ops.r_map(np.mean, r)
    if name == "trace":
        return B.trace(x), ops.r_map(lambda v: np.trace(v, axis1=-2, axis2=-1), r)
    if name == "diag":
        return B.diag_extract(x), ops.r_map(lambda v: np.diagonal(v, axis1=-2, axis2=-1), r)
    if name == "diag_of_mm":
        q = ops.r_mm(*rs)
        return B.matmul_diag(*xs), ops.r_map(lambda v: np.diagonal(v, axis1=-2, axis2=-1), q)
    if name == "take":
        i = [n - 1, 0]
        return B.take(x, i, axis=-1), ops.r_map(lambda v: v[..., i], r)
    if name == "getitem":
        return x[..., 0, :], ops.r_map(lambda v: v[..., 0, :], r)
    if name == "submatrix":
        i = list(range(max(n - 1, 1)))
        return B.submatrix(x, i), ops.r_map(lambda v: v[..., i, :][..., i], r)
    if name.startswith(("perm_", "subchol_", "subinv_")):
        sel, i = _chosen(name, n)
        sub = ops.r_map(lambda v: v[..., i, :][..., i], r)
        if name.startswith("perm_") and isinstance(x, (matrix.LowerTriangular, matrix.UpperTriangular)):
            # A permutation of a triangular matrix is not triangular.
            x = matrix.Dense(x.mat)
        x = B.submatrix(x, sel)
        if name.startswith("perm_"):
            return x, sub
        if name.startswith("subinv_"):
            return (B.pd_inv(x) if name == "subinv_swap" else B.inv(x)), _inv_ref(sub)
        l = B.dense(B.cholesky(x))
        return B.matmul(l, l, tr_b=True), Ref(sub.val, _blow(sub.mag))
    if name == "reshape":
        return B.reshape(x, -1), ops.r_map(lambda v: v.reshape(-1), r)
    if name == "block":
        f = lambda a, b: np.concatenate([np.concatenate(np.broadcast_arrays(a, b), -1), np.concatenate(np.broadcast_arrays(b, a), -1)], -2)  # noqa
        return B.block([xs[0], xs[1]], [xs[1], xs[0]]), ops.r_map(f, *rs)
    if name == "block_diag":
        def f(a, b):
            a, b = np.broadcast_arrays(a, b)
            z = np.zeros_like(a)
            return np.concatenate([np.concatenate([a, z], -1), np.concatenate([z, b], -1)], -2)

        return B.block_diag(*xs), ops.r_map(f, *rs)
    if name == "kron":
        return B.kron(*xs), ops.r_map(specs.kron_np, *rs)
    if name == "concat":
        a, b = (np.broadcast_shapes(q.val.shape, rs[0].val.shape, rs[1].val.shape) for q in rs)
        if rs[0].val.shape != a or rs[1].val.shape != b:
            return None, None
        return B.concat(*xs, axis=-1), ops.r_map(lambda p, q: np.concatenate([p, q], -1), *rs)
    if name == "like":
        return B.ones(x), Ref(np.ones_like(r.val))
    if name == "cast":
        return B.cast(np.float64, x), r
    # Operations for positive-definite matrices.
    if name in ("inv", "pd_inv"):
        return getattr(B, name)(x), _inv_ref(r)
    if name == "chol":
        l = to_np(B.cholesky(x))
        return matmul_np(l, _np_t(l)), Ref(r.val, _blow(r.mag))
    if name == "root":
        l = to_np(B.root(x))
        return matmul_np(l, l), Ref(r.val, _blow(r.mag) * 100)
    if name == "logdet":
        v = np.linalg.slogdet(r.val)[1]
        return B.logdet(x), Ref(v, np.abs(v) + 100 * n)
    if name == "solve":
        i = _inv_ref(r)
        return B.solve(*xs), Ref(matmul_np(i.val, rs[1].val), matmul_np(_blow(i.mag), _blow(rs[1].mag)))
    if name in ("iqf", "iqf_diag"):
        i = _inv_ref(r)
        v = matmul_np(matmul_np(_np_t(rs[1].val), i.val), rs[2].val)
        m = matmul_np(matmul_np(_np_t(_blow(rs[1].mag)), _blow(i.mag)), _blow(rs[2].mag))
        if name == "iqf":
            return B.iqf(*xs), Ref(v, m)
        return B.iqf_diag(*xs), Ref(np.diagonal(v, axis1=-2, axis2=-1), np.diagonal(m, axis1=-2, axis2=-1))
    if name == "ratio":
        i = _inv_ref(r)
        v = np.einsum("...ij,...ji->...", i.val, rs[1].val)
        m = np.einsum("...ij,...ji->...", _blow(i.mag), _blow(rs[1].mag))
        return B.ratio(xs[1], xs[0]), Ref(v, m)
    if name == "schur":
        if isinstance(x, matrix.Woodbury):
            s = B.schur(x)
            return to_np(s) + 0 * to_np(B.pd_schur(x)), None
        return None, None
    if name == "sample":
        state = np.random.RandomState(0)
        B.sample(state, x, num=2)
        return None, None
    raise ValueError(name)


TOL = (1e-8, 1e-8)


def _run(case, t):
    reg = []
    objs = [specs_build(t, s, reg) for s in case["pool"]]
    refs = [specs.ref(s) for s in case["pool"]]
    if case["shared"] is not None:
        i = case["shared"]
        s = case["pool"][i]
        # A second matrix that shares its parts with the first, and the low-rank part.
        objs.append(matrix.Woodbury(objs[i].diag, objs[i].lr))
        refs.append(refs[i])
        objs.append(objs[i].lr)
        refs.append(specs.ref(s["lr"]))
    leaves = [(a, a.copy()) for a in reg]
    base = len(objs)
    desc = [specs.describe(s) for s in case["pool"]]
    used = set()
    log = []
    reused = False
    for step in case["steps"]:
        name, idx = step[0], step[1:]
        needs = OPS[name][1]
        if any(i >= len(objs) for i in idx):
            return t.trivial()
        xs, rs = [objs[i] for i in idx], [refs[i] for i in idx]
        skip = any(x is None for x in xs)
        if not skip and needs:
            r = rs[0]
            v, m = np.abs(r.val).max(), r.mag.max()
            if type(xs[0]).__name__ not in PD_TYPES or not ops.cond(r.val) < 1e4 or not m < 1e3 * v:
                skip = True
            elif not _parts_ok(xs[0], needs != "inv"):
                skip = True
        if not skip and any(q.mag.size and q.mag.max() > 1e12 for q in rs):
            skip = True
        if not skip and name in ("solve", "iqf", "iqf_diag") and any(isinstance(x, matrix.Zero) for x in xs[1:]):
            skip = True
        if not skip and any(q.val.shape[-2:] != refs[0].val.shape[-2:] for q in rs):
            skip = True
        if not skip and name in ("mul", "mm", "mm_t", "mm_tr", "diag_of_mm") and all(_has_kron(x) for x in xs):
            # Kronecker products of different factors are not composed.
            skip = True
        if not skip and len(xs) > 1 and int(np.prod([_rank(x) for x in xs])) > 60:
            # Ranks multiply, so they would grow exponentially.
            skip = True
        if skip:
            if name in MATRIX_RESULT:
                objs.append(None)
                refs.append(refs[0])
            continue
        text = f"{name}({', '.join('#%d' % i for i in idx)})"
        log.append(text)
        what = f"pool {desc}, history {'; '.join(log)}"
        if used & set(idx):
            reused = True
        used |= set(idx)
        t.tag(f"op:{name}:" + ",".join(type(x).__name__ for x in xs[:2]))
        with t.sut(what):
            res, ref = _apply(name, xs, rs)
        if res is not None and ref is not None:
            tol = (1e-7, 1e-7) if name in ("chol", "root") else TOL
            if ref.mag.size and np.isfinite(ref.mag).all():
                check(t, res, ref, what, tol=tol, matrix_axes=2 if ref.val.ndim >= 2 else 0, atol=1e-10 * bool(needs))
        if name in MATRIX_RESULT:
            objs.append(res if isinstance(res, matrix.AbstractMatrix) else None)
            refs.append(ref)
    if not reused:
        t.trivial()
    what = f"pool {desc}, after history {'; '.join(log)}"
    for k, (a, b) in enumerate(leaves):
        t.require(np.array_equal(a, b), lambda: f"{what}: array {k} that was handed in changed from {b.tolist()} to {a.tolist()}")
    for i, (x, r) in enumerate(zip(objs, refs)):
        if x is None or (i >= base and not (r.mag.max(initial=0) < 1e12)):
            continue
        check(t, x, r, f"{what}: matrix #{i}", tol=TOL)
        # Parts are used again: transposing does not use the dense version.
        with t.sut(what):
            y = x.T
        check(t, y, ops.r_t(r), f"{what}: transpose of matrix #{i}", tol=TOL)


def _rank(x):
    """Number of columns of the factors of a matrix, nested ones included."""
    if isinstance(x, matrix.LowRank):
        return B.shape(x.left, -1)
    if isinstance(x, matrix.Woodbury):
        return _rank(x.lr)
    if isinstance(x, matrix.Kronecker):
        return _rank(x.left) * _rank(x.right)
    return 1


def _has_kron(x):
    return isinstance(x, matrix.Kronecker)


def _parts_ok(x, pd):
    """The parts of Woodbury matrices must be well behaved, not only the sum."""
    if isinstance(x, matrix.Woodbury):
        d = np.abs(to_np(B.diag_extract(x.diag))) if not pd else to_np(B.diag_extract(x.diag))
        m = to_np(x.lr.middle)
        if m.shape[-1] != m.shape[-2] or not np.all(d > 1e-3):
            return False
        if not pd:
            return ops.cond(m) < 1e4
        if np.abs(m - np.swapaxes(m, -1, -2)).max() > 1e-9 * np.abs(m).max():
            return False
        ev = np.linalg.eigvalsh(m)
        return bool(np.all(ev > 1e-3 * max(1.0, ev.max())))
    if isinstance(x, matrix.Kronecker):
        return all(_factor_ok(p, pd) for p in (x.left, x.right))
    return True


def _factor_ok(p, pd):
    v = to_np(p)
    if v.shape[-1] != v.shape[-2] or type(p).__name__ not in PD_TYPES + ("ndarray",):
        return False
    if pd:
        ev = np.linalg.eigvalsh((v + _np_t(v)) / 2)
        if not np.all(ev > 1e-4 * max(1e-4, np.abs(ev).max())):
            return False
    elif not ops.cond(v) < 1e4:
        return False
    return not isinstance(p, matrix.AbstractMatrix) or _parts_ok(p, pd)


def specs_build(t, s, reg):
    with t.sut(f"constructing {specs.describe(s)}"):
        return specs.build(s, reg=reg)


def describe(case):
    return f"pool {[specs.describe(s) for s in case['pool']]}: " + "; ".join(f"{q[0]}{tuple(q[1:])}" for q in case["steps"])


FAMILIES = {"history": (1, _gen, _run)}
