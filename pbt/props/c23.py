"""C23: derivatives and vectorisation by JAX."""


import numpy as np

from .. import gen, ops, specs
from .. import structure as S
from ..boot import B, matrix
from . import c13, c16, c22

ID = "C23"
#: The workers share a folder, which the run removes.
SCRATCH = True
N_QUICK = 1600
THOROUGH_FACTOR = 12
RULE = (
    "Single operations, histories of 2 to 7 operations (as in C13), and densities, divergences, and evidences of Gaussians (as in C22) as functions of all arrays that the matrices consist of. "
    "The arrays have generic values, constants sometimes special ones. The derivative in a random direction (forward), a random combination of the derivatives (reverse), both with and without recorded control flow, and the "
    "result at two points at once (vectorised) are compared with extrapolated finite differences, respectively with the results, of the same program with NumPy arrays. Non-trivial: the finite differences are accurate, and not "
    "all zero."
)


def _generic(a, k):
    """Generic values close to the given ones, and a direction."""
    rng = np.random.default_rng(k)
    u, v = [rng.uniform(-1, 1, a.shape) for _ in range(2)]
    u, v = u + 0.25 * np.sign(u), v + 0.25 * np.sign(v)
    if a.ndim >= 2 and a.shape[-1] == a.shape[-2] and np.array_equal(a, np.swapaxes(a, -1, -2)):
        # Keep it symmetric.
        u, v = [(q + np.swapaxes(q, -1, -2)) / 2 for q in (u, v)]
    if a.ndim == 0 and rng.integers(2) == 0:
        # Constants may be anything, as long as they are not zero.
        return np.asarray(rng.choice([1.0, 1.0, -1.0, 2.0])), v
    return a + 0.02 * u, v


class _Other(Exception):
    pass


def _flat(res):
    out = []
    for x in res:
        if x is None:
            continue
        x = B.dense(x) if isinstance(x, matrix.AbstractMatrix) else x
        out.append(x.reshape(-1))
    return out


def _types(res):
    return [type(x).__name__ if isinstance(x, matrix.AbstractMatrix) else None for x in res]


def _derivatives(t, what, f, arrays, case, scale=1.0):
    """Compare the derivatives of a function from a list of arrays to a list of results."""
    jax, jnp = c16._jax()
    if not arrays or any(a.dtype != np.float64 for a in arrays):
        return t.trivial()
    pairs = [_generic(a, case["salt"] + 100 * i) for i, a in enumerate(arrays)]
    xs, vs = [p[0] for p in pairs], [p[1] for p in pairs]

    first = []

    def at(h):
        with np.errstate(all="ignore"):
            res = f([x + h * v for x, v in zip(xs, vs)])
        first.append(_types(res))
        return np.concatenate([np.asarray(q, dtype=float) for q in _flat(res)] or [np.zeros(0)])

    try:
        y = at(0)
        h = 1e-3
        d1, d2, d3 = [(at(q) - at(-q)) / (2 * q) for q in (h / 2, h, 2 * h)]
    except Exception:
        # With NumPy, other checks look at this.
        t.tag("numpy fails")
        return t.trivial()
    if any(q != first[0] for q in first):
        t.tag("not smooth")
        return t.trivial()
    r1, r2 = (4 * d1 - d2) / 3, (4 * d2 - d3) / 3
    fd = (16 * r1 - r2) / 15
    bound = scale + np.abs(y).max(initial=0) + np.abs(fd).max(initial=0)
    err = np.abs(r1 - fd)
    if not np.isfinite(bound) or not np.all(err <= 1e-4 * bound) or bound > 1e8:
        t.tag("not smooth")
        return t.trivial()
    if not np.any(fd):
        t.trivial()
    tol = 1e-7 * bound + 2 * err
    cache = B.ControlFlowCache()

    def plain(*xs_):
        # Results may be integers, if they do not depend on the arrays.
        return jnp.concatenate([jnp.zeros(0), *_flat(f(list(xs_)))])

    def recorded(*xs_):
        with cache, B.lazy_shapes():
            return plain(*xs_)

    jx, jv = [jnp.asarray(x) for x in xs], [jnp.asarray(v) for v in vs]
    mode = case["mode"]
    g = plain if mode.endswith("plain") else recorded
    t.tag(mode)
    what = f"{what}: {mode}"
    with t.sut(f"{what}: with JAX"):
        if g is recorded:
            recorded(*jx)

    def same(got, want, tol, label):
        got = np.asarray(got)
        t.require(got.shape == want.shape, lambda: f"{what}: the shape of {label} is {got.shape}, with NumPy {want.shape}")
        bad = ~(np.abs(got - want) <= tol)
        t.require(not np.any(bad), lambda: f"{what}: {label}: {got[bad][:4].tolist()}, expected {want[bad][:4].tolist()}")

    if mode == "vectorised":
        ws = [_generic(a, case["salt"] + 100 * i + 50)[0] for i, a in enumerate(arrays)]
        try:
            res = f(ws)
            z = np.concatenate([np.asarray(q, dtype=float) for q in _flat(res)] or [np.zeros(0)])
        except Exception:
            return t.trivial()
        if _types(res) != first[0] or not np.all(np.isfinite(z)):
            return t.trivial()
        with t.sut(what):
            got = jax.vmap(g)(*[jnp.stack([jnp.asarray(x), jnp.asarray(w)]) for x, w in zip(xs, ws)])
        want = np.stack([y, z])
        return same(got, want, 1e-8 * (scale + np.abs(want).max(initial=0)), "the results")
    if mode.startswith("forward"):
        with t.sut(what):
            value, got = jax.jvp(g, tuple(jx), tuple(jv))
        same(value, y, 1e-8 * bound, "the result")
        return same(got, fd, tol, "the derivative")
    w = np.random.default_rng(case["salt"] + 7).uniform(0.25, 1, y.shape)
    with t.sut(what):
        value, back = jax.vjp(g, *jx)
        grads = back(jnp.asarray(w))
    same(value, y, 1e-8 * bound, "the result")
    for x, q in zip(xs, grads):
        t.require(np.shape(q) == x.shape, f"{what}: the shape of a gradient is {np.shape(q)}, expected {x.shape}")
        t.require(np.all(np.isfinite(np.asarray(q))), f"{what}: a gradient is {np.asarray(q).tolist()}")
    got = sum(np.sum(np.asarray(q) * v) for q, v in zip(grads, vs))
    same(got, np.asarray(np.sum(w * fd)), np.sum(w * tol) + 1e-7 * bound, "a combination of the derivatives")


MODES = ("forward", "forward, plain", "reverse", "reverse", "reverse, plain", "vectorised")


def _common(c, case):
    case["mode"] = c.pick(*MODES)
    case["salt"] = c.int(0, 255) * 1000003
    return case


def _arrays(ss):
    reg = []
    for s in ss:
        specs.build(s, reg=reg)
    return reg


# Single operations --------------------------------------------------------------------

#: Not differentiable, or only if some values are different.
SKIP = {"isnan", "cast", "root", "ones", "zeros", "eye"}


def _gen_op(c):
    case = (S.gen_un if c.chance(2) else S.gen_bin)(c16._few_sizes(c), False)
    case["twice"] = "xs" in case and c.chance(6)
    return _common(c, case)


def _run_op(case, t):
    op, arg = case["op"], case.get("arg")
    ss = case["xs"] if "xs" in case else [case["x"]]
    what = f"{op}({case.get('arg', case.get('tr'))}) of " + ", ".join(specs.describe(s) for s in ss)
    kinds = [S.kind_of(s) for s in ss]
    if op in SKIP:
        return t.trivial()
    if op in ("solve", "inv", "pdinv", "chol"):
        try:
            if not ops.cond(specs.ref(ss[0]).val) < 1e3 or not c16._parts_fine(ss[0]):
                return t.trivial()
        except np.linalg.LinAlgError:
            return t.trivial()
    if "xs" in case:
        if S.BIN[op].get(tuple(kinds)) == ".":
            return t.trivial()
        kw = {"tr_a": case["tr"][0], "tr_b": case["tr"][1]} if any(case["tr"]) else {}
        twice = case["twice"] and specs.ref(ss[0]).val.shape == specs.ref(ss[1]).val.shape and op in ("add", "sub", "mul", "mm")
        twice = twice and kinds[0] != "num" and not (op == "mm" and case["tr"][0] == case["tr"][1])
        if twice:
            ss = ss[:1] if op != "mm" else ss
            twice = op != "mm"
            what += " (twice)" if twice else ""

        def g(objs):
            a, b = (objs[0], objs[0]) if twice else objs
            return [S.F_BIN[op](a, b, **kw)]

    else:
        if S.UN[op, kinds[0]] == "." or (op == "takeb" and not arg):
            return t.trivial()

        def g(objs):
            return [S.apply_un(op, objs[0], arg)]

    def f(xs):
        it = iter(xs)
        return g([specs.build(s, to=lambda _: next(it)) for s in ss])

    t.tag(f"op:{op}:" + ":".join(kinds))
    scale = float(np.prod([1 + specs.ref(s).mag.max(initial=0) for s in ss]))
    _derivatives(t, what, f, _arrays(ss), case, scale)


# Histories ----------------------------------------------------------------------------

NOT = {"repr", "sample", "abs", "root", "cast"}


def _gen_history(c):
    case = c13._gen(c, sizes=(2, 3, 3), batches=((), (), (2,)))
    case["steps"] = [s for s in case["steps"] if s[0] not in NOT or s[0] in c13.MATRIX_RESULT][:6]
    if any(s[0] in NOT for s in case["steps"]):
        case["steps"] = [[("neg" if s[0] in NOT else s[0]), *s[1:]] for s in case["steps"]]
    return _common(c, case)


def _run_history(case, t):
    pool, arrays = c16._leaves(case)
    try:
        plan = c16._plan(case, arrays, pool)
    except Exception:
        t.tag("numpy fails")
        return t.trivial()
    if plan is None or not plan[0]:
        return t.trivial()
    base = len(case["pool"]) + (2 if case["shared"] is not None else 0)
    steps = c16._compact(case, plan[0], base)
    what = f"pool {[specs.describe(s) for s in case['pool']]}, history {'; '.join(n + str(tuple(i)) for n, i, *_ in steps)}"

    def f(xs):
        objs = c16._objects(case, xs)
        out = []
        for name, idx, rs, _ in steps:
            res = c16._sut(name, [objs[i] for i in idx], rs)
            if name in c13.MATRIX_RESULT:
                objs.append(res)
            out.append(res)
        return out

    for name, *_ in steps:
        t.tag(f"op:{name}")
    scale = max([1.0] + [float(s[3].mag.max(initial=0)) for s in steps if s[3] is not None])
    _derivatives(t, what, f, arrays, case, scale)


# Gaussians ----------------------------------------------------------------------------


def _gen_gauss(c):
    c.setup(exps=False, dtypes=False, batches=[(), (), (2,)])
    n = c.pick(2, 3)
    fn = c.pick("logpdf", "logpdf", "entropy", "kl", "evidence")
    case = {"fn": fn, "a": gen.matrix(c, n, n, c22.KINDS, prop="pd", depth=2)}
    steps = ops.derive(c, n, 2) if c.chance(2) else []
    case["steps"] = [s for s in steps if s[0] != "mul"]
    if fn == "kl":
        case["b"] = gen.matrix(c, n, n, c22.KINDS, prop="pd", depth=2)
        case["m"] = gen.matrix(c, n, 1, kind=c.pick("dense", "const"))
    elif fn == "logpdf":
        case["m"] = c22._mean(c, n)
        case["y"] = c.leaf(c.sub_batch(), (n, 1))
    elif fn == "evidence":
        case["a"] = gen.diagonal(c, n, "pos")
        case["steps"] = []
        k = c.pick(1, 2, 3)
        case["phi"] = gen.factor(c, n, k, pool=False)
        case["w"] = gen.matrix(c, k, k, ["dense", "diag"], prop="pd")
        case["y"] = c.leaf(c.sub_batch(), (n, 1))
    return _common(c, case)


NAMES = ("a", "b", "m", "y", "phi", "w")


def _run_gauss(case, t):
    fn = case["fn"]
    names = [q for q in NAMES if q in case]
    more = [q for s in case["steps"] for q in s[1:] if isinstance(q, dict)]
    ss = [case[q] for q in names] + more
    what = f"{fn} with " + ", ".join(f"{q}={specs.describe(case[q])}" for q in names)
    if case["steps"]:
        what += f", a after {ops.describe_steps(case['steps'])}"
    r = specs.ref(case["a"])
    try:
        if not c22._worst_cond(case["a"]) < 1e3 or not ("b" not in case or c22._worst_cond(case["b"]) < 1e3):
            return t.trivial()
        x, r = ops.apply_steps(specs.build(case["a"]), r, case["steps"])
    except Exception:
        return t.trivial()
    if not ops.cond(r.val) < 1e3 or not np.max(r.mag) < 1e3 or not c22._pd_parts(x):
        return t.trivial()
    if not isinstance(x, matrix.AbstractMatrix):
        return t.trivial()
    t.tag(f"{fn}:{type(x).__name__}")

    def f(xs):
        it = iter(xs)
        build = lambda s: specs.build(s, to=lambda _: next(it))  # noqa
        o = {q: build(case[q]) for q in names}
        a = o["a"]
        for s in case["steps"]:
            s = list(s)
            args = [build(q) if isinstance(q, dict) else q for q in s[1:]]
            a = _step(a, s[0], args)
        n = B.shape_matrix(a, 0)
        if fn == "logpdf":
            m = o["m"] if case["m"]["k"] == "py" else B.uprank(o["m"])
            return [c22._logpdf(a, m, o["y"])]
        if fn == "entropy":
            return [B.logdet(a)]
        if fn == "kl":
            return [B.iqf_diag(o["b"], o["m"])[..., 0] + B.ratio(a, o["b"]) + B.logdet(o["b"]) - B.logdet(a)]
        k = matrix.LowRank(o["phi"], middle=o["w"]) + a
        return [B.logdet(k), B.iqf_diag(k, o["y"]), B.iqf(k, matrix.Dense(B.dense(o["phi"])), o["y"]), B.solve(k, o["y"])]

    _derivatives(t, what, f, _arrays(ss), case, 10.0 * n_of(r))


def n_of(r):
    return float(r.val.shape[-1]) * float(1 + np.max(r.mag))


def _step(x, how, args):
    if how == "scale":
        return x * args[0] if args[1] else args[0] * x
    if how == "div":
        return x / args[0]
    if how == "add":
        return args[0] + x if args[1] else x + args[0]
    if how == "addc":
        return x + args[0]
    if how == "T":
        return B.transpose(x)
    if how == "neg2":
        return -(-x)
    if how == "congr":
        return B.mm(args[0], x, args[0], tr_c=True)
    raise ValueError(how)


def describe(case):
    if "pool" in case:
        return c13.describe({**case, "f": "history"})
    if "fn" in case:
        return {k: specs.describe(v) if isinstance(v, dict) and "k" in v else v for k, v in case.items() if k != "steps"}
    return S.describe(case)


FAMILIES = {"op": (3, _gen_op, _run_op), "history": (2, _gen_history, _run_history), "gaussian": (2, _gen_gauss, _run_gauss)}
