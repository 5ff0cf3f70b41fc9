"""C11: samples have exactly the prescribed covariance, and random states are threaded."""

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import to_np

ID = "C11"
N_QUICK = 8000
RULE = (
    "A positive (semi-)definite matrix of any type, with factors of different batch shapes, possibly "
    "transformed by other operations, and 1 to 3 samples. The samples are a linear map of the normal noise "
    "that is drawn, so noise with one unit entry at a time gives the exact joint covariance of all samples "
    "over all batch elements, which must be block-diagonal with copies of the matrix. Also: same seed, same "
    "samples; the global state advances; states of JAX are not reused. Non-trivial: covariance not zero."
)


class Probe(np.random.RandomState):
    """Random state that plays back zeros with one unit entry."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, hot=None):
        super().__init__(0)
        self.hot = hot
        self.shapes = []

    def _draw(self, shape):
        shape = tuple(int(d) for d in shape)
        out = np.zeros(shape)
        if self.hot is not None and self.hot[0] == len(self.shapes):
            out.reshape(-1)[self.hot[1]] = 1.0
        self.shapes.append(shape)
        return out

    def randn(self, *shape):
        return self._draw(shape)

    def standard_normal(self, size=()):
        return self._draw((size,) if isinstance(size, int) else size or ())

    def normal(self, loc=0.0, scale=1.0, size=()):
        return loc + scale * self._draw((size,) if isinstance(size, int) else size or ())


def _gen(c):
    c.setup(exps=False, dtypes=False, batches=[(), (), (2,), (3,), (2,), (2, 2), (2, 1), (1, 3)])
    n = c.int(1, 4)
    kinds = ["dense", "diag", "wb", "kron", "lr", "const", "zero", "lr", "wb", "wb"]
    s = ops.psd_matrix(c, n, kinds)
    return {
        "x": s,
        "steps": ops.derive(c, n, 1) if c.chance(3) else [],
        "num": c.pick(None, 1, 2, 3),
        "warm": ops.warm_flags(c),
    }


def _prep(case, t, what):
    r = specs.ref(case["x"])
    x = ops.make(t, case["x"], case["warm"])
    with t.sut(what + " (preparing)"):
        return ops.apply_steps(x, r, case["steps"])


def _what(case):
    return f"sample(num={case.get('num')}) of {specs.describe(case['x'])}" + (
        f" after {ops.describe_steps(case['steps'])}" if case["steps"] else ""
    )


def _run(case, t):
    what = _what(case)
    x, r = _prep(case, t, what)
    num = case["num"]
    kw = {} if num is None else {"num": num}
    k = num or 1
    t.tag(f"sample:{type(x).__name__}", f"num:{num}", ops.batch_tag(r))
    want_shape = r.val.shape[:-1] + (k,)

    def draw(hot):
        p = Probe(hot)
        out = B.sample(p, x, **kw)
        if not (isinstance(out, tuple) and len(out) == 2):
            t.violate(f"{what}: no pair of a state and a sample")
        return p, to_np(out[1])

    with t.sut(what):
        p, zero = draw(None)
    t.require(zero.shape == want_shape, lambda: f"{what}: shape {zero.shape}, expected {want_shape}")
    t.require(not np.any(zero), lambda: f"{what}: the mean is not zero")
    if not np.any(r.val):
        t.trivial()
    if not p.shapes and np.any(r.val):
        t.violate(f"{what}: no noise was drawn")
    total = sum(int(np.prod(s)) for s in p.shapes)
    if total > 400:
        t.tag("large")
        return t.trivial()
    size = int(np.prod(want_shape))
    cov = np.zeros((size, size))
    for i, s in enumerate(p.shapes):
        for j in range(int(np.prod(s))):
            with t.sut(what):
                q, out = draw((i, j))
            v = out.reshape(-1)
            t.require(q.shapes == p.shapes, lambda: f"{what}: the draws depend on the noise")
            cov += np.outer(v, v)
    n = r.val.shape[-1]
    flat = r.val.reshape(-1, n, n)
    b = flat.shape[0]
    want = np.einsum("bij,bc,kl->bikcjl", flat, np.eye(b), np.eye(k)).reshape(size, size)
    mags = np.broadcast_to(r.mag.max(axis=(-2, -1), keepdims=True), r.mag.shape).reshape(-1, n, n)
    tol = 1e-7 * mags.max() + 1e-10
    err = np.abs(cov - want)
    if not err.max(initial=0) <= tol:
        i, j = np.unravel_index(int(np.argmax(err)), err.shape)
        ix = [tuple(map(int, np.unravel_index(m, want_shape))) for m in (i, j)]
        t.violate(f"{what}: covariance of entries {ix[0]} and {ix[1]} is {cov[i, j]}, expected {want[i, j]}")


def _gen_state(c):
    case = _gen(c)
    case["seed"] = c.int(0, 1000)
    return case


def _run_state(case, t):
    """Determinism, and threading of explicit and global states."""
    what = _what(case)
    x, r = _prep(case, t, what)
    num = case["num"]
    kw = {} if num is None else {"num": num}
    t.tag(f"state:{type(x).__name__}")

    def fresh():
        return B.create_random_state(np.float64, seed=case["seed"])

    with t.sut(what):
        s1, a = B.sample(fresh(), x, **kw)
        s2, b = B.sample(fresh(), x, **kw)
        s3, a2 = B.sample(s1, x, **kw)
        a, b, a2 = to_np(a), to_np(b), to_np(a2)
    t.require(np.array_equal(a, b), lambda: f"{what}: not the same for the same seed")
    t.require(isinstance(s1, B.RandomState), lambda: f"{what}: no random state returned")
    t.require(bool(np.all(np.isfinite(a))), lambda: f"{what}: samples are not finite")
    if np.any(r.val):
        t.require(not np.array_equal(a, a2), lambda: f"{what}: the state does not advance")
    else:
        t.trivial()
    # The global state.
    save = B.global_random_state(np.float64)
    try:
        B.set_global_random_state(fresh())
        with t.sut(what + " with the global state"):
            g1 = to_np(B.sample(x, **kw))
            g2 = to_np(B.sample(x, **kw))
            B.set_global_random_state(fresh())
            g3 = to_np(B.sample(x, **kw))
    finally:
        B.set_global_random_state(save)
    t.require(np.array_equal(g1, a), lambda: f"{what}: global state gives other samples than an explicit state")
    t.require(np.array_equal(g1, g3), lambda: f"{what}: global state is not reproducible")
    if np.any(r.val):
        t.require(not np.array_equal(g1, g2), lambda: f"{what}: the global state does not advance")


_JAX = {}


def _gen_jax(c):
    return {"kind": c.pick("wb", "diag", "dense", "lr", "kron"), "seed": c.int(0, 10**6), "scale": c.pick(1.0, 2.0)}


def _run_jax(case, t):
    """States of JAX are values: using one twice repeats noise."""
    import jax.numpy as jnp
    import lab.jax  # noqa

    k, v = case["kind"], case["scale"]
    one = jnp.array([[v]], dtype=jnp.float64)
    d = matrix.Diagonal(jnp.array([v], dtype=jnp.float64))
    lr = matrix.LowRank(jnp.ones((1, 1)), middle=matrix.Dense(one))
    x = {
        "diag": d,
        "lr": lr,
        "wb": matrix.Woodbury(d, lr),
        "dense": matrix.Dense(one),
        "kron": matrix.Kronecker(d, matrix.Dense(jnp.ones((1, 1)))),
    }[k]
    var = 2 * v if k == "wb" else v
    what = f"sample of {k} on JAX"
    t.tag(f"jax:{k}")
    state = B.create_random_state(jnp.float64, seed=case["seed"])
    n = 4096
    with t.sut(what):
        s1, a = B.sample(state, x, num=n)
        s2, b = B.sample(s1, x, num=n)
        a, b = np.asarray(to_np(a))[0], np.asarray(to_np(b))[0]
    save = B.global_random_state(jnp.float64)
    try:
        B.set_global_random_state(B.create_random_state(jnp.float64, seed=case["seed"]))
        with t.sut(what + " with the global state"):
            g1, g2 = to_np(B.sample(x, num=n))[0], to_np(B.sample(x, num=n))[0]
    finally:
        B.set_global_random_state(save)
    t.require(np.array_equal(g1, a), lambda: f"{what}: global state gives other samples than an explicit state")
    t.require(np.array_equal(g2, b), lambda: f"{what}: global state does not advance as an explicit state does")
    # Eight standard deviations of the estimators.
    for got, want, name in [
        (np.mean(a**2), var, "variance"),
        (np.mean(b**2), var, "variance"),
        (np.mean(a * b), 0.0, "covariance with the next sample"),
        (np.mean(a[1:] * a[:-1]), 0.0, "covariance of neighbouring samples"),
    ]:
        t.require(
            abs(got - want) < 8 * var * np.sqrt(2 / n), lambda: f"{what}: {name} {got:.3f}, expected {want}"
        )


def describe(case):
    return f"{case['f']}: " + (_what(case) if "x" in case else str(case))


FAMILIES = {"covariance": (20, _gen, _run), "state": (6, _gen_state, _run_state), "jax": (1, _gen_jax, _run_jax)}
