"""C16: with JAX, eagerly and traced for compilation, results are those with NumPy."""

import json
import os

import numpy as np

from .. import gen, ops, specs
from ..boot import B, matrix
from ..compare import check, to_np
from .. import structure as S
from . import c13

ID = "C16"
#: The workers share a folder, which the run removes.
SCRATCH = True
N_QUICK = 2400
THOROUGH_FACTOR = 12
RULE = (
    "Histories of 2 to 7 operations over a pool of matrices of all types, as in C13, whose arrays are JAX arrays: run eagerly while control flow is recorded, then traced with "
    "a part of the arrays abstract, using the recorded control flow (which is what `B.jit` does; one in twelve cases goes through `B.jit` itself), and then with other "
    "values. All results are compared with the dense NumPy model, their types with those that NumPy arrays give. Non-trivial: at least "
    "two operations are run and some array is traced."
)

_state = {}


def _jax():
    if not _state:
        import jax
        import jax.numpy as jnp
        import lab.jax  # noqa

        # Most of the time goes into compiling many small functions: share them between the workers.
        jax.config.update("jax_compilation_cache_dir", os.environ.get("VERIF_SCRATCH"))
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)

        _state.update(jax=jax, jnp=jnp)
        _repair_unstack(jnp)
    return _state["jax"], _state["jnp"]


def _repair_unstack(jnp):
    """LAB splits at positions that it computes with JAX. They are abstract in a trace, which this version of JAX
    refuses. This isn't up to the code under test, so compute the positions with NumPy."""
    import sys
    import types

    mod = sys.modules["lab.jax.shaping"]
    shim = types.ModuleType("jnp_shim")
    shim.__dict__.update(jnp.__dict__)
    shim.arange = np.arange
    mod.jnp = shim


SKIP = {"repr", "sample"}


def _gen(c):
    # Mostly the same sizes: most of the time goes into compiling for new ones.
    if c.chance(8):
        case = c13._gen(c)
    else:
        case = c13._gen(c, sizes=(2, 3, 3), batches=((), (), (2,)))
    case["steps"] = [s for s in case["steps"] if s[0] not in SKIP or s[0] in c13.MATRIX_RESULT][:7]
    case["mask"] = c.int(0, 255) if c.chance(2) else 255
    if case["mask"] == 255 or c.chance(2):
        case["outside"] = 0
    else:
        # Make the matrices that aren't traced outside of the function.
        case["outside"] = 1
    case["jit"] = c.chance(12)
    case["rescale"] = c.pick(0, 0, 1, -1)
    return case


def _leaves(case, exp=0):
    """All arrays, in the order in which they are used."""
    reg = []
    pool = json.loads(json.dumps(case["pool"]))
    if exp:
        _shift(pool, exp)
    for s in pool:
        specs.build(s, reg=reg)
    return pool, reg


def _shift(q, exp):
    if isinstance(q, dict):
        if q.get("k") == "arr":
            q["exp"] = q.get("exp", 0) + exp
        else:
            for v in q.values():
                _shift(v, exp)
    elif isinstance(q, list):
        for v in q:
            _shift(v, exp)


def _objects(case, arrays, outside=None):
    it = iter(arrays)
    objs = [specs.build(s, to=lambda _: next(it)) for s in case["pool"]]
    if outside:
        objs = [x if y is None else y for x, y in zip(objs, outside)]
    if case["shared"] is not None:
        i = case["shared"]
        objs.append(matrix.Woodbury(objs[i].diag, objs[i].lr))
        objs.append(objs[i].lr)
    return objs


def _refs(pool, shared):
    refs = [specs.ref(s) for s in pool]
    if shared is not None:
        refs.append(refs[shared])
        refs.append(specs.ref(pool[shared]["lr"]))
    return refs


def _sut(name, xs, rs, dtype=np.float64):
    """Run an operation without converting anything to NumPy."""
    x = xs[0]
    if name == "chol":
        l = B.dense(B.cholesky(x))
        return B.matmul(l, l, tr_b=True)
    if name == "root":
        l = B.dense(B.root(x))
        return B.matmul(l, l)
    if name == "cast":
        return B.cast(dtype, x)
    if name == "schur":
        return B.dense(B.schur(x)) if isinstance(x, matrix.Woodbury) else None
    return c13._apply(name, xs, rs)[0]


def _plan(case, arrays, pool):
    """Run with NumPy. Returns the steps that are run, the references, and the types of the results."""
    objs = _objects(case, arrays)
    refs = _refs(pool, case["shared"])
    size = refs[0].val.shape[-2:]
    steps, types = [], []
    for name, *idx in case["steps"]:
        if any(i >= len(objs) for i in idx):
            return None
        xs, rs = [objs[i] for i in idx], [refs[i] for i in idx]
        needs = c13.OPS[name][1]
        skip = any(x is None for x in xs) or any(q.val.shape[-2:] != size for q in rs)
        skip = skip or any(q.mag.size and q.mag.max() > 1e10 for q in rs)
        if not skip and needs:
            r = rs[0]
            v, m = np.abs(r.val).max(), r.mag.max()
            skip = type(xs[0]).__name__ not in c13.PD_TYPES or not ops.cond(r.val) < 1e4 or not m < 1e3 * v
            skip = skip or not c13._parts_ok(xs[0], needs != "inv")
        if not skip and name in ("solve", "iqf", "iqf_diag"):
            skip = any(isinstance(x, matrix.Zero) for x in xs[1:])
        if not skip and name in ("mul", "mm", "mm_t", "mm_tr", "diag_of_mm"):
            skip = all(c13._has_kron(x) for x in xs)
        if not skip and len(xs) > 1:
            skip = int(np.prod([c13._rank(x) for x in xs])) > 24
        if skip:
            if name in c13.MATRIX_RESULT:
                objs.append(None)
                refs.append(refs[0])
            continue
        _, ref = c13._apply(name, xs, rs)
        res = _sut(name, xs, rs)
        if ref is not None and ref.mag.size and not np.isfinite(ref.mag).all():
            ref = None
        steps.append((name, idx, rs, ref))
        types.append(type(res).__name__ if isinstance(res, matrix.AbstractMatrix) else None)
        if name in c13.MATRIX_RESULT:
            ok = isinstance(res, matrix.AbstractMatrix)
            objs.append(res if ok else None)
            refs.append(ref if ref is not None else refs[0])
            if ref is None:
                objs[-1] = None
    return steps, types


def _program(case, steps, log, outside=None):
    """The program as a function from arrays to arrays: the results of all steps. Matrices `outside` aren't made by it."""

    def run(*arrays):
        _, jnp = _jax()
        objs = _objects(case, arrays, outside)
        entry = {"abstract": [bool(B.isabstract(x)) for x in objs], "types": []}
        log.append(entry)
        out = []
        for name, idx, rs, _ in steps:
            res = _sut(name, [objs[i] for i in idx], rs, jnp.float64)
            is_matrix = isinstance(res, matrix.AbstractMatrix)
            entry["types"].append(type(res).__name__ if is_matrix else None)
            if name in c13.MATRIX_RESULT:
                objs.append(res)
            if is_matrix:
                res = B.dense(res)
            out.append(jnp.zeros(()) if res is None else res)
        return tuple(out)

    return run


def _traced_in(s, it):
    """Is some array of a specification traced?"""
    if isinstance(s, dict):
        if s.get("k") in ("arr", "cols"):
            return next(it)
        flags = []
        order = {"lr": ("left", "right", "middle"), "wb": ("diag", "lr"), "kron": ("left", "right")}
        keys = order.get(s.get("k"), ("mat", "diag", "const"))
        for k in keys:
            if isinstance(s.get(k), dict):
                flags.append(_traced_in(s[k], it))
        return any(flags)
    return False


def _run(case, t):
    pool, arrays = _leaves(case)
    desc = [specs.describe(s) for s in case["pool"]]
    try:
        cache_np = B.ControlFlowCache()
        with cache_np:
            plan = _plan(case, arrays, pool)
    except Exception:
        # With NumPy, other checks look at this.
        t.tag("numpy fails")
        return t.trivial()
    if plan is None or len(plan[0]) < 1:
        return t.trivial()
    steps, types = plan
    base = len(case["pool"]) + (2 if case["shared"] is not None else 0)
    # Number the results of the steps that are run.
    steps = _compact(case, steps, base)
    if len(steps) < 2:
        t.trivial()
    jax, jnp = _jax()
    traced = [bool((case["mask"] >> (i % 8)) & 1) for i in range(len(arrays))]
    if not any(traced):
        t.trivial()
    names = [s[0] for s in steps]
    what = f"pool {desc}, history {'; '.join(n + str(tuple(i)) for n, i, *_ in steps)}"
    log = []
    run = _program(case, steps, log)
    cache = B.ControlFlowCache()

    def safe(*xs):
        with cache, B.lazy_shapes():
            return run(*xs)

    consts = [jnp.asarray(a) for a in arrays]

    def merge(xs, rest):
        it = iter(xs)
        return [next(it) if f else c for f, c in zip(traced, rest)]

    # First, eagerly.
    with t.sut(f"{what}: with JAX"):
        first = safe(*consts)
    _compare(t, first, steps, types, log[0], f"{what}: with JAX")
    t.require(not any(log[0]["abstract"]), f"{what}: concrete matrices are abstract")

    it = iter(traced)
    want = [_traced_in(s, it) for s in case["pool"]]
    outside = None
    if case.get("outside"):
        made = _objects({**case, "shared": None}, consts)
        outside = [None if w else x for x, w in zip(made, want)]
        if any(x is not None for x in outside):
            t.tag("made outside")
        run = _program(case, steps, log, outside)

    # Then, traced.
    xs = [c for f, c in zip(traced, consts) if f]
    if case["jit"]:
        t.tag("jit")
        with t.sut(f"{what}: compiled"):
            second = jax.jit(lambda *xs_: safe(*merge(xs_, consts)))(*xs)
        ev = None
    else:
        with t.sut(f"{what}: traced"):
            closed = jax.make_jaxpr(lambda *xs_: safe(*merge(xs_, consts)))(*xs)
        ev = lambda *xs_: jax.core.eval_jaxpr(closed.jaxpr, closed.consts, *xs_)  # noqa
        second = ev(*xs)
    _compare(t, second, steps, types, log[-1], f"{what}: traced")
    got = log[-1]["abstract"][: len(want)]
    # Constants with a batch shape are broadcast by the harness, in the trace.
    loose = ['"const"' in json.dumps(s) for s in case["pool"]]
    t.require(all(g == w or (g and l) for g, w, l in zip(got, want, loose)), f"{what}: traced arrays {traced}: abstract matrices are {want}, not {got}")
    for n in names:
        t.tag(f"op:{n}")
    if outside:
        # Nothing of the trace may be left in them.
        with t.sut(f"{what}: eagerly, with the matrices that were used in the trace"):
            last = run(*consts)
        _compare(t, last, steps, types, log[-1], f"{what}: eagerly, with the matrices that were used in the trace")
    # Other values, if they make for the same control flow.
    if case["rescale"] and ev is not None:
        pool2, arrays2 = _leaves(case, case["rescale"])
        cache_2 = B.ControlFlowCache()
        try:
            with cache_2:
                plan2 = _plan(case, arrays2, pool2)
        except Exception:
            return
        if plan2 is None or [s[:2] for s in plan2[0]] != [s[:2] for s in plan[0]] or plan2[1] != types:
            return
        if not _same_outcomes(cache_np, cache_2):
            return
        t.tag("other values")
        consts2 = [jnp.asarray(b if f else a) for a, b, f in zip(arrays, arrays2, traced)]
        if not all(traced):
            return
        xs2 = [c for f, c in zip(traced, consts2) if f]
        third = ev(*xs2)
        _compare(t, third, _compact(case, plan2[0], base), types, log[1], f"{what}: traced, then evaluated at other values")


def _same_outcomes(a, b):
    a, b = a.outcomes, b.outcomes
    if a.keys() != b.keys():
        return False
    return all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


def _compact(case, steps, base):
    """Number the operands of the steps that are run consecutively."""
    # Walk through all steps to find out the numbers of the results.
    number, new = base, base
    mapping = {i: i for i in range(base)}
    it = iter(steps)
    cur = next(it, None)
    out = []
    for name, *idx in case["steps"]:
        hit = cur is not None and cur[0] == name and cur[1] == idx and all(i in mapping for i in idx)
        if hit:
            out.append((name, [mapping[i] for i in idx], cur[2], cur[3]))
            cur = next(it, None)
        if name in c13.MATRIX_RESULT:
            if hit:
                mapping[number] = new
                new += 1
            number += 1
    assert cur is None
    return out


def _compare(t, results, steps, types, entry, what):
    t.require(entry["types"] == types, lambda: f"{what}: the results are {entry['types']}, with NumPy {types}")
    for (name, idx, _, ref), res in zip(steps, results):
        if ref is None:
            continue
        needs = c13.OPS[name][1]
        tol = (1e-7, 1e-7) if name in ("chol", "root") else c13.TOL
        check(t, np.asarray(res), ref, f"{what}: {name}{tuple(idx)}", tol=tol, matrix_axes=2 if ref.val.ndim >= 2 else 0, atol=1e-10 * bool(needs))


def describe(case):
    if case["f"] == "history":
        return c13.describe(case)
    return S.describe(case) if "op" in case else f"take {case['sel']} along {case['axis']} of {specs.describe(case['x'])}"


# Single operations --------------------------------------------------------------------


def _few_sizes(c):
    """Only use some sizes and batch shapes."""
    if c.chance(8):
        return c
    setup = c.setup
    c.dim = lambda big=True: c.pick(2, 3)
    c.setup = lambda **kw: setup(**{"batches": [(), (), (2,)], "dtypes": False, **kw})
    return c


def _gen_op(c):
    return (S.gen_un if c.chance(2) else S.gen_bin)(_few_sizes(c), False)


def _gen_take(c):
    _few_sizes(c).setup(exps=False)
    n = c.dim()
    axis = c.pick(-2, -1, None)
    s = gen.matrix(c, n, n if axis is None else c.dim(), gen.GEN_KINDS)
    if s["k"] == "zero" or s["k"] == "const":
        shape = specs.shape_of(s)
        if len(shape) > 2 and axis is not None and c.chance(2):
            axis = 0
    size = specs.shape_of(s)[-2 if axis is None else axis]
    if c.chance(2):
        sel = {"mask": [bool(c.int(0, 1)) for _ in range(size)]}
    else:
        sel = {"idx": sorted({c.int(0, size - 1) for _ in range(c.int(1, 3))})}
    # Numeric arrays cannot be masked by what is abstract: only the size is needed here.
    may = axis != 0 and ("idx" in sel or s["k"] in ("zero", "const"))
    # NumPy arrays cannot be indexed by what is abstract.
    may = may and (s["k"] in ("zero", "const") or '"arr"' in json.dumps(s) or '"cols"' in json.dumps(s))
    return {"x": s, "axis": axis, "sel": sel, "pass": may and c.chance(2)}


def _collect(ss):
    reg = []
    for s in ss:
        specs.build(s, reg=reg)
    return reg


def _both(t, what, ss, f, extra=(), traced=True):
    """Compare a function of matrices between NumPy and JAX."""
    jax, jnp = _jax()
    arrays = _collect(ss)
    if not arrays and not extra:
        t.trivial()
        return

    def program(log, *xs):
        it = iter(xs)
        objs = [specs.build(s, to=lambda _: next(it)) for s in ss]
        res = f(objs, list(it))
        log.append(type(res).__name__ if isinstance(res, matrix.AbstractMatrix) else None)
        return B.dense(res) if isinstance(res, matrix.AbstractMatrix) else res

    log_np, log = [], []
    try:
        want = np.asarray(program(log_np, *arrays, *extra))
    except Exception:
        t.tag("numpy fails")
        return t.trivial()
    cache = B.ControlFlowCache()

    def safe(*xs):
        with cache, B.lazy_shapes():
            return program(log, *xs)

    xs = [jnp.asarray(x) for x in (*arrays, *extra)]
    with t.sut(f"{what}: with JAX"):
        got = [safe(*xs)]
    if traced:
        with t.sut(f"{what}: traced"):
            closed = jax.make_jaxpr(safe)(*xs)
        got.append(jax.core.eval_jaxpr(closed.jaxpr, closed.consts, *xs)[0])
    scale = float(np.abs(want).max(initial=0)) + float(np.prod([1 + specs.ref(s).mag.max(initial=0) for s in ss]))
    if not np.isfinite(scale):
        return t.trivial()
    for label, res, ty in zip(("with JAX", "traced"), got, log):
        t.require(ty == log_np[0], lambda: f"{what}: {label}, the result is a {ty}, with NumPy a {log_np[0]}")
        prec = "f4" if "float32" in (str(want.dtype), str(res.dtype)) or "f4" in set().union(*[specs.dtypes_in(s) for s in ss]) else "f8"
        res = np.asarray(res)
        t.require(res.shape == want.shape, lambda: f"{what}: {label}, the shape is {res.shape}, with NumPy {want.shape}")
        tol = {"f8": 1e-8, "f4": 1e-3}[prec]
        bad = ~(np.abs(res.astype(float) - want.astype(float)) <= tol * scale)
        t.require(not np.any(bad & ~(np.isnan(res) & np.isnan(want))), lambda: f"{what}: {label}, the result is {res.tolist()}, with NumPy {want.tolist()}")


def _run_op(case, t):
    op, arg = case["op"], case.get("arg")
    ss = case["xs"] if "xs" in case else [case["x"]]
    what = f"{op}({case.get('arg', case.get('tr'))}) of " + ", ".join(specs.describe(s) for s in ss)
    if op in ("solve", "inv", "pdinv", "chol", "root"):
        try:
            if not ops.cond(specs.ref(ss[0]).val) < 1e4 or not _parts_fine(ss[0]):
                return t.trivial()
        except np.linalg.LinAlgError:
            return t.trivial()
    kinds = [S.kind_of(s) for s in ss]
    if "xs" in case:
        if (op, *kinds) and S.BIN[op].get(tuple(kinds)) == ".":
            return t.trivial()
        kw = {"tr_a": case["tr"][0], "tr_b": case["tr"][1]} if any(case["tr"]) else {}
        f = lambda objs, _: S.F_BIN[op](*objs, **kw)  # noqa
    else:
        if S.UN[op, kinds[0]] == "." or (op == "takeb" and not arg):
            return t.trivial()

        def f(objs, _):
            a = arg
            if op == "cast":
                a = specs.DTYPES[arg]
                if "jax" in str(type(B.dense(objs[0]))):
                    a = getattr(_jax()[1], a.__name__)
            return S.apply_un(op, objs[0], a)

    t.tag(f"op:{op}:" + ":".join(kinds))
    _both(t, what, ss, f)


def _parts_fine(s):
    return not isinstance(specs.build(s), matrix.Woodbury) or c13._parts_ok(specs.build(s), False)


def _run_take(case, t):
    sel, axis = case["sel"], case["axis"]
    arr = np.array(sel.get("mask", sel.get("idx")))
    what = f"take {sel} along {axis} of {specs.describe(case['x'])}, {'argument' if case['pass'] else 'constant'}"

    def f(objs, rest):
        w = rest[0] if rest else arr
        return B.submatrix(objs[0], w) if axis is None else B.take(objs[0], w, axis=axis)

    t.tag("take:" + ("mask" if "mask" in sel else "idx"))
    _both(t, what, [case["x"]], f, extra=[arr] if case["pass"] else [])


FAMILIES = {"history": (3, _gen, _run), "op": (2, _gen_op, _run_op), "take": (1, _gen_take, _run_take)}
