"""C19: sums of low-rank matrices share columns and cancel."""

import numpy as np

from .. import gen, ops, specs
from .. import structure as S
from ..boot import B, matrix
from ..compare import check
from ..specs import Ref

ID = "C19"
N_QUICK = 20000
RULE = (
    "Programs of 2 to 7 sums, differences, negations, and scalings over low-rank matrices that take their columns, in any order, from two pools of columns of different "
    "norms, constant and diagonal matrices, and numbers; the rank of a result is at most the number of different columns on one side, and what cancels exactly "
    "leaves no low-rank part behind. Inverses of inverses of Woodbury matrices, minus the low-rank part. Ranks of products. Non-trivial: at least two operands of the program "
    "share columns, or there is an inverse or product."
)
P = 4


def _columns(hexes, n, dtype):
    """A pool of columns of which the norms differ. The last one consists of ones."""
    raw = np.frombuffer(bytes.fromhex(hexes["hex"]), dtype=np.uint8).reshape(*hexes["batch"], n, P).astype(int)
    v = (4 + raw % 4) * np.where(raw & 4, -1, 1)
    v = v * 2 ** np.arange(1, P + 1)
    if dtype != "i8":
        v = v / 4
    ones = np.ones((*v.shape[:-1], 1))
    return np.concatenate([v, ones], axis=-1).astype({"i8": int, "f8": float, "f4": np.float32}[dtype])


def _pool(c, n):
    batch = c.sub_batch()
    k = int(np.prod(batch, dtype=int)) * n * P
    return {"hex": c.bytes(k), "batch": list(batch)}


def _some(c, k):
    """`k` different columns in any order."""
    left = list(range(P))
    return [left.pop(c.int(0, len(left) - 1)) for _ in range(k)]


def _gen_sum(c):
    c.setup(exps=False, dtypes=False)
    rows = c.int(1, 6)
    cols = rows if not c.chance(4) else c.int(1, 6)
    case = {
        "rows": rows,
        "cols": cols,
        "left": _pool(c, rows),
        "right": _pool(c, cols),
        "dtype": c.pick("f8", "f8", "f8", "f4", "i8"),
        "terms": [],
    }
    for _ in range(c.int(2, 4)):
        how = c.int(0, 9)
        if how <= 5:
            k = c.int(1, 3)
            term = {"t": "lr", "L": _some(c, k), "wrap": c.chance(2)}
            j = k
            if rows != cols or c.chance(3):
                j = c.int(1, 3) if c.chance(3) else k
                term["R"] = _some(c, j)
            if j != k or c.chance(2):
                batch = c.sub_batch()
                term["mid"] = {"hex": c.bytes(int(np.prod(batch, dtype=int)) * k * j), "batch": list(batch), "shape": [k, j]}
            case["terms"].append(term)
        elif how <= 7 and rows == cols:
            batch = c.sub_batch()
            case["terms"].append({"t": "diag", "hex": c.bytes(int(np.prod(batch, dtype=int)) * rows), "batch": list(batch)})
        elif how == 8:
            case["terms"].append({"t": "num", "v": c.pick(1, -1, 2)})
        else:
            batch = c.sub_batch()
            case["terms"].append({"t": "const", "hex": c.bytes(int(np.prod(batch, dtype=int))), "batch": list(batch)})
    if all(q["t"] == "num" for q in case["terms"]):
        case["terms"][0] = {"t": "lr", "L": [0], "wrap": True, "R": [1]}
    size = len(case["terms"])
    steps = []
    for _ in range(c.int(2, 7)):
        how = c.int(0, 9)
        last = size - 1 if c.chance(2) else c.int(0, size - 1)
        if how <= 7:
            steps.append(["+" if c.chance(2) else "-", last, c.int(0, size - 1)])
        elif how == 8:
            steps.append(["*", last, c.pick(2, -1, 4, 0)])
        else:
            steps.append(["n", last])
        size += 1
    case["steps"] = steps
    return case


def _decode(q, shape, lo=1):
    raw = np.frombuffer(bytes.fromhex(q["hex"]), dtype=np.uint8).reshape((*q["batch"], *shape)).astype(int)
    return (lo + raw % 3) * np.where(raw & 4, -1, 1)


class _Node:
    """What a matrix has to be: a diagonal part, sets of columns, and the coefficients that go with them."""

    def __init__(self, diag=None, cols=None, coef=None, const=False, shape=None):
        self.diag, self.cols, self.coef, self.const = diag, cols, coef, const

    @property
    def kind(self):
        if self.const:
            return "Constant"
        if self.diag is not None:
            return "Woodbury" if self.cols else "Diagonal"
        return "LowRank" if self.cols else "Zero"

    def scale(self, s):
        if s == 0:
            return _Node()
        return _Node(
            None if self.diag is None else s * self.diag,
            self.cols,
            None if self.coef is None else s * self.coef,
            self.const,
        )

    def add(self, other):
        if self.kind == "Zero":
            return other
        if other.kind == "Zero":
            return self
        coef = self.coef if other.coef is None else other.coef if self.coef is None else self.coef + other.coef
        if self.const and other.const:
            return _Node(None, self.cols, coef, True)
        diag = self.diag if other.diag is None else other.diag if self.diag is None else self.diag + other.diag
        cols = self.cols or other.cols
        if self.cols and other.cols:
            cols = (self.cols[0] | other.cols[0], self.cols[1] | other.cols[1])
            if not np.any(coef):
                cols, coef = None, None
        return _Node(diag, cols, coef)

    def value(self, left, right):
        v = np.zeros((left.shape[-2], right.shape[-2]))
        m = np.zeros((left.shape[-2], right.shape[-2]))
        if self.coef is not None:
            r = np.swapaxes(right, -1, -2)
            v = v + left @ self.coef @ r
            m = m + np.abs(left) @ np.abs(self.coef) @ np.abs(r)
        if self.diag is not None:
            d = self.diag[..., None] * np.eye(left.shape[-2])
            v, m = v + d, m + np.abs(d)
        return v, m


def _run_sum(case, t):
    rows, cols, dtype = case["rows"], case["cols"], case["dtype"]
    left, right = _columns(case["left"], rows, dtype), _columns(case["right"], cols, dtype)
    if rows == cols:
        # Matrices without a right factor are symmetric. Let the other ones use the same columns.
        right = left
    np_dtype = left.dtype
    objs, nodes = [], []
    users = []
    for q in case["terms"]:
        if q["t"] == "lr":
            L, R = q["L"], q.get("R", q["L"])
            mid = _decode(q["mid"], q["mid"]["shape"]) if "mid" in q else np.eye(len(L), dtype=int)
            coef = np.zeros((*mid.shape[:-2], P + 1, P + 1))
            coef[(Ellipsis, *np.ix_(L, R))] = mid
            wrap = matrix.Dense if q["wrap"] else (lambda x: x)
            kw = {}
            if "R" in q:
                kw["right"] = wrap(right[..., R])
            if "mid" in q:
                kw["middle"] = wrap(mid.astype(np_dtype))
            with t.sut("constructing a low-rank matrix"):
                objs.append(matrix.LowRank(wrap(left[..., L]), **kw))
            nodes.append(_Node(None, (frozenset(L), frozenset(R)), coef))
            users.append(set(L))
        elif q["t"] == "diag":
            d = _decode(q, (rows,))
            objs.append(matrix.Diagonal(d.astype(np_dtype)))
            nodes.append(_Node(d.astype(float)))
        else:
            v = np.array(q["v"]) if q["t"] == "num" else _decode(q, ())
            coef = np.zeros((*v.shape, P + 1, P + 1))
            coef[..., P, P] = v
            objs.append(q["v"] if q["t"] == "num" else matrix.Constant(v.astype(np_dtype), rows, cols))
            nodes.append(_Node(None, (frozenset([P]), frozenset([P])), coef, True))
    if not any(a & b for i, a in enumerate(users) for b in users[:i]) and len(users) > 1:
        t.trivial()
    what = f"terms {case['terms']} of shape {(rows, cols)}, {dtype}, steps {case['steps']}"
    for j, (op, i, *arg) in enumerate(case["steps"]):
        a, na = objs[i], nodes[i]
        if op in "+-":
            b, nb = objs[arg[0]], nodes[arg[0]]
            numbers = isinstance(a, int) and isinstance(b, int)
        else:
            numbers = isinstance(a, int)
        with t.sut(f"{what}, step {j}"):
            if op == "+":
                res, node = a + b, na.add(nb)
            elif op == "-":
                res, node = a - b, na.add(nb.scale(-1))
            elif op == "*":
                res, node = a * arg[0], na.scale(arg[0])
            else:
                res, node = -a, na.scale(-1)
        objs.append(res)
        nodes.append(node)
        if numbers:
            if res == 0:
                nodes[-1] = _Node()
            continue
        t.tag(f"kind:{node.kind}")
        kind = type(res).__name__
        t.require(kind == node.kind, lambda: f"{what}, step {j}: the result is {kind}, not {node.kind}")
        if node.cols and not node.const:
            rank = res.lr.rank if kind == "Woodbury" else res.rank
            bound = min(len(node.cols[0]), len(node.cols[1]))
            t.require(rank <= bound, lambda: f"{what}, step {j}: the rank is {rank}, but there are only {bound} different columns")
        v, m = node.value(left.astype(float), right.astype(float))
        shape = np.shape(np.asarray(B.dense(res)))
        t.require(shape[-2:] == (rows, cols), f"{what}, step {j}: the shape is {shape}")
        # The batch shape of the pool counts here, even if none of its columns is used.
        full = np.broadcast_shapes(shape, v.shape)
        v, m = np.broadcast_to(v, full), np.broadcast_to(m, full)
        # What has cancelled doesn't show in the magnitude any more.
        check(t, np.broadcast_to(np.asarray(B.dense(res)), full), Ref(v, m + 1e3), f"{what}, step {j}", prec="f4" if dtype == "f4" else "f8")


# Inverses of inverses -----------------------------------------------------------------


def _gen_inv(c):
    c.setup(exps=False, dtypes=False)
    n = c.int(1, 6)
    r = c.int(1, min(3, n))
    b = [list(c.sub_batch()) for _ in range(3)]
    k = [int(np.prod(x, dtype=int)) for x in b]
    return {
        "n": n,
        "r": r,
        "batch": b,
        "diag": c.bytes(k[0] * n),
        "left": c.bytes(k[1] * n * r),
        "middle": c.bytes(k[2] * r),
        "has_middle": c.chance(2),
        "const": c.pick(False, False, False, True, "number"),
        "right": c.pick(None, "left"),
        "flip": c.chance(2),
    }


def _run_inv(case, t):
    n, r, b = case["n"], case["r"], case["batch"]
    num = lambda h, *shape: np.frombuffer(bytes.fromhex(h), dtype=np.uint8).reshape(shape).astype(float)  # noqa
    d = 1 + num(case["diag"], *b[0], n) / 255
    raw = num(case["left"], *b[1], n, r)
    u = (0.5 + raw / 255) * np.where(raw.astype(int) & 1, -1, 1)
    m = 0.5 + 1.5 * num(case["middle"], *b[2], r) / 255
    D = matrix.Diagonal(d)
    if case["const"] == "number":
        lr, dense, r = 1, np.ones((n, n)), 1
    elif case["const"]:
        lr = matrix.Constant(m[..., 0], n, n)
        dense = m[..., :1, None] * np.ones((n, n))
        r = 1
    else:
        kw = {}
        if case["has_middle"]:
            kw["middle"] = matrix.Diagonal(m)
        else:
            m = np.ones(r)
        if case["right"]:
            kw["right"] = u.copy()
        lr = matrix.LowRank(u, **kw)
        dense = (u * m[..., None, :]) @ np.swapaxes(u, -1, -2)
    full = d[..., None] * np.eye(n) + dense
    what = f"inv(inv(D + L)) - L for n={n}, rank {r}, batches {b}, {'constant' if case['const'] else 'low-rank'}"
    with t.sut(what):
        w = D + lr if not case["flip"] else lr + D
        i = B.inv(w)
        ii = B.inv(i)
        diff = ii - lr
    for name, x in (("inv", i), ("inv of inv", ii)):
        t.require(type(x).__name__ == "Woodbury", lambda: f"{what}: the {name} is {type(x).__name__}")
        t.require(x.lr.rank <= r, lambda: f"{what}: the {name} has rank {x.lr.rank}")
    t.require(type(diff).__name__ == "Diagonal", lambda: f"{what}: the result is {type(diff).__name__}")
    inv = np.linalg.inv(full)
    check(t, i, Ref(inv, np.abs(inv)), what + ", the inverse", tol=(1e-9, 1e-9))
    check(t, ii, Ref(full, np.abs(full)), what + ", the inverse of the inverse", tol=(1e-9, 1e-9))
    t.tag("const" if case["const"] else "low rank")
    shape = np.broadcast_shapes((*d.shape, n), dense.shape)
    v = np.broadcast_to(d[..., None] * np.eye(n), shape)
    got = np.asarray(B.dense(diff))
    v = np.broadcast_to(v, np.broadcast_shapes(got.shape, v.shape))
    check(t, diff, Ref(v, np.abs(v) + 1), what, tol=(1e-8, 1e-8))


# Ranks of products --------------------------------------------------------------------


OTHER = ["dense", "diag", "const", "lt", "ut", "num"]
UNARY = {
    "neg": lambda x, r: (-x, r),
    "T": lambda x, r: (x.T, r),
    "scale": lambda x, r: (3 * x, r),
    "div": lambda x, r: (x / 3, r),
    "const": lambda x, r: (x * matrix.Constant(2.0, *B.shape_matrix(x)), r),
    "take": lambda x, r: (B.take(x, [0], axis=-2), r),
    "take_cols": lambda x, r: (B.take(x, [0], axis=-1), r),
    "cast": lambda x, r: (B.cast(np.float32, x), r),
    "bc": lambda x, r: (B.broadcast_batch_to(x, 2, *B.shape_batch(x)), r),
    "self": lambda x, r: (x + x, r),
    "cancel": lambda x, r: (x + x - x, r),
}


def _gen_prod(c):
    c.setup(exps=False, dtypes=False)
    n, k, m = c.int(1, 6), c.int(1, 6), c.int(1, 6)
    how = c.pick("mm", "mm", "mm3", "mul", "un", "un")
    case = {"how": how, "warm": ops.warm_flags(c)}
    if how == "mul":
        case["xs"] = [gen.lowrank(c, n, m), gen.lowrank(c, n, m)]
    elif how == "un":
        case["xs"] = [gen.lowrank(c, n, m)]
        case["fn"] = c.pick(*UNARY)
    else:
        tr = [c.chance(3), c.chance(3)]
        sa, sb = (n, k), (k, m)
        a = gen.lowrank(c, *(sa[::-1] if tr[0] else sa))
        sb = sb[::-1] if tr[1] else sb
        if c.chance(2):
            b = gen.lowrank(c, *sb)
        else:
            b = gen.matrix(c, *sb, [q for q in OTHER if sb[0] == sb[1] or q not in S.SQUARE])
        case["xs"], case["tr"] = [a, b], tr
        if how == "mm3":
            case["xs"].append(gen.matrix(c, m, c.int(1, 6), ["dense", "num", "lr"]))
        elif c.chance(3):
            # The other way around.
            case["xs"], case["tr"] = [b, a], [not tr[1], not tr[0]]
    return case


def _rank(s):
    left = specs.shape_of(s["left"])[-1]
    right = s.get("right")
    # Either side may carry over.
    return max(left, left if right in (None, "left") else specs.shape_of(right)[-1])


def _run_prod(case, t):
    how = case["how"]
    xs = [ops.make(t, s, case["warm"]) for s in case["xs"]]
    ranks = [_rank(s) if s["k"] == "lr" else 1 if s["k"] == "const" else None for s in case["xs"]]
    what = f"{how} {case.get('fn', case.get('tr', ''))} of " + ", ".join(specs.describe(s) for s in case["xs"])
    with t.sut(what):
        if how == "mul":
            res, bound = B.multiply(*xs), ranks[0] * ranks[1]
        elif how == "un":
            res, bound = UNARY[case["fn"]](xs[0], ranks[0])
        else:
            res = B.matmul(*xs, tr_a=case["tr"][0], tr_b=case["tr"][1])
    if how == "mm":
        bound = min(r for r in ranks if r is not None)
    elif how == "mm3":
        # The order of the products determines which factors remain.
        bound = max(r for r in ranks if r is not None)
    t.tag(f"{how}:{case.get('fn', '')}:{type(res).__name__}")
    if how == "un" and case["fn"] in ("cancel", "self") and isinstance(res, matrix.Zero):
        # The matrix is zero itself.
        return
    t.require(isinstance(res, matrix.LowRank), lambda: f"{what}: the result is {type(res).__name__}")
    t.require(res.rank <= bound, lambda: f"{what}: the result has rank {res.rank} instead of {bound}")


def describe(case):
    if case["f"] == "sum":
        return f"{len(case['terms'])} terms, steps {case['steps']}"
    if case["f"] == "inverse":
        return f"inverse of inverse, n={case['n']}, rank {case['r']}"
    return f"{case['how']} of " + ", ".join(specs.describe(s) for s in case["xs"])


FAMILIES = {
    "sum": (4, _gen_sum, _run_sum),
    "inverse": (1, _gen_inv, _run_inv),
    "product": (2, _gen_prod, _run_prod),
}
