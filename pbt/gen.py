"""Structured generators of matrix specifications.

All choices are Hypothesis draws, so that cases shrink and replay. Values are drawn as
one block of bytes per leaf, which is decoded by `specs.leaf_values`.
"""

import copy

BATCHES = [(), (), (), (2,), (2,), (3,), (1,), (2, 3), (2, 1), (1, 3), (3, 1, 2)]
EXPS = [-9, -6, -4, -2, 0, 2, 5, 9]
GEN_KINDS = ["zero", "dense", "diag", "const", "lt", "ut", "lr", "wb", "kron"]
SQUARE_ONLY = {"diag", "lt", "ut", "wb"}


class Ctx:
    """Choices that are shared by all matrices of one case.

    All choices go through the Hypothesis test case `data` (a `ConjectureData`), so they
    are recorded, shrunk, and determined by the seed of the run.
    """

    def __init__(self, data):
        self._int = data.draw_integer
        self._bytes = data.draw_bytes
        self.batch = ()
        self.dtype_policy = "f8"
        self.exp_policy = False
        self.nested = True
        self.pools_on = True
        self.numeric_factors = True
        self.pools = {}
        self.made = []
        self.reused = False

    def setup(
        self,
        batches=BATCHES,
        dtypes=True,
        exps=True,
        nested=True,
        pools=True,
        numeric_factors=True,
    ):
        """Draw what all matrices of a case have in common."""
        self.batch = self.pick(*batches)
        if dtypes and self.chance(5):
            self.dtype_policy = self.pick("mixed", "f4", "i8")
        self.exp_policy = bool(exps) and self.chance(5)
        self.nested = nested
        self.pools_on = pools
        self.numeric_factors = numeric_factors
        return self

    # Primitive choices:

    def pick(self, *options):
        n = len(options)
        return options[self._int(0, n - 1)] if n > 1 else options[0]

    def chance(self, one_in):
        return self._int(0, one_in - 1) == one_in - 1

    def int(self, lo, hi):
        return self._int(lo, hi) if lo < hi else lo

    def dim(self, big=True):
        """Size of a matrix dimension: mostly small, sometimes larger."""
        k = self._int(0, 15)
        if k <= 12 or not big:
            return self._int(1, 4)
        if k <= 14:
            return self._int(5, 7)
        return self._int(8, 13)

    def bytes(self, n):
        return self._bytes(n, n).hex()

    def sub_batch(self, full=None):
        """A batch shape that broadcasts with (and never enlarges) the full batch."""
        full = self.batch if full is None else full
        if not full:
            return ()
        how = self.int(0, 5)
        if how <= 2:
            return full
        if how == 3:
            return ()
        if how == 4:
            return full[self.int(0, len(full)) :]
        return tuple(1 if self.chance(2) else d for d in full)

    def dtype(self, floating=False):
        p = self.dtype_policy
        if p == "mixed":
            p = self.pick("f8", "f4", "i8")
        if floating and p == "i8":
            p = "f8"
        return p

    def leaf(self, batch, shape, mode="gen", floating=False, allow_exp=True, tri=None):
        shape = tuple(batch) + tuple(shape)
        n = 1
        for d in shape:
            n *= d
        s = {
            "k": "arr",
            "shape": list(shape),
            "hex": self.bytes(n),
            "mode": mode,
        }
        if mode == "gen" and self.chance(6):
            s["mode"] = "coarse"
        dt = self.dtype(floating or mode not in ("gen", "coarse", "nonneg"))
        if dt != "f8":
            s["dtype"] = dt
        if self.exp_policy and allow_exp and dt != "i8":
            e = self.pick(*EXPS)
            if dt == "f4":
                e = max(-4, min(4, e))
            if e:
                s["exp"] = e
        if tri:
            s["tri"] = tri
        return s


# Kinds --------------------------------------------------------------------------------


def factor(c, rows, cols, mode="gen", batch=None, pool=True):
    """A factor of a low-rank matrix: numeric, dense, or diagonal."""
    batch = c.sub_batch() if batch is None else batch
    if mode == "gen" and pool and c.pools_on and c.chance(3):
        leaf = cols_leaf(c, rows, cols)
        return leaf if c.numeric_factors and c.chance(3) else {"k": "dense", "mat": leaf}
    how = c.int(0, 7)
    if rows == cols and how >= 6 and mode in ("gen", "inv", "pd"):
        m = {"gen": "gen", "inv": "nz", "pd": "pos"}[mode]
        return {"k": "diag", "diag": c.leaf(batch, (rows,), m)}
    leaf = c.leaf(batch, (rows, cols), mode)
    if how <= 1 and c.numeric_factors:
        return leaf
    return {"k": "dense", "mat": leaf}


def cols_leaf(c, rows, cols):
    """Columns out of a pool that is shared by the whole case."""
    if rows not in c.pools:
        pool = c.leaf(c.sub_batch(), (rows, 4), "gen")
        c.pools[rows] = pool
    pool = c.pools[rows]
    s = {
        "k": "cols",
        "pool": pool,
        "idx": [c.int(0, 3) for _ in range(cols)],
    }
    if c.chance(4):
        s["scale"] = [c.pick(1.0, 1.0, -1.0, 2.0) for _ in range(cols)]
    if c.chance(4) and pool.get("dtype", "f8") != "i8":
        s["tweak"] = {
            "b": c.int(0, 5),
            "j": c.int(0, 3),
            "d": c.pick(1.0, 1e-3, 1e-6) * 10.0 ** pool.get("exp", 0),
        }
    return s


def lowrank(c, rows, cols, prop="gen", rank=None, batch=None):
    rank = rank or c.int(1, 3)
    if prop == "nonneg":
        bts = [c.sub_batch() if batch is None else c.sub_batch(batch) for _ in range(3)]
        s = {"k": "lr", "left": factor(c, rows, rank, "nonneg", bts[0])}
        if rows != cols or c.chance(2):
            s["right"] = factor(c, cols, rank, "nonneg", bts[1])
        if c.chance(2):
            s["middle"] = factor(c, rank, rank, "nonneg", bts[2])
        return s

    def bt():
        return c.sub_batch() if batch is None else c.sub_batch(batch)

    if prop == "psd":
        # Symmetric, positive-definite middle factor.
        s = {"k": "lr", "left": factor(c, rows, rank, batch=bt())}
        if c.chance(3):
            s["right"] = "left"
        if not c.chance(4):
            s["middle"] = factor(c, rank, rank, "pd", batch=bt(), pool=False)
        return s
    if c.chance(6) and rows == cols:
        rank = rows
        left = {"k": "diag", "diag": c.leaf(bt(), (rows,))}
    else:
        left = factor(c, rows, rank, batch=bt())
    s = {"k": "lr", "left": left}
    how = c.int(0, 4)
    rank_r = rank
    if rows == cols and how == 0:
        pass
    elif rows == cols and how == 1:
        s["right"] = "left"
    else:
        if prop != "inv" and c.chance(4):
            rank_r = c.int(1, 3)
        s["right"] = factor(c, cols, rank_r, batch=bt())
    if rank_r != rank or not c.chance(4):
        mode = "inv" if prop == "inv" and rank_r == rank else "gen"
        s["middle"] = factor(c, rank, rank_r, mode, batch=bt(), pool=False)
    return s


def diagonal(c, n, mode="gen", batch=None):
    batch = c.sub_batch() if batch is None else batch
    return {"k": "diag", "diag": c.leaf(batch, (n,), mode)}


def constant(c, rows, cols, mode="gen", batch=None):
    batch = c.sub_batch() if batch is None else batch
    how = c.int(0, 3)
    if how == 0 and mode in ("gen", "pos"):
        v = c.pick(1, 2, 0.5, 3) if mode == "pos" else c.pick(1, -2, 0.5, 0, -1.5)
        return {"k": "const", "const": {"k": "py", "v": v}, "shape": [*batch, rows, cols]}
    if how == 1:
        # Constant with an explicit batch shape, possibly broadcasted.
        return {
            "k": "const",
            "const": c.leaf(c.sub_batch(batch), (), mode),
            "shape": [*batch, rows, cols],
        }
    return {"k": "const", "const": c.leaf(batch, (), mode), "shape": [rows, cols]}


def kron(c, rows, cols, prop="gen", depth=1):
    """A Kronecker product of the given size."""
    lr = c.pick(*[d for d in range(1, rows + 1) if rows % d == 0])
    lc = (
        lr
        if prop != "gen"
        else c.pick(*[d for d in range(1, cols + 1) if cols % d == 0])
    )
    kinds = ["dense", "diag", "num", "dense", "diag"]
    if c.nested and depth > 0:
        kinds += ["lt", "ut", "const", "zero", "lr", "wb", "kron"]
    return {
        "k": "kron",
        "left": matrix(c, lr, lc, kinds, prop, depth - 1),
        "right": matrix(c, rows // lr, cols // lc, kinds, prop, depth - 1),
    }


INVERTIBLE = ("dense", "num", "diag", "wb", "kron")


def matrix(c, rows, cols, kinds=GEN_KINDS, prop="gen", depth=1, kind=None):
    """A matrix of the given size and with the given property.

    Args:
        prop (str): `gen` (anything), `pd` (symmetric positive definite), `inv`
            (invertible), or `nonneg` (non-negative entries).
    """
    if depth > 0 and c.made:
        # Sometimes use a matrix once more.
        if kind is None and prop in ("pd", "inv"):
            kinds = [k for k in kinds if k in INVERTIBLE]
        same = [
            s
            for (key, s) in c.made
            if key == (rows, cols, prop, c.batch) and s_kind(s) in (kinds if kind is None else [kind])
        ]
        if same and c.chance(10):
            c.reused = True
            return copy.deepcopy(c.pick(*same))
    s = _matrix(c, rows, cols, kinds, prop, depth, kind)
    if depth > 0 and len(c.made) < 12:
        c.made.append(((rows, cols, prop, c.batch), s))
    return s


def s_kind(s):
    return "num" if s["k"] in ("arr", "cols", "py") else s["k"]


def _matrix(c, rows, cols, kinds, prop, depth, kind):
    if kind is None:
        ok = [k for k in kinds if rows == cols or k not in SQUARE_ONLY]
        if prop in ("pd", "inv"):
            ok = [k for k in ok if k in INVERTIBLE]
        elif prop == "nonneg":
            ok = list(ok)
        kind = c.pick(*(ok or ["dense"]))
    mode = {"gen": "gen", "pd": "pd", "inv": "inv", "nonneg": "nonneg"}[prop]
    vmode = {"gen": "gen", "pd": "pos", "inv": "nz", "nonneg": "nonneg"}[prop]
    if kind == "zero":
        dt = c.dtype()
        s = {"k": "zero", "shape": [*c.sub_batch(), rows, cols]}
        if dt != "f8":
            s["dtype"] = dt
        return s
    if kind == "dense":
        return {"k": "dense", "mat": c.leaf(c.sub_batch(), (rows, cols), mode)}
    if kind == "num":
        return c.leaf(c.sub_batch(), (rows, cols), mode)
    if kind == "diag":
        return diagonal(c, rows, vmode)
    if kind == "const":
        return constant(c, rows, cols, vmode)
    if kind in ("lt", "ut"):
        tmode = {"gen": "gen", "inv": "tri", "pd": "trip", "nonneg": "nonneg"}[prop]
        return {
            "k": kind,
            "mat": c.leaf(c.sub_batch(), (rows, cols), tmode, tri=kind[0]),
        }
    if kind == "lr":
        return lowrank(c, rows, cols, "psd" if prop == "pd" else prop)
    if kind == "wb":
        if prop == "pd":
            return {"k": "wb", "diag": diagonal(c, rows, "pos"), "lr": lowrank(c, rows, rows, "psd")}
        return {"k": "wb", "diag": diagonal(c, rows, vmode), "lr": lowrank(c, rows, cols, prop)}
    if kind == "kron":
        return kron(c, rows, cols, prop, depth)
    raise ValueError(kind)


def tiled(c, kinds=("dense", "num", "diag", "const", "lr", "zero", "lt", "kron")):
    """Concatenation of tiled blocks along any axis."""
    kinds = list(kinds)
    how = c.int(0, 5)
    n = c.int(1, 3)
    blocks = []
    if how <= 1 or not c.batch:
        axis, other = (-2, c.dim(False)) if c.chance(2) else (-1, c.dim(False))
        for _ in range(n):
            k = c.pick(other, c.dim(False))
            rc = (k, other) if axis == -2 else (other, k)
            blocks.append([matrix(c, *rc, kinds, depth=0), c.int(1, 3)])
        # The blocks may all have fewer batch dimensions.
        rank = max(len(_shape(b)) for b, _ in blocks)
    else:
        full = c.batch
        j = c.int(1, len(full))  # Axis from the right over the batch dimensions.
        axis = -2 - j
        rows, cols = c.dim(False), c.dim(False)
        for _ in range(n):
            bt = list(c.sub_batch(full))
            if len(bt) >= j:
                bt[len(bt) - j] = c.int(1, 3)
            save, c.batch = c.batch, tuple(bt)
            # All batch dimensions are needed: use kinds with one explicit batch.
            kind = c.pick("dense", "num", "diag" if rows == cols else "dense", "zero")
            if kind == "zero":
                b = {"k": "zero", "shape": [*bt, rows, cols]}
            elif kind == "diag":
                b = diagonal(c, rows, batch=tuple(bt))
            else:
                b = c.leaf(tuple(bt), (rows, cols))
                b = {"k": "dense", "mat": b} if kind == "dense" else b
            c.batch = save
            blocks.append([b, c.int(1, 3)])
        rank = max(len(_shape(b)) for b, _ in blocks)
        if rank < -axis:
            axis = -2
            blocks = [[b, r] for b, r in blocks]
    if c.chance(3):
        axis = axis + rank
    return {"k": "tb", "blocks": blocks, "axis": axis}


def _shape(s):
    from . import specs

    return specs.shape_of(s)
