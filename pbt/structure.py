"""What structure operations keep, and when they must say that they lose it.

The tables give, for every operation and every pair of kinds of operands, the kind of the result, with
a `!` if the operands are converted to dense, of which the user must be warned, and a `?` if
whether there is a warning depends on the parts of the operands. A `.` means that the operation is not defined or not considered.
"""

import warnings

import numpy as np

from . import gen, ops, specs
from .boot import B, ToDenseWarning, matrix

COLS = "zero dense num diag const scal lt ut lr wb kron".split()

TEXT = {
    "add": """
  zero     Z     De    De    Di    C     C     L     U     LR    W     K
  dense    De    De    De    De    De    De    De    De    De    De    De
  num      De    De    .     De    De    .     De    De    De    De    De
  diag     Di    De    De    Di    W     W     L     U     W     W     De!
  const    C     De    De    W     C     C     De!   De!   LR?   W?    De!
  scal     C     De    .     W     C     .     De!   De!   LR?   W?    De!
  lt       L     De    De    L     De!   De!   L     De    De!   De!   De!
  ut       U     De    De    U     De!   De!   De    U     De!   De!   De!
  lr       LR    De    De    W     LR?   LR?   De!   De!   LR    W     De!
  wb       W     De    De    W     W?    W?    De!   De!   W     W     De!
  kron     K     De    De    De!   De!   De!   De!   De!   De!   De!   De!""",
    "mul": """
  zero     Z     Z     Z     Z     Z     Z     Z     Z     Z     Z     Z
  dense    Z     De    De    Di    De    De    L     U     De!   De!   De!
  num      Z     De    .     Di    De    .     L     U     De!   De!   De!
  diag     Z     Di    Di    Di    Di    Di    Di    Di    Di    Di    Di
  const    Z     De    De    Di    C     C     L     U     LR    W     K
  scal     Z     De    .     Di    C     .     L     U     LR    W     K
  lt       Z     L     L     Di    L     L     L     Di    L     L     L
  ut       Z     U     U     Di    U     U     Di    U     U     U     U
  lr       Z     De!   De!   Di    LR    LR    L     U     LR    W     De!
  wb       Z     De!   De!   Di    W     W     L     U     W     W     De!
  kron     Z     De!   De!   Di    K     K     L     U     De!   De!   K""",
    "mm": """
  zero     Z     Z     Z     Z     Z     .     Z     Z     Z     Z     Z
  dense    Z     De    De    De    LR    .     De    De    LR    De    De
  num      Z     De    .     De    LR    .     De    De    LR    De    De
  diag     Z     De    De    Di    LR    .     L     U     LR    W     De!
  const    Z     LR    LR    LR    C     .     LR    LR    LR    LR?   LR
  scal     .     .     .     .     .     .     .     .     .     .     .
  lt       Z     De    De    L     LR    .     L     De!   LR    De!   De!
  ut       Z     De    De    U     LR    .     De!   U     LR    De!   De!
  lr       Z     LR    LR    LR    LR    .     LR    LR    LR    LR?   LR
  wb       Z     De    De    W     LR?   .     De!   De!   LR?   W?    De!
  kron     Z     De    De    De!   LR    .     De!   De!   LR    De!   K""",
    "div": """
  zero     .     De!   De!   .     Z     Z     .     .     De!   De!   De!
  dense    .     De    De    .     De    De    .     .     De!   De!   De!
  num      .     De    .     .     De    .     .     .     De!   De!   De!
  diag     .     De!   De!   .     Di    Di    .     .     De!   De!   De!
  const    .     De!   De!   .     C     C     .     .     De!   De!   De!
  scal     .     De!   .     .     C     .     .     .     De!   De!   De!
  lt       .     De!   De!   .     L     L     .     .     De!   De!   De!
  ut       .     De!   De!   .     U     U     .     .     De!   De!   De!
  lr       .     De!   De!   .     LR    LR    .     .     De!   De!   De!
  wb       .     De!   De!   .     W     W     .     .     De!   De!   De!
  kron     .     De!   De!   .     K     K     .     .     De!   De!   De!""",
    "solve": """
  zero     .     .     .     .     .     .     .     .     .     .     .
  dense    .     A     A     A!    A!    .     A!    A!    A!    A!    A!
  num      .     A     .     A!    A!    .     A!    A!    A!    A!    A!
  diag     .     De    De    Di    LR    .     L     U     LR    W     De!
  const    .     .     .     .     .     .     .     .     .     .     .
  scal     .     .     .     .     .     .     .     .     .     .     .
  lt       .     De    De    De!   De!   .     De!   De!   De!   De!   De!
  ut       .     De    De    De!   De!   .     De!   De!   De!   De!   De!
  lr       .     .     .     .     .     .     .     .     .     .     .
  wb       .     De    De    W     LR?   .     De!   De!   LR?   W?    De!
  kron     .     A!    A!    A!    A!    .     A!    A!    A!    A!    A!""",
    "kron": """
  zero     Z     Z     Z     Z     Z     .     Z     Z     Z     Z     Z
  dense    Z     K     K     K     K     .     K     K     K     K     K
  num      Z     K     .     K     K     .     K     K     K     K     K
  diag     Z     K     K     K     K     .     K     K     K     K     K
  const    Z     K     K     K     C     .     K     K     K     K     K
  scal     .     .     .     .     .     .     .     .     .     .     .
  lt       Z     K     K     K     K     .     K     K     K     K     K
  ut       Z     K     K     K     K     .     K     K     K     K     K
  lr       Z     K     K     K     K     .     K     K     K     K     K
  wb       Z     K     K     K     K     .     K     K     K     K     K
  kron     Z     K     K     K     K     .     K     K     K     K     K""",
    "mm_diag": """
  zero     A     A     A     A     A     .     A     A     A     A     A
  dense    A     A     A     A     A     .     A     A     A!    A!    A!
  num      A     A     .     A     A     .     A     A     A!    A!    A!
  diag     A     A     A     A     A     .     A     A     A     A     A
  const    A     A     A     A     A     .     A     A     A     A     A
  scal     .     .     .     .     .     .     .     .     .     .     .
  lt       A     A     A     A     A     .     A     A     A     A     A
  ut       A     A     A     A     A     .     A     A     A     A     A
  lr       A     A!    A!    A     A     .     A     A     A     A     A!
  wb       A     A!    A!    A     A     .     A     A     A     A     A!
  kron     A     A!    A!    A     A     .     A     A     A!    A!    A""",
}

UN_COLS = "zero dense diag const lt ut lr wb kron".split()
UN_TEXT = """
     neg   Z      De      Di       C       L       U      LR       W       K
       T   Z      De      Di       C       U       L      LR       W       K
     abs   Z      De      Di       C       L       U     De!     De!       K
    sqrt   Z      De      Di       C       L       U     De!     De!       K
     pow   Z      De      Di       C       L       U     De!     De!       K
    cast   Z      De      Di       C       L       U      LR       W       K
   isnan  A!       A      A!      A!      A!      A!      A!      A!      A!
     sum   A       A       A       A       A       A       A       A       A
   sum-1   A       A       A       A       A       A       A       A       A
   sum-2   A       A       A       A       A       A       A       A       A
    mean   A       A       A       A       A       A       A       A       A
   trace   A       A       A       A       A       A       A       A       A
    diag   A       A       A       A       A       A       A       A       A
    take   Z      De     De!       C      De      De      LR     De!     De!
   take1   Z      De     De!       C      De      De      LR     De!     De!
   takeb   Z      De      Di       C       L       U      LR       W       K
     sub   Z      De      Di       C       L       U      LR       W     De!
    item  A!       A      A!      A!      A!      A!      A!      A!      A!
    resh  A!       A      A!      A!      A!      A!      A!      A!      A!
    sque  A!       A      A!      A!      A!      A!      A!      A!      A!
     bcb   Z      De      Di       C       L       U      LR       W       K
     bct   Z      De      Di       C       L       U      LR       W       K
    tile   Z      De     De!       C     De!     De!     De!     De!     De!
    ones   C       C       C       C       C       C       C       C       C
   zeros   Z       Z       Z       Z       Z       Z       Z       Z       Z
     eye  Di      Di      Di      Di      Di      Di      Di      Di      Di
     inv   .      De      Di       .       .       .       .       W       K
   pdinv   .      De      Di       .       .       .       .       W       K
    chol   Z       L      Di       C       .       .       .      L!       K
    root   Z      De      Di       C       .       .     De!     De!       K
   dense   A       A       A       A       A       A       A       A       A
   scale   Z      De      Di       C       L       U      LR       W       K
    divs   Z      De      Di       C       L       U      LR       W       K
  uprank   Z      De      Di       C       L       U      LR       W       K
   promo   Z      De      Di       C       L       U      LR       W       K
"""
FULL = {
    "Z": ("Zero",),
    "De": ("Dense",),
    "Di": ("Diagonal",),
    "C": ("Constant",),
    "L": ("LowerTriangular",),
    "U": ("UpperTriangular",),
    # Low-rank parts may cancel.
    "LR": ("LowRank", "Zero"),
    "W": ("Woodbury", "Diagonal"),
    "K": ("Kronecker",),
    "A": ("ndarray", "float64", "float32", "int64", "float", "int"),
}
KIND = {
    "Zero": "zero",
    "Dense": "dense",
    "Diagonal": "diag",
    "Constant": "const",
    "LowerTriangular": "lt",
    "UpperTriangular": "ut",
    "LowRank": "lr",
    "Woodbury": "wb",
    "Kronecker": "kron",
    "TiledBlocks": "tb",
}

MATRICES = ("Dense", *[k for k in KIND if k != "Dense"])


def _parse(text, cols):
    out = {}
    for line in text.strip().split("\n"):
        name, *cells = line.split()
        assert len(cells) == len(cols), line
        for c, v in zip(cols, cells):
            out[name, c] = v
    return out


BIN = {k: _parse(v, COLS) for k, v in TEXT.items()}
BIN["sub"] = BIN["add"]
UN = _parse(UN_TEXT, UN_COLS)
UN_OPS = list(dict.fromkeys(k for k, _ in UN))


def _mean(x):
    return B.mean(x)


F_BIN = {
    "add": B.add,
    "sub": B.subtract,
    "mul": B.multiply,
    "mm": B.matmul,
    "div": B.divide,
    "solve": B.solve,
    "kron": B.kron,
    "mm_diag": B.matmul_diag,
}


def apply_un(op, x, arg=None):
    n = B.shape_matrix(x)
    if op == "neg":
        return -x
    if op == "T":
        return x.T
    if op == "abs":
        return B.abs(x)
    if op == "sqrt":
        return B.sqrt(x)
    if op == "pow":
        return x ** arg
    if op == "cast":
        return B.cast(arg, x)
    if op == "isnan":
        return B.isnan(x)
    if op == "sum":
        return B.sum(x)
    if op == "sum-1":
        return B.sum(x, axis=-1)
    if op == "sum-2":
        return B.sum(x, axis=-2)
    if op == "mean":
        return B.mean(x)
    if op == "trace":
        return B.trace(x)
    if op == "diag":
        return B.diag_extract(x)
    if op == "take":
        return B.take(x, arg, axis=-2)
    if op == "take1":
        return B.take(x, arg, axis=-1)
    if op == "takeb":
        return B.take(x, arg, axis=0)
    if op == "sub":
        return B.submatrix(x, arg)
    if op == "item":
        return x[..., 0, :]
    if op == "resh":
        return B.reshape(x, -1)
    if op == "sque":
        return B.squeeze(x)
    if op == "bcb":
        return B.broadcast_batch_to(x, *arg, *B.shape_batch(x))
    if op == "bct":
        return B.broadcast_to(x, *arg, *B.shape(x))
    if op == "tile":
        return B.tile(x, *arg)
    if op == "ones":
        return B.ones(x)
    if op == "zeros":
        return B.zeros(x)
    if op == "eye":
        return B.eye(x)
    if op == "inv":
        return B.inv(x)
    if op == "pdinv":
        return B.pd_inv(x)
    if op == "chol":
        return B.cholesky(x)
    if op == "root":
        return B.root(x)
    if op == "dense":
        return B.dense(x)
    if op == "scale":
        return 2.5 * x
    if op == "divs":
        return x / 2.5
    if op == "uprank":
        return B.uprank(x)
    if op == "promo":
        return x + 0
    raise ValueError(op)


def recorded(f, *args, **kw):
    """Call a function and count the warnings about conversions to dense."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = f(*args, **kw)
    return res, [str(x.message) for x in w if issubclass(x.category, ToDenseWarning)]


def plain(s):
    """Does a specification consist of numeric or dense parts only, so that nothing but the matrix
    itself can be converted to dense?"""
    k = s["k"]
    if k == "lr":
        parts = [s["left"], s.get("right"), s.get("middle")]
        return s.get("middle") is not None and all(
            p is None or p == "left" or p["k"] in ("dense", "arr", "cols") for p in parts
        )
    if k == "wb":
        return plain(s["lr"])
    if k == "kron":
        return all(p["k"] in ("dense", "arr") for p in (s["left"], s["right"]))
    return True


def uneven(s):
    """Is a Kronecker product one of factors that are not square, so that its diagonal isn't
    made up of the diagonals of the factors?"""
    if s["k"] != "kron":
        return False
    if any(uneven(p) for p in (s["left"], s["right"])):
        return True
    shapes = [specs.shape_of(p)[-2:] for p in (s["left"], s["right"])]
    return any(rows != cols for rows, cols in shapes)


def plain_lr(c, rows, cols, prop="gen", rank=None):
    """A low-rank matrix with numeric factors only."""
    rank = rank or c.int(1, 3)

    def factor(r, k, mode="gen"):
        leaf = c.leaf(c.sub_batch(), (r, k), mode)
        return leaf if c.chance(3) else {"k": "dense", "mat": leaf}

    s = {"k": "lr", "left": factor(rows, rank)}
    rank_r = rank
    if prop == "psd":
        s["middle"] = factor(rank, rank, "pd")
        return s
    if rows != cols or not c.chance(3):
        rank_r = rank if prop == "inv" or c.chance(2) else c.int(1, 3)
        s["right"] = factor(cols, rank_r)
    s["middle"] = factor(rank, rank_r, "inv" if prop == "inv" else "gen")
    return s


def operand(c, rows, cols, kind, prop="gen", simple=False):
    if kind == "scal":
        return {"k": "py", "v": c.pick(2.5, 1, -2, 0.5)} if c.chance(2) else c.leaf((), (), "nz")
    lrprop = {"pd": "psd"}.get(prop, prop)
    if simple and kind == "lr":
        return plain_lr(c, rows, cols, lrprop)
    if simple and kind == "wb":
        mode = {"gen": "gen", "pd": "pos", "inv": "nz"}[prop]
        return {"k": "wb", "diag": gen.diagonal(c, rows, mode), "lr": plain_lr(c, rows, cols, lrprop)}
    if kind == "kron" and (simple or prop != "gen"):
        l = c.pick(*[d for d in range(1, rows + 1) if rows % d == 0])
        k = l if rows == cols else c.pick(*[d for d in range(1, cols + 1) if cols % d == 0])
        return kron_of(c, l, k, rows // l, cols // k, prop)
    if kind in ("lt", "ut") and prop == "gen":
        return gen.matrix(c, rows, cols, kind=kind, prop=c.pick("gen", "inv"))
    return gen.matrix(c, rows, cols, kind=kind, prop=prop)


def kron_of(c, lr, lc, rr, rc, prop="gen"):
    mode = {"gen": "gen", "pd": "pd", "inv": "inv"}[prop]
    f = lambda r, k: {"k": "dense", "mat": c.leaf(c.sub_batch(), (r, k), mode)}  # noqa
    return {"k": "kron", "left": f(lr, lc), "right": f(rr, rc)}


SQUARE = {"diag", "lt", "ut", "wb"}


def kind_of(s):
    k = s["k"]
    if k == "py":
        return "scal"
    if k in ("arr", "cols"):
        return "scal" if specs.shape_of_leaf(s) == () else "num"
    return k


def gen_bin(c, simple):
    c.setup(exps=False)
    op = c.pick("add", "add", "sub", "mul", "mul", "mm", "mm", "mm", "div", "solve", "kron", "mm_diag")
    cells = [k for k, v in BIN[op].items() if v != "."]
    ka, kb = c.pick(*cells)
    simple = simple and not c.chance(4)
    tr = [False, False]
    prop = ["gen", "gen"]
    if op == "div":
        # Only division by what is certainly not zero.
        cells = [(a, b) for a, b in cells if b in ("scal", "const", "dense", "num")]
        ka, kb = c.pick(*cells)
    if op == "solve":
        prop[0] = "inv"
    square = bool({ka, kb} & SQUARE) or op == "solve" or c.chance(2)
    n = c.dim(False)
    if op == "mm" or op == "mm_diag":
        tr = [c.chance(3), c.chance(3)]
        dims = [n, n if square else c.dim(False), n if square else c.dim(False)]
        if op == "mm_diag":
            dims[2] = dims[0]
        if ka in SQUARE:
            dims[1] = dims[0]
        if kb in SQUARE:
            dims[2] = dims[1]
            if op == "mm_diag":
                dims[1] = dims[2] = dims[0]
        sa, sb = dims[:2], dims[1:]
        sa = sa[::-1] if tr[0] else sa
        sb = sb[::-1] if tr[1] else sb
    elif op == "kron":
        sa = [n, n] if ka in SQUARE else [n, c.dim(False)]
        n = c.dim(False)
        sb = [n, n] if kb in SQUARE else [n, c.dim(False)]
    elif op == "solve":
        sa, sb = [n, n], [n, n if kb in SQUARE else c.dim(False)]
    else:
        sa = [n, n if square else c.dim(False)]
        sb = sa
    if op in ("mul", "mm", "mm_diag") and ka == kb == "kron":
        # The factors must fit.
        d = [[c.int(1, 3) for _ in range(3)] for _ in range(2)]
        if op == "mm_diag":
            d = [[q[0], q[1], q[0]] for q in d]
        if op == "mul":
            a = b = [d[0][0], d[0][1], d[1][0], d[1][1]]
        else:
            a = [d[0][0], d[0][1], d[1][0], d[1][1]]
            b = [d[0][1], d[0][2], d[1][1], d[1][2]]
        flip = lambda q, t: [q[1], q[0], q[3], q[2]] if t else q  # noqa
        return {"op": op, "xs": [kron_of(c, *flip(a, tr[0])), kron_of(c, *flip(b, tr[1]))], "tr": tr}
    a = operand(c, *sa, ka, prop[0], simple)
    if op == "div":
        b = _nonzero(c, *sb, kb)
    else:
        b = operand(c, *sb, kb, prop[1], simple)
    if op == "solve" and ka in ("lt", "ut"):
        a = gen.matrix(c, *sa, kind=ka, prop="inv")
        a["mat"]["mode"] = "tri"
    return {"op": op, "xs": [a, b], "tr": tr}


def _nonzero(c, rows, cols, kind):
    if kind == "scal":
        return {"k": "py", "v": c.pick(2.5, 1.0, -2, 0.5)}
    if kind == "const":
        return {"k": "const", "const": c.leaf(c.sub_batch(), (), "nz"), "shape": [rows, cols]}
    leaf = c.leaf(c.sub_batch(), (rows, cols), "nz")
    return leaf if kind == "num" else {"k": "dense", "mat": leaf}


TR = {"lt": "ut", "ut": "lt"}


def run_bin(case, t):
    """Returns the cell, what was done, the result, and the warnings."""
    op, xs, tr = case["op"], case["xs"], case["tr"]
    kinds = [kind_of(s) for s in xs]
    if "num" in kinds and all(k in ("num", "scal") for k in kinds):
        t.trivial()
        return None
    eff = [TR.get(k, k) if f else k for k, f in zip(kinds, tr)]
    cell = BIN[op][eff[0], eff[1]]
    if op == "mm" and any(tr) and set(kinds) <= {"lt", "ut"} and kinds[0] != kinds[1]:
        # Transposition does not make them of the same type.
        cell = "De!"
    if cell == ".":
        t.trivial()
        return None
    what = f"{op}{tr if any(tr) else ''} of " + ", ".join(specs.describe(s) for s in xs)
    objs = [ops.make(t, s) for s in xs]
    kw = {}
    if any(tr):
        kw = {"tr_a": tr[0], "tr_b": tr[1]}
    with t.sut(what):
        try:
            res, warns = recorded(F_BIN[op], *objs, **kw)
        except np.linalg.LinAlgError:
            if op != "solve":
                raise
            # Happens to be singular.
            t.trivial()
            return None
    t.tag(f"{op}:{kinds[0]}:{kinds[1]}")
    if op in ("mul", "mm_diag") and "!" not in cell and any(uneven(s) for s in xs):
        cell += "?"
    return cell, what, res, warns


def gen_un(c, simple):
    c.setup(exps=False)
    op = c.pick(*UN_OPS)
    kinds = [k for o, k in UN if o == op and UN[o, k] != "."]
    kind = c.pick(*kinds)
    simple = simple and not c.chance(4)
    prop = "gen"
    arg = None
    square = op in ("sub", "eye", "inv", "pdinv", "chol", "root", "trace") or kind in SQUARE
    n = c.dim(False)
    rows, cols = (n, n) if square else (n, c.dim(False))
    if op == "inv":
        prop = "inv"
    elif op in ("pdinv", "chol", "root"):
        prop = "pd"
    elif op == "sqrt":
        prop = "nonneg"
    if op == "takeb" and not c.batch:
        c.batch = (2,)
    if prop == "nonneg":
        s = gen.matrix(c, rows, cols, kind=kind, prop="nonneg")
    elif op in ("chol", "root") and kind in ("zero", "const"):
        s = gen.matrix(c, rows, cols, kind=kind, prop="gen")
        if kind == "const":
            s = {"k": "const", "const": c.leaf(c.sub_batch(), (), "pos"), "shape": [rows, cols]}
    else:
        s = operand(c, rows, cols, kind, prop, simple)
    if op in ("take", "take1"):
        arg = [c.int(0, (rows if op == "take" else cols) - 1) for _ in range(c.int(1, 3))]
    elif op == "sub":
        arg = sorted(set(c.int(0, rows - 1) for _ in range(c.int(1, 3))))
    elif op == "pow":
        arg = c.pick(1, 2, 3)
    elif op == "cast":
        arg = c.pick("f4", "f8")
    elif op in ("bcb", "bct"):
        arg = [c.int(1, 3) for _ in range(c.int(0, 1))]
    elif op == "tile":
        arg = [c.int(1, 2) for _ in range(len(specs.shape_of(s)))]
    elif op == "takeb":
        b = specs.shape_of(s)[:-2]
        arg = [c.int(0, b[0] - 1) for _ in range(c.int(1, 2))] if b else None
    return {"op": op, "x": s, "arg": arg}


def run_un(case, t):
    op, s, arg = case["op"], case["x"], case["arg"]
    k = kind_of(s)
    if (op, k) not in UN or UN[op, k] == "." or (op == "takeb" and not arg):
        t.trivial()
        return None
    what = f"{op}({arg if arg is not None else ''}) of {specs.describe(s)}"
    x = ops.make(t, s)
    if op == "cast":
        arg = specs.DTYPES[arg]
    with t.sut(what):
        try:
            res, warns = recorded(apply_un, op, x, arg)
        except np.linalg.LinAlgError:
            if op != "inv":
                raise
            # Happens to be singular.
            t.trivial()
            return None
    t.tag(f"{op}:{k}")
    cell = UN[op, k]
    if op in ("diag", "trace") and uneven(s):
        cell += "?"
    return cell, what, res, warns


# Assembly -----------------------------------------------------------------------------


def gen_asm(c, simple):
    c.setup(exps=False)
    op = c.pick("block", "block", "block_diag", "block_diag", "concat", "tb_T", "tb_cast", "tb_concat", "tb_dense")
    if op in ("block", "block_diag"):
        k = c.int(1, 3)
        sizes = [c.int(1, 3) for _ in range(k)]
        kinds = c.pick(["zero"], ["diag"], ["diag", "zero"], ["diag", "dense"], ["zero", "dense", "lt"])
        ds = [gen.matrix(c, n, n, kind=c.pick(*kinds)) for n in sizes]
        if op == "block_diag":
            return {"op": op, "xs": ds}
        rows = []
        stray = c.chance(5)
        for i in range(k):
            row = []
            for j in range(k):
                if i == j:
                    row.append(ds[i])
                else:
                    kind = c.pick("zero", "dense") if stray else "zero"
                    row.append(gen.matrix(c, sizes[i], sizes[j], kind=kind))
            rows.append(row)
        return {"op": op, "rows": rows}
    if op == "concat":
        rows = c.dim(False)
        full = c.batch
        xs = []
        k = c.int(1, 3)
        dense = 0
        if c.chance(4):
            # Many matrices, of which only the last ones may be structured.
            k = c.int(4, 6)
            dense = c.int(0, k)
        for i in range(k):
            kind = c.pick("dense", "dense", "zero", "lr", "const") if i >= dense else "dense"
            q = c.dim(False)
            if kind == "zero":
                xs.append({"k": "zero", "shape": [*full, rows, q]})
            elif kind == "const":
                xs.append({"k": "const", "const": c.leaf(full, ()), "shape": [rows, q]})
            elif kind == "lr":
                xs.append({"k": "lr", "left": c.leaf(full, (rows, 1)), "right": c.leaf(full, (q, 1))})
            else:
                xs.append({"k": "dense", "mat": c.leaf(full, (rows, q))})
        return {"op": op, "xs": xs}
    x = gen.tiled(c)
    return {"op": op, "x": x, "other": c.int(-2, -1)}


def _is(t, s, *kinds):
    return kind_of(s) in kinds


def run_asm(case, t):
    op = case["op"]
    if op in ("block", "block_diag"):
        grid = case["rows"] if op == "block" else None
        flat = [s for row in grid for s in row] if grid else case["xs"]
        n = len(grid) if grid else len(flat)
        what = f"{op} of " + str([[specs.describe(s) for s in r] for r in grid] if grid else [specs.describe(s) for s in flat])
        if grid:
            rows = [[ops.make(t, s) for s in r] for r in grid]
            with t.sut(what):
                res, warns = recorded(B.block, *rows)
            diag = [grid[i][i] for i in range(n)]
            off = [grid[i][j] for i in range(n) for j in range(n) if i != j]
        else:
            objs = [ops.make(t, s) for s in flat]
            with t.sut(what):
                res, warns = recorded(B.block_diag, *objs)
            diag, off = flat, []
        t.tag(f"{op}:" + "+".join(sorted({kind_of(s) for s in flat})))
        if n == 1:
            cell = {"zero": "Z", "diag": "Di", "dense": "De", "lt": "L"}[kind_of(flat[0])]
        elif all(kind_of(s) == "zero" for s in flat):
            cell = "Z"
        elif all(kind_of(s) == "zero" for s in off) and all(kind_of(s) == "diag" or (grid and kind_of(s) == "zero") for s in diag):
            cell = "Di"
        else:
            cell = "De!"
        return cell, what, res, warns
    if op == "concat":
        xs = case["xs"]
        what = "concat of " + ", ".join(specs.describe(s) for s in xs)
        objs = [ops.make(t, s) for s in xs]
        with t.sut(what):
            res, warns = recorded(B.concat, *objs, axis=-1)
        cell = "De" if all(kind_of(s) == "dense" for s in xs) else "De!"
        t.tag("concat:" + cell)
        return cell, what, res, warns
    s = case["x"]
    what = f"{op} of {specs.describe(s)}"
    x = ops.make(t, s)
    t.tag(op)
    if op == "tb_T":
        with t.sut(what):
            res, warns = recorded(lambda: x.T)
        return "TB", what, res, warns
    if op == "tb_cast":
        with t.sut(what):
            res, warns = recorded(B.cast, np.float32, x)
        return "TB", what, res, warns
    if op == "tb_concat":
        same = case["other"] == -1
        axis = x.axis if same else (-1 if x.axis not in (-1, len(x.shape) - 1) else -2)
        with t.sut(what):
            res, warns = recorded(B.concat, x, x, axis=axis)
        return ("TB" if same else "De!"), what, res, warns
    with t.sut(what):
        res, warns = recorded(B.dense, x)
    return "A?", what, res, warns


FULL["TB"] = ("TiledBlocks",)


# Chains -------------------------------------------------------------------------------

CHAIN_BIN = ["add", "sub", "mul", "mm"]
CHAIN_UN = ["neg", "T", "cast", "scale", "divs", "inv", "take", "abs", "bcb"]


def gen_chain(c):
    c.setup(exps=False, dtypes=False)
    n = c.dim(False)
    pool = [gen.matrix(c, n, n, [k for k in UN_COLS]) for _ in range(c.int(2, 3))]
    steps = []
    for i in range(c.int(2, 5)):
        m = len(pool) + i
        if c.chance(3):
            steps.append([c.pick("neg", "T", "scale", "divs"), c.int(max(0, m - 2), m - 1)])
        else:
            steps.append([c.pick(*CHAIN_BIN), c.int(max(0, m - 2), m - 1), c.int(0, m - 1)])
    return {"pool": pool, "steps": steps}


def run_chain(case, t, check):
    objs = [ops.make(t, s) for s in case["pool"]]
    log = [specs.describe(s) for s in case["pool"]]
    done = 0
    for op, *idx in case["steps"]:
        xs = [objs[i] for i in idx]
        kinds = [KIND[type(x).__name__] for x in xs]
        what = f"{op}{tuple(idx)} with {log}"
        if len(xs) == 2:
            cell = BIN[op][kinds[0], kinds[1]]
            if op in ("mul", "mm") and kinds == ["kron", "kron"] and not _kron_fits(op, *xs):
                objs.append(xs[0])
                log.append(f"#{idx[0]}")
                continue
            ranks = [_rank(x) for x in xs]
            if np.prod(ranks) > 40:
                objs.append(xs[0])
                log.append(f"#{idx[0]}")
                continue
            with t.sut(what):
                res, warns = recorded(F_BIN[op], *xs)
        else:
            cell = UN[op, kinds[0]]
            with t.sut(what):
                res, warns = recorded(apply_un, op, xs[0])
        check(t, cell, what, res, warns, False)
        done += 1
        t.tag(f"chain:{op}:" + ":".join(kinds))
        objs.append(res)
        log.append(f"{op}{tuple(idx)}")
    if done < 2:
        t.trivial()


def _rank(x):
    if isinstance(x, matrix.LowRank):
        return int(B.shape(x.left, -1))
    if isinstance(x, matrix.Woodbury):
        return _rank(x.lr)
    if isinstance(x, matrix.Kronecker):
        return _rank(x.left) * _rank(x.right)
    return 1


def _kron_fits(op, a, b):
    """Whether two Kronecker products compose factor by factor, at every level."""
    if isinstance(a, matrix.Kronecker) and isinstance(b, matrix.Kronecker):
        for p, q in ((a.left, b.left), (a.right, b.right)):
            sp, sq = B.shape_matrix(p), B.shape_matrix(q)
            if (sp != sq) if op == "mul" else (sp[1] != sq[0]):
                return False
            if not _kron_fits(op, p, q):
                return False
    return True


def describe(case):
    if "steps" in case:
        return f"{case['f']}: {[specs.describe(s) for s in case['pool']]}, {case['steps']}"
    if "rows" in case:
        return f"{case['op']}: {[[specs.describe(s) for s in r] for r in case['rows']]}"
    xs = case.get("xs") or [case["x"]]
    return f"{case['op']}({case.get('arg') or case.get('tr') or ''}): " + ", ".join(specs.describe(s) for s in xs)
