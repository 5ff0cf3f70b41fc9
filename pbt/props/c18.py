"""C18: the textual form of a matrix shows what the matrix is."""

import re

import numpy as np
import wbml.out

from .. import gen, ops, specs
from .. import structure as S
from ..boot import B, matrix
from ..compare import to_np
from ..core import Trace

ID = "C18"
N_QUICK = 24000
RULE = (
    "Matrices of all types, nested in any way, of all sizes, batch shapes, and data types, and results of one operation on one or two of those; the header is compared with the type, the shape, the data type, and "
    "the rank, and the rest with the parts, indented below each other. Non-trivial: the matrix has parts, or is the result of an operation."
)
KINDS = ["zero", "dense", "diag", "const", "lt", "ut", "lr", "wb", "kron"]
NAMES = {
    "Zero": "zero matrix",
    "Dense": "dense matrix",
    "Diagonal": "diagonal matrix",
    "Constant": "constant matrix",
    "LowerTriangular": "lower-triangular matrix",
    "UpperTriangular": "upper-triangular matrix",
    "LowRank": "low-rank matrix",
    "Woodbury": "Woodbury matrix",
    "Kronecker": "Kronecker product",
    "TiledBlocks": "tile of blocks",
}
PARTS = {
    "Zero": [],
    "Dense": ["mat"],
    "Diagonal": ["diag"],
    "Constant": ["const"],
    "LowerTriangular": ["mat"],
    "UpperTriangular": ["mat"],
    "LowRank": ["left", "middle", "right"],
    "Woodbury": ["diag", "lr"],
    "Kronecker": ["left", "right"],
}


def _gen(c):
    how = c.int(0, 5)
    if how == 5:
        return {"un": S.gen_un(c, False)} if c.chance(2) else {"bin": S.gen_bin(c, False)}
    c.setup(exps=False)
    rows, cols = ops.pair_shapes(c, False)
    if how == 4:
        blocks = [gen.matrix(c, c.int(1, 3), cols, [k for k in KINDS if k not in S.SQUARE]) for _ in range(c.int(1, 3))]
        return {"tiled": [[b, c.int(1, 3)] for b in blocks]}
    s = gen.matrix(c, rows, cols, [k for k in KINDS if rows == cols or k not in S.SQUARE])
    return {"x": s}


def _tuple(xs):
    return str(tuple(int(x) for x in xs))


def _dtype(dtype):
    return dtype.__name__ if dtype in (int, float, bool) and isinstance(dtype, type) else np.dtype(dtype).name


def _header(name, shape, dtype, extra=""):
    return f"<{NAMES[name]}: batch={_tuple(shape[:-2])}, shape={_tuple(shape[-2:])},{extra} dtype={_dtype(dtype)}"


def _below(label, text):
    """The textual form of a part, with further lines below the first one."""
    pad = " " * (len(label) + 2)
    return f"\n {label}=" + text.strip().replace("\n", "\n" + pad)


def _expected(s, x, deep=True):
    """Expected string and representation of an object that was built from a specification."""
    if not isinstance(x, matrix.AbstractMatrix):
        return None, wbml.out.format(x, False)
    name = type(x).__name__
    shape = specs.ref(s).val.shape
    head = _header(name, shape, x.dtype)
    parts = [p for p in PARTS[name] if p in s]
    if name == "LowRank":
        sizes = [specs.shape_of(s["left"])[-1]]
        if isinstance(s.get("right"), dict):
            sizes.append(specs.shape_of(s["right"])[-1])
        head += f", rank={min(sizes)}"
        parts = [p for p in PARTS[name] if s.get(p) is not None]
    out = head
    for p in parts:
        part = s[p] if isinstance(s[p], dict) else s["left"]
        out += _below(p, _expected(part, getattr(x, p))[1])
    return head + ">", out + ">"


def _run(case, t):
    if "x" in case:
        x = ops.make(t, case["x"])
        what = specs.describe(case["x"])
        with t.sut(f"text of {what}"):
            got = str(x), repr(x)
        # White space at the end of a line cannot be seen.
        got, want = [tuple(map(_trim, q)) for q in (got, _expected(case["x"], x))]
        t.tag(f"kind:{case['x']['k']}")
        t.require(got[0] == want[0], lambda: f"{what}: the string is {got[0]!r}, not {want[0]!r}")
        t.require(got[1] == want[1], lambda: f"{what}: the representation is {got[1]!r}, not {want[1]!r}")
        if case["x"]["k"] == "zero":
            t.trivial()
        return
    if "tiled" in case:
        blocks = [(ops.make(t, s), r) for s, r in case["tiled"]]
        what = "tiled blocks " + ", ".join(f"{specs.describe(s)} x {r}" for s, r in case["tiled"])
        with t.sut(f"text of {what}"):
            x = matrix.TiledBlocks(*blocks)
            got = str(x), repr(x)
            shape = to_np(x).shape
        want = _header("TiledBlocks", shape, x.dtype, " axis=-2,") + ">"
        t.tag("kind:tiled")
        t.require(got[0] == want, lambda: f"{what}: the string is {got[0]!r}, not {want!r}")
        flat = _flat(got[1])
        t.require(flat.startswith(_flat(want)[:-1]), lambda: f"{what}: the representation is {got[1]!r}")
        at = 0
        for b, r in blocks:
            at = flat.find(f"<block:reps={r}", at)
            t.require(at >= 0, lambda: f"{what}: {r} repetitions are not shown")
            at = flat.find(_flat(repr(b)), at)
            t.require(at >= 0, lambda: f"{what}: a block is not shown")
        return
    try:
        # Other checks look at the result itself.
        out = S.run_un(case["un"], Trace()) if "un" in case else S.run_bin(case["bin"], Trace())
    except Exception:
        return t.trivial()
    if out is None or not isinstance(out[2], matrix.AbstractMatrix):
        return t.trivial()
    what, x = f"result of {out[1]}", out[2]
    name = type(x).__name__
    t.tag(f"result:{name}")
    with t.sut(f"text of the {what}"):
        got = str(x), repr(x)
        shape = to_np(x).shape
    head = _header(name, shape, x.dtype, f" axis={x.axis}," if name == "TiledBlocks" else "")
    if name == "LowRank":
        head += f", rank={x.rank}"
    t.require(got[0] == head + ">", lambda: f"{what}: the string is {got[0]!r}, not {head + '>'!r}")
    t.require(got[1].startswith(head) and got[1].endswith(">"), lambda: f"{what}: the representation is {got[1]!r}")
    flat = _flat(got[1])
    for p in PARTS.get(name, []):
        part = getattr(x, p)
        text = repr(part) if isinstance(part, matrix.AbstractMatrix) else wbml.out.format(part, False)
        shown = f"{p}=" + _flat(text) in flat
        # Factors with default values are not shown.
        may_hide = name == "LowRank" and p != "left" and f"{p}=" not in flat.replace(_flat(repr(x.left)), "")
        t.require(shown or may_hide, lambda: f"{what}: {p} is not shown in {got[1]!r}")


def _trim(text):
    return "\n".join(line.rstrip() for line in text.split("\n"))


def _flat(text):
    return re.sub(r"\s+", "", text)


def describe(case):
    if "x" in case:
        return specs.describe(case["x"])
    if "tiled" in case:
        return "tiled " + ", ".join(specs.describe(s) for s, _ in case["tiled"])
    return S.describe(case.get("un") or case["bin"])


FAMILIES = {"text": (1, _gen, _run)}
