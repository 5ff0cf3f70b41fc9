"""C15: users are warned exactly when structure is lost."""

from .. import gen, ops, specs
from .. import structure as S
from ..boot import B

ID = "C15"
N_QUICK = 36000
RULE = (
    "One operation on matrices of any kinds that it supports: whether a warning is given, against a table of the operations that convert a structured "
    "operand to dense; for sums, products, and diagonals of low-rank matrices also whether structured factors are converted. That no warning is given is required if all factors of the operands are numeric or dense. Non-trivial: at least one structured operand."
)


def _wrap(run):
    def go(case, t):
        out = run(case, t)
        if out is None:
            return
        cell, what, res, warns = out
        if cell.endswith("?"):
            return t.trivial()
        if cell.endswith("!"):
            t.tag("must warn")
            t.require(bool(warns), f"{what}: structure is lost without a warning")
            return
        specs_ = case.get("xs") or ([s for r in case["rows"] for s in r] if "rows" in case else [case["x"]])
        if not all(S.plain(s) for s in specs_):
            return t.trivial()
        t.tag("must not warn")
        t.require(not warns, lambda: f"{what}: a warning without loss of structure: {warns[0][:200]!r}")

    return go


def _side(c, rows, rank):
    if rows == rank and c.chance(2):
        return gen.matrix(c, rows, rank, kind=c.pick("diag", "diag", "lt", "ut", "const"))
    return gen.matrix(c, rows, rank, kind=c.pick("dense", "dense", "const")) if c.chance(3) else {"k": "dense", "mat": c.leaf(c.sub_batch(), (rows, rank))}


def _gen_factor(c):
    """Operations on low-rank matrices, possibly with structured factors."""
    c.setup(exps=False)
    op = c.pick("add", "sub", "mul", "diag", "mm_diag")
    rows, cols = c.int(1, 4), c.int(1, 4)
    if c.chance(2):
        cols = rows

    def lr(rows, cols):
        rank = c.pick(rows, cols, c.int(1, 3))
        s = {"k": "lr", "left": _side(c, rows, rank)}
        if rows != cols or c.chance(2):
            s["right"] = _side(c, cols, rank)
        if c.chance(2):
            s["middle"] = {"k": "dense", "mat": c.leaf(c.sub_batch(), (rank, rank))}
        return s

    if op == "diag":
        return {"op": op, "x": lr(rows, cols)}
    return {"op": op, "xs": [lr(rows, cols), lr(cols, rows) if op == "mm_diag" else lr(rows, cols)]}


def _run_factor(case, t):
    op = case["op"]
    xs = [case["x"]] if op == "diag" else case["xs"]
    what = f"{op} of " + ", ".join(specs.describe(s) for s in xs)
    objs = [ops.make(t, s) for s in xs]
    with t.sut(what):
        if op == "diag":
            _, warns = S.recorded(B.diag, *objs)
        else:
            _, warns = S.recorded(S.F_BIN[op], *objs)
    structured = [side for s in xs for side in ("left", "right") if isinstance(s.get(side), dict) and s[side]["k"] != "dense"]
    if op == "mm_diag":
        # The inner factors are multiplied as matrices.
        outer = [xs[0]["left"], xs[1].get("right", xs[1]["left"])]
        structured = [f for f in outer if f["k"] != "dense"]
    t.tag(f"{op}:{'structured' if structured else 'dense'} factors")
    if structured:
        t.require(bool(warns), f"{what}: a structured factor is converted without a warning")
    elif all(f["k"] == "dense" for s in xs for f in (s["left"], s.get("right", s["left"]))) and (op == "mul" or all("middle" in s for s in xs)):
        t.require(not warns, lambda: f"{what}: a warning without loss of structure: {warns[0][:200]!r}")


FAMILIES = {
    "bin": (5, lambda c: S.gen_bin(c, True), _wrap(S.run_bin)),
    "un": (4, lambda c: S.gen_un(c, True), _wrap(S.run_un)),
    "asm": (2, lambda c: S.gen_asm(c, True), _wrap(S.run_asm)),
    "factor": (1, _gen_factor, _run_factor),
}


def describe(case):
    if case.get("f") == "factor":
        return f"{case['op']} of " + ", ".join(specs.describe(s) for s in case.get("xs") or [case["x"]])
    return S.describe(case)
