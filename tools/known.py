"""Writes `known_findings.json`. Run by hand only, never by a check."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from pbt import boot, core  # noqa


def arr(shape, vals, **k):
    codes = [2 * v - 1 if v > 0 else -2 * v for v in vals]
    return {"k": "arr", "shape": list(shape), "hex": bytes(codes).hex(), "mode": "gen", **k}


d1 = {"k": "diag", "diag": arr((1,), [16])}
d3 = {"k": "diag", "diag": arr((3,), [16, 32, 48])}
lr1 = {"k": "lr", "left": arr((1, 1), [16])}
lr3 = {"k": "lr", "left": arr((3, 1), [16, 32, 48])}
wb1 = {"k": "wb", "diag": d1, "lr": lr1}
wb3 = {"k": "wb", "diag": d3, "lr": lr3}
kr1 = {"k": "kron", "left": arr((1, 1), [16]), "right": arr((1, 1), [16])}
lt1 = {"k": "lt", "mat": arr((1, 1), [16], tri="l")}
lr31 = {"k": "lr", "left": arr((3, 1), [16, 32, 48]), "right": arr((1, 1), [16])}
de3 = {"k": "dense", "mat": arr((3, 3), [16, 32, 48, 1, 2, 3, 4, 5, 6])}
c3 = {"k": "const", "const": {"k": "py", "v": 2}, "shape": [3, 3]}

known = []


def add(pid, what, case):
    known.append({"id": f"KF{len(known) + 1:02d}", "property": pid, "what": what, "case": case})


for pid, op, xs, names in [
    ("C01", "+", [d1, d3], "a 1x1 Diagonal and a 3x3 Diagonal"),
    ("C01", "+", [d1, wb3], "a 1x1 Diagonal and a 3x3 Woodbury matrix"),
    ("C01", "+", [wb1, d3], "a 1x1 Woodbury matrix and a 3x3 Diagonal"),
    ("C01", "+", [wb1, wb3], "a 1x1 and a 3x3 Woodbury matrix"),
    ("C02", "*", [d1, de3], "a 1x1 Diagonal and a 3x3 Dense matrix"),
    ("C02", "*", [d1, lr3], "a 1x1 Diagonal and a 3x3 LowRank matrix"),
    ("C02", "*", [d1, c3], "a 1x1 Diagonal and a 3x3 Constant matrix"),
    ("C02", "*", [wb1, de3], "a 1x1 Woodbury matrix and a 3x3 Dense matrix"),
    ("C02", "*", [lr1, c3], "a 1x1 LowRank matrix and a 3x3 Constant matrix"),
    ("C02", "*", [lr31, c3], "a 3x1 LowRank matrix and a 3x3 Constant matrix"),
    ("C02", "*", [kr1, c3], "a 1x1 Kronecker product and a 3x3 Constant matrix"),
    ("C02", "*", [lt1, c3], "a 1x1 LowerTriangular matrix and a 3x3 Constant matrix"),
]:
    word = {"+": "sum", "*": "element-wise product"}[op]
    add(
        pid,
        f"the {word} of {names} is not that of the dense matrices: sizes of structured matrices are not broadcast",
        {"f": "pair", "xs": xs, "op": op, "warm": [0, 0]},
    )

for x, name, idx in [
    (d3, "Diagonal", [0, 0, 1]),
    (wb3, "Woodbury", [0, 0, 1]),
]:
    add(
        "C06",
        f"submatrix of a {name} matrix with indices {idx} (repeated) is not that of the dense matrix",
        {"f": "submatrix", "x": x, "sel": {"idx": idx, "as": "list"}, "warm": 0, "raw": True},
    )

add(
    "C09",
    "solve of a batch of matrices against a zero matrix without batch returns the zero matrix without batch",
    {
        "f": "solve",
        "x": {"k": "dense", "mat": arr((2, 2, 2), [64, 0, 0, 64, 64, 0, 0, 64], mode="gen")},
        "b": {"k": "zero", "shape": [2, 1]},
        "steps": [],
        "fn": "solve",
        "warm": 0,
        "warm_b": 0,
        "raw": True,
    },
)

fixed = [
    "fixed: property=C20 c62e054 NumPy arrays on the left of an operator applied it entry by entry",
    "fixed: property=C01 7b76af5 low-rank columns were matched in the first batch elements only and with an absolute tolerance",
    "fixed: property=C05 edd2516 diag of Kronecker products of non-square or batched numeric factors",
    "fixed: property=C04 {power} non-positive powers of matrices with structural zeros kept the zeros",
    "fixed: property=C06 {take} take from the rows of numeric factors of low-rank matrices",
    "fixed: property=C07 {kron} Kronecker product of two zero matrices had the wrong shape, and tiled blocks with numeric blocks had no dense version",
    "fixed: property=C07 {block_diag} block_diag of a single or batched numeric block",
    "fixed: property=C11 {sample} samples of Woodbury matrices shared noise between elements of a batch",
    "fixed: property=C12 dbc4eb9 sums with constant or zero matrices with wrapped dimensions had an object data type",
    "fixed: property=C05 21b15f0 means of matrices with wrapped dimensions had an object data type",
    "fixed: property=C17 8201914 constants of other sizes were accepted in products with triangular matrices",
    "fixed: property=C16 12216bd matrices made outside of a traced function kept what belongs to the trace",
    "fixed: property=C16 {middle} low-rank matrices made outside of a traced function kept a middle factor that belongs to the trace, and were abstract there",
]


if __name__ == "__main__":
    import subprocess

    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    find = {
        "power": "non-positive powers",
        "take": "take from the rows",
        "kron": "Kronecker product of two zero",
        "block_diag": "block-diagonal matrices of a single",
        "sample": "independent samples",
        "middle": "abstract middle factors",
    }
    for k, v in find.items():
        h = [line.split()[0] for line in log.splitlines() if v in line][0]
        fixed = [f.replace("{" + k + "}", h) for f in fixed]
    for e in known:
        msg = core.rerun(core.load(e["property"]), e["case"])
        print(e["id"], e["property"], msg)
        assert msg is not None
    with open(os.path.join(VERIF, "known_findings.json"), "w") as f:
        json.dump({"known": known, "fixed": fixed}, f, indent=1)
        f.write("\n")
