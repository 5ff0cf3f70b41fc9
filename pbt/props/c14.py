"""C14: operations keep structure: the type of every result is as specific as documented."""

from .. import structure as S

ID = "C14"
N_QUICK = 36000
RULE = (
    "One operation (sums, element-wise and matrix products with transposition flags, quotients, solves, Kronecker products, 35 unary operations, "
    "block assembly, tiled blocks) on matrices of any kinds that it supports, and chains of 2 to 5 such operations: the type of every result against a table of what "
    "structure is kept. Non-trivial: at least one structured operand; for chains at least two operations."
)


def check(t, cell, what, res, warns, plain):
    want = S.FULL[cell.rstrip("!?")]
    got = type(res).__name__
    if want == ("Dense",):
        # Anything that is not numeric is fine.
        want = S.MATRICES
    t.require(got in want, lambda: f"{what}: the result is {got}, expected {' or '.join(want)}")


def _wrap(run):
    def go(case, t):
        out = run(case, t)
        if out is not None:
            check(t, *out, plain=False)

    return go


FAMILIES = {
    "bin": (5, lambda c: S.gen_bin(c, False), _wrap(S.run_bin)),
    "un": (4, lambda c: S.gen_un(c, False), _wrap(S.run_un)),
    "asm": (2, lambda c: S.gen_asm(c, False), _wrap(S.run_asm)),
    "chain": (3, S.gen_chain, lambda case, t: S.run_chain(case, t, check)),
}
describe = S.describe
