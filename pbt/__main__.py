"""`python -m pbt C01 [--replay FILE] [--tier T] [--seed S] [--n N] [--workers W]`."""

import argparse
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True


def _main():
    p = argparse.ArgumentParser()
    p.add_argument("prop", nargs="?")
    p.add_argument("--sanity", action="store_true")
    p.add_argument("--replay")
    p.add_argument("--tier")
    p.add_argument("--seed", type=int)
    p.add_argument("--n", type=int)
    p.add_argument("--workers", type=int)
    p.add_argument("--budget", type=int)
    a = p.parse_args()
    from . import core

    if a.sanity:
        from . import boot  # noqa

        print("The tools and the code under test import.")
        return 0
    if a.replay:
        return core.replay(a.prop, a.replay)
    return core.main(a.prop, a.tier, a.seed, a.n, a.workers, a.budget)


try:
    code = _main()
except SystemExit:
    raise
except BaseException:  # noqa
    import traceback

    traceback.print_exc()
    code = 2
sys.stdout.flush()
sys.stderr.flush()
os._exit(code)
