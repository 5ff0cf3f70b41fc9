"""Turns descriptions of planted bugs into `seeded/<id>`. Run by hand only.

    python3 tools/plant.py make BUGS.py [ID ...]   write seeded/<id> and run the demonstrations
    python3 tools/plant.py tests [ID ...]          run the repository's tests with the changes
    python3 tools/plant.py catch [ID ...]          run the check of the property with the changes

`BUGS.py` defines a list `BUGS` of dictionaries with `id`, `property`, `edits` (list of file, old, new),
`demo` (Python), `needs`, and `breaks`. Scratch copies are made under /tmp and removed.
"""

import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO = """#!/bin/bash
# Run with cwd /repo. Exits 0 if the property holds for this input, and 1 otherwise.
here="$(cd "$(dirname "$0")" && pwd)"
export JAX_ENABLE_X64=1 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$here/demo.py"
"""
ENV = dict(
    os.environ, PYTHONPATH="/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu",
    MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PATH="/opt/venv/bin:" + os.environ["PATH"],
)


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def copy(name):
    d = f"/tmp/plant_{name}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    sh("git", "-C", d, "checkout", "--", ".")
    return d


def apply(d, name):
    r = sh("git", "-C", d, "apply", os.path.join(SEEDED, name, "patch.diff"))
    assert r.returncode == 0, (name, r.stderr)


def demo(d, name):
    r = sh("bash", os.path.join(SEEDED, name, "demo.sh"), cwd=d)
    return r.returncode, (r.stdout + r.stderr).strip().split("\n")[-1]


def make(path, only):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = copy(b["id"])
        for fn, old, new in b["edits"]:
            p = os.path.join(d, fn)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", d, "diff").stdout
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        good, bad = demo("/repo", b["id"]), demo(d, b["id"])
        print(b["id"], "OK" if good[0] == 0 and bad[0] != 0 else "PROBLEM", good, bad, flush=True)
        shutil.rmtree(d)


def tests(names):
    for name in names:
        d = copy(name)
        apply(d, name)
        jax = sh("bash", "-c", "grep -rlE 'jax|stheno' --include='test_*.py' tests", cwd=d).stdout.split()
        base = "python -m pytest -q -p no:cacheprovider -p vp_seed -n 8 --timeout=300 -Werror -W ignore::DeprecationWarning".split()
        r = sh(*base, *[f"--ignore={x}" for x in jax], "tests", cwd=d, env=ENV)
        q = sh(*base, *jax, cwd=d, env=ENV)
        fails = re.findall(r"^(?:FAILED|ERROR) (\S+)", r.stdout + q.stdout, re.M)
        ok = r.returncode == 0 and q.returncode == 0
        print(name, "tests", "pass" if ok else f"FAIL {len(fails)} {fails[:4]}", r.stdout.strip().split("\n")[-1], flush=True)
        shutil.rmtree(d)


def catch(names):
    for name in names:
        d = copy(name)
        apply(d, name)
        with open(os.path.join(SEEDED, name, "meta.json")) as f:
            pid = json.load(f)["property"]
        for p in os.environ.get("CHECKS", pid).split(","):
            r = sh("./check", p, "--tier", "quick", cwd=VERIF, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            out = (r.stdout + r.stderr).strip().split("\n")
            print(name, p, "CAUGHT" if r.returncode == 1 else f"missed ({r.returncode})", " | ".join(x for x in out if "KNOWN" not in x)[-300:], flush=True)
        shutil.rmtree(d)


if __name__ == "__main__":
    what, rest = sys.argv[1], sys.argv[2:]
    if what == "make":
        make(rest[0], rest[1:])
    else:
        {"tests": tests, "catch": catch}[what](rest or sorted(os.listdir(SEEDED)))
