"""Mutation testing of the checks. Run by hand only; nothing registered uses this.

    python tools/mutate.py list                      count mutants per file
    python tools/mutate.py run OUT.jsonl [N] [FRAC] [PATTERN]
                                                     run every check with N cases on (a fraction of) the mutants

A mutant is one small syntactic change to one file of the code under test. Every mutant lives in its own
directory under /tmp, which is removed afterwards; /repo is only read. Checks are run in forks of one process
that has the libraries loaded, in order, until one reports a violation.
"""

import ast
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*"}
ATTR = {"left": "right", "right": "left", "rows": "cols", "cols": "rows", "ndim": "rank", "all": "any", "any": "all", "maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max", "append": "insert0"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for line in lines:
        offs.append(offs[-1] + len(line.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, n.lineno, what))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))

    def visit(n, params):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.FunctionDef):
            params = [a.arg for a in n.args.args if a.arg != "self"]
            for d in n.decorator_list:
                if not (isinstance(d, ast.Name) and d.id in ("dispatch",)):
                    pass
            for b in n.body:
                visit(b, params)
            for d in n.args.defaults:
                visit(d, [])
            return
        if id(n) in doc:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})", "cmp")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                keep = [v for j, v in enumerate(n.values) if j != i]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + op2.join(f"({text(v)})" for v in keep) + ")", "drop-operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", "not")
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            if isinstance(n.operand, ast.Constant):
                if isinstance(n.operand.value, int):
                    add(n, str(-n.operand.value - 1), "const")
                    if n.operand.value != 1:
                        add(n, str(-n.operand.value + 1), "const")
                    return
            else:
                add(n, f"({text(n.operand)})", "neg")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "bool-const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 100), "const")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
            add(n, f"({text(n.left)})", "bin-left")
            add(n, f"({text(n.right)})", "bin-right")
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            add(n, f"{text(n.value)}.{ATTR[n.attr]}", "attr")
        if isinstance(n, ast.Attribute) and n.attr in ("left", "right", "middle", "diag", "lr", "mat"):
            for o in ("left", "right", "middle"):
                if n.attr != o and n.attr in ("left", "right", "middle"):
                    add(n, f"{text(n.value)}.{o}", "attr")
        if isinstance(n, ast.Call):
            pos = [a for a in n.args if not isinstance(a, ast.Starred)]
            if len(pos) >= 2 and len(pos) == len(n.args):
                a, b = span(n.args[0])[0], span(n.args[1])[1]
                out.append((a, b, f"{text(n.args[1])}, {text(n.args[0])}", n.lineno, "swap-args"))
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                rest = [text(a) for a in n.args] + [f"{q.arg}={text(q.value)}" if q.arg else f"**{text(q.value)}" for j, q in enumerate(n.keywords) if j != i]
                add(n, f"{text(n.func)}({', '.join(rest)})", f"drop-kw:{k.arg}")
            if n.args and not isinstance(n.args[0], ast.Starred):
                f = text(n.func)
                if f not in ("isinstance", "len", "range", "enumerate"):
                    add(n, f"({text(n.args[0])})", f"unwrap:{f}")
                if len(n.args) == 2 and f.startswith("B."):
                    add(n, f"({text(n.args[1])})", f"unwrap2:{f}")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params:
            for o in params:
                if o != n.id and {o, n.id} in ({"a", "b"}, {"a", "c"}, {"b", "c"}, {"tr_a", "tr_b"}, {"tr_b", "tr_c"}, {"tr_a", "tr_c"}):
                    add(n, o, "param")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Assert)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute)):
            add(n, "pass", "delete")
        if isinstance(n, ast.Return) and n.value is not None:
            pass
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef):
                continue
            visit(c, params)

    for n in tree.body:
        visit(n, [])
    seen, res = set(), []
    for a, b, new, line, what in out:
        mut = raw[:a] + new.encode() + raw[b:]
        if mut in seen:
            continue
        seen.add(mut)
        try:
            ast.parse(mut)
        except SyntaxError:
            continue
        res.append({"file": os.path.relpath(path, REPO), "line": line, "what": what, "old": raw[a:b].decode(), "new": new, "src": mut.decode()})
    return res


def all_mutants(pattern=""):
    out = []
    for p in sorted(glob.glob(f"{REPO}/matrix/**/*.py", recursive=True)):
        if os.path.basename(p) == "_version.py" or pattern not in p:
            continue
        out += mutants(p)
    return out


CHECKS = [f"C{i:02d}" for i in list(range(1, 16)) + [17, 18, 19, 20, 21, 16]]


def child(m, n, q):
    d = f"/tmp/mut/m{os.getpid()}"
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    res = {k: m[k] for k in ("file", "line", "what", "old", "new")}
    start = time.time()
    try:
        shutil.copytree(f"{REPO}/matrix", f"{d}/matrix", ignore=shutil.ignore_patterns("__pycache__"))
        with open(f"{d}/{m['file']}", "w") as f:
            f.write(m["src"])
        os.environ["VERIF_REPO"] = d
        sys.path.insert(0, VERIF)
        try:
            from pbt import boot, core
        except BaseException as e:
            res["killed"] = "import " + repr(e)[:100]
            raise SystemExit
        core.SHRINK_CALLS = 0
        res["killed"] = None
        order = m.get("order", CHECKS)
        for pid in order:
            k = max(40, int(n * {"C16": 0.05, "C21": 0.1, "C13": 0.3, "C11": 0.3}.get(pid, 1)))
            try:
                os.environ["VERIF_SCRATCH"] = d
                out = core._worker(pid, "mut", m.get("seed", 1), 1, k, 120)
            except BaseException as e:
                res["killed"] = f"{pid} harness {e!r}"[:200]
                res["harness"] = True
                break
            if out["failure"] is not None:
                res["killed"] = f"{pid} {out['failure']['msg']}"[:300]
                break
    except SystemExit:
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res["time"] = round(time.time() - start, 1)
    q.put(res)
    q.close()
    q.join_thread()
    os._exit(0)


def run(out, n, frac, pattern, procs=8, ms=None, order=None):
    os.environ.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu", PYTHONHASHSEED="0")
    import warnings

    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    ms = all_mutants(pattern) if ms is None else ms
    random.Random(0).shuffle(ms)
    ms = ms[: int(len(ms) * frac)]  # JAX cannot be loaded before a fork.
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis.strategies  # noqa
    import lab  # noqa
    import wbml.out  # noqa
    import scipy.stats  # noqa

    done = set()
    if os.path.exists(out):
        for line in open(out):
            r = json.loads(line)
            done.add((r["file"], r["line"], r["what"], r["old"], r["new"]))
    ms = [m for m in ms if (m["file"], m["line"], m["what"], m["old"], m["new"]) not in done]
    print(len(ms), "mutants to go", flush=True)
    ctx = mp.get_context("fork")
    running = []
    f = open(out, "a")
    while ms or running:
        while ms and len(running) < procs:
            m = ms.pop()
            if order:
                m["order"] = order
            q = ctx.Queue()
            p = ctx.Process(target=child, args=(m, n, q))
            p.start()
            running.append((p, q, m, time.time()))
        for item in list(running):
            p, q, m, t0 = item
            r = None
            try:
                r = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive() or time.time() - t0 > 900:
                    p.kill()
                    r = {k: m[k] for k in ("file", "line", "what", "old", "new")}
                    r["killed"] = "timeout" if time.time() - t0 > 900 else "crash"
                    r["harness"] = True
            if r is not None:
                f.write(json.dumps(r) + "\n")
                f.flush()
                p.join(5)
                shutil.rmtree(f"/tmp/mut/m{p.pid}", ignore_errors=True)
                running.remove(item)
    f.close()


if __name__ == "__main__":
    if sys.argv[1] == "list":
        from collections import Counter

        c = Counter(m["file"] for m in all_mutants())
        print(sum(c.values()), dict(c))
    elif sys.argv[1] == "run":
        a = sys.argv[2:] + [None] * 4
        run(a[0], int(a[1] or 400), float(a[2] or 1), a[3] or "", procs=int(os.environ.get("PROCS", 8)), order=os.environ["CHECKS"].split(",") if "CHECKS" in os.environ else None)
