#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [-s SEED] [-m MAX] [FILE...]: how sharp is the specification?

Makes small changes (mutants) to the library in scratch copies, keeps those the
library's own tests do not notice, records the same calls as on the unchanged
code, and asks the specification about the events that came out differently.
A mutant is `killed` (some event rejected), `same` (no recorded event differs)
or `accepted` (different, but within what the specification allows).  Not part
of any check; nothing in /repo is changed.
"""

import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess as sp
import sys
import tempfile
import threading
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.dont_write_bytecode = True
from harness import core  # noqa: E402
from harness.registry import CHECKS, Machine, Replay, Trace  # noqa: E402

SRC = Path("/repo/src/pymap3d")
LOCAL = "C02 C03 C04 C05 C06 C09 C10 C11 C12 C13 C28"
FILES = {  # which checks can see a change of a file
    "aer": "C03 C05 C04 C06 C08 C09 C10 C12 C13 C28", "aerospace": "C04 C09 C10 C12 C13 C28", "dca": "C05 C06 C09 C10 C12 C13",
    "body": "C04 C06 C09 C10 C12 C13 C28", "frames": "C02 C04 C07 C10", "earth_orientation": "C23 C07 C24 C08 C10 C12", "azelradec": "C24 C09 C10 C12 C28", "vallado": "C24 C09 C10 C12 C28", "ecef": "C01 C02 C03 C05 C06 C08 C10 C12 C13 C09 C28",
    "eci": "C07 C08 C10 C12", "ellipsoid": "C13 C14 C01", "enu": LOCAL, "ned": LOCAL, "nwu": LOCAL, "sez": LOCAL,
    "haversine": "C25 C09 C10 C12 C28", "karney": "C15 C16 C14 C09 C13 C28", "latitude": "C19 C09 C10 C12 C13 C28", "los": "C22 C09 C10 C12 C13 C28",
    "lox": "C18 C09 C10 C12 C13 C28", "mathfun": "C01 C19 C15", "nvector": "C21 C09 C10 C12 C13 C28", "rcurve": "C20 C09 C10 C12 C13 C28",
    "rsphere": "C20 C09 C10 C12 C13 C28", "sidereal": "C23 C24 C07 C10 C12", "spherical": "C26 C09 C10 C12 C13 C28 C06", "timeconv": "C23 C07",
    "utils": "C26 C09 C10 C12 C13", "vincenty": "C17 C09 C10 C12 C13 C28", "__main__": "C27", "_cli": "C27",
}
SWAP = dict(sin="cos", cos="sin", tan="sin", asin="acos", acos="asin", degrees="radians", radians="degrees", max="min", min="max",
            sinh="cosh", cosh="sinh", atan="asin", any="all", all="any", floor="ceil")


class Sites(ast.NodeVisitor):
    """(start, end, replacement) of every change"""

    def __init__(self, txt):
        self.txt = txt
        self.off = [0]
        for x in txt.encode().splitlines(True):
            self.off.append(self.off[-1] + len(x))
        self.raw = txt.encode()
        self.out = []
        self.doc = set()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.pos(n)
        return self.raw[a:b].decode()

    def put(self, n, new, kind):
        a, b = self.pos(n)
        if self.raw[a:b].decode() != new:
            self.out.append((a, b, new, kind, n.lineno))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            return
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        self.put(n, "pass", "no-raise")

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), "flip")
        elif v is None or isinstance(v, (str, bytes)):
            return
        elif isinstance(v, int):
            self.put(n, str(v + 1), "const")
            if v not in (0,):
                self.put(n, f"({v - 1})", "const")
        elif isinstance(v, float):
            if v == 0:
                self.put(n, "1.0", "const")
            else:
                self.put(n, f"({v!r} * 1.0001)", "const")
                self.put(n, f"({v!r} * 1.3)", "const")
                self.put(n, "0.0", "const")

    def visit_BinOp(self, n):
        a, b = self.src(n.left), self.src(n.right)
        new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: None, ast.Pow: "*"}.get(type(n.op), 0)
        if new:
            self.put(n, f"(({a}) {new} ({b}))", "op")
        if isinstance(n.op, ast.Mod) and not isinstance(n.left, ast.Constant):
            self.put(n, f"({a})", "no-mod")
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.put(n, f"({a})", "left-only")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.put(n, f"({self.src(n.operand)})", "no-unary")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            new = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
                   ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"]}.get(type(n.ops[0]), [])
            for o in new:
                self.put(n, f"({self.src(n.left)} {o} {self.src(n.comparators[0])})", "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values)):
            self.put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({self.src(v)})" for j, v in enumerate(n.values) if j != i) + ")", "bool-drop")
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, "True", "if")
        self.put(n.test, "False", "if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, f"({self.src(n.body)})", "ifexp")
        self.put(n, f"({self.src(n.orelse)})", "ifexp")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if nm in SWAP and isinstance(f, ast.Name):
            self.put(f, SWAP[nm], "fn")
        if nm in ("abs", "radians", "degrees", "sqrt", "copy", "float", "asarray", "array", "squeeze", "broadcast_to", "atleast_1d", "abs_", "rad", "sign") and len(n.args) >= 1:
            self.put(n, f"({self.src(n.args[0])})", "no-fn")
        args = [self.src(x) for x in n.args]
        kws = [self.src(x) for x in n.keywords]
        for i in range(len(args) - 1):
            sw = args[:]
            sw[i], sw[i + 1] = sw[i + 1], sw[i]
            self.put(n, f"{self.src(f)}({', '.join(sw + kws)})", "swap")
        for i in range(len(kws)):
            self.put(n, f"{self.src(f)}({', '.join(args + kws[:i] + kws[i + 1:])})", "kw-drop")
        if len(args) > 2:
            self.put(n, f"{self.src(f)}({', '.join(args[:-1] + kws)})", "arg-drop")
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = self.src(n.targets[0])
        if isinstance(n.targets[0], (ast.Name, ast.Subscript)) and any(isinstance(x, ast.Name) and x.id == t.split("[")[0] for x in ast.walk(n.value)) or isinstance(n.targets[0], ast.Subscript):
            self.put(n, "pass", "del")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "del")
        self.generic_visit(n)

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            e = [self.src(x) for x in n.elts]
            e[0], e[1] = e[1], e[0]
            self.put(n, f"({', '.join(e)})", "tuple")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.visit(n.value)
        if isinstance(n.slice, (ast.Constant, ast.UnaryOp)):
            self.visit(n.slice)


def mutants(files):
    out = []
    for f in files:
        p = SRC / f"{f}.py"
        txt = p.read_text()
        s = Sites(txt)
        s.visit(ast.parse(txt))
        for a, b, new, kind, line in s.out:
            raw = s.raw[:a] + new.encode() + s.raw[b:]
            try:
                ast.parse(raw)
            except SyntaxError:
                continue
            out.append(dict(file=f, line=line, kind=kind, old=s.raw[a:b].decode()[:100], new=new[:100], raw=raw.decode()))
    return out


class Worker:
    def __init__(self, k):
        self.d = Path(f"/tmp/mutw_{os.getpid()}_{k}")
        shutil.copytree("/repo", self.d / "repo", symlinks=True)
        shutil.copytree(core.VERIF / "harness", self.d / "harness")
        for f in (self.d / "harness").glob("*.py"):
            f.write_text(f.read_text().replace("/repo/src", f"{self.d}/repo/src"))

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def tests(self):
        for v in ("venv", "venv-stdlib"):
            env = core.code_env(PYTHONPATH=str(self.d / "repo/src"))
            try:
                r = sp.run([f"/opt/{v}/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--continue-on-collection-errors"],
                           cwd=self.d / "repo", env=env, capture_output=True, text=True, timeout=60)
            except sp.TimeoutExpired:
                return False
            if r.returncode != 0:
                return False
        return True

    def record(self, rec, args, py):
        fd, path = tempfile.mkstemp(prefix="mut_")
        os.close(fd)
        try:
            p = sp.run([py, "-W", "ignore", str(self.d / "harness" / rec), *map(str, args), path], env=core.code_env(), cwd="/tmp",
                       capture_output=True, text=True, timeout=240)
            if p.returncode:
                return "crash: " + p.stderr[-200:]
            with open(path) as f:
                ev = [json.loads(x, parse_constant=float) for x in f]
            for e in ev:
                e["t"] = repr((e["op"], e["w"]))  # NaN equals itself here
            return ev
        except sp.TimeoutExpired:
            return "timeout"
        finally:
            os.unlink(path)


def jobs_of(pid, tmp):
    for s in CHECKS[pid].stages:
        if isinstance(s, Trace):
            for py, sh in zip(s.pys, s.share if len(s.pys) > 1 else (1.0,)):
                yield s.mod, s.rec, (*s.args, max(8, int(s.n * sh)), "0"), py, False
        elif isinstance(s, Replay):
            f = tmp / f"{pid}.json"
            if not f.exists():
                _, _, tr = core.simulate(s.gen, invariant="", steps=s.steps, samples=s.traces, traces=s.traces, mbt=True, seed=core.SEED)
                f.write_text(json.dumps(tr))
            for py in s.pys:
                yield s.mod, s.rec, (*s.args, f, "0"), py, True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files", nargs="*")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-m", type=int, default=10**9)
    a = ap.parse_intermixed_args()
    files = a.files or [f for f in FILES if (SRC / f"{f}.py").exists()]
    todo = mutants(files)
    random.Random(a.s).shuffle(todo)
    todo = todo[: a.m]
    print(len(todo), "mutants", flush=True)
    tmp = Path(tempfile.mkdtemp(prefix="mutt_"))
    jobs = {p: list(jobs_of(p, tmp)) for f in files for p in FILES[f].split()}
    base, lock, out = {}, threading.Lock(), open(a.out, "a")
    workers = [Worker(k) for k in range(a.j)]
    free = list(workers)

    def baseline(w, job):
        key = (job[1], job[2], job[3])
        with lock:
            if key in base:
                return base[key]
        r = w.record(job[1], job[2], job[3])  # the worker's copy is unchanged here
        with lock:
            base.setdefault(key, r)
        return base[key]

    for p, js in jobs.items():
        with cf.ThreadPoolExecutor(a.j) as ex:
            list(ex.map(lambda kj: baseline(workers[kj[0] % a.j], kj[1]), enumerate(js)))

    def one(m):
        with lock:
            w = free.pop()
        f = w.d / "repo/src/pymap3d" / f"{m['file']}.py"
        orig = f.read_text()
        try:
            f.write_text(m.pop("raw"))
            if not w.tests():
                m["status"] = "tests"
                return m
            m["status"], m["diff"], m["by"] = "same", 0, []
            for p in FILES[m["file"]].split():
                for j in jobs[p]:
                    r = w.record(j[1], j[2], j[3])
                    b = base[(j[1], j[2], j[3])]
                    if isinstance(r, str):
                        m["status"] = "killed"
                        m["by"].append((p, r[:80]))
                        return m
                    if j[4]:  # whole runs that differ
                        runs = {e.get("run") for x, e in zip(b, r) if x["t"] != e["t"]}
                        if len(b) != len(r):
                            runs = {e.get("run") for e in r}
                        keep = set(sorted(runs, key=str)[:6])
                        ev = [e for e in r if e.get("run") in keep]
                    else:
                        ev = [e for x, e in zip(b, r) if x["t"] != e["t"]] if len(b) == len(r) else [e for e in r if e["t"] not in {x["t"] for x in b}]
                        m["diff"] += len(ev)
                        if len(ev) > 240:
                            ev = random.Random(0).sample(ev, 240)
                    if not ev:
                        continue
                    if m["status"] == "same":
                        m["status"] = "accepted"
                    bad, _, _ = core.validate(j[0], ev, shards=1, sequential=j[4])
                    if bad:
                        m["status"] = "killed"
                        m["by"].append((p, len(bad), len(ev), bad[0][1]))
                        return m
            return m
        except Exception as e:  # noqa: BLE001
            m["status"] = f"error {e!r}"[:300]
            return m
        finally:
            f.write_text(orig)
            with lock:
                free.append(w)

    try:
        with cf.ThreadPoolExecutor(a.j) as ex:
            for m in ex.map(one, todo):
                out.write(json.dumps(m) + "\n")
                out.flush()
    finally:
        for w in workers:
            w.close()
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
