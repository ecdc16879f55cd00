"""Common machinery: wire format, Quint runs, verdict handling, evidence."""

from __future__ import annotations

import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
EVID = VERIF / "evidence"
REPO = Path("/repo")
PY_NP = "/opt/venv/bin/python"
PY_STD = "/opt/venv-stdlib/bin/python"

S = 1 << 128
WB = 320
OFFS = 1 << (WB - 1)
NAN = 1 << 310
PINF = 1 << 311
NINF = -(1 << 311)
EXC = 1 << 312
NONE = 1 << 313

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def code_env(**extra) -> dict:
    e = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        e.pop(k, None)
    e.update(
        LANG="C.UTF-8",
        TZ="UTC",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        XDG_CONFIG_HOME="/opt/vp/xdg/config",
        XDG_CACHE_HOME="/opt/vp/xdg/cache",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    e.update(extra)
    return e


# --------------------------------------------------------------------- wire
def enc(x) -> int:
    """Python value -> integer in the wire scale."""
    if x is None:
        return NONE
    if isinstance(x, str):
        return {"EXC": EXC, "NAN": NAN, "NONE": NONE}[x]
    if isinstance(x, list):  # a ratio
        x = Fraction(int(x[0]), int(x[1]))
    if isinstance(x, bool):
        return S if x else 0
    if isinstance(x, int):
        return x * S
    if isinstance(x, Fraction):
        return (x.numerator * S) // x.denominator
    f = float(x)
    if f != f:
        return NAN
    if f == float("inf"):
        return PINF
    if f == float("-inf"):
        return NINF
    if abs(f) > 1e45:
        return PINF if f > 0 else NINF
    n, d = f.as_integer_ratio()
    # truncation toward zero below 2^-128
    q = abs(n) * S // d
    return q if n >= 0 else -q


def pack(op: int, words) -> int:
    v = (len(words) << WB) | op
    for k, x in enumerate(words):
        u = enc(x) + OFFS
        assert 0 <= u < (1 << WB)
        v |= u << (WB * (k + 2))
    return v


PER = 8  # events per literal


def literals(events, ops):
    """-> (list of hex literals, event width in bits)"""
    packed = [pack(ops[e["op"]], e["w"]) for e in events]
    ew = max(p.bit_length() for p in packed)
    ew = (ew + 319) // 320 * 320
    out = []
    for i in range(0, len(packed), PER):
        v = 0
        for j, p in enumerate(packed[i : i + PER]):
            v |= p << (ew * j)
        out.append(hex(v))
    return out, ew


def op_table(module: str) -> dict:
    txt = (SPEC / f"{module}.qnt").read_text()
    return {m[1]: int(m[2]) for m in re.finditer(r"pure val OP_(\w+)(?::\s*int)?\s*=\s*(\d+)", txt)}


TEMPLATE = """// generated: trace validation of recorded calls against {mod}
module main {{
  import fx.* from "./fx"
  import wire.* from "./wire"
  import {mod}.* from "./{mod}"
  pure val N: int = {n}
  pure val EW: int = {ew}
  pure val CH: List[int] = [
{lits}
  ]
  var l: int                     // next event
  var st: St                     // specification state
  var bad: List[(int, str)]      // rejected events and the clause they violate
  var cov: str -> int            // how often each semantic case was exercised
  pure def event(k: int): int = (CH.nth(k / {per}) / 2^(EW * (k % {per}))) % (2^EW)
  action init = all {{ l' = 0, st' = ST0, bad' = List(), cov' = Map() }}
  action step = all {{
    l < N,
    val ev = event(l)
    val r = judge(st, word(ev, 0), payload(ev))
    all {{
      st' = r.next,
      bad' = if (r.clause == "" or bad.length() >= 60) bad else bad.append((l, r.clause)),
      cov' = if (cov.keys().contains(r.case)) cov.setBy(r.case, c => c + 1) else cov.put(r.case, 1),
      l' = l + 1,
    }}
  }}
  val accepted: bool = bad.length() == 0
}}
"""


class MachineryError(Exception):
    pass


class CodeCrash(Exception):
    """the code under test raised outside a guarded call"""


def quint(args, cwd, timeout=850):
    env = dict(os.environ)
    p = subprocess.run(
        ["quint", *args], cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout
    )
    return p


def unbig(x):
    if isinstance(x, dict) and "#bigint" in x:
        return int(x["#bigint"])
    return x


def itf_val(x):
    """ITF json -> python"""
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#tup" in x:
            return tuple(itf_val(y) for y in x["#tup"])
        if "#set" in x:
            return [itf_val(y) for y in x["#set"]]
        if "#map" in x:
            return {json.dumps(itf_val(k)) if not isinstance(itf_val(k), (str, int)) else itf_val(k): itf_val(v) for k, v in x["#map"]}
        return {k: itf_val(v) for k, v in x.items()}
    if isinstance(x, list):
        return [itf_val(y) for y in x]
    return x


class Scratch:
    def __init__(self):
        self.dir = Path(tempfile.mkdtemp(prefix="vq_"))

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def _validate_shard(job):
    d, mod, events, ops, base = job
    d = Path(d)
    for f in SPEC.glob("*.qnt"):
        shutil.copy(f, d / f.name)
    lits, ew = literals(events, ops)
    (d / "main.qnt").write_text(
        TEMPLATE.format(
            mod=mod, n=len(events), ew=ew, per=PER, lits=",\n".join("    " + x for x in lits)
        )
    )
    p = quint(
        ["run", "main.qnt", "--main", "main", "--backend", "typescript", "--max-samples", "1", "--max-steps", str(len(events)),
         "--out-itf", "out.itf.json", "--verbosity", "0"],
        d,
    )
    f = d / "out.itf.json"
    if not f.exists() and re.search(r"\[QNT5\d\d\]", p.stdout + p.stderr):
        # the specification is not even defined on some event: find it, it is no step of it
        return _undefined(d, mod, events, ops, base)
    if not f.exists():
        raise MachineryError(f"quint failed for {mod}: {p.stdout[-3000:]} {p.stderr[-3000:]}")
    states = json.loads(f.read_text())["states"]
    last = states[-1]
    n = unbig(last["l"])
    if n != len(events):
        raise MachineryError(f"trace of {mod} not consumed: {n}/{len(events)}: {p.stdout[-2000:]} {p.stderr[-2000:]}")
    bad = [(i + base, c) for i, c in itf_val(last["bad"])]
    cov = itf_val(last["cov"])
    shutil.rmtree(d, ignore_errors=True)
    return bad, cov, len(states)


def _undefined(d, mod, events, ops, base):
    runs = {}  # a run stays together, it carries the state
    for i, e in enumerate(events):
        runs.setdefault(e.get("run", i), []).append(i)
    keys = list(runs)
    if len(keys) == 1:
        return [(base + len(events) - 1, "undefined")], {}, 0
    bad, cov, states = [], {}, 0
    for part in (keys[: len(keys) // 2], keys[len(keys) // 2 :]):
        idx = [i for k in part for i in runs[k]]
        k = Path(tempfile.mkdtemp(prefix="u_", dir=d.parent))
        b, c, n = _validate_shard((str(k), mod, [events[i] for i in idx], ops, 0))
        bad += [(base + idx[i], why) for i, why in b]
        states += n
        for t, v in c.items():
            cov[t] = cov.get(t, 0) + v
    return bad, cov, states


def validate(mod: str, events: list, shards: int = 8, max_per_shard: int = 2400, sequential=False):
    """Check recorded events against specification module `mod`.

    Returns (bad, coverage, number of spec states)."""
    ops = op_table(mod)
    n = len(events)
    if n == 0:
        return [], {}, 0
    for e in events:
        if e["op"] not in ops:
            raise MachineryError(f"operation {e['op']} unknown to {mod}")
    if sequential:
        # events carry a 'run' number; a run must stay within one shard
        runs = []
        for i, e in enumerate(events):
            if not runs or events[i - 1].get("run") != e.get("run"):
                runs.append([i, i + 1])
            else:
                runs[-1][1] = i + 1
        target = max(1, min(max_per_shard, -(-n // shards)))
        parts = []
        for a, b in runs:
            if parts and b - parts[-1][0] <= target:
                parts[-1][1] = b
            else:
                parts.append([a, b])
    else:
        size = max(8, min(max_per_shard, -(-n // shards)))
        parts = [[i, min(n, i + size)] for i in range(0, n, size)]
    bad, cov, states = [], {}, 0
    with Scratch() as sd:
        jobs = []
        for k, (a, b) in enumerate(parts):
            d = sd / f"s{k}"
            d.mkdir()
            jobs.append((str(d), mod, events[a:b], ops, a))
        with cf.ThreadPoolExecutor(shards) as ex:
            for bd, cv, ns in ex.map(_validate_shard, jobs):
                bad += bd
                states += ns
                for k, v in cv.items():
                    cov[k] = cov.get(k, 0) + v
    return bad, cov, states


# ----------------------------------------------------------- spec-only runs
def simulate(mod: str, main: str | None = None, invariant: str = "inv", steps=20, samples=1000, seed=None,
             traces=0, mbt=False, threads=1, init="init", step="step"):
    """Random simulation of a design machine; returns (ok, stdout, [itf states])."""
    with Scratch() as d:
        for f in SPEC.glob("*.qnt"):
            shutil.copy(f, d / f.name)
        args = ["run", f"{mod}.qnt", "--main", main or mod, "--backend", "typescript", "--max-steps", str(steps),
                "--max-samples", str(samples), "--init", init, "--step", step,
                "--seed", hex(SEED if seed is None else seed), "--verbosity", "1"]
        if invariant:
            args += ["--invariant", invariant]
        if mbt:
            args += ["--mbt"]
        if traces:
            args += ["--out-itf", "t_{seq}.itf.json", "--n-traces", str(traces)]
        p = quint(args, d)
        out = []
        for f in sorted(d.glob("t_*.itf.json"), key=lambda q: int(re.findall(r"\d+", q.name)[0])):
            out.append([itf_val(s) for s in json.loads(f.read_text())["states"]])
        ok = "[ok]" in p.stdout or p.returncode == 0
        return ok, p.stdout + p.stderr, out


def verify(mod: str, invariant: str, steps: int, timeout=400):
    """bounded model checking with Apalache: True, False, or None when it ran out of time"""
    with Scratch() as d:
        for f in SPEC.glob("*.qnt"):
            shutil.copy(f, d / f.name)
        import socket
        with socket.socket() as k:
            k.bind(("127.0.0.1", 0))
            port = k.getsockname()[1]
        try:
            p = quint(["verify", f"{mod}.qnt", "--main", mod, "--max-steps", str(steps), "--invariant", invariant,
                       "--server-endpoint", f"localhost:{port}"], d, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        txt = p.stdout + p.stderr
        return (True if "[ok]" in txt else False if "[violation]" in txt else None), txt


def quint_test(mod: str):
    with Scratch() as d:
        for f in SPEC.glob("*.qnt"):
            shutil.copy(f, d / f.name)
        p = quint(["test", f"{mod}.qnt", "--main", mod, "--backend", "typescript"], d)
        return p.returncode == 0, p.stdout + p.stderr


# --------------------------------------------------------------- recorders
def run_recorder(script: str, *args, py=PY_NP, timeout=600, extra_env=None) -> list:
    """Run a recorder (harness/rec_*.py) in the given interpreter on /repo's
    working tree; it writes one JSON event per line to the file given last."""
    fd, path = tempfile.mkstemp(prefix="vrec_", suffix=".jsonl")
    os.close(fd)
    try:
        p = subprocess.run(
            [py, "-W", "ignore", str(VERIF / "harness" / script), *map(str, args), path],
            env=code_env(**(extra_env or {})),
            cwd="/tmp",
            capture_output=True,
            text=True,
            timeout=timeout,
        )
        if p.returncode != 0:
            if '"/repo/src/' in (re.findall(r'File "[^"]+"', p.stderr) or [""])[-1]:
                raise CodeCrash(p.stderr[-2000:])
            raise MachineryError(f"recorder {script} {args} failed rc={p.returncode}: {p.stderr[-3000:]}")
        with open(path) as f:
            return [json.loads(x, parse_constant=float) for x in f]
    finally:
        os.unlink(path)
