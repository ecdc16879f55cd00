#!/usr/bin/env python3
"""Typechecks every specification module and runs its tests (nothing needs building)."""
import concurrent.futures as cf
import subprocess
import sys
from pathlib import Path

spec = Path(__file__).resolve().parent.parent / "spec"


def tc(f):
    p = subprocess.run(["quint", "typecheck", f.name], cwd=spec, capture_output=True, text=True)
    return f.name, p.returncode, p.stdout + p.stderr


bad = 0
with cf.ThreadPoolExecutor(4) as ex:
    for n, rc, txt in ex.map(tc, sorted(spec.glob("*.qnt"))):
        if rc:
            bad = 1
            print(n, txt[-1500:])
t = subprocess.run(["quint", "test", "selftest.qnt", "--main", "selftest", "--backend", "typescript"],
                   cwd=spec, capture_output=True, text=True)
if t.returncode:
    bad = 1
    print(t.stdout[-3000:], t.stderr[-1500:])
sys.exit(bad)
