#!/usr/bin/env python3
"""tamper.py [ID...]: does every word of a recorded event matter?

Records calls as the checks do, changes one word of an event at a time (by a
part in ten thousand) and counts how often the specification rejects
the changed event.  Words that are never missed are listed with a star."""

import random
import sys
from collections import defaultdict
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.dont_write_bytecode = True
from harness import core  # noqa: E402
from harness.registry import CHECKS, Trace  # noqa: E402

r = random.Random(1)
for pid in sys.argv[1:] or CHECKS:
    for s in CHECKS[pid].stages:
        if not isinstance(s, Trace):
            continue
        ev = core.run_recorder(s.rec, *s.args, 600, "tamper", py=s.pys[0])
        by = defaultdict(list)
        for e in ev:
            by[e["op"], len(e["w"])].append(e)
        todo, tags = [], []
        for (op, n), es in by.items():
            for e in r.sample(es, min(12, len(es))):
                for k, x in enumerate(e["w"]):
                    if isinstance(x, float) and x == x and abs(x) < 1e300:
                        w = list(e["w"])
                        w[k] = x + max(abs(x) * 1e-4, 1e-4)
                        todo.append(dict(op=op, w=w))
                        tags.append((op, n, k))
        if len(todo) > 6000:
            pick = sorted(r.sample(range(len(todo)), 6000))
            todo, tags = [todo[i] for i in pick], [tags[i] for i in pick]
        # the template keeps 60 rejections per shard: small shards
        hit, tot = defaultdict(int), defaultdict(int)
        for i in range(0, len(todo), 400):
            bad, _, _ = core.validate(s.mod, todo[i:i + 400], shards=8)
            b = {j for j, _ in bad}
            for j in range(len(todo[i:i + 400])):
                tot[tags[i + j]] += 1
                hit[tags[i + j]] += j in b
        print(pid, s.mod)
        for (op, n) in by:
            print("  ", op, n, " ".join(f"{k}:{hit[op, n, k]}/{tot[op, n, k]}{'*' if not hit[op, n, k] else ''}" for k in range(n) if tot[op, n, k]))
