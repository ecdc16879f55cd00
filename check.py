#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property
check.py replay FILE            judge a recorded violation again (its calls are shown)
check.py list                   the properties with a check"""

import concurrent.futures as cf
import hashlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
from harness import core  # noqa: E402
from harness.registry import CHECKS, Machine, Replay, Trace  # noqa: E402

KNOWN = core.VERIF / "known_findings.txt"
REPLAYS = core.VERIF / "replays"


def known(pid):
    """listed findings of a property: [(clause, exact call text, what)]"""
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith(f"finding: property={pid} "):
                d = json.loads(line.split(" ", 2)[2])
                out.append((d["clause"], d["call"], d["what"]))
    return out


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", 600))
        self.violations = []
        self.findings = set()
        self.known = known(pid)
        self.cov = {}
        self.calls = set()
        self.states = self.events = self.machine_states = 0
        self.samples = []
        self.stages = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def judge(self, mod, events, sequential, label):
        bad, cov, states = core.validate(mod, events, sequential=sequential)
        self.states += states
        self.events += len(events)
        for k, v in cov.items():
            self.cov[f"{mod}:{k}"] = self.cov.get(f"{mod}:{k}", 0) + v
        self.calls.update(e.get("call", "") for e in events)
        for e in events[:: max(1, len(events) // 3)][:3]:
            if len(self.samples) < 12:
                self.samples.append(dict(spec=mod, op=e["op"], call=e.get("call", "")[:300]))
        for i, clause in bad:
            e = events[i]
            hit = [w for c, call, w in self.known if c == clause and call == e.get("call")]
            if hit:
                self.findings.add(hit[0])
                continue
            hist = [x for x in events[:i] if x.get("run") == e.get("run")] if sequential else []
            self.violations.append(dict(module=mod, stage=label, clause=clause, event=e, history=hist[-40:]))

    def crash(self, label, err):
        """the code under test failed outside a guarded call (e.g. on import)"""
        self.violations.append(dict(module="", stage=label, clause="code-crashed", event=dict(op="", w=[], call=str(err)[-1500:]), history=[]))

    def stage(self, s, k, rnd):
        q = self.tier == "quick"
        if isinstance(s, Trace):
            jobs = [(py, max(8, int(s.n * sh * (1 if q else s.grow))))
                    for py, sh in zip(s.pys, s.share if len(s.pys) > 1 else (1.0,))]
            self.record(s, [(py, (*s.args, n, f"{rnd}")) for py, n in jobs], s.sequential)
        elif isinstance(s, Machine):
            if rnd == 0 or not q:
                ok, txt, _ = core.simulate(s.mod, invariant=s.invariant, steps=s.steps,
                                           samples=s.samples * (1 if q else 10), seed=core.SEED + 1000 * rnd)
                if not ok:
                    raise core.MachineryError(f"design machine {s.mod} violates {s.invariant}: {txt[-2500:]}")
                self.machine_states += s.samples * (1 if q else 10) * s.steps
            if rnd == 0 and not q and s.verify:
                ok, txt = core.verify(s.mod, s.invariant, s.verify)
                if ok is False:
                    raise core.MachineryError(f"design machine {s.mod} violates {s.invariant}: {txt[-2500:]}")
                self.stages.append(dict(round=0, stage=f"Apalache {s.mod} to depth {s.verify}", result="holds" if ok else "no answer in time"))
        elif isinstance(s, Replay):
            n = s.traces * (1 if q else s.grow)
            ok, txt, traces = core.simulate(s.gen, invariant="", steps=s.steps, samples=n, traces=n, mbt=True,
                                            seed=core.SEED + 1000 * rnd)
            if not traces:
                raise core.MachineryError(f"no behaviours from {s.gen}: {txt[-2500:]}")
            self.machine_states += sum(map(len, traces))
            with core.Scratch() as d:
                f = d / "traces.json"
                f.write_text(json.dumps(traces))
                self.record(s, [(py, (*s.args, f, f"{rnd}")) for py in s.pys], s.sequential)

    def record(self, s, jobs, sequential):
        """run the recorders side by side, judge their events together"""
        def one(job):
            py, args = job
            who = Path(py).parts[2]
            try:
                ev = core.run_recorder(s.rec, *args, py=py, timeout=800)
            except core.CodeCrash as e:
                return [], (f"{s.rec} {who}", e)
            for e in ev:
                e["py"] = who
                if "run" in e:
                    e["run"] = f"{who}:{e['run']}"
            return ev, None

        events = []
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            for ev, err in ex.map(one, jobs):
                events += ev
                if err:
                    self.crash(*err)
        self.judge(s.mod, events, sequential, s.rec)

    def run(self):
        c = CHECKS[self.pid]
        rnd = 0
        while True:
            for k, s in enumerate(c.stages):
                t = time.time()
                self.stage(s, k, rnd)
                self.stages.append(dict(round=rnd, stage=" ".join((type(s).__name__, getattr(s, "mod", ""), getattr(s, "invariant", ""))).strip(), s=round(time.time() - t, 1)))
                if self.tier != "quick" and self.left() < 0:
                    break
            rnd += 1
            if self.tier == "quick" or self.violations or self.left() < 60:
                break
        return self.finish(c)

    def finish(self, c):
        rc = 0
        for w in sorted(self.findings):
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        if self.violations:
            REPLAYS.mkdir(exist_ok=True)
            h = hashlib.sha1(json.dumps(self.violations[0], sort_keys=True).encode()).hexdigest()[:10]
            f = REPLAYS / f"{self.pid}_{h}.json"
            f.write_text(json.dumps(dict(property=self.pid, violations=self.violations[:20]), indent=1))
            for v in self.violations[:5]:
                print(f"  {v['clause']}: {v['event'].get('call', '')[:400]}")
                print(f"     {str(v['event'].get('w'))[:400]}")
            print(f"  {len(self.violations)} rejected events in all")
            print(f"VIOLATION property={self.pid} replay={f}")
            rc = 1
        core.EVID.mkdir(exist_ok=True)
        ev = dict(
            property=self.pid, tier=self.tier, seed=core.SEED, level=c.level,
            coverage=dict(
                states=self.states + self.machine_states,
                transitions=max(0, self.states - 8) + self.machine_states,
                traces_validated_against_impl=self.events,
                evaluations=self.events,
                distinct_nontrivial=len(self.calls),
                rule="one evaluation = one recorded library call (or group of calls) judged by the specification; distinct = different call text",
                samples=self.samples,
                cases=dict(sorted(self.cov.items())),
                stages=self.stages[:60],
            ),
            assumptions=c.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        (core.EVID / f"{self.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
        if rc == 0:
            print(f"ok property={self.pid} tier={self.tier} events={self.events} states={self.states + self.machine_states} wall={ev['wall_s']}s")
        return rc


def replay(path):
    d = json.loads(Path(path).read_text())
    rc = 0
    for v in d["violations"]:
        for e in v.get("history", []):
            print("   before:", e.get("call"))
        print(v["clause"], v["event"].get("call"))
        print("   recorded:", v["event"].get("w"))
        if v["module"] and not v.get("history"):
            bad, _, _ = core.validate(v["module"], [v["event"]], shards=1)
            print("   specification:", bad[0][1] if bad else "accepts")
            rc = rc or bool(bad)
    return int(rc)


def main():
    if len(sys.argv) < 2 or sys.argv[1] in ("-h", "--help"):
        print(__doc__)
        return 0
    if sys.argv[1] == "list":
        print(" ".join(CHECKS))
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return Run(sys.argv[1], tier).run()
    except core.MachineryError:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
