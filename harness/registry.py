"""Which specification modules, recorders and machines decide each property."""

from __future__ import annotations

from dataclasses import dataclass, field

from .core import PY_NP, PY_STD

NP, STD = PY_NP, PY_STD


@dataclass
class Trace:
    """record calls of the code with `rec`, validate the trace against `mod`"""

    mod: str
    rec: str
    args: tuple = ()
    n: int = 2000  # events of a quick run
    pys: tuple = (NP, STD)  # interpreters; each gets its share of n
    share: tuple = (0.75, 0.25)
    sequential: bool = False
    grow: int = 6  # size factor of a thorough round


@dataclass
class Machine:
    """simulate (and in the thorough tier verify) a design machine"""

    mod: str
    invariant: str = "inv"
    steps: int = 20
    samples: int = 300
    verify: int = 0  # Apalache bound in the thorough tier


@dataclass
class Replay:
    """generate behaviours with `quint run --mbt`, replay them in the code, judge"""

    gen: str  # machine module
    mod: str  # judging module
    rec: str
    args: tuple = ()
    steps: int = 12
    traces: int = 60
    pys: tuple = (NP,)
    sequential: bool = True
    grow: int = 5


@dataclass
class Check:
    id: str
    stages: list
    technique: str
    note: str
    assumptions: list = field(default_factory=list)
    level: str = "model_checking"


TV = "trace validation of recorded library calls against a Quint specification"
NOTE = ("Every recorded call is a transition of the Quint specification or it is rejected with the clause it violates; "
        "inputs are sampled (boundary lattice and random), the specification decides each one in 128-bit fixed point.")

CHECKS: dict[str, Check] = {}


def add(c: Check):
    CHECKS[c.id] = c


def geo(id, fam, n=8000):
    add(Check(id, [Trace("c_geo", "rec_geo.py", (fam,), n=n)], TV, NOTE))


geo("C01", "c01")
geo("C02", "c02", 10000)
geo("C03", "c03")
geo("C04", "c04", 10000)
geo("C05", "c05")
geo("C26", "c26")

add(Check("C07", [Trace("c_eci", "rec_eci.py", ("c07",), n=5000)], TV, NOTE))
add(Check("C08", [Trace("c_eci", "rec_eci.py", ("c08",), n=3500, share=(.6, .4))], TV, NOTE))
add(Check("C23", [Trace("c_time", "rec_time.py", (), n=6000, share=(.6, .4))], TV, NOTE))
add(Check("C24", [Trace("c_eci", "rec_eci.py", ("c24",), n=5000)], TV, NOTE))

add(Check("C06", [Machine("walk", samples=200, steps=20, verify=4),
                  Replay("walk", "c_walk", "rec_walk.py", steps=24, traces=120, pys=(NP, STD))],
          "model-based test generation: behaviours of the Quint conversion-graph machine replayed in the library, "
          "each hop validated against the stateful trace specification",
          "The specification's state is the point itself; every hop of every generated walk must denote it."))

REL = ("Pairs of recorded calls that ask the same question; the specification decides whether the answers agree, allowing "
       "only what rounding of the arguments can cause (judged from neighbouring arguments).")
add(Check("C09", [Trace("c_rel", "rec_rel.py", ("units",), n=8000)], TV, REL))
add(Check("C10", [Trace("c_rel", "rec_rel.py", ("arrays",), n=9000, pys=(NP,), share=(1.0,))], TV, REL))
add(Check("C12", [Trace("c_rel", "rec_rel.py", ("twin",), n=6000, pys=(NP,), share=(1.0,))], TV, REL))
add(Check("C13", [Trace("c_rel", "rec_rel.py", ("ell",), n=8000)], TV, REL))
MBT = "model-based test generation from a Quint machine, replayed in the library and judged by a cache-free stateful trace specification"
add(Check("C14", [Machine("cache", samples=200, steps=25, verify=4),
                  Replay("cache", "c_cache", "rec_cache.py", steps=30, traces=100, pys=(NP, STD))],
          MBT, "The design machine with its caches is checked to be transparent; its behaviours are replayed, and every lookup and "
          "computation has to equal that of a process without history."))
add(Check("C11", [Machine("pure_calls", samples=100, steps=25, verify=6),
                  Replay("pure_calls", "c_pure", "rec_pure.py", steps=32, traces=120, pys=(NP, STD))],
          MBT.replace("cache-free ", ""), "Generated call sequences on overlapping, read-only and strided buffers; the specification holds the contents "
          "of the memory and the answers so far, and rejects a call that changes memory or answers by its history."))

add(Check("C15", [Trace("c_geod", "rec_geod.py", ("c15",), n=4000)], TV, NOTE))
add(Check("C16", [Trace("c_geod", "rec_geod.py", ("c16",), n=2000)], TV, NOTE))
add(Check("C17", [Trace("c_geod", "rec_geod.py", ("c17",), n=3600)], TV, NOTE))
add(Check("C18", [Trace("c_lat", "rec_lat.py", ("c18",), n=6000)], TV, NOTE))
add(Check("C19", [Trace("c_lat", "rec_lat.py", ("c19",), n=8000)], TV, NOTE))
add(Check("C20", [Trace("c_lat", "rec_lat.py", ("c20",), n=6500)], TV, NOTE))
add(Check("C21", [Trace("c_dir", "rec_dir.py", ("c21",), n=8000)], TV, NOTE))
add(Check("C22", [Trace("c_dir", "rec_dir.py", ("c22",), n=8000)], TV, NOTE))
add(Check("C25", [Trace("c_dir", "rec_dir.py", ("c25",), n=8000)], TV, NOTE))

add(Check("C27", [Machine("cli", samples=60, steps=60, verify=2),
                  Replay("cli", "c_cli", "rec_cli.py", steps=120, traces=60, pys=(NP, STD))],
          "model-based test generation: lines typed by the Quint machine of the command line's grammar, run by the real command "
          "line, their status and output judged by the trace specification",
          "The specification parses every line itself; the printed numbers are compared with those of the call it means."))
add(Check("C28", [Trace("c_valid", "rec_valid.py", (), n=9000)], TV, NOTE))

# the same property as a law of the specification's own definitions (laws.qnt)
for _id in CHECKS:
    _law = "C15" if _id == "C17" else _id
    if _law in ("C11", "C12", "C14", "C27"):
        continue        # laws of their own machines, or about installations
    _slow = _law in ("C15", "C16", "C19")
    CHECKS[_id].stages.insert(0, Machine("laws", invariant=f"law_{_law}", steps=10, samples=2 if _slow else 15))
