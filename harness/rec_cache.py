"""Replays behaviours of the registry machine (cache.qnt) in the library (c_cache.qnt).

usage: rec_cache.py <traces.json> <salt> <out>"""

import sys
from recutil import *  # noqa: F403
from pymap3d import ellipsoid as E_
from pymap3d import karney, lox, vincenty

traces, salt, path = json.load(open(sys.argv[1])), sys.argv[2], sys.argv[3]
g = Gen(f"cache/{salt}")
r = g.r
out = Out(path)
NAMES = ["wgs84", "grs80", "airy", "moon", "local_datum", "test_ball"]
FIRST = {k: dict(v) for k, v in Ellipsoid.models.items()}
ax = lambda m: (FIRST[m]["a"], FIRST[m]["b"])  # noqa: E731
AXES = [ax("wgs84"), ax("grs80"), ax("airy"), ax("moon"),
        (6378137.0, 6378137.0),  # the same equator, another flattening
        (6378137.0, 6356752.31424518 * (1 - 1e-9)),
        (2 * 6378137.0, 2 * 6356752.31424518),  # the same flattening
        (1.0, 0.5)]


def others():
    """ellipsoids which are easily mistaken for each other, other ones for every shared history"""
    a, b = AXES[0]
    AXES[5] = g.pick((a, b * (1 - 1e-9)), (a, b * (1 - 1e-12)), (a * (1 + g.logu(1e-12, 1e-7)), b), (a, b * (1 - g.logu(1e-13, 1e-6))))
    AXES[7] = (a, b)
    if r.random() < 0.5:
        x = g.pick(r.uniform(1e6, 1e7), r.uniform(1.0, 1.4))
        AXES[7] = (x, x * (1 - r.uniform(0.001, 0.05)))
    a, b = AXES[7]
    close = r.random() < 0.5
    for _ in range(1000):  # to the last digit the same flattening
        k = 1 + g.logu(1e-10, 1e-7) if close else g.pick(2.0, 1 + g.logu(1e-12, 1), 1e-3, 0.5)
        AXES[6] = (k * a, k * b)
        if (a - b) / a == (k * a - k * b) / (k * a) and k * a != a:
            break
    if AXES[7] == AXES[0]:
        AXES[7] = g.pick((a, 0.98 * a), (1.0, 0.99))


others()
p = [r.uniform(-80, 80), r.uniform(-170, 170), r.uniform(-80, 80), r.uniform(-170, 170)]
if abs(abs(p[1] - p[3]) - 180) < 20:
    p[3] = p[1] + 30
az, d = r.uniform(0, 360), r.uniform(1e4, 3e6)
tri = [p[0], p[2], r.uniform(-80, 80)], [p[1], p[3], p[1] + 20]
FNS = [
    ("karney.geodesic_inverse", lambda kw: karney.geodesic_inverse(*p, **kw), 3),
    ("karney.geodesic_direct", lambda kw: karney.geodesic_direct(p[0], p[1], az, d, **kw), 3),
    ("karney.geodesic_area", lambda kw: karney.geodesic_area(*tri, **kw), 2),
    ("karney.geodesic_line", lambda kw: sum(karney.geodesic_line(*p, npts=3, **kw), []), 6),
    ("vincenty.vdist", lambda kw: vincenty.vdist(*p, **kw), 2),
    ("geodetic2ecef", lambda kw: pm.geodetic2ecef(p[0], p[1], d / 100, **kw), 3),
    ("lox.loxodrome_inverse", lambda kw: lox.loxodrome_inverse(*p, **kw), 2),
    ("ecef2geodetic", lambda kw: pm.ecef2geodetic(4e6 + d, 3e6, 5e6, **kw), 3),
]


def result(k, kw):
    name, f, n = FNS[k]
    return words(call(f, kw), n)


def fresh(axes):
    """the answers of a process that has done nothing else"""
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            e = Ellipsoid(*axes)
            os.write(wr, json.dumps([result(k, dict(ell=e)) for k in range(len(FNS))]).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    s = b""
    while True:
        c = os.read(rd, 65536)
        if not c:
            break
        s += c
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(s)


class Mine(Ellipsoid):
    pass


TRUTH = [fresh(a) for a in AXES]
BLOCK = 10  # behaviours that share a history
for run, states in enumerate(traces):
    blk = run // BLOCK
    if run % BLOCK == 0:
        if run:
            others()
            TRUTH = [fresh(a) for a in AXES]
        out.add("start", [], "start", run=blk)
        for a, t in zip(AXES, TRUTH):
            for k, w in enumerate(t):
                out.add("truth", [k, *a, *w], f"fresh {FNS[k][0]} {a}", run=blk)
    else:
        out.add("start", [], "start", run=blk)
    # the registry of this behaviour
    for i, n in enumerate(NAMES):
        if i < 4:
            Ellipsoid.models[n] = dict(FIRST[n])
            out.add("put", [i, *ax(n)], f"models[{n!r}] = {ax(n)}", run=blk)
        else:
            Ellipsoid.models.pop(n, None)
    kept, last = [], {}
    for s in states[1:]:
        a = s["act"]
        op, n = a["op"], a["name"]
        name = NAMES[n]
        if op in ("lookup", "keep"):
            cls = Mine if r.random() < 0.15 else Ellipsoid
            e = call(cls.from_name, name)
            txt = f"{cls.__name__}.from_name({name!r})"
            if isinstance(e, Failed):
                w = [n, "EXC", "EXC", "EXC", 0, 2]
            else:
                try:
                    reg = Ellipsoid.models.get(name, {})
                    before = last.get((n, reg.get("a"), reg.get("b"), cls))
                    w = [n, num(e.semimajor_axis), num(e.semiminor_axis), num(e.flattening),
                         int(e.model == name and e.name == reg.get("name") and type(e) is cls), 2 if before is None else int(e == before)]
                    last[n, reg.get("a"), reg.get("b"), cls] = e
                except Exception:
                    w = [n, "EXC", "EXC", "EXC", 0, 2]
            out.add("lookup", w, txt, run=blk)
            if op == "keep" and w[1] != "EXC" and len(kept) < 6:
                kept.append((e, (w[1], w[2])))
        elif op == "custom":
            x = AXES[a["axes"]]
            e = Ellipsoid(*x, name=FIRST.get(name, dict(name=name))["name"] if r.random() < 0.6 else "", model=name if r.random() < 0.5 else "")
            out.add("made", [*x, num(e.semimajor_axis), num(e.semiminor_axis)], f"Ellipsoid{x}", run=blk)
            kept.append((e, x))
        elif op == "put":
            x = AXES[a["axes"]]
            old = Ellipsoid.models.get(name)
            if old is not None and r.random() < 0.5:
                old["a"], old["b"] = x  # changed in place
            else:
                Ellipsoid.models[name] = dict(name=FIRST.get(name, dict(name=name))["name"], a=x[0], b=x[1])
            out.add("put", [n, *x], f"models[{name!r}] = {x}", run=blk)
        elif op == "remove":
            Ellipsoid.models.pop(name, None)
            out.add("remove", [n], f"del models[{name!r}]", run=blk)
        elif op == "clear":
            res = call(E_.clear_ellipsoid_caches)
            out.add("clear", [], "clear_ellipsoid_caches()" + (f" {res}" if isinstance(res, Failed) else ""), run=blk)
        elif op in ("default", "named", "solve"):
            k = a["fn"]
            if op == "default":
                kw, x, how = r.choice([{}, dict(ell=None)]), AXES[0], "default"
            elif op == "named":
                reg = Ellipsoid.models[name]
                e = call(Ellipsoid.from_name, name)
                kw, x, how = dict(ell=e), (reg["a"], reg["b"]), f"from_name({name!r})"
            else:
                if a["obj"] >= len(kept):
                    continue
                e, x = kept[a["obj"]]
                kw, how = dict(ell=e), f"kept object {a['obj']}"
            out.add("solve", [k, *x, *result(k, kw)], f"{FNS[k][0]} on {how} {x}", run=blk)
out.close()
