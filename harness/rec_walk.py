"""Replays walks over the conversion graph (walk.qnt) in the library (c_walk.qnt).

usage: rec_walk.py <traces.json> <salt> <out>"""

import sys
from recutil import *  # noqa: F403

traces, salt, path = json.load(open(sys.argv[1])), sys.argv[2], sys.argv[3]
g = Gen(f"walk/{salt}")
r = g.r
out = Out(path)
NAMES = ["ecef", "geodetic", "enu", "ned", "nwu", "sez", "aer", "spherical", "body", "dca"]
LOCAL = {"enu", "ned", "nwu", "sez", "aer", "body", "dca"}
ANG = dict(geodetic=(0, 1), spherical=(0, 1), aer=(0, 1))


def xyz(ell, lat, lon, h):
    a, b = ell.semimajor_axis, ell.semiminor_axis
    p, l = math.radians(lat), math.radians(lon)
    N = a * a / math.hypot(a * math.cos(p), b * math.sin(p))
    return ((N + h) * math.cos(p) * math.cos(l), (N + h) * math.cos(p) * math.sin(l),
            (N * (b / a) ** 2 + h) * math.sin(p))


def start_point(kind, ell, obs):
    a, b = ell.semimajor_axis, ell.semiminor_axis
    s = a / 6378137.0
    R0 = math.hypot(*xyz(ell, *obs))
    while True:
        if kind in LOCAL:
            d = min(g.pick(g.logu(1, 1e5) * s, g.logu(1, 1e7) * s, g.logu(1e-3, 10)), 300 * a)
            if R0 - d < 0.55 * b and R0 + d > 900 * a or R0 - d < 0.55 * b < R0 + d:
                continue
            v = [r.gauss(0, 1) * g.pick(1, 1, 1, 0) for _ in range(3)]
            m = math.hypot(*v) or 1.0
            if kind == "aer":
                # the elevation also over the zenith
                return [g.az(), r.uniform(90, 270) if r.random() < 0.08 else g.el(), d]
            return [d * x / m for x in v]
        lat, lon, h = g.lat(), g.lon(), g.height(a, 0.4, 300)
        if r.random() < 0.5:
            lat, lon, h = max(-90, min(90, obs[0] + g.small())), max(-180, min(180, obs[1] + g.small())), obs[2] + g.disp(1e5) * s
        p = xyz(ell, lat, lon, h)
        if not 0.55 * b < math.hypot(*p) < 500 * a or h < -0.45 * b:
            continue
        if kind == "ecef":
            return list(p)
        if kind == "geodetic":
            return [lat, lon, h]
        return [lat, lon, math.hypot(*p)]


def hop(src, dst, p, obs, e, ell, deg, frame, style):
    kw = {}
    local = src in LOCAL and dst in LOCAL
    args = list(p)
    if not local:
        if src in LOCAL or dst in LOCAL:
            args += obs
        if not (is_wgs(ell) and style):
            kw["ell"] = ell
    if "body" in (src, dst):
        args += e
        if not local and frame:
            kw["frame"] = frame
    if "dca" in (src, dst):
        args += e[:1]
    if not deg or style:
        kw["deg"] = deg
    name = f"{src}2{dst}"
    return name, args, kw


for run, states in enumerate(traces):
    kinds = [NAMES[s["at"]] for s in states]
    deg = states[0]["unit"] == 0
    U = (lambda x: x) if deg else math.radians
    ell = g.ell()
    s = ell.semimajor_axis / 6378137.0
    obs = [g.lat(), g.lon(), g.pick(0.0, r.uniform(-500, 9000), g.logu(1, 4e7)) * s]
    e = [g.pick(r.uniform(-400, 400), g.az(), 0.0), g.pick(r.uniform(-90, 90), 90.0, -90.0, 0.0), g.pick(r.uniform(-180, 180), 0.0)]
    m = r.choice([0, 0, 1, 3]) if HAVE_NP else 0
    j = r.randrange(m) if m else 0
    pts = [start_point(kinds[0], ell, obs) for _ in range(max(m, 1))]
    uobs, ue = [U(obs[0]), U(obs[1]), obs[2]], [U(x) for x in e]
    for p in pts:
        for k in ANG.get(kinds[0], ()):
            p[k] = U(p[k])
        if not deg and kinds[0] in ("geodetic", "spherical"):
            p[0] = max(-math.pi / 2, min(math.pi / 2, p[0]))
            p[1] = max(-math.pi, min(math.pi, p[1]))
    cur = pts[0] if not m else [np.array([p[k] for p in pts]) for k in range(3)]
    first = pts[j]
    out.add("start", [0 if deg else 1, ell.semimajor_axis, ell.semiminor_axis, *uobs, *ue, NAMES.index(kinds[0]), *first],
            f"start {kinds[0]} {first}", run=run)
    for a, b in zip(kinds, kinds[1:]):
        if not callable(getattr(pm, f"{a}2{b}", None)):
            name, args, kw = f"{a}2{b}", list(cur), {}
            res = Failed("Missing")
        else:
            name, args, kw = hop(a, b, cur, uobs, ue, ell, deg, r.choice(["ned", "enu", "nwu", "sez", None]), r.random() < 0.5)
            res = call(getattr(pm, name), *args, **kw)
        txt = show("pymap3d." + name, args, kw)
        ok = not isinstance(res, Failed) and len(res) == 3
        try:
            w = [num(x) if not m else num(np.asarray(x)[j]) for x in res]
        except Exception:
            ok = False
        if not ok:
            w = ["EXC"] * 3
        out.add("hop", [NAMES.index(a), NAMES.index(b), *w], txt, run=run)
        if not ok:
            break
        cur = list(res)
out.close()
