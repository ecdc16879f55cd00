"""Records conversions between coordinate representations (c_geo.qnt).

usage: rec_geo.py <family> <n> <salt> <out>"""

import math
import sys
from recutil import *  # noqa: F403

fam, n, salt, path = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
TOL = float(os.environ.get("VQ_TOL", "4e-14"))
g = Gen(f"geo/{fam}/{salt}")
out = Out(path)

K = dict(ecef=0, geodetic=1, enu=2, ned=3, nwu=4, sez=5, aer=6, spherical=7, body=8, dca=9)
# which of the three coordinates are angles
ANG = dict(geodetic=(0, 1), spherical=(0, 1), aer=(0, 1))
LOCAL = {"enu", "ned", "nwu", "sez", "aer", "body", "dca"}


def pairs(*names):
    """existing conversion functions among the names"""
    return [(s, d) for s in names for d in names if s != d and callable(getattr(pm, f"{s}2{d}", None))]


ALLPAIRS = pairs(*K)
FAM = {
    "c01": [("geodetic", "ecef"), ("ecef", "geodetic"), ("ecef", "geodetic")],
    "c02": [p for p in ALLPAIRS if set(p) & {"enu", "ned", "nwu", "sez"} and not set(p) & {"aer", "body", "dca"}],
    "c03": [p for p in ALLPAIRS if "aer" in p],
    "c04": [p for p in ALLPAIRS if "body" in p],
    "c05": [p for p in ALLPAIRS if "dca" in p],
    "c26": [("geodetic", "spherical"), ("spherical", "geodetic")],
}[fam]

if not FAM:
    sys.exit("no conversion functions found")


def xyz(ell, lat, lon, h):
    """reference position for generating inputs only (not an oracle)"""
    a, b = ell.semimajor_axis, ell.semiminor_axis
    p, l = math.radians(lat), math.radians(lon)
    N = a * a / math.hypot(a * math.cos(p), b * math.sin(p))
    return ((N + h) * math.cos(p) * math.cos(l), (N + h) * math.cos(p) * math.sin(l),
            (N * (b / a) ** 2 + h) * math.sin(p))


def domain_point(ell):
    """geodetic point with b/2 < R < 1000 a"""
    a, b = ell.semimajor_axis, ell.semiminor_axis
    while True:
        lat, lon, h = g.lat(), g.lon(), g.height(a)
        R = math.hypot(*xyz(ell, lat, lon, h))
        if 0.51 * b < R < 990 * a and h > -0.48 * b:
            return lat, lon, h


def ecef_point(ell):
    a, b = ell.semimajor_axis, ell.semiminor_axis
    c = g.r.random()
    if c < 0.6:
        return xyz(ell, *domain_point(ell))
    R = g.pick(a, b, (a + b) / 2, g.r.uniform(0.51 * b, 2 * a), g.logu(a, 900 * a))
    if c < 0.75:  # on the axes exactly
        v = g.pick((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))
        z = g.pick(0.0, 0.0, g.small() * 1e-3 * R)
        return tuple(R * x + (z if x == 0 else 0.0) for x in v)
    th, el = math.radians(g.lon()), math.asin(g.r.uniform(-1, 1))
    return (R * math.cos(el) * math.cos(th), R * math.cos(el) * math.sin(th), R * math.sin(el))


def local_point(k, big):
    if k == "aer":
        # the elevation also over the zenith, as a dish tips over
        el = g.r.choice([-1, 1]) * g.r.uniform(90, 180) if g.r.random() < 0.05 else g.el()
        return g.az(), el, g.pick(0.0, g.logu(1e-3, 10), g.logu(1, big), g.logu(1, big), g.logu(1, big))
    c = g.r.random()
    p = [g.disp(big), g.disp(big), g.disp(big)]
    if c < 0.15:
        p[g.r.randrange(3)] = 0.0
    if c < 0.05:
        p = [0.0, 0.0, p[2]]
    if c < 0.02:
        p = [0.0, 0.0, 0.0]
    return tuple(p)


MAT = [(s, d) for s in K for d in K if callable(getattr(pm, f"{s}2{d}_matrix", None))]
VEC = [(s, d, f"{s}2{d}v") for s in K for d in K if callable(getattr(pm, f"{s}2{d}v", None))]
VEC += [("enu", "ecef", "enu2uvw"), ("ecef", "enu", "uvw2enu")]
MATFAM = {"c02": [p for p in MAT if "body" not in p], "c04": [p for p in MAT if "body" in p]}.get(fam, [])
VECFAM = {"c02": [p for p in VEC if "body" not in p[2]], "c04": [p for p in VEC if "body" in p[2]]}.get(fam, [])


def attitude():
    return tuple(g.w(x) for x in _attitude())


def _attitude():
    return (g.pick(g.r.uniform(-400, 400), g.az(), 0.0),
            g.pick(g.r.uniform(-180, 180), 90.0, -90.0, 0.0, g.small()),
            g.pick(g.r.uniform(-360, 360), 0.0, 180.0))


def matrix_event(i):
    s, d = MATFAM[i % len(MATFAM)]
    deg = g.r.random() < 0.6
    U = lambda x: x if deg else math.radians(x)
    obs, e = [U(g.lat()), U(g.lon())], [U(x) for x in attitude()]
    args = (obs if "ecef" in (s, d) else []) + (e if "body" in (s, d) else [])
    name, kw = f"{s}2{d}_matrix", {}
    if (s, d) == ("ned", "body") and g.r.random() < 0.5:
        name = "body_matrix"
    if "body" in (s, d) and g.r.random() < 0.3:
        kw["sequence"] = "zyx"
    if not deg or g.r.random() < 0.5:
        kw["deg"] = deg
    m = call(getattr(pm, name), *args, **kw)
    try:
        w = [num(x) for row in m for x in row]
        assert len(w) == 9 and len(m) == 3
    except Exception:
        w = ["EXC"] * 9
    out.add("matrix", [K[s], K[d], 0 if deg else 1, *obs, *(e if fam == "c04" else [0, 0, 0]), *w, 8e-15],
            show("pymap3d." + name, args, kw), fn=name)


def vector_event(i):
    s, d, name = VECFAM[i % len(VECFAM)]
    deg = g.r.random() < 0.6
    U = lambda x: x if deg else math.radians(x)
    obs, e = [U(g.lat()), U(g.lon())], [U(x) for x in attitude()]
    p = [g.disp(), g.disp(), g.disp()]
    if g.r.random() < 0.1:
        p[g.r.randrange(3)] = 0.0
    body = "body" in (s, d)
    args = p + obs + (e if body else [])
    kw = {}
    if body:
        fr = g.pick("ned", "enu", "nwu", "sez", None)
        if fr:
            kw["frame"] = fr
    if not deg or g.r.random() < 0.5:
        kw["deg"] = deg
    res, args = embed(g, getattr(pm, name), args, 3, (name, deg), kw)
    out.add("vector", [K[s], K[d], 0 if deg else 1, *obs, *(e if body else [0, 0, 0]), *p, *res, 8e-15],
            show("pymap3d." + name, args, kw), fn=name)


def helper_event(i):
    """Cartesian-polar and Cartesian-spherical helpers (radians)"""
    from pymap3d.utils import cart2pol, cart2sph, pol2cart, sph2cart

    x, y, z = [g.pick(g.disp(), g.disp(), 0.0, -0.0) for _ in range(3)]
    az, el = math.radians(g.lon()), math.radians(g.el())
    r = g.logu(1e-6, 1e9)
    k = i % 4
    z3 = [0.0] * 6
    if k == 0:
        t, rho = embed(g, cart2pol, (x, y), 2, "cart2pol")[0]
        p, q, s, d, c = (x, y, 0.0), (0.0, t, rho), 0, 7, show("utils.cart2pol", (x, y))
    elif k == 1:
        a_, b_ = embed(g, pol2cart, (az, r), 2, "pol2cart")[0]
        p, q, s, d, c = (0.0, az, r), (a_, b_, 0.0), 7, 0, show("utils.pol2cart", (az, r))
    elif k == 2:
        a_, e_, r_ = embed(g, cart2sph, (x, y, z), 3, "cart2sph")[0]
        p, q, s, d, c = (x, y, z), (e_, a_, r_), 0, 7, show("utils.cart2sph", (x, y, z))
    else:
        q = embed(g, sph2cart, (az, el, r), 3, "sph2cart")[0]
        p, s, d, c = (el, az, r), 7, 0, show("utils.sph2cart", (az, el, r))
    out.add("convert", [K0(s), K0(d), 1, 1.0, 1.0, *z3, *p, *q, 2e-15, 1e-30], c, fn="helper")


def K0(k):
    return k


import inspect

LETTERS = dict(ned="ned", enu="enu", nwu="nwu", sez="sez")


def choices():
    """every body function with every frame, supported and unsupported sequences"""
    todo = [(f"{x}_matrix", False) for x in ("body", *(f"{f}2body" for f in LETTERS), *(f"body2{f}" for f in LETTERS))]
    todo += [(x, False) for f in LETTERS for x in (f"{f}2body", f"body2{f}")]
    todo += [(x, True) for x in ("ecef2body", "body2ecef", "ecef2bodyv", "body2ecefv", "geodetic2body", "body2geodetic")]
    for name, framed in todo:
        f = getattr(pm, name)
        framed = framed and "frame" in inspect.signature(f).parameters
        local = "ecef" not in name and "geodetic" not in name
        for fr in ([None, *LETTERS] if framed else [None]):
            for seq in ["zyx", g.pick("xyz", "zxz", "zxy", "yxz"), g.pick("", "ZYX", "zy", "zyxz", "zyx ", None, "zy'x''")]:
                deg = g.pick(None, True, False)
                U = (lambda x: math.radians(x)) if deg is False else (lambda x: x)
                p = [] if "matrix" in name else [U(g.lat()), U(g.lon()), 10.0] if name == "geodetic2body" else [1e5 + g.disp(), 6e6, g.disp()]
                obs = [] if local else [U(g.lat()), U(g.lon())] if name.endswith("v") or "matrix" in name else [U(g.lat()), U(g.lon()), 50.0]
                args = [*p, *obs, *[U(x) for x in attitude()]]
                kw = dict(sequence=seq)
                bad = framed and g.r.random() < 0.3
                if bad:
                    kw["frame"] = g.pick("", "NED", "neu", "aer", "body", "ecef", "xyz", None)
                elif fr:
                    kw["frame"] = fr
                if deg is not None:
                    kw["deg"] = deg
                res = call(f, *args, **kw)
                o = 0 if not isinstance(res, Failed) else 1 if res.name == "ValueError" else 2
                out.add("choice", [int(bad), int(seq != "zyx"), o], show("pymap3d." + name, args, kw), fn=name)


if fam == "c04":
    choices()
for i in range(n):
    g.begin()
    if MATFAM and i % 8 == 6:
        matrix_event(i // 8)
        continue
    if VECFAM and i % 8 == 7:
        vector_event(i // 8)
        continue
    if fam == "c26" and i % 4 == 3:
        helper_event(i // 4)
        continue
    src, dst = FAM[i % len(FAM)]
    deg = g.r.random() < 0.6
    ell = g.ell()
    a, b = ell.semimajor_axis, ell.semiminor_axis
    s = a / 6378137.0
    lat0, lon0 = g.lat(), g.lon()
    h0 = g.pick(0.0, g.r.uniform(-500, 9000) * s, g.r.uniform(0, 4e7) * s, g.logu(1, 1e6) * s)
    yaw, pitch, roll = attitude()
    big = 1e8 * s
    if src == "ecef":
        c = g.r.random()
        if dst in LOCAL and c < 0.5:  # near the observer
            P = xyz(ell, lat0, lon0, h0)
            P = tuple(x + g.disp(1e5 * s) * (0 if c < 0.03 else 1) for x in P)
        else:
            P = ecef_point(ell)
    elif src == "geodetic":
        P = domain_point(ell)
        if dst in LOCAL and g.r.random() < 0.5:
            P = (max(-90.0, min(90.0, lat0 + g.pick(0.0, g.small()))), lon0 + g.pick(0.0, g.small()), h0 + g.disp(1e5) * s)
    elif src == "spherical":
        la, lo, h = domain_point(ell)
        R = math.hypot(*xyz(ell, la, lo, h))
        P = (la, lo, R)
    else:
        P = local_point(src, big)
        if dst == "geodetic":
            # keep the target in the domain of ecef2geodetic
            for _ in range(50):
                R = math.hypot(*xyz(ell, lat0, lon0, h0))
                d = P[2] if src == "aer" else math.hypot(*P)
                if (R - d > 0.52 * b or d > R + 0.52 * b) and R + d < 900 * a:
                    break
                P = local_point(src, min(big, 0.4 * b))
    U = lambda x: x if deg else math.radians(x)
    if a < 1e5:
        g.whole = False
    p = [U(x) if j in ANG.get(src, ()) else g.w(x) for j, x in enumerate(P)]
    if src == "geodetic" and not deg:
        p[0] = max(-math.pi / 2, min(math.pi / 2, p[0]))
    obs = [U(lat0), U(lon0), g.w(h0)]
    if fam == "c04":
        e = [U(yaw), U(pitch), U(roll)]
    elif fam == "c05":
        e = [U(yaw), 0.0, 0.0]
    else:
        e = [0.0, 0.0, 0.0]
    fname = f"{src}2{dst}"
    f = getattr(pm, fname)
    args = list(p)
    kw = {}
    both_local = src in LOCAL and dst in LOCAL
    if not both_local:
        if src in LOCAL or dst in LOCAL:
            args += obs
        kw["ell"] = ell
        if is_wgs(ell):  # omitted and None mean WGS84
            z = g.r.randrange(3)
            if z == 0:
                kw.pop("ell")
            elif z == 1:
                kw["ell"] = None
    if "body" in (src, dst):
        args += e
        if not both_local:
            fr = g.pick("ned", "enu", "nwu", "sez", None)
            if fr:
                kw["frame"] = fr
    if "dca" in (src, dst):
        args += e[:1]
    if deg and g.r.random() < 0.5:
        pass
    else:
        kw["deg"] = deg
    res, shown = embed(g, f, args, 3, (fname, deg), kw)
    rt, at = TOL, 0.0
    if fname == "ecef2geodetic" or dst == "geodetic":
        rt, at = 2.5 * TOL, 2e-8  # the polar axis is recognised within 1e-8 m
    out.add("convert", [K[src], K[dst], 0 if deg else 1, a, b, *obs, *e, *p, *res, rt, at],
            show("pymap3d." + fname, shown, kw), fn=fname)
out.close()
