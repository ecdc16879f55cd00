"""Records geodesic computations for c_geod.qnt.

usage: rec_geod.py <c15|c16|c17> <n> <salt> <out>"""

import sys
from recutil import *  # noqa: F403
from pymap3d import karney, vincenty

fam, n, salt, path = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
g = Gen(f"geod/{fam}/{salt}")
r = g.r
out = Out(path)


def rel(ell):
    """documented accuracy: round-off, and the series to the sixth order"""
    return 8e-15 + 3.5e-3 * ell.flattening ** 7


def custom():
    a = g.pick(6378137.0, 6.4e6, 1.0, 1e8)
    return g.named(a, a * (1 - g.pick(0.0, r.uniform(0, 0.1), g.logu(1e-9, 0.1), 0.1)))


def ell_():
    return custom() if r.random() < 0.25 else g.ell()


def wrap(lon):
    return (lon + 180) % 360 - 180


def pair(antipodal=True, limit=178.9):
    lat1, lon1 = g.lat(), g.lon()
    c = r.random()
    if c < 0.3:
        lat2, lon2 = g.lat(), g.lon()
    elif c < 0.45:
        lat2, lon2 = max(-90, min(90, lat1 + g.small())), lon1 + g.small()
    elif c < 0.55 and not antipodal:
        # as far away as the iteration goes
        d = limit - g.pick(r.uniform(0, 2), r.uniform(0, 10))
        az = math.radians(g.az())
        p1, q = math.radians(lat1), math.radians(d)
        p2 = math.asin(max(-1, min(1, math.sin(p1) * math.cos(q) + math.cos(p1) * math.sin(q) * math.cos(az))))
        dl = math.atan2(math.sin(az) * math.sin(q) * math.cos(p1), math.cos(q) - math.sin(p1) * math.sin(p2))
        lat2, lon2 = math.degrees(p2), wrap(lon1 + math.degrees(dl))
    elif c < 0.6 and antipodal:
        lat2, lon2 = max(-90, min(90, -lat1 + g.pick(0.0, g.small(), g.small()))), wrap(lon1 + 180 + g.pick(0.0, g.small(), g.small()))
    elif c < 0.66:
        lat2, lon2 = g.lat(), lon1  # a meridian
    elif c < 0.70:
        lat2, lon2 = g.lat(), wrap(lon1 + 180)
    elif c < 0.76:
        lat1, lat2, lon2 = 0.0, g.pick(0.0, -0.0), g.pick(g.lon(), wrap(lon1 + 180 + g.pick(g.small(), r.uniform(-1.5, 1.5))))  # the equator
    elif c < 0.80:
        lat2, lon2 = lat1, lon1
    elif c < 0.85:
        lat2, lon2 = lat1, g.lon()
    elif c < 0.9:
        lat2, lon2 = -lat1, g.lon()
    else:
        lat2, lon2 = r.choice([90.0, -90.0]), g.lon()
    if r.random() < 0.1:
        lon2 += r.choice([360, -360])
    if r.random() < 0.1:
        lat1, lon1, lat2, lon2 = lat2, lon2, lat1, lon1
    if not antipodal and central(lat1, lon1, lat2, lon2) > limit:
        return pair(antipodal, limit)
    return [lat1, lon1, lat2, lon2]


def central(a, b, c, d):
    a, b, c, d = map(math.radians, (a, b, c, d))
    u = [math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a)]
    v = [math.cos(c) * math.cos(d), math.cos(c) * math.sin(d), math.sin(c)]
    return math.degrees(2 * math.asin(min(1, math.dist(u, v) / 2)))


def unit(deg, v, k):
    """the first k numbers are angles; latitudes stay within the poles"""
    if deg:
        return list(v)
    o = [math.radians(x) for x in v[:k]] + list(v[k:])
    for i, x in enumerate(v[:k]):
        if abs(x) == 90:
            o[i] = math.copysign(math.pi / 2, x)
    return o


def kws(ell, deg):
    kw = {}
    if not (is_wgs(ell) and r.random() < 0.5):
        kw["ell"] = ell
    if not deg or r.random() < 0.3:
        kw["deg"] = deg
    return kw


AX = lambda e: [e.semimajor_axis, e.semiminor_axis]  # noqa: E731


def inverse(f, ell, deg, p, tol, aztol, nres):
    v = unit(deg, p, 4)
    kw = kws(ell, deg)
    w, a = embed(g, f, v, nres, (f.__name__, deg), kw, 0.4 if nres == 2 else 0.0)
    out.add("inverse", [0 if deg else 1, *AX(ell), *v, tol, aztol, *w, *([None] * (3 - nres))], show(f.__module__ + "." + f.__name__, a, kw))


def direct(f, ell, deg, p, tol, aztol, nres, order=lambda v: v):
    v = unit(deg, p, 3)  # lat lon az s
    kw = kws(ell, deg)
    a = order(v)
    w, a = embed(g, f, a, nres, (f.__name__, deg), kw, 0.4 if nres == 2 else 0.0)
    out.add("direct", [0 if deg else 1, *AX(ell), *v, tol, aztol, *w, *([None] * (3 - nres))], show(f.__module__ + "." + f.__name__, a, kw))


def azimuth():
    """also next to the directions of the compass"""
    if r.random() < 0.12:
        return r.choice([0.0, 90.0, 180.0, 270.0]) + r.choice([-1, 1]) * g.logu(1e-9, 1e-3)
    return g.pick(g.az(), g.az(), -g.az(), r.choice([-180.0, -90.0, 360.0, 540.0]))


def ev15():
    ell, deg = ell_(), r.random() < 0.7
    t = rel(ell)
    if r.random() < 0.55:
        inverse(karney.geodesic_inverse, ell, deg, pair(), t, max(20 * t, 1e-12), 3)
    else:
        a = ell.semimajor_axis
        s = g.pick(0.0, r.uniform(0, math.pi) * a, g.logu(1e-9, 1) * a, r.uniform(1, 20) * a, math.pi * ell.semiminor_axis) * r.choice([1, 1, 1, -1])
        az = azimuth()
        direct(karney.geodesic_direct, ell, deg, [g.lat(), g.lon(), az, g.w(s)], t, max(20 * t, 1e-12), 3)


def line(f, inv, ell, deg, p, tol, n_):
    v = unit(deg, p, 4)
    kw = kws(ell, deg)
    s, az = words(call(inv, *v, **kw), 3 if inv is karney.geodesic_inverse else 2)[:2]
    if n_ != 100 or r.random() < 0.5:
        kw["npts"] = n_
    res = call(f, *v, **kw)
    try:
        lats, lons = res
        w = [len(lats)] + [num(x) for q in zip(lats, lons, strict=True) for x in q]
        if n_ != len(lats):
            w = [-1]
    except Exception:
        w = [-1]
    out.add("line", [0 if deg else 1, *AX(ell), *v, tol, s, az, *w], show(f.__module__ + "." + f.__name__, v, kw) + (f" {res}" if isinstance(res, Failed) else ""))


def corners():
    """corners in random or sorted order, none opposite; now and then two that follow each other
    (the last and the first among them) nearly or exactly agree"""
    P = corners_apart()
    if r.random() < 0.2:
        i = g.pick(0, len(P), r.randrange(len(P) + 1))
        la, lo = P[i % len(P)]
        d = g.logu(1e-13, 1e-3) * r.choice([1, -1])
        P.insert(i, g.pick((la, lo), (la, wrap(lo + d)), (la, wrap(lo + d)), (max(-89.9, min(89.9, la + d)), lo)))
    return P


def corners_apart():
    k = r.choice([3, 3, 3, 4, 4, 5, 6, 8])
    c = r.random()
    if c < 0.2:  # around a pole
        s = r.choice([1, -1])
        L = sorted(r.uniform(-180, 180) for _ in range(k))
        if any(abs(wrap(L[(i + 1) % k] - L[i])) > 170 or (L[(i + 1) % k] - L[i]) % 360 > 170 for i in range(k)):
            return corners_apart()
        P = [(s * r.uniform(20, 89), x) for x in L]
        return P if r.random() < 0.5 else P[::-1]
    lat0, lon0 = r.uniform(-80, 80), g.lon()
    R = g.pick(r.uniform(1, 60), g.logu(1e-4, 10))
    P = []
    for _ in range(k):
        la = max(-89.0, min(89.0, lat0 + r.uniform(-R, R)))
        P.append((g.pick(la, la, round(la)), wrap(lon0 + min(80, R / max(0.05, math.cos(math.radians(la)))) * r.uniform(-1, 1))))
    if r.random() < 0.5:
        m = [sum(x[0] for x in P) / k, lon0]
        P.sort(key=lambda q: math.atan2(q[0] - m[0], wrap(q[1] - m[1])), reverse=r.random() < 0.5)
    if any(abs(abs(wrap(P[i][1] - P[i - 1][1])) - 180) < 5 for i in range(k)):
        return corners_apart()
    return P


def polygon():
    ell, deg = ell_(), r.random() < 0.7
    kw = kws(ell, deg)
    P = corners()
    V = [unit(deg, q, 2) for q in P]
    k = len(V)
    cont = g.pick(list, list, tuple, np.array if HAVE_NP else list)
    lats, lons = cont([v[0] for v in V]), cont([v[1] for v in V])
    res = call(karney.geodesic_area, lats, lons, **kw)
    w = []
    for i in range(k):
        q = V[(i + 1) % k]
        w += [*V[i], *words(call(karney.geodesic_inverse, *V[i], *q, **kw), 3)[:2]]
    txt = show("pymap3d.karney.geodesic_area", [lats, lons], kw)
    out.add("polygon", [0 if deg else 1, *AX(ell), 5 * rel(ell), k, *w, *words(res, 2)], txt)


def relations():
    """another first corner, the other direction, a cut along a diagonal"""
    ell, deg = ell_(), r.random() < 0.7
    kw = kws(ell, deg)
    P = corners()
    V = [unit(deg, q, 2) for q in P]
    k = len(V)
    f = lambda Q: words(call(karney.geodesic_area, [q[0] for q in Q], [q[1] for q in Q], **kw), 2)  # noqa: E731
    A, L = f(V)
    sc = ell.semimajor_axis ** 2
    t = 200 * rel(ell)
    i = r.randrange(1, k)
    A1, L1 = f(V[i:] + V[:i])
    txt = show("pymap3d.karney.geodesic_area", [[q[0] for q in V], [q[1] for q in V]], kw)
    out.add("same", [sc, t, A, A1], txt + f" from corner {i}")
    out.add("same", [ell.semimajor_axis, t, L, L1], txt + f" perimeter from corner {i}")
    A2, L2 = f(V[::-1])
    # (half of the ellipsoid has no sign)
    if not isinstance(A2, str):
        out.add("same", [sc, t, A, -A2], txt + " reversed")
    else:
        out.add("same", [sc, t, A, A2], txt + " reversed")
    out.add("same", [ell.semimajor_axis, t, L, L2], txt + " perimeter reversed")


def ev16():
    c = r.random()
    if c < 0.35:
        ell, deg = ell_(), r.random() < 0.7
        line(karney.geodesic_line, karney.geodesic_inverse, ell, deg, pair(), 2 * rel(ell), g.pick(2, 3, 4, 5, 7, 1, 10))
    elif c < 0.85:
        polygon()
    else:
        relations()


def ev17():
    ell = g.ell() if r.random() < 0.8 else g.named(6378137.0, 6378137.0 * (1 - g.pick(0, g.logu(1e-8, 0.01))))
    deg = r.random() < 0.7
    c = r.random()
    # Vincenty: third order in the flattening
    t = 3e-10 + 2 * ell.flattening ** 4
    a = ell.semimajor_axis
    # beyond, the shortest way may leave the iteration's domain (Vincenty: nearly antipodal)
    limit = 179.0 - 180 * ell.flattening - 3000 * ell.flattening ** 2
    # and better where the poles (moved by 0.6 mm) and antipodes are far
    fine = min(t, 3e-11 + 0.5 * ell.flattening ** 4)
    if c < 0.45:
        p = pair(False, limit)
        near = max(abs(p[0]), abs(p[2])) > 89.999 or central(*p) > limit - 5
        inverse(vincenty.vdist, ell, deg, p, t if near else fine, -1, 2)
    elif c < 0.85 or not HAVE_NP:
        s = g.pick(0.0, r.uniform(0, math.pi) * a, g.logu(1e-7, 1) * a, r.uniform(0, 1) * a)
        p = [g.lat(), g.lon(), azimuth(), g.w(s)]
        near = abs(p[0]) > 89.999
        direct(vincenty.vreckon, ell, deg, p, t if near else fine, -1, 2, lambda v: [v[0], v[1], v[3], v[2]])
    else:
        p = pair(False, limit)
        if central(*p) < 1e-6:
            return
        pole = 2e-10 / math.sin(math.radians(central(*p))) if 90 in map(abs, p) else 0  # which moves 0.6 mm
        line(vincenty.track2, karney.geodesic_inverse, ell, deg, p, 4 * t + pole, g.pick(2, 3, 4, 5, 7, 10))


EV = dict(c15=ev15, c16=ev16, c17=ev17)[fam]
while len(out.ev) < n:
    g.begin()
    EV()
out.close()
