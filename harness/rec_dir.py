"""Records n-vector, line-of-sight and separation computations for c_dir.qnt.

usage: rec_dir.py <c21|c22|c25> <n> <salt> <out>"""

import sys
from recutil import *  # noqa: F403
from pymap3d import haversine as hv
from pymap3d import nvector as nv
from pymap3d.los import lookAtSpheroid

fam, n, salt, path = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
g = Gen(f"dir/{fam}/{salt}")
r = g.r
out = Out(path)
AX = lambda e: [e.semimajor_axis, e.semiminor_axis]  # noqa: E731


def ell_():
    if r.random() < 0.2:
        a = g.pick(6378137.0, 6.4e6, 1.0, 1e8)
        return g.named(a, a * (1 - g.pick(0.0, r.uniform(0, 0.1), g.logu(1e-9, 0.1), 0.1)))
    return g.ell()


def kws(ell, deg):
    kw = {}
    if ell is not None and not (is_wgs(ell) and r.random() < 0.5):
        kw["ell"] = ell
    if not deg or r.random() < 0.3:
        kw["deg"] = deg
    return kw


def un(deg, x):
    if deg:
        return x
    return math.copysign(math.pi / 2, x) if abs(x) == 90 else math.radians(x)


def nvec():
    c = r.random()
    if c < 0.1:
        v = [0.0, 0.0, 0.0]
        v[r.randrange(3)] = r.choice([1.0, -1.0])
        return v
    la, lo = math.radians(g.lat()), math.radians(g.lon())
    return [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]


def norm(v):
    s = math.hypot(*v)
    return [x / s for x in v]


def near(u, far=False):
    """close to u, or to its opposite"""
    d = [r.uniform(-1, 1) for _ in range(3)]
    e = g.logu(1e-12, 0.1)
    s = -1 if far else 1
    return norm([s * x + e * y for x, y in zip(u, d)])


def second(u, opp=0.1):
    c = r.random()
    if c < 0.2:
        return near(u)
    if c < 0.2 + opp:
        return near(u, True)
    if c < 0.25 + opp:
        return list(u)
    return nvec()


def ev21():
    c = r.random()
    if c < 0.1:
        deg = r.random() < 0.6
        v = [un(deg, g.lat()), un(deg, g.lon())]
        kw = kws(None, deg)
        w, t = embed(g, nv.geodetic2nvector, v, 3, ("geodetic2nvector", deg), kw)
        out.add("nvec", [0 if deg else 1, *v, *w], show("pymap3d.geodetic2nvector", t, kw))
    elif c < 0.22:
        deg = r.random() < 0.6
        v = nvec()
        kw = kws(None, deg)
        w, t = embed(g, nv.nvector2geodetic, v, 2, ("nvector2geodetic", deg), kw)
        out.add("nvgeo", [0 if deg else 1, *v, *w], show("pymap3d.nvector2geodetic", t, kw))
    elif c < 0.36:
        ell, deg = ell_(), r.random() < 0.6
        kw = kws(ell, deg)
        h = g.height(ell.semimajor_axis, deep=0.4)
        la, lo = math.radians(g.lat()), math.radians(g.lon())
        rr = ell.semimajor_axis + h
        v = [rr * math.cos(la) * math.cos(lo), rr * math.cos(la) * math.sin(lo), rr * math.sin(la)]
        if r.random() < 0.1:
            v = [0.0, 0.0, rr * r.choice([1, -1])]
        elif r.random() < 0.1 and math.hypot(v[0], v[1]) > 0.52 * ell.semiminor_axis:
            v[2] = 0.0
        w, t = embed(g, nv.ecef2nvector, v, 3, ("ecef2nvector", deg), kw)
        out.add("nvof", [*AX(ell), *v, *w], show("pymap3d.ecef2nvector", t, kw))
    elif c < 0.48:
        ell, deg = ell_(), r.random() < 0.6
        kw = kws(ell, deg)
        v = nvec()
        h = g.height(ell.semimajor_axis)
        if r.random() < 0.2:
            h, a = 0.0, v
        else:
            a = v + [h]
        w, t = embed(g, nv.nvector2ecef, a, 3, ("nvector2ecef", deg), kw)
        out.add("nvto", [*AX(ell), *v, h, *w], show("pymap3d.nvector2ecef", t, kw))
    elif c < 0.6:
        u = nvec()
        v = u + second(u)
        R = g.pick(None, 1.0, 6371e3, g.logu(1e-2, 1e9))
        kw = {} if R is None and r.random() < 0.7 else {"radius": R}
        w, t = embed(g, nv.nvector_distance, v, 1, "nvector_distance", kw)
        out.add("ndist", [R, *v, *w], show("pymap3d.nvector_distance", t, kw))
    elif c < 0.72:
        u = nvec()
        q = second(u, 0.25)
        if math.dist(u, [-x for x in q]) < 1e-6:
            return
        v = u + q + [g.pick(0.0, 1.0, 0.5, r.random(), r.random(), 1)]
        w = words(call(nv.nvector_interpolate, *v), 3)
        out.add("slerp", [*v, *w], show("pymap3d.nvector_interpolate", v))
    elif c < 0.8:
        k = r.choice([1, 2, 3, 3, 5, 8])
        u = nvec()
        P = [g.pick(nvec(), near(u), near(u)) for _ in range(k)]
        cont = g.pick(list, tuple, np.array if HAVE_NP else list)
        a = [cont([p[i] for p in P]) for i in range(3)]
        out.add("nmean", [k, *[x for p in P for x in p], *words(call(nv.nvector_mean, *a), 3)], show("pymap3d.nvector_mean", a))
    elif c < 0.9:
        u = nvec()
        q = second(u)
        p = g.pick(nvec(), near(u), near(norm([x + y for x, y in zip(u, q)])) if math.dist(u, [-x for x in q]) > 0.1 else nvec())
        if r.random() < 0.1:
            x = [u[1] * q[2] - u[2] * q[1], u[2] * q[0] - u[0] * q[2], u[0] * q[1] - u[1] * q[0]]
            if math.hypot(*x) > 1e-6:
                p = norm(x)
        v = u + q + p
        R = g.pick(None, 1.0, 6371e3, g.logu(1e-2, 1e9))
        kw = {} if R is None and r.random() < 0.7 else {"radius": R}
        if abs(u[0] * q[1] - u[1] * q[0]) + abs(u[0] * q[2] - u[2] * q[0]) + abs(u[1] * q[2] - u[2] * q[1]) < 1e-9:
            return
        w, t = embed(g, nv.nvector_cross_track_distance, v, 1, "nvector_cross_track_distance", kw)
        out.add("xtrack", [R, *v, *w], show("pymap3d.nvector_cross_track_distance", t, kw))
    else:
        u, p = nvec(), nvec()
        if r.random() < 0.5:
            p = near(u)
        v = u + second(u) + p + second(p)
        res = call(nv.nvector_intersection, *v)
        if isinstance(res, Failed) and res.name == "ZeroDivisionError":
            return  # the circles coincide
        out.add("cross", [*v, *words(res, 3)], show("pymap3d.nvector_intersection", v))


def ev_below():
    """a height below the surface, or none, by itself or among others"""
    ell, deg = ell_(), r.random() < 0.65
    kw = kws(ell, deg)
    k = r.randrange(1, 5)
    hs = [g.pick(0.0, g.logu(1e-3, 1e7)) for _ in range(k)]
    if r.random() < 0.8:
        hs[r.randrange(k)] = -g.logu(1e-30, 1e6) if r.random() < 0.7 else -5e-324
    v = [[un(deg, g.lat()) for _ in hs], [un(deg, g.lon()) for _ in hs], hs, [un(deg, g.az()) for _ in hs], [un(deg, r.uniform(0, 40)) for _ in hs]]
    if k == 1:
        v = [x[0] for x in v]
        if HAVE_NP and r.random() < 0.4:
            v = [np.array(x) for x in v]
    elif HAVE_NP:
        v = [np.array(x) if j == 2 or r.random() < 0.7 else x[0] for j, x in enumerate(v)]
        if r.random() < 0.3:
            v = [x.reshape(1, -1) if isinstance(x, np.ndarray) else x for x in v]
    else:
        hs = hs[:1]
        v = [x[0] for x in v]
    res = call(lookAtSpheroid, *v, **kw)
    w = 0 if not isinstance(res, Failed) else 1 if res.name == "ValueError" else 2
    out.add("below", [w, *[(h > 0) - (h < 0) for h in hs]], show("pymap3d.los.lookAtSpheroid", v, kw) + f" -> {'raised ' + str(res) if w else 'answered'}")


def ev22():
    if r.random() < 0.04:
        return ev_below()
    ell, deg = ell_(), r.random() < 0.65
    a = ell.semimajor_axis
    kw = kws(ell, deg)
    lat, lon = g.lat(), g.lon()
    h = g.pick(0.0, r.uniform(0, 9e3) * a / 6.4e6, r.uniform(2e5, 4e7) * a / 6.4e6, r.uniform(2e5, 2e6) * a / 6.4e6, g.logu(1e-6, 15) * a)
    az = g.pick(g.az(), g.az(), -g.az())
    limb = math.degrees(math.asin(min(1, a / (a + h))))
    tilt = g.pick(0.0, r.uniform(0, limb), r.uniform(0, limb), r.uniform(0, limb), r.uniform(0, 180), limb + g.small(), limb * r.uniform(0.98, 1.02), r.choice([90.0, 180.0]), g.logu(1e-9, 1))
    if r.random() < 0.08:  # to the other side, or around
        tilt = g.pick(-tilt, -tilt, 360.0 - tilt)
    v = [un(deg, lat), un(deg, lon), h, un(deg, az), un(deg, tilt)]
    form = r.random()
    if HAVE_NP and form < 0.5:
        # among others that meet, miss and look away
        k = r.randrange(1, 4)
        oth = [[un(deg, g.lat()), un(deg, g.lon()), r.uniform(2e5, 2e6) * a / 6.4e6, un(deg, g.az()), un(deg, r.choice([5.0, 30.0, 60.0, 75.0, 120.0]))] for _ in range(k)]
        i = r.randrange(k + 1)
        oth.insert(i, v)
        # a constant may be a scalar, where the results still vary
        A = [np.array([o[j] for o in oth]) for j in range(5)]
        txt = f" as element {i} of {k + 1}"
        if form < 0.12:
            A = [x.reshape(1, -1) for x in A]
        res = call(lookAtSpheroid, *A, **kw)
        if not isinstance(res, Failed):
            try:
                res = [x.reshape(-1)[i] if x.shape == A[0].shape else Failed("Shape") for x in res]
            except Exception as e:  # noqa: BLE001
                res = Failed("Shape", str(e))
    else:
        txt = ""
        res = call(lookAtSpheroid, *v, **kw)
    out.add("sight", [0 if deg else 1, *AX(ell), *v, *words(res, 3)], show("pymap3d.los.lookAtSpheroid", v, kw) + txt)


def ev25():
    if r.random() < 0.12:
        x = g.pick(r.uniform(-7, 7), g.small(), g.small() * 1e-2, 0.0, math.pi, -math.pi, r.uniform(-100, 100))
        w, t = embed(g, hv.haversine, [x], 1, "hav")
        out.add("hav", [x, *w], show("pymap3d.haversine.haversine", t))
        return
    deg = r.random() < 0.6
    la0, lo0 = g.lat(), g.pick(g.lon(), g.lon() + 180)
    la1, lo1 = g.lat(), g.pick(g.lon(), g.lon() + 180)
    c = r.random()
    if c < 0.25:
        e = g.logu(1e-12, 1)
        la1, lo1 = max(-90, min(90, la0 + e * g.pick(0, r.uniform(-1, 1)))), lo0 + e * g.pick(0, r.uniform(-1, 1))
    elif c < 0.4:  # next to the origin, where doubles are dense
        la0, lo0, la1, lo1 = [g.small() * 1e-6 for _ in range(4)]
    elif c < 0.55:
        la1, lo1 = -la0, lo0 + 180 * r.choice([1, -1])
        if r.random() < 0.6:
            la1, lo1 = max(-90, min(90, la1 + g.small())), lo1 + g.small()
    elif c < 0.62:
        la1, lo1 = la0, lo0
    elif c < 0.68:
        la1, lo1 = la0, lo0 + r.choice([360.0, -360.0])
    v = [un(deg, lo0), un(deg, la0), un(deg, lo1), un(deg, la1)]
    kw = kws(None, deg)
    c = r.random()
    if c < 0.4:
        f, hav = hv.anglesep_meeus, 1
    else:
        f, hav = hv.anglesep, 0
        if r.random() < 0.5:
            kw["force_non_astropy"] = True
        if kw.get("force_non_astropy") or not pm_astropy():
            hav = 1
    w, t = embed(g, f, v, 1, (f.__name__, deg), kw)
    out.add("sep", [0 if deg else 1, *v, hav, *w], show(f.__module__ + "." + f.__name__, t, kw))


def pm_astropy():
    return "astropy" in sys.modules


EV = dict(c21=ev21, c22=ev22, c25=ev25)[fam]
while len(out.ev) < n:
    g.begin()
    EV()
out.close()
