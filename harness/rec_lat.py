"""Records auxiliary latitudes, radii and rhumb lines for c_lat.qnt.

usage: rec_lat.py <c18|c19|c20> <n> <salt> <out>"""

import sys
from recutil import *  # noqa: F403
from pymap3d import karney, latitude, lox, rcurve, rsphere

fam, n, salt, path = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
g = Gen(f"lat/{fam}/{salt}")
r = g.r
out = Out(path)
AX = lambda e: [e.semimajor_axis, e.semiminor_axis]  # noqa: E731


def ell_():
    if r.random() < 0.25:
        a = g.pick(6378137.0, 6.4e6, 1.0, 1e8)
        return g.named(a, a * (1 - g.pick(0.0, r.uniform(0, 0.1), g.logu(1e-9, 0.1), 0.1)))
    return g.ell()


def kws(ell, deg):
    kw = {}
    if not (is_wgs(ell) and r.random() < 0.5):
        kw["ell"] = ell
    if not deg or r.random() < 0.3:
        kw["deg"] = deg
    return kw


def un(deg, x):
    if deg:
        return x
    return math.copysign(math.pi / 2, x) if abs(x) == 90 else math.radians(x)


AUX = ["geocentric", "parametric", "isometric", "conformal", "authalic", "rectifying"]


def ev19():
    ell, deg = ell_(), r.random() < 0.6
    u = 0 if deg else 1
    a = ell.semimajor_axis
    kw = kws(ell, deg)
    k = r.randrange(7)
    h = 0.0
    if k == 6:
        x = un(deg, g.lat())
        h = a * g.pick(r.uniform(0.9, 1.1), r.uniform(0.9, 1.1), g.logu(0.9, 900))
        args = [x, h]
        f, back = latitude.geoc2geod, 1
    else:
        back = r.random() < 0.5
        x = g.lat()
        if k == 2 and back:
            x = g.pick(g.lat(), r.uniform(-500, 500), r.uniform(-3000, 3000))
            x = x if deg else math.radians(x)
        else:
            x = un(deg, x)
        args = [x]
        if k == 0:
            h = g.pick(0.0, 0.0, r.uniform(-11e3, 1e5) * a / 6.4e6, -0.2 * a * r.random(), g.logu(1, 900 * a))
            args.append(h)
        f = getattr(latitude, f"{AUX[k]}2geodetic" if back else f"geodetic2{AUX[k]}")
        if k == 0 and not back and r.random() < 0.3:
            f = pm.geod2geoc
    w, args = embed(g, f, args, 1, (f.__name__, deg), kw)
    out.add("aux", [k, int(back), u, *AX(ell), x, h, *w], show(f.__module__ + "." + f.__name__, args, kw))


def ev20():
    ell, deg = ell_(), r.random() < 0.6
    u = 0 if deg else 1
    kw = kws(ell, deg)
    c = r.random()
    if c < 0.5:
        k = r.randrange(6)
        x = un(deg, g.lat())
        f = [rcurve.meridian, rcurve.transverse, rcurve.parallel, rcurve.geocentric_radius, rsphere.curve, rsphere.curve][k]
        if k == 5:
            kw["method"] = "norm"
        elif k == 4 and r.random() < 0.5:
            kw["method"] = "mean"
        w, args = embed(g, f, [x], 1, (k, deg), kw)
        out.add("radius", [k, u, *AX(ell), x, *w], show(f.__module__ + "." + f.__name__, args, kw))
    elif c < 0.75:
        kw.pop("deg", None)
        k = r.randrange(7)
        f = [rsphere.eqavol, rsphere.authalic, rsphere.rectifying, rsphere.triaxial, rsphere.triaxial, rsphere.biaxial, rsphere.biaxial][k]
        if k in (4, 6):
            kw["method"] = "norm"
        elif k in (3, 5) and r.random() < 0.5:
            kw["method"] = "mean"
        out.add("sphere", [k, *AX(ell), *words(call(f, **kw), 1)], show(f.__module__ + "." + f.__name__, [], kw))
    else:
        if ell.flattening > 0.02:
            return
        p = [r.uniform(-85, 85), g.lon(), r.uniform(-85, 85), 0]
        p[3] = p[1] + r.uniform(-170, 170)
        if r.random() < 0.3:
            p[2] = max(-85, min(85, p[0] + g.small()))
            p[3] = p[1] + g.small()
        q = [un(deg, x) for x in p]
        s, az = words(call(karney.geodesic_inverse, *q, ell=ell, deg=deg), 3)[:2]
        if isinstance(s, str) or s > 2.9 * ell.semimajor_axis or s < 1e-6 * ell.semimajor_axis:
            return
        w, args = embed(g, rsphere.euler, q, 1, ("euler", deg), kw)
        out.add("euler", [u, *AX(ell), *q, s, math.radians(az) if deg else az, 3e-10 + 2 * ell.flattening ** 4, *w],
                show("pymap3d.rsphere.euler", args, kw))


def azimuth():
    c = r.random()
    if c < 0.3:
        return g.az()
    if c < 0.4:
        return r.choice([0.0, 90.0, 180.0, 270.0, 360.0, -90.0])
    if c < 0.55:
        return r.choice([90.0, 270.0]) + g.small()
    return r.uniform(-180, 360)


def ev18():
    ell, deg = ell_(), r.random() < 0.7
    u = 0 if deg else 1
    a = ell.semimajor_axis
    kw = kws(ell, deg)
    c = r.random()
    if c < 0.12:
        x, y = un(deg, g.lat()), un(deg, g.lat())
        if r.random() < 0.3:
            y = max(-un(deg, 90.0), min(un(deg, 90.0), x + un(deg, g.small())))
        if r.random() < 0.5:
            w, args = embed(g, lox.meridian_arc, [x, y], 1, ("arc", deg), kw)
            out.add("arc", [u, *AX(ell), x, y, *w], show("pymap3d.lox.meridian_arc", args, kw))
        else:
            w, args = embed(g, lox.meridian_dist, [y], 1, ("dist", deg), kw)
            out.add("arc", [u, *AX(ell), 0, y, *w], show("pymap3d.lox.meridian_dist", args, kw))
    elif c < 0.22:
        v = [un(deg, g.lon()), un(deg, g.pick(g.lon(), g.lon() + 360, -g.lon(), g.lon() - 360)), un(deg, g.lat())]
        if r.random() < 0.3:
            v[1] = v[0] + un(deg, g.small())
        w, args = embed(g, lox.departure, v, 1, ("departure", deg), kw)
        out.add("departure", [u, *AX(ell), *v, *w], show("pymap3d.lox.departure", args, kw))
    elif c < 0.32 and HAVE_NP:
        k = r.randrange(1, 7)
        if r.random() < 0.5:
            la, lo, R = r.uniform(-90, 90), g.lon(), g.logu(1e-6, 40)
            P = [(max(-90, min(90, la + r.uniform(-R, R))), lo + r.uniform(-R, R)) for _ in range(k)]
        else:
            P = [(g.lat(), g.lon()) for _ in range(k)]
        lats, lons = [un(deg, q[0]) for q in P], [un(deg, q[1]) for q in P]
        res = call(lox.meanm, np.array(lats), np.array(lons), **kw)
        out.add("mean", [u, *AX(ell), k, *[x for q in zip(lats, lons) for x in q], *words(res, 2)], show("pymap3d.lox.meanm", [lats, lons], kw))
    elif c < 0.66:
        lat = g.pick(r.uniform(-85, 85), r.uniform(-85, 85), g.lat(poles=False), r.choice([0.0, 60.0, -45.0]))
        lat = max(-88.0, min(88.0, lat))
        az = azimuth()
        # keep off the poles
        room = math.radians(89 - lat * (1 if math.cos(math.radians(az)) > 0 else -1)) * 0.97 / max(1e-3, abs(math.cos(math.radians(az))))
        s = a * min(room, 6.0) * g.pick(0.0, r.random(), r.random(), r.random(), g.logu(1e-9, 1))
        v = [un(deg, lat), un(deg, g.lon()), s, un(deg, az)]
        w, args = embed(g, lox.loxodrome_direct, v, 2, ("direct", deg, a), kw)
        out.add("rhumb", [u, *AX(ell), *v, *w], show("pymap3d.lox.loxodrome_direct", args, kw))
    else:
        lat1, lon1 = max(-89.9, min(89.9, g.lat(poles=False))), g.lon()
        lat2, lon2 = max(-89.9, min(89.9, g.lat(poles=False))), g.lon()
        c = r.random()
        if c < 0.2:
            lat2, lon2 = max(-89.9, min(89.9, lat1 + g.small())), lon1 + g.small()
        elif c < 0.35:
            lat2 = lat1
        elif c < 0.45:
            lon2 = lon1 + g.pick(0.0, 0.0, 360.0, -360.0, 180.0, -180.0)
        elif c < 0.55:
            lat2 = max(-89.9, min(89.9, lat1 + g.small()))
        elif c < 0.6:
            lat2 = r.choice([90.0, -90.0])
        elif c < 0.65:
            lat2, lon2 = lat1, lon1
        if r.random() < 0.1:
            lon2 += r.choice([360.0, -360.0])
        v = [un(deg, lat1), un(deg, lon1), un(deg, lat2), un(deg, lon2)]
        w, args = embed(g, lox.loxodrome_inverse, v, 2, ("inverse", deg), kw)
        out.add("rhumbto", [u, *AX(ell), *v, *w], show("pymap3d.lox.loxodrome_inverse", args, kw))


EV = dict(c18=ev18, c19=ev19, c20=ev20)[fam]
while len(out.ev) < n:
    g.begin()
    EV()
out.close()
