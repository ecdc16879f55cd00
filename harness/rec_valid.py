"""Calls around the limits of the documented domains, and degenerate calls inside them (c_valid.qnt).

usage: rec_valid.py <n> <salt> <out>"""

import sys
from catalog import *  # noqa: F403

n, salt, path = int(sys.argv[1]), sys.argv[2], sys.argv[3]
g = Gen(f"valid/{salt}")
r = g.r
out = Out(path)
WGS = Ellipsoid.from_name("wgs84")

LAT, NONNEG, ATLEAST, CHOICE, ORDER = 1, 2, 3, 4, 5
ERR = {"ValueError": 1, "KeyError": 2, "AssertionError": 3}


# ------------------------------------------------------------------ limits
def lat_value(bad):
    if bad:
        return r.choice([-1, 1]) * (90 + g.pick(g.logu(1e-11, 1e-3), g.logu(1e-3, 10), 90.0, 1e5, math.inf))
    return r.choice([-1, 1]) * g.pick(90.0, 90 - g.logu(1e-11, 1), r.uniform(0, 90), 0.0)


def pos_value(bad):
    if bad:
        return -g.pick(g.logu(1e-30, 1e-6), g.logu(1e-6, 1), g.logu(1, 1e7))
    return g.pick(0.0, -0.0, g.logu(1e-9, 1), g.logu(1, 1e6))


def limited(value, p=0.3):
    """a scalar or array argument: (argument, its elements)"""
    kind = r.random()
    if kind < 0.45 or not HAVE_NP:
        x = value(r.random() < p)
        if kind < 0.05 and math.isfinite(x) and abs(x) >= 1:
            x = int(x)
        return x, [x]
    m = r.choice([1, 2, 3, 5])
    xs = [value(False) for _ in range(m)]
    if r.random() < 0.6:
        xs[r.randrange(m)] = value(r.random() < 0.7)
    a = np.array(xs)
    if kind < 0.55:
        return np.array(xs[0]), xs[:1]
    if kind < 0.65:
        a = a.reshape(1, m)
    return a, xs


def in_unit(x, deg):
    """the angle in the unit of the call, values included; quarter turns exactly"""
    if deg:
        return x

    def conv(v):
        return math.copysign(math.pi / 2, v) if abs(v) == 90 else math.radians(v)

    if HAVE_NP and isinstance(x, np.ndarray):
        return np.array([conv(float(v)) for v in x.ravel()]).reshape(x.shape)
    return conv(x)




def finite(res):
    if isinstance(res, Failed):
        return False
    for x in res if isinstance(res, (tuple, list)) else [res]:
        if isinstance(x, (tuple, list)):
            if not finite(x):
                return False
        elif HAVE_NP:
            if not np.isfinite(np.asarray(x, dtype=float)).all():
                return False
        elif not math.isfinite(x):
            return False
    return True


def outcome(res, need_finite=True):
    if isinstance(res, Failed):
        return ERR.get(res.name, 9)
    return 0 if finite(res) or not need_finite else 8


def emit(checks, res, text, need_finite=True):
    """checks: [(rule, unit, elements)]"""
    w = [len(checks)]
    for rule, u, xs in checks:
        w += [rule, u, len(xs), *xs]
    w.append(outcome(res, need_finite))
    out.add("limit", w, text + (f" -> {res}" if isinstance(res, Failed) else ""))


def elems(a):
    return [float(v) for v in np.asarray(a, dtype=float).ravel()] if HAVE_NP else [a]


def one_array(vs):
    """keep a single array argument (shapes always agree then)"""
    seen = False
    res = []
    for a, xs in vs:
        if HAVE_NP and isinstance(a, np.ndarray) and a.ndim:
            if seen:
                a, xs = xs[-1], xs[-1:]
            seen = True
        res.append((a, xs))
    return res


def lim_vincenty():
    deg = r.random() < 0.5
    u = 0 if deg else 1
    ell = g.ell()
    kw = {} if deg else dict(deg=False)
    if r.random() < 0.6:
        kw["ell"] = ell
    k = ell.semimajor_axis / 6378137 if "ell" in kw else 1.0
    lon = in_unit(g.lon(), deg)
    which = r.randrange(3)
    if which == 0:
        p1, p2 = one_array([limited(lat_value), limited(lat_value)])
        a1, a2 = in_unit(p1[0], deg), in_unit(p2[0], deg)
        lon2 = in_unit(r.uniform(-60, 60), deg)
        from pymap3d.vincenty import vdist
        emit([(LAT, u, elems(a1)), (LAT, u, elems(a2))], call(vdist, a1, 0.0, a2, lon2, **kw), show("vdist", [a1, 0.0, a2, lon2], kw))
    else:
        p, d = one_array([limited(lat_value, 0.2), limited(pos_value, 0.2)])
        a = in_unit(p[0], deg)
        rng = d[0] * k
        az = in_unit(g.az(), deg)
        if which == 1:
            from pymap3d.vincenty import vreckon as f
            fin = True
        else:
            from pymap3d.lox import loxodrome_direct as f
            fin = False  # where rhumb lines end at the poles is not its subject
        emit([(LAT, u, elems(a)), (NONNEG, 0, elems(rng))], call(f, a, lon, rng, az, **kw), show(f.__name__, [a, lon, rng, az], kw), fin)


def lim_sky():
    f = r.choice([pm.azel2radec, pm.radec2azel])
    p = limited(lat_value)
    kw = {}
    if r.random() < 0.6:
        kw["force_non_astropy"] = r.random() < 0.7
    args = [g.az(), r.uniform(-89, 89), p[0], g.lon(), gen_time(g, 1975, 2023)]
    emit([(LAT, 0, elems(p[0]))], call(f, *args, **kw), show(f.__name__, args, kw))


def lim_los():
    deg = r.random() < 0.5
    h = limited(pos_value, 0.4)
    args = [in_unit(g.lat(), deg), in_unit(g.lon(), deg), h[0], in_unit(g.az(), deg), in_unit(g.pick(0.0, r.uniform(0, 180)), deg)]
    kw = {} if deg else dict(deg=False)
    if r.random() < 0.5:
        kw["ell"] = g.ell()
    from pymap3d.los import lookAtSpheroid as f
    emit([(NONNEG, 0, elems(h[0]))], call(f, *args, **kw), show("lookAtSpheroid", args, kw), False)


def lim_count():
    k = r.randrange(0, 6)
    if HAVE_NP and r.random() < 0.5:
        from pymap3d.vincenty import track2
        k = r.randrange(-1, 6)
        deg = r.random() < 0.5
        args = [in_unit(x, deg) for x in (r.uniform(-60, 60), r.uniform(-50, 50), r.uniform(-60, 60), r.uniform(-50, 50))]
        kw = dict(npts=k, deg=deg)
        emit([(ATLEAST, 2, [k])], call(track2, *args, **kw), show("track2", args, kw))
    else:
        deg = r.random() < 0.5
        lats = [in_unit(r.uniform(-60, 60), deg) for _ in range(k)]
        lons = [in_unit(r.uniform(-60, 60), deg) for _ in range(k)]
        if HAVE_NP and r.random() < 0.5:
            lats, lons = np.array(lats), np.array(lons)
        kw = {} if deg else dict(deg=False)
        from pymap3d.karney import geodesic_area as f
        emit([(ATLEAST, 3, [k])], call(f, lats, lons, **kw), show("geodesic_area", [lats, lons], kw))


FRAMES = ["ned", "enu", "nwu", "sez"]
BAD_FRAMES = ["", "NED", "neu", "aer", "body", "ned ", None, 3]
BAD_SEQ = ["xyz", "zxz", "", "ZYX", "zy", "zyxz", None]
BODY = [e for e in CATALOG if "body" in e.name]


def all_choices():
    """every function of the body frame with an unknown frame, an unsupported sequence"""
    for e in BODY:
        framed = "frame" in e.opts
        for fr in [None, *FRAMES, "bad"] if framed else [None]:
            vals, cls = numbers(e, g, WGS)
            seq = "zyx" if fr == "bad" else r.choice(BAD_SEQ)
            kw = dict(sequence=seq)
            if fr:
                kw["frame"] = r.choice(BAD_FRAMES) if fr == "bad" else fr
            emit([(CHOICE, 2, [-1])], call(e.fn(), *vals, **kw), show(e.name, vals, kw))


def lim_choice():
    which = r.randrange(4)
    bad = r.random() < 0.5
    if which == 0:
        from pymap3d import rsphere
        name = r.choice(["curve", "triaxial", "biaxial"])
        m = r.choice(["", "MEAN", "median", "norms", None, "geometric"]) if bad else r.choice(["mean", "norm"])
        args = [g.lat()] if name == "curve" else []
        kw = dict(ell=g.ell(), method=m)
        emit([(CHOICE, 2, [-1 if bad else 0])], call(getattr(rsphere, name), *args, **kw), show(f"rsphere.{name}", args, kw))
    elif which == 1:
        e = r.choice([x for x in BODY if "frame" in x.opts])
        vals, cls = numbers(e, g, WGS)
        fr = r.choice(BAD_FRAMES) if bad else r.choice(FRAMES)
        kw = dict(frame=fr)
        badseq = r.random() < 0.2
        if badseq or r.random() < 0.3:
            kw["sequence"] = r.choice(BAD_SEQ) if badseq else "zyx"
        emit([(CHOICE, 2, [-1 if bad else 0]), (CHOICE, 2, [-1 if badseq else 0])], call(e.fn(), *vals, **kw), show(e.name, vals, kw))
    elif which == 2:
        e = r.choice([x for x in BODY if "frame" not in x.opts])
        vals, cls = numbers(e, g, WGS)
        kw = dict(sequence=r.choice(BAD_SEQ) if bad else "zyx")
        res = call(e.fn(), *vals, **kw)
        emit([(CHOICE, 2, [-1 if bad else 0])], res, show(e.name, vals, kw))
    else:
        c = r.random()
        if c < 0.5:
            m = r.choice(["", "WGS-84", "wgs85", "earth", None, "wgs84 "]) if bad else r.choice(ALL_MODELS)
            res = call(Ellipsoid.from_name, m)
            emit([(CHOICE, 3, [-1 if bad else 0])], res if isinstance(res, Failed) else res.semimajor_axis, f"Ellipsoid.from_name({m!r})")
        else:
            a = g.logu(1e-3, 1e9)
            b = a * (1 + g.logu(1e-12, 1)) if bad else a * g.pick(1.0, 1 - g.logu(1e-12, 0.5))
            res = call(Ellipsoid, a, b)
            emit([(ORDER, 4, [a, b])], res if isinstance(res, Failed) else res.semimajor_axis, f"Ellipsoid({a!r}, {b!r})")


# -------------------------------------------------------------- degenerate
def deg_lat(g, E):
    return [g.pick(90.0, -90.0, 0.0, -0.0, 90.0 - g.logu(1e-14, 1e-6), -90.0 + g.logu(1e-14, 1e-6), 45.0, g.small() * 1e-12, g.lat())]


def deg_lon(g, E):
    return [g.pick(180.0, -180.0, 0.0, -0.0, 360.0, -360.0, 90.0, -90.0, 270.0, 180 - g.logu(1e-14, 1e-6), g.logu(1e-14, 1e-6) - 180, 540.0, g.lon())]


def deg_az(g, E):
    return [g.pick(0.0, -0.0, 90.0, 180.0, 270.0, 360.0, -90.0, -180.0, 450.0, g.logu(1e-14, 1e-6), g.az())]


def deg_el(g, E):
    return [g.pick(90.0, -90.0, 0.0, 90 - g.logu(1e-14, 1e-6), g.el())]


def deg_P3(g, E):
    a, b = E.semimajor_axis, E.semiminor_axis
    k = g.pick(1.0, 1.5, 1 + g.logu(1e-16, 1e-9), 0.8)
    s = g.r.choice([-1, 1])
    return g.pick([s * a * k, 0.0, 0.0], [0.0, s * a * k, -0.0], [0.0, 0.0, s * b * k], [s * 1e-9, 0.0, b * k], [-a, -0.0, 0.0],
                  [a * 0.7, a * 0.7, g.pick(0.0, 1e-300, -1e-9)], [1e-300, 0.0, b * k])


def deg_D3(g, E):
    k = E.semimajor_axis / 6378137 * g.pick(1.0, 1e3, 1e-9)
    s = g.r.choice([-1, 1]) * k
    return g.pick([0.0, 0.0, 0.0], [0.0, 0.0, s], [s, 0.0, 0.0], [0.0, s, -0.0], [-0.0, -0.0, -s])


def deg_len(g, E):
    return [g.pick(0.0, 0.0, g.logu(1e-12, 1e-3), 1.0) * E.semimajor_axis / 6378137]


def deg_N3(g, E):
    s = float(g.r.choice([-1, 1]))
    return g.pick([s, 0.0, 0.0], [0.0, s, 0.0], [0.0, -0.0, s], [-1.0, -0.0, 0.0], [math.sqrt(0.5), 0.0, s * math.sqrt(0.5)], [0.6, 0.8 * s, 0.0])


DEG = dict(lat=deg_lat, lon=deg_lon, az=deg_az, el=deg_el, ang=deg_az, pitch=deg_el, P3=deg_P3, D3=deg_D3, V3=deg_D3, N3=deg_N3,
           tilt=lambda g, E: [g.pick(0.0, 90.0, 180.0, 1e-9)], iso=lambda g, E: [g.pick(0.0, -0.0, 1e-300, 500.0, -800.0)],
           h=deg_len, h0=deg_len, rng=deg_len, srng=deg_len, R=lambda g, E: [E.semimajor_axis, E.semiminor_axis][:1],
           frac=lambda g, E: [g.pick(0.0, 1.0, 0.5)], x=deg_len, rho=deg_len, theta=lambda g, E: [g.pick(0.0, -0.0, math.pi / 2, math.pi, -math.pi)],
           jd=lambda g, E: [g.pick(2451545.0, 2440587.5, 2415020.0)], rad=lambda g, E: [g.pick(0.0, math.pi, -math.pi, 2 * math.pi)])

# which rule of c_valid decides when an answer must be finite
RULES = {"geodetic2isometric": 1, "isometric2geodetic": 0, "loxodrome_inverse": 2, "loxodrome_direct": 3, "lookAtSpheroid": 4,
         "nvector_intersection": 5, "nvector_cross_track_distance": 5, "nvector_interpolate": 6, "track2": 7, "meanm": 8,
         "spherical2geodetic": 10, "pol2cart": 11}


def degenerate(entry):
    ell = g.ell() if entry.ell else WGS
    vals, cls = [], ""
    for t in entry.toks:
        k, gen = TOK[t]
        vals += (DEG[t] if r.random() < 0.75 else gen)(g, ell)
        cls += k
    c = r.random()
    if c < 0.3:
        special(entry, vals, g)
    elif c < 0.4 and entry.toks == ["lat", "lon", "lat", "lon"]:
        vals[2:] = [vals[0], vals[1] + r.choice([0.0, 360.0, 180.0, -360.0])]  # same parallel
    elif c < 0.5 and entry.toks == ["lat", "lon", "lat", "lon"]:
        vals[2:] = [-vals[0], vals[1] + 180.0]  # antipodes
    elif c < 0.45 and entry.toks[:2] == ["N3", "N3"]:
        vals[3:6] = vals[:3]
    elif c < 0.6 and entry.toks[:2] == ["N3", "N3"]:
        vals[3:6] = [-x for x in vals[:3]]
    tail, kw = call_args(entry, g, ell)
    args = list(vals)
    deg = not entry.deg or r.random() < 0.6
    if not deg:
        kw["deg"] = False
        args = [math.copysign(math.pi / 2, x) if k == "a" and abs(x) == 90 else math.radians(x) if k == "a" else x for x, k in zip(vals, cls)]
    res = call(entry.fn(), *args, *tail, **kw, limit=10)
    txt = show(entry.mod + "." + entry.name, [*args, *tail], kw)
    if isinstance(res, Failed):
        txt += f" -> {res}"
    # arrays hold the same answer
    unit = math.radians(1.0) if deg else 1.0
    dv = [math.radians(x) if k == "a" else x for x, k in zip(vals, cls)]
    words_ = flatten(res, entry)
    angs, j = [], 0
    for o in entry.outs:
        angs += [i in ANGULAR.get(o, ()) for i in range(GROUPS[o][1])]
    w = [RULES.get(entry.name, 0), ERR.get(res.name, 9) if isinstance(res, Failed) else 0, 1 if deg and entry.deg or "azel" in entry.outs else 0,
         ell.semimajor_axis, ell.semiminor_axis, len(dv), *dv, len(entry.outs), *[GROUPS[o][0] for o in entry.outs]]
    out.add("answer", w + words_, txt + " = " + str(res)[:100])


all_choices()
while len(out.ev) < n:
    g.begin()
    c = r.random()
    if c < 0.12:
        lim_vincenty()
    elif c < 0.17:
        lim_sky()
    elif c < 0.21:
        lim_los()
    elif c < 0.25:
        lim_count()
    elif c < 0.35:
        lim_choice()
    else:
        degenerate(CATALOG[len(out.ev) % len(CATALOG)])
out.close()
