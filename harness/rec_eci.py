"""Records inertial transforms and sky directions (c_eci.qnt).

usage: rec_eci.py <c07|c08|c24> <n> <salt> <out>"""

import sys
from recutil import *  # noqa: F403

fam, n, salt, path = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
g = Gen(f"eci/{fam}/{salt}")
out = Out(path)
r = g.r
ASTRO = "astropy" in sys.modules
TOLR, TOLA = 1.5e-8, 1.5e-4  # built-in model; Astropy (IERS UT1, polar motion, full nutation)
GEODETIC, AER, ECI = 1, 6, 20
wgs = Ellipsoid.from_name("wgs84")


def vec(big=5e8):
    return [g.w(x) for x in _vec(big)]


def _vec(big):
    c = r.random()
    if c < 0.15:
        R = g.logu(6.3e6, 4.3e7)
        v = g.pick((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1))
        return [R * x for x in v]
    R = g.pick(g.logu(6.3e6, 5e7), g.logu(1e6, big))
    th, el = math.radians(g.lon()), math.asin(r.uniform(-1, 1))
    return [R * math.cos(el) * math.cos(th), R * math.cos(el) * math.sin(th), R * math.sin(el)]


def eop():
    # (the difference of UT1 has no limit: predictions without leap seconds;
    # no real pole is beyond an arcsecond, but the rotation is defined, and a part that ignores it shows)
    return [g.pick(0.0, r.uniform(-0.9, 0.9), r.uniform(-0.9, 0.9), r.uniform(-120, 120)), g.pick(0.0, r.uniform(-0.8, 0.8), r.uniform(-200, 200)), g.pick(0.0, r.uniform(-0.8, 0.8), r.uniform(-200, 200))]


def eopkw(e, force=False):
    return {k: v for k, v in zip(("delta_ut1", "xp", "yp"), e) if force or v}


def pick_backend():
    """(exact, extra keywords): the built-in model forced, or whatever is installed"""
    if not ASTRO:
        return True, ({"force_non_astropy": True} if r.random() < 0.3 else {})
    if r.random() < 0.75:
        return True, {"force_non_astropy": True}
    return False, {}


def batched(f, p, k, t, kw, nout):
    """call with scalars, or as one element of arrays (the first k arguments)"""
    if not HAVE_NP or r.random() < 0.55:
        return words(call(f, *p, t, **kw), nout), p
    m = r.choice([1, 2, 3, 4])
    shape = r.choice([(m,), (1, m), (m, 1), (), (2, m)])
    size = int(np.prod(shape)) if shape else 1
    j = r.randrange(size)
    rows = [[x if i == j else g.w(x + r.uniform(-1e6, 1e6)) for x in p[:k]] for i in range(size)]
    arr = [column(g, [row[c] for row in rows], shape) for c in range(k)]
    res = call(f, *arr, *p[k:], t, **kw)
    try:
        assert len(res) == nout and all(np.shape(x) == shape for x in res)
        return [float(np.asarray(x).reshape(-1)[j]) for x in res], arr + p[k:]
    except Exception:
        return ["EXC"] * nout, arr + p[k:]


def when(exact):
    return gen_time(g, 1950, 2050) if exact else gen_time(g, 1975, 2023)


def ev_rotate():
    exact, kw = pick_backend()
    t = when(exact)
    e = eop() if exact else [0.0, 0.0, 0.0]
    kw = {**kw, **eopkw(e, r.random() < 0.3 and exact)}
    fixed = r.random() < 0.5
    f = pm.eci2ecef if fixed else pm.ecef2eci
    p = vec()
    q, a = batched(f, p, 3, t, kw, 3)
    out.add("rotate", [int(fixed), *time_words(t), *e, *p, *q, TOLR if exact else TOLA],
            show("pymap3d." + f.__name__, [*a, t], kw))


def ev_state():
    exact, kw = pick_backend()
    t = when(exact)
    e = eop() if exact else [0.0, 0.0, 0.0]
    kw = {**kw, **eopkw(e)}
    fixed = r.random() < 0.5
    f = pm.eci2ecef_state if fixed else pm.ecef2eci_state
    p = vec(1e8)
    c = r.random()
    if c < 0.25:
        v = [0.0, 0.0, 0.0]
    elif c < 0.4:
        w = 7.292115e-5 * (1 if fixed else -1)
        v = [g.w(-w * p[1]), g.w(w * p[0]), 0.0]
    else:
        v = [g.disp(2e4) for _ in range(3)]
    q, a = batched(f, p + v, 6, t, kw, 6)
    out.add("state", [int(fixed), *time_words(t), *e, *p, *v, *q, TOLR if exact else TOLA, 6e-9 if exact else 1.2e-8],
            show("pymap3d." + f.__name__, [*a, t], kw))


def ev_inverse():
    exact, kw = pick_backend()
    t = when(exact)
    kw = {**kw, **(eopkw(eop()) if exact else {})}
    p = vec()
    f, h = (pm.eci2ecef, pm.ecef2eci) if r.random() < 0.5 else (pm.ecef2eci, pm.eci2ecef)
    q = call(f, *p, t, **kw)
    s = call(h, *q, t, **kw) if not isinstance(q, Failed) else q
    R = math.hypot(*p)
    txt = f"{h.__name__} after {show(f.__name__, [*p, t], kw)}"
    if r.random() < 0.5:
        out.add("inverse", [*p, *words(s, 3), 2e-14 if exact else 1e-13, R], txt)
        return
    v = [g.disp(1e4) for _ in range(3)]
    f, h = (pm.eci2ecef_state, pm.ecef2eci_state) if f is pm.eci2ecef else (pm.ecef2eci_state, pm.eci2ecef_state)
    q = call(f, *p, *v, t, **kw)
    s = call(h, *q, t, **kw) if not isinstance(q, Failed) else q
    s = words(s, 6)
    txt = f"{h.__name__} after {show(f.__name__, [*p, *v, t], kw)}"
    out.add("inverse", [*p, *s[:3], 2e-14 if exact else 1e-13, R], txt)
    # velocity: rates cancel exactly in the built-in model, Astropy differentiates numerically
    out.add("inverse", [*v, *s[3:], 1e-14 if exact else 3e-9, R * 7.3e-5 + math.hypot(*v) if exact else R], txt)


# ------------------------------------------------------------------- c08
def fixed_point(a=6378137.0):
    """geodetic or inertial points within the domain of ecef2geodetic"""
    return g.lat(), g.lon(), g.pick(0.0, r.uniform(-1e4, 1e4), g.logu(1.0, 4e8))


def ev_compose():
    exact = not ASTRO
    t = when(exact)
    e = eop() if exact else [0.0, 0.0, 0.0]
    k = r.choice(["geodetic2eci", "eci2geodetic", "aer2eci", "eci2aer"])
    deg = r.random() < 0.6
    U = lambda x: x if deg else math.radians(x)  # noqa: E731
    ell = wgs if k == "eci2aer" else g.ell()
    s = ell.semimajor_axis / 6378137.0
    g.whole &= s > 0.1
    lat0, lon0, h0 = U(g.lat()), U(g.lon()), g.w(g.pick(0.0, r.uniform(0, 1e4), -r.uniform(0, 1e4), g.logu(1, 1e7)) * s)
    kw = eopkw(e, r.random() < 0.3 and exact)
    if k != "eci2aer":
        if not (is_wgs(ell) and r.random() < 0.5):
            kw["ell"] = ell
    if not deg or r.random() < 0.5:
        kw["deg"] = deg
    f = getattr(pm, k)
    if k == "geodetic2eci":
        la, lo, h = fixed_point()
        p = [U(la), U(lo), g.w(h * s)]
        src, dst, extra, nb = GEODETIC, ECI, [], 3
    elif k == "eci2geodetic":
        R = g.pick(g.logu(0.7, 1.0), g.logu(1.0, 8), g.logu(1, 100)) * ell.semimajor_axis
        v = vec()
        m = math.hypot(*v)
        p = [g.w(R * x / m) for x in v]
        src, dst, extra, nb = ECI, GEODETIC, [], 3
    elif k == "aer2eci":
        p = [U(g.az()), U(g.el()), g.w(g.pick(0.0, g.logu(1, 1e8) * s, g.logu(1, 1e8) * s))]
        src, dst, extra, nb = AER, ECI, [lat0, lon0, h0], 3
    else:
        p = vec()
        src, dst, extra, nb = ECI, AER, [lat0, lon0, h0], 3
    res, a = call_compose(f, p, extra, t, kw)
    tol = TOLR if exact else TOLA
    out.add("compose", [src, dst, 0 if deg else 1, ell.semimajor_axis, ell.semiminor_axis, lat0, lon0, h0,
                        *time_words(t), *e, *p, *res, tol], show("pymap3d." + k, a, kw))
    # the composition of the public conversions, whatever the backend
    base = {x: v for x, v in kw.items() if x in ("delta_ut1", "xp", "yp")}
    geo = {x: v for x, v in kw.items() if x in ("ell", "deg")}
    if k == "geodetic2eci":
        ref = call(lambda: pm.ecef2eci(*pm.geodetic2ecef(*p, **geo), t, **base))
    elif k == "eci2geodetic":
        ref = call(lambda: pm.ecef2geodetic(*pm.eci2ecef(*p, t, **base), **geo))
    elif k == "aer2eci":
        ref = call(lambda: pm.ecef2eci(*pm.aer2ecef(*p, *extra, **geo), t, **base))
    else:
        ref = call(lambda: pm.ecef2aer(*pm.eci2ecef(*p, t, **base), *extra, **geo))
    out.add("same", [dst, 0 if deg else 1, ell.semimajor_axis, ell.semiminor_axis, lat0, lon0, h0, *res, *words(ref, 3), 1e-13], show("pymap3d." + k, a, kw) + " against its composition")


def call_compose(f, p, extra, t, kw):
    if HAVE_NP and r.random() < 0.35:
        m = r.choice([1, 2, 3])
        j = r.randrange(m)
        arr = [column(g, [x if i == j else g.w(x * (1 - 1e-3 * r.random())) for i in range(m)]) for x in p]
        res = call(f, *arr, *extra, t, **kw)
        try:
            assert len(res) == 3 and all(np.shape(x) == (m,) for x in res)
            return [float(x[j]) for x in res], [*arr, *extra, t]
        except Exception:
            return ["EXC"] * 3, [*arr, *extra, t]
    return words(call(f, *p, *extra, t, **kw), 3), [*p, *extra, t]


def ev_sametime():
    """the same instant in another zone, or naive for UTC"""
    exact = not ASTRO
    t = when(exact)
    u = t if t.tzinfo else t.replace(tzinfo=dt.timezone.utc)
    o = u.astimezone(dt.timezone(dt.timedelta(minutes=r.randrange(-1400, 1401))))
    t2 = r.choice([o, u.astimezone(dt.timezone.utc).replace(tzinfo=None), o])
    k = r.choice(["geodetic2eci", "eci2geodetic", "aer2eci", "eci2aer", "eci2ecef", "ecef2eci"])
    f = getattr(pm, k)
    if k == "geodetic2eci":
        p = list(fixed_point())
    elif k in ("eci2geodetic", "eci2ecef", "ecef2eci"):
        p = vec(1e8)
    elif k == "aer2eci":
        p = [g.az(), g.el(), g.logu(1, 1e8), g.lat(), g.lon(), r.uniform(0, 1e4)]
    else:
        p = [*vec(), g.lat(), g.lon(), r.uniform(0, 1e4)]
    dst = {"eci2geodetic": GEODETIC, "eci2aer": AER}.get(k, ECI)
    obs = p[3:] if k == "eci2aer" else [0.0] * 3
    x, y = words(call(f, *p, t), 3), words(call(f, *p, t2), 3)
    out.add("same", [dst, 0, wgs.semimajor_axis, wgs.semiminor_axis, *obs, *x, *y, 1e-13], show("pymap3d." + k, [*p, t]) + f" against time {t2!r}")


# ------------------------------------------------------------------- c24
def ev_direction():
    exact, kw = pick_backend()
    t = when(exact)
    to_eq = r.random() < 0.5
    dut = r.uniform(-0.9, 0.9) if exact and r.random() < 0.5 else 0.0
    if dut:
        kw["delta_ut1"] = dut
    lat, lon = g.lat(), g.lon()
    a = [g.az(), g.el()]
    if exact and r.random() < 0.3:  # towards the celestial pole, the zenith, the horizon
        a = g.pick([0.0 if lat >= 0 else 180.0, abs(lat)], [g.az(), 90.0], [g.az(), 0.0], [180.0, -90.0]) if to_eq else \
            g.pick([g.az(), lat], [g.az(), 90.0], [g.az(), -90.0])
    f = pm.azel2radec if to_eq else pm.radec2azel
    mod = "pymap3d."
    if exact and r.random() < 0.3:
        from pymap3d import vallado
        f = getattr(vallado, f.__name__)
        kw.pop("force_non_astropy", None)
        mod += "vallado."
    args = [*a, lat, lon]
    tt = t
    if r.random() < 0.2 and exact and (t.tzinfo is None):
        tt = t.isoformat()
    if HAVE_NP and r.random() < 0.35:
        m = r.choice([1, 2, 3])
        j = r.randrange(m)
        arr = [column(g, [x if i == j else g.w(x * r.random()) for i in range(m)]) for x in args]
        if r.random() < 0.5:
            arr[2:] = args[2:]
        res = call(f, *arr, tt, **kw)
        args = arr
        try:
            assert len(res) == 2 and all(np.shape(x) == (m,) for x in res)
            res = [float(x[j]) for x in res]
        except Exception:
            res = ["EXC"] * 2
    else:
        res = words(call(f, *args, tt, **kw), 2)
    out.add("direction", [int(to_eq), *time_words(t), dut, lat, lon, *a, *res, 2e-8 if exact else 3e-4, 0 if exact else 1],
            show(mod + f.__name__, [*args, tt], kw))


def ev_there_back():
    exact, kw = pick_backend()
    t = when(exact)
    if exact and r.random() < 0.5:
        kw["delta_ut1"] = r.uniform(-0.9, 0.9)
    lat, lon, a = g.lat(), g.lon(), [g.az(), g.pick(r.uniform(-90, 90), g.el()) if exact else r.uniform(5, 89)]
    f, h = (pm.azel2radec, pm.radec2azel) if r.random() < 0.5 else (pm.radec2azel, pm.azel2radec)
    x = call(f, *a, lat, lon, t, **kw)
    y = words(call(h, *x, lat, lon, t, **kw), 2) if not isinstance(x, Failed) else ["EXC"] * 2
    out.add("back", [*a, *y, 1e-14 if exact else 1e-9], f"{h.__name__} after {show(f.__name__, [*a, lat, lon, t], kw)}")


for i in range(n):
    g.begin()
    if fam == "c07":
        [ev_rotate, ev_state, ev_inverse][i % 3]()
    elif fam == "c08":
        [ev_compose, ev_compose, ev_sametime][i % 3]()
    else:
        [ev_direction, ev_direction, ev_there_back][i % 3]()
out.close()
