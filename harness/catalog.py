"""Every public function with the kinds of its arguments and results.

Used by the relational recorders (units, arrays, purity, installations,
ellipsoids).  Argument kinds: 'a' angle, 'l' length, 'd' plain number.
Result groups (see spec/c_rel.qnt):
  ang   angle, whole turns do not matter        val   angle compared as a number
  len   length     num  plain number            area  area
  vec   three lengths                           nvec  three plain numbers
  geo   latitude, longitude, height             sph   latitude, longitude, radius
  aer   azimuth, elevation, range               ll    latitude, longitude
  azel  azimuth, elevation                      mat   nine matrix elements"""

from recutil import *  # noqa: F403

from pymap3d import ellipsoid as _ell  # noqa: F401

import importlib

GROUPS = dict(ang=(1, 1), val=(2, 1), len=(3, 1), num=(4, 1), area=(5, 1), vec=(6, 3), nvec=(7, 3), geo=(8, 3),
              sph=(9, 3), aer=(10, 3), ll=(11, 2), azel=(12, 2), mat=(13, 9))
# which words of a group are angles
ANGULAR = dict(ang=(0,), val=(0,), geo=(0, 1), sph=(0, 1), aer=(0, 1), ll=(0, 1), azel=(0, 1))
# power of a length in each word
LENGTHS = dict(len=(1,), area=(2,), vec=(1, 1, 1), geo=(0, 0, 1), sph=(0, 0, 1), aer=(0, 0, 1))


class Entry:
    def __init__(self, path, toks, outs, ell=True, deg=True, kw=(), flags="", tail=None, opts=None, wrap=None):
        self.path = path
        self.wrap = wrap  # function from the library function to one of plain numbers
        m, _, self.name = path.rpartition(".")
        self.mod = "pymap3d" + ("." + m if m else "")
        self.toks = toks.split()
        self.outs = outs.split()
        self.ell, self.deg = ell, deg
        self.flags = set(flags.split())
        self.tail = tail  # extra positional arguments after the numbers
        self.opts = opts or {}  # keyword choices

    def fn(self):
        try:
            f = getattr(importlib.import_module(self.mod), self.name, None)
        except ImportError:
            return None
        return self.wrap(f) if f is not None and self.wrap else f

    def nres(self):
        return sum(GROUPS[o][1] for o in self.outs)

    def has(self, f):
        return f in self.flags


C = []


def e(*a, **k):
    C.append(Entry(*a, **k))


def ecef_pt(g, ell):
    a = ell.semimajor_axis
    R = g.pick(g.r.uniform(0.6, 1.2), g.logu(1, 50)) * a
    if g.r.random() < 0.1:
        v = g.pick((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))
        return [R * x for x in v]
    th, el = math.radians(g.lon()), math.asin(g.r.uniform(-1, 1))
    return [R * math.cos(el) * math.cos(th), R * math.cos(el) * math.sin(th), R * math.sin(el)]


def unit_vec(g):
    th, el = math.radians(g.lon()), math.radians(g.lat())
    return [math.cos(el) * math.cos(th), math.cos(el) * math.sin(th), math.sin(el)]


def signed(g, lo, hi):
    return g.r.choice([-1, 1]) * g.logu(lo, hi)


# token -> (classes, generator)
TOK = dict(
    lat=("a", lambda g, E: [g.lat()]),
    lon=("a", lambda g, E: [g.lon()]),
    az=("a", lambda g, E: [g.az()]),
    el=("a", lambda g, E: [g.el()]),
    ang=("a", lambda g, E: [g.pick(g.r.uniform(-180, 180), 0.0, 90.0, -90.0, 180.0)]),
    pitch=("a", lambda g, E: [g.pick(g.r.uniform(-90, 90), 0.0, 90.0, -90.0)]),
    tilt=("a", lambda g, E: [g.pick(g.r.uniform(0, 70), g.r.uniform(0, 180), 0.0)]),
    iso=("a", lambda g, E: [g.pick(g.r.uniform(-200, 200), 0.0, signed(g, 1e-3, 500))]),
    h=("l", lambda g, E: [g.pick(0.0, g.r.uniform(-5e3, 1e4), g.logu(1, 4e7)) * E.semimajor_axis / 6378137]),
    h0=("l", lambda g, E: [g.pick(0.0, g.r.uniform(0, 1e4), g.logu(1, 1e7)) * E.semimajor_axis / 6378137]),
    P3=("lll", ecef_pt),
    D3=("lll", lambda g, E: [signed(g, 0.1, 1e6) * E.semimajor_axis / 6378137 for _ in range(3)]),
    V3=("lll", lambda g, E: [signed(g, 0.1, 1e6) for _ in range(3)]),
    rng=("l", lambda g, E: [g.pick(g.logu(1, 1e6), g.logu(1e3, 3e6)) * E.semimajor_axis / 6378137]),
    srng=("l", lambda g, E: [g.pick(0.0, g.logu(1, 1e6), g.logu(1e3, 1.9e7)) * E.semimajor_axis / 6378137]),
    R=("l", lambda g, E: [g.pick(1.0, g.r.uniform(0.98, 1.1), g.logu(1, 20)) * E.semimajor_axis]),
    N3=("ddd", lambda g, E: unit_vec(g)),
    frac=("d", lambda g, E: [g.pick(0.0, 1.0, 0.5, g.r.random(), g.r.random())]),
    x=("l", lambda g, E: [signed(g, 0.1, 1e6)]),
    rho=("l", lambda g, E: [g.logu(0.1, 1e6)]),
    theta=("d", lambda g, E: [g.pick(g.r.uniform(-6, 6), 0.0, signed(g, 1e-9, 1))]),
    jd=("d", lambda g, E: [g.r.uniform(2430000, 2470000)]),
    rad=("d", lambda g, E: [g.pick(g.r.uniform(-3.2, 6.4), 0.0)]),
)

OBS = "lat lon h0"
G3 = "lat lon h"
for f in ("enu", "ned", "nwu", "sez"):
    e(f"geodetic2{f}", f"{G3} {OBS}", "vec")
    e(f"ecef2{f}", f"P3 {OBS}", "vec")
    e(f"{f}2ecef", f"D3 {OBS}", "vec")
    e(f"{f}2geodetic", f"D3 {OBS}", "geo")
    e(f"{f}2aer", "D3", "aer", ell=False)
    e(f"aer2{f}", "az el rng", "vec", ell=False)
    e(f"ecef2{f}v", "V3 lat lon", "vec", ell=False)
    if f != "ned":
        e(f"{f}2ecefv", "V3 lat lon", "vec", ell=False)
    e(f"ecef2{f}_matrix", "lat lon", "mat", ell=False, flags="matrix")
    e(f"{f}2ecef_matrix", "lat lon", "mat", ell=False, flags="matrix")
    e(f"{f}2body", "D3 ang pitch ang", "vec", ell=False, opts=dict(sequence=["zyx"]))
    e(f"body2{f}", "D3 ang pitch ang", "vec", ell=False, opts=dict(sequence=["zyx"]))
    e(f"{f}2body_matrix", "ang pitch ang", "mat", ell=False, flags="matrix")
    e(f"body2{f}_matrix", "ang pitch ang", "mat", ell=False, flags="matrix")
e("body_matrix", "ang pitch ang", "mat", ell=False, flags="matrix")
e("geodetic2ecef", G3, "vec")
e("ecef2geodetic", "P3", "geo")
e("enu2uvw", "V3 lat lon", "vec", ell=False)
e("uvw2enu", "V3 lat lon", "vec", ell=False)
FR = dict(frame=["ned", "enu", "nwu", "sez"])
e("ecef2body", f"P3 {OBS} ang pitch ang", "vec", opts=FR)
e("body2ecef", f"D3 {OBS} ang pitch ang", "vec", opts=FR)
e("geodetic2body", f"{G3} {OBS} ang pitch ang", "vec", opts=FR)
e("body2geodetic", f"D3 {OBS} ang pitch ang", "geo", opts=FR)
e("ecef2bodyv", "V3 lat lon ang pitch ang", "vec", ell=False, opts=FR)
e("body2ecefv", "V3 lat lon ang pitch ang", "vec", ell=False, opts=FR)
e("geodetic2aer", f"{G3} {OBS}", "aer")
e("ecef2aer", f"P3 {OBS}", "aer")
e("aer2ecef", f"az el rng {OBS}", "vec")
e("aer2geodetic", f"az el rng {OBS}", "geo")
e("enu2dca", "D3 ang", "vec", ell=False)
e("dca2enu", "D3 ang", "vec", ell=False)
e("ned2dca", "D3 ang", "vec", ell=False)
e("dca2ned", "D3 ang", "vec", ell=False)
e("aer2dca", "az el rng ang", "vec", ell=False)
e("dca2aer", "D3 ang", "aer", ell=False)
e("ecef2dca", f"P3 {OBS} ang", "vec")
e("dca2ecef", f"D3 {OBS} ang", "vec")
e("geodetic2dca", f"{G3} {OBS} ang", "vec")
e("dca2geodetic", f"D3 {OBS} ang", "geo")
e("geodetic2spherical", G3, "sph")
e("spherical2geodetic", "lat lon R", "geo")
for f in ("isometric", "rectifying", "conformal", "parametric", "authalic"):
    e(f"geodetic2{f}", "lat", "val", flags="lat")
    e(f"{f}2geodetic", "iso" if f == "isometric" else "lat", "val", flags="lat")
e("geodetic2geocentric", "lat h", "val")
e("geocentric2geodetic", "lat h", "val")
e("geod2geoc", "lat h", "val")
e("geoc2geod", "lat R", "val")
for f in ("parallel", "meridian", "transverse", "geocentric_radius"):
    e(f, "lat", "len")
e("rsphere.curve", "lat", "len", opts=dict(method=["mean", "norm"]))
e("rsphere.euler", "lat lon lat lon", "len", flags="dist")
for f in ("eqavol", "authalic", "rectifying"):
    e(f"rsphere.{f}", "", "len", deg=False, flags="const")
for f in ("biaxial", "triaxial"):
    e(f"rsphere.{f}", "", "len", deg=False, opts=dict(method=["mean", "norm"]), flags="const")
e("lox.meridian_dist", "lat", "len")
e("lox.meridian_arc", "lat lat", "len")
e("lox.departure", "lon lon lat", "len")
e("lox.loxodrome_inverse", "lat lon lat lon", "len ang")
e("lox.loxodrome_direct", "lat lon rng az", "ll", flags="lox")
e("vincenty.vdist", "lat lon lat lon", "len ang", flags="dist iter")
e("vincenty.vreckon", "lat lon srng az", "ll", flags="iter")
e("karney.geodesic_inverse", "lat lon lat lon", "len ang ang", flags="scalar dist")
e("karney.geodesic_direct", "lat lon az srng", "ll ang", flags="scalar")
e("los.lookAtSpheroid", "lat lon h0 az tilt", "ll len", flags="los")
e("geodetic2nvector", "lat lon", "nvec", ell=False)
e("nvector2geodetic", "N3", "ll", ell=False)
e("ecef2nvector", "P3", "nvec")
e("nvector2ecef", "N3 h", "vec")
e("nvector_distance", "N3 N3", "len", ell=False, deg=False, flags="fixed")
e("nvector_interpolate", "N3 N3 frac", "nvec", ell=False, deg=False, flags="scalar sep")
e("nvector_cross_track_distance", "N3 N3 N3", "len", ell=False, deg=False, flags="fixed sep")
e("nvector_intersection", "N3 N3 N3 N3", "nvec", ell=False, deg=False, flags="scalar sep")
e("haversine.anglesep", "lon lat lon lat", "val", ell=False)
e("haversine.anglesep_meeus", "lon lat lon lat", "val", ell=False)
e("haversine.haversine", "theta", "num", ell=False, deg=False)
e("utils.cart2pol", "x x", "num len", ell=False, deg=False)
e("utils.pol2cart", "theta rho", "len len", ell=False, deg=False)
e("utils.cart2sph", "V3", "num num len", ell=False, deg=False)
e("utils.sph2cart", "theta theta rho", "vec", ell=False, deg=False)
e("greenwichsrt", "jd", "num", ell=False, deg=False)
T = lambda g: [gen_time(g, 1975, 2023)]  # noqa: E731
e("eci2ecef", "P3", "vec", ell=False, deg=False, tail=T, flags="same eci", opts=dict(force_non_astropy=[True, False]))
e("ecef2eci", "P3", "vec", ell=False, deg=False, tail=T, flags="same eci", opts=dict(force_non_astropy=[True, False]))
e("eci2ecef_state", "P3 V3", "vec vec", ell=False, deg=False, tail=T, flags="same eci", opts=dict(force_non_astropy=[True, False]))
e("ecef2eci_state", "P3 V3", "vec vec", ell=False, deg=False, tail=T, flags="same eci", opts=dict(force_non_astropy=[True, False]))
e("geodetic2eci", G3, "vec", tail=T, flags="same eci")
e("eci2geodetic", "P3", "geo", tail=T, flags="same eci")
e("aer2eci", f"az el rng {OBS}", "vec", tail=T, flags="same eci")
e("eci2aer", f"P3 {OBS}", "aer", ell=False, tail=T, flags="same eci")
e("azel2radec", "az el lat lon", "azel", ell=False, deg=False, tail=T, flags="sky", opts=dict(force_non_astropy=[True, False]))
e("radec2azel", "az el lat lon", "azel", ell=False, deg=False, tail=T, flags="sky", opts=dict(force_non_astropy=[True, False]))

# ------------------------------------------------- functions of whole paths
def path_of(f):
    def g(*v, **kw):
        lats, lons = f(*v, npts=4, **kw)
        return [x for p in zip(lats, lons) for x in p]

    return g


def polygon(f):
    return lambda *v, **kw: f(list(v[0::2]), list(v[1::2]), **kw)


def points(f):
    return lambda *v, **kw: f(np.array(v[0::2]), np.array(v[1::2]), **kw)


e("karney.geodesic_line", "lat lon lat lon", "ll ll ll ll", flags="scalar dist", wrap=path_of)
e("karney.geodesic_area", "lat lon lat lon lat lon lat lon", "area len", flags="scalar poly", wrap=polygon)
e("karney.geodesic_area", "lat lon lat lon lat lon", "area len", flags="scalar poly", wrap=polygon)
if HAVE_NP:
    e("vincenty.track2", "lat lon lat lon", "ll ll ll ll", flags="scalar dist iter", wrap=path_of)
    e("lox.meanm", "lat lon lat lon lat lon", "ll", flags="scalar poly", wrap=points)
    e("lox.meanm", "lat lon lat lon", "ll", flags="scalar poly", wrap=points)
    e("lox.meanm", "lat lon " * 5, "ll", flags="scalar poly", wrap=points)
TS = lambda f: lambda lon, t, **kw: f(t, lon, **kw)  # noqa: E731
e("datetime2sidereal", "rad", "num", ell=False, deg=False, tail=T, flags="eci turn scalar", wrap=TS, opts=dict(force_non_astropy=[True, False]))

CATALOG = [x for x in C if x.fn() is not None]
MISSING = [x.path for x in C if x.fn() is None]


def numbers(entry, g, ell):
    """argument numbers (degrees) and their classes"""
    vals, cls = [], ""
    for _ in range(60):
        vals, cls = [], ""
        for t in entry.toks:
            k, gen = TOK[t]
            vals += gen(g, ell)
            cls += k
        if admissible(entry, vals, ell, cls):
            break
    if g.r.random() < 0.08:
        special(entry, vals, g)
    elif g.r.random() < WILD:
        wild(entry, vals, g, ell)
    if g.whole and ell.semimajor_axis > 1e5:
        i = [g.w(x) if k in "al" else x for x, k in zip(vals, cls)]
        if admissible(entry, i, ell, cls) and not entry.has("poly"):
            vals = i
    return vals, cls


WILD = 0.0  # share of arguments out of the ordinary


def wild(entry, v, g, ell):
    """toward the centre, on the axes, far away, deep: where two ways have to agree all the same"""
    i = 0
    a = ell.semimajor_axis
    for t in entry.toks:
        m = len(TOK[t][0])
        if t == "P3" and "eci" not in entry.flags:
            c = g.r.random()
            if c < 0.5:
                f = g.pick(*[g.logu(1e-9, 0.6)] * 11, 0.0)
            elif c < 0.6:
                f = g.logu(1e-3, 1e9) / a
            else:
                f = g.logu(1, 1e3)
            R = math.hypot(*v[i:i + 3])
            f *= a / R
            v[i:i + 3] = [x * f for x in v[i:i + 3]]
            if g.r.random() < 0.3:
                v[i + g.r.randrange(3)] = g.pick(0.0, -0.0)
        elif t in ("D3", "V3") and g.r.random() < 0.6:
            for k in range(3):
                c = g.r.random()
                if c < 0.3:
                    v[i + k] = g.pick(0.0, -0.0)
                elif c < 0.4 and "geo" not in entry.outs:
                    v[i + k] = signed(g, 1e6, 1e10)
        elif t == "h" and g.r.random() < 0.5:
            v[i] = g.pick(-g.r.uniform(0, 0.4), g.r.uniform(1, 900)) * a if "geo" not in entry.outs and entry.name != "geocentric2geodetic" else v[i]
        elif t == "rng" and "geo" not in entry.outs and g.r.random() < 0.5:
            v[i] = g.pick(0.0, g.logu(1e-3, 1)) if "lox" in entry.flags else g.pick(0.0, g.logu(1e-3, 1), g.logu(1e6, 1e10))
        i += m


def unit(lat, lon):
    p, l = math.radians(lat), math.radians(lon)
    return math.cos(p) * math.cos(l), math.cos(p) * math.sin(l), math.sin(p)


def special(entry, v, g):
    """coincident points, or the target at the observer"""
    if entry.toks[:3] == G3.split() and len(entry.toks) >= 6 and "R" not in entry.toks:
        v[3:6] = v[0:3]
        if v[5] < 0:
            v[2] = v[5] = -v[5]
    elif entry.has("dist") and entry.name != "euler" and g.r.random() < 0.5:
        v[3] = v[1] + signed(g, 1e-12, 1e-4)  # almost along the meridian
        if g.r.random() < 0.5 and abs(v[0]) > 10 and abs(v[2]) > 10:  # the one beyond the pole
            v[2] = math.copysign(v[2], v[0])
            v[3] = v[1] + g.r.choice([-1, 1]) * (180 - g.pick(0.0, g.r.uniform(0, 5), g.logu(1e-9, 1)))
    elif entry.has("dist"):
        v[2:4] = v[0:2]
        if entry.name == "euler":
            v[3] += 1.0
    elif entry.name == "loxodrome_inverse":
        v[2] = v[0]  # straight east or west


def admissible(entry, v, ell, cls):
    n = entry.name
    a, b = ell.semimajor_axis, ell.semiminor_axis
    if entry.outs == ["geo"] and entry.toks[0] not in ("P3", "lat"):
        # the target must be in the domain of ecef2geodetic
        d = v[2] if entry.toks[0] == "az" else math.hypot(*v[:3])
        return d < 0.45 * b or d > 1.2 * a + v[5] + a
    if entry.has("dist"):
        c = sum(x * y for x, y in zip(unit(*v[:2]), unit(*v[2:4])))
        return c > -0.97
    if entry.has("sep"):
        N = [v[i:i + 3] for i in range(0, len(v) - len(v) % 3, 3)]
        cr = []
        for p, q in ((0, 1), (2, 3)):
            if q < len(N):
                c = [N[p][1] * N[q][2] - N[p][2] * N[q][1], N[p][2] * N[q][0] - N[p][0] * N[q][2], N[p][0] * N[q][1] - N[p][1] * N[q][0]]
                m = math.hypot(*c)
                if m < 0.05:
                    return False
                cr.append([x / m for x in c])
        if len(cr) == 2:
            m = abs(sum(x * y for x, y in zip(*cr)))
            i = [cr[0][1] * cr[1][2] - cr[0][2] * cr[1][1], cr[0][2] * cr[1][0] - cr[0][0] * cr[1][2], cr[0][0] * cr[1][1] - cr[0][1] * cr[1][0]]
            s = [sum(p[k] for p in N) for k in range(3)]
            return m < 0.99 and abs(sum(x * y for x, y in zip(i, s))) > 1e-3
        return True
    if entry.has("poly"):
        # distinct corners within a hemisphere, spread over some area
        P = [unit(*v[i:i + 2]) for i in range(0, len(v), 2)]
        S = [sum(p[k] for p in P) for k in range(3)]
        m = math.hypot(*S)
        return m > 0.3 * len(P) and all(sum(x * y for x, y in zip(S, p)) > 0.3 * m for p in P)
    if n == "loxodrome_direct":
        # stay away from the poles, where rhumb lines spiral
        lat2 = v[0] + math.degrees(v[2] / b) * math.cos(math.radians(v[3]))
        c = abs(math.cos(math.radians(v[3])))
        return abs(v[0]) < 85 and abs(lat2) < 85 and not 1e-12 < c < 1e-2
    if n == "loxodrome_inverse":
        dl = abs(v[1] - v[3])
        return abs(v[0]) < 89.9 and abs(v[2]) < 89.9 and abs(dl - 180) > 1e-6 and not (abs(v[0] - v[2]) < 1e-6 * dl)
    if n == "geodetic2isometric" or n == "departure":
        return abs(v[-1]) < 89.99999 or n == "departure"
    if entry.has("los"):
        return v[2] >= 1.0  # from the surface itself, looking down may meet it or not
    return True


def call_args(entry, g, ell, with_deg=True):
    """keyword arguments chosen for a call: (tail, kw)"""
    tail = entry.tail(g) if entry.tail else []
    kw = {k: g.pick(*vs) for k, vs in entry.opts.items() if g.r.random() < 0.7}
    if entry.ell and not (is_wgs(ell) and g.r.random() < 0.5):
        kw["ell"] = ell
    return tail, kw


def to_radians(vals, cls):
    out = [math.radians(x) if c == "a" else x for x, c in zip(vals, cls)]
    return out


def flatten(res, entry):
    """result words of a scalar call"""
    if isinstance(res, Failed):
        return ["EXC"] * entry.nres()
    if "mat" in entry.outs:
        try:
            w = [num(x) for row in res for x in row]
        except Exception:
            w = []
    else:
        if not isinstance(res, (tuple, list)):
            res = (res,)
        try:
            w = [num(x) for x in res]
        except Exception:
            w = []
    return w if len(w) == entry.nres() else ["EXC"] * entry.nres()


def nudge(g, x):
    """a neighbouring value: the same special values, else some ulps off"""
    if x == 0 or (abs(x) % 45 == 0):
        return x
    return x * (1 + g.r.choice([-3, -1, 1, 3]) * 1.2e-16)


def tolerances(entry, vals, cls, ell):
    """absolute tolerance for every result group (radians, metres)"""
    R = ell.semimajor_axis if (entry.ell or entry.has("poly") or entry.has("eci") or "lat lon h0" in " ".join(entry.toks)) else 0.0
    L = max([abs(x) for x, c in zip(vals, cls) if c == "l"] + [R])
    it = 1e-11 if entry.has("iter") else 4e-15
    t = dict(ang=2e-14 + it, val=2e-14 + it, len=it * max(L, 1e-3) * 3, num=2e-14, area=1e-14 * L * L, vec=2e-14 * L, nvec=2e-14,
             geo=6e-14 * L + 2e-8 * ell.semimajor_axis / 6378137, sph=6e-14 * L + 1e-9, aer=2e-14 * L, ll=2e-13, azel=5e-14, mat=4e-15)
    if entry.name.startswith("anglesep"):
        # 180 degrees apart the sine of half the angle hardly changes
        U, V = unit(vals[1], vals[0]), unit(vals[3], vals[2])
        half = math.hypot(*[x + y for x, y in zip(U, V)]) / 2
        t["val"] = 2e-14 + 2e-15 / max(half, 3e-8)
    if entry.name == "loxodrome_inverse":
        # length per isometric latitude: a difference of close latitudes
        t["len"] *= 1 + 60 / max(1e-9, abs(vals[0] - vals[2]))
    if entry.has("fixed"):
        t["len"] = 6.4e6 * 1e-14
    if entry.has("iter"):
        t["ll"] = 1e-11
    if entry.has("poly"):
        t["area"], t["ll"] = 1e-13 * L * L, 1e-13
    if entry.name == "loxodrome_direct":
        # lines of almost constant latitude lose digits
        t["ll"] = 1e-12
    if entry.has("los"):
        t["ll"], t["len"] = 1e-11, 1e-10 * L
    return [t[o] for o in entry.outs]
