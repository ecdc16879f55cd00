"""Records pairs of calls asking the same question in two ways (c_rel.qnt).

usage: rec_rel.py <units|arrays|twin|ell> <n> <salt> <out>"""

import sys
import catalog
from catalog import *  # noqa: F403

fam, n, salt, path = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
g = Gen(f"rel/{fam}/{salt}")
r = g.r
out = Out(path)
catalog.WILD = 0.15 if fam in ("twin", "arrays", "units") else 0.0
AX = lambda E: [E.semimajor_axis, E.semiminor_axis]  # noqa: E731


def head(entry, ru, fu, k, vals, cls, ell):
    t = tolerances(entry, vals, cls, ell)
    w = [ru, fu, k, len(entry.outs), *AX(ell)]
    for o, x in zip(entry.outs, t):
        w += [GROUPS[o][0], x]
    return w


def clamp(entry, vals, cls, toks_rad):
    """radians of latitudes must not exceed a quarter turn by rounding"""
    return [max(-math.pi / 2, min(math.pi / 2, x)) if abs(x) < math.pi / 2 + 1e-15 else x for x in toks_rad]


def ev_units(entry):
    ell = g.ell() if entry.ell else WGS
    vals, cls = numbers(entry, g, ell)
    tail, kw = call_args(entry, g, ell)
    f = entry.fn()
    kd = dict(kw)
    if r.random() < 0.5:
        kd["deg"] = True  # the default
    rad = clamp(entry, vals, cls, to_radians(vals, cls))
    res = call(f, *rad, *tail, **kw, deg=False)
    ref = call(f, *vals, *tail, **kd)
    near = [[nudge(g, x) for x in vals] for _ in range(2)]
    nears = [flatten(call(f, *v, *tail, **kd), entry) for v in near]
    w = head(entry, 1, 0, 2, vals, cls, ell) + flatten(res, entry) + flatten(ref, entry) + nears[0] + nears[1]
    out.add("agree", w, show(entry.mod + "." + entry.name, [*rad, *tail], dict(kw, deg=False)) + " against degrees " + repr(vals))


SHAPES = [(), (1,), (2,), (3,), (5,), (1, 1), (2, 3), (3, 1), (1, 4), (0,), (2, 0), (1, 1, 1), (2, 1, 2), (7,)]


def ev_arrays(entry):
    ell = g.ell() if entry.ell else WGS
    deg = r.random() < 0.7 or not entry.deg
    tail, kw = call_args(entry, g, ell)
    if not deg:
        kw["deg"] = False
    shape = r.choice(SHAPES)
    same = entry.has("same")
    # now and then an array larger than any block it could be cut into
    big = r.random() < 0.04 and not entry.name.endswith("_state")
    if big:
        shape = g.pick((65,), (257,), (1025,), (4100,), (33, 40), (1030, 1))
    size = int(np.prod(shape)) if shape else 1
    if not size and entry.name.endswith("_state"):
        kw["force_non_astropy"] = True  # Astropy itself has no empty states
    rows = []
    pre = {}
    for j in range(max(1, min(size, 23))):
        v, cls = numbers(entry, g, ell)
        rows.append(v)
    # several special elements among ordinary ones
    if size > 1 and not g.whole and r.random() < 0.15:
        for v in rows:
            if r.random() < 0.45:
                special(entry, v, g)
    # tiny displacements next to large ones
    if size > 1 and not g.whole and r.random() < 0.25:
        toks = flat_tokens(entry)
        for v in rows:
            if r.random() < 0.3 and "geo" not in entry.outs and "lox" not in entry.flags:
                f = g.logu(1e2, 1e5)  # far away (kept from going around)
                for k, t in enumerate(toks):
                    if t in ("D3", "V3", "x", "rho"):
                        v[k] *= f
            elif r.random() < 0.6:
                f = g.logu(1e-9, 1e-2)
                for k, t in enumerate(toks):
                    if t in ("D3", "V3", "rng", "srng", "x", "rho") and r.random() < 0.8:
                        v[k] *= f
    # a missing value concerns nobody else
    if size > 1 and not g.whole and r.random() < 0.08:
        v = rows[r.randrange(1, len(rows))]
        v[r.randrange(len(v))] = math.nan
    # which arguments are arrays, and which shape each has
    nargs = len(cls)
    shapes = []
    mode = r.random()
    base = rows[0]
    observer = entry.toks[-3:] == OBS.split() or (len(entry.toks) >= 3 and "h0" in entry.toks)
    for k in range(nargs):
        if same and k >= 3 * (1 + (entry.name.endswith("_state"))):
            shapes.append(None)
        elif same or mode < 0.5:
            shapes.append(shape)
        elif mode < 0.75:  # some scalars
            shapes.append(shape if r.random() < 0.5 else None)
        else:  # broadcasting
            sh = list(shape)
            for i in range(len(sh)):
                if r.random() < 0.4:
                    sh[i] = 1
            if sh and r.random() < 0.3:
                sh = sh[1:]
            shapes.append(tuple(sh) if r.random() < 0.8 else None)
    if all(s is None for s in shapes) and nargs:
        shapes[r.randrange(nargs)] = shape
    if not nargs:
        return
    args = []
    for k in range(nargs):
        if shapes[k] is None:
            args.append(base[k])
        else:
            m = int(np.prod(shapes[k])) if shapes[k] else 1
            col = [rows[(7 * i + 3 * (i // max(1, len(rows)))) % len(rows)][k] if r.random() < 0.15 else rows[i % len(rows)][k] for i in range(m)]
            if not deg and cls[k] == "a":
                col = clamp(entry, col, "a" * m, [math.radians(x) for x in col])
            a = column(g, col, shapes[k])
            if r.random() < 0.1 and a.ndim == 2 and a.size:
                a = np.asfortranarray(a)
            elif r.random() < 0.1 and a.ndim == 1 and a.size:
                a = np.repeat(a, 2)[::2]
            elif r.random() < 0.1 and a.ndim and a.size:
                a = a[::-1].copy()[::-1]
            elif r.random() < 0.1 and a.dtype == float:
                a = a.astype(">f8")
            if r.random() < 0.1:
                a.flags.writeable = False
            args.append(a)
        if shapes[k] is None and not deg and cls[k] == "a":
            args[k] = clamp(entry, [base[k]], "a", [math.radians(base[k])])[0]
    ushapes = [s if s is not None else () for s in shapes]
    full = np.broadcast_shapes(*ushapes)
    f = entry.fn()
    txt = show(entry.mod + "." + entry.name, [*args, *tail], kw)
    # combinations that mix points are only compared where the scalar call is meaningful
    res = call(f, *args, *tail, **kw)
    if isinstance(res, Failed):
        # an invalid combination must be rejected for scalars as well
        bc = [np.broadcast_to(np.asarray(a, dtype=float), full).reshape(-1) for a in args]
        bad = [call(f, *[float(b[i]) for b in bc], *tail, **kw) for i in range(bc[0].size)]
        if any(isinstance(x, Failed) and x.name == res.name for x in bad):
            return
        out.add("shape", ["EXC"], txt + f" raised {res}")
        return
    outs = list(res) if isinstance(res, (tuple, list)) else [res]
    w = [nargs]
    for s in ushapes:
        w += [len(s), *s]
    w.append(len(outs))
    for o in outs:
        w += [np.ndim(o), *np.shape(o)]
    if len(outs) != entry.nres():
        w = ["EXC"]
    out.add("shape", w, txt)
    if w[0] == "EXC":
        return
    try:
        outs = [np.broadcast_to(np.asarray(o), full) for o in outs]
    except ValueError:
        return
    if not np.prod(full):
        return
    ntrack = min(int(np.prod(full)), 3)
    idx = r.sample(range(int(np.prod(full))), ntrack)
    if big:
        idx.append(int(np.prod(full)) - 1)
    bc = [np.broadcast_to(np.asarray(a, dtype=float), full).reshape(-1) for a in args]
    for i in idx:
        one = [float(b[i]) for b in bc]
        if any(x != x for x in one):
            continue
        ref = flatten(call(f, *one, *tail, **kw), entry)
        nears = [flatten(call(f, *[nudge(g, x) for x in one], *tail, **kw), entry) for _ in range(2)]
        got = [num(np.asarray(o).reshape(-1)[i]) for o in outs]
        u = 0 if deg else 1
        out.add("agree", head(entry, u, u, 2, one, cls, ell) + got + ref + nears[0] + nears[1],
                txt + f" element {i}")


# ------------------------------------------------ other installation (C12)
def ship(kw):
    kw = dict(kw)
    if isinstance(kw.get("ell"), Ellipsoid):
        kw["ell"] = [kw["ell"].semimajor_axis, kw["ell"].semiminor_axis]
    return kw


def unship(kw):
    kw = dict(kw)
    if isinstance(kw.get("ell"), list):
        kw["ell"] = Ellipsoid(*kw["ell"])
    return kw


def outcome(entry, args, tail, kw):
    """result words, or the name of the exception"""
    res = call(entry.fn(), *args, *tail, **kw)
    if isinstance(res, Failed):
        return res.name
    w = flatten(res, entry)
    # what is not a plain number differs from one
    return ["NAN" if x != x else x for x in w]


def worker():
    """answers calls in this installation: lines [path, args, time or None, kw]"""
    by = {x.path: x for x in CATALOG}
    for line in sys.stdin:
        path_, args, t, kw = json.loads(line)
        tail = [dt.datetime.fromisoformat(t)] if t else []
        print(json.dumps(outcome(by[path_], args, tail, unship(kw)) if path_ in by else "Missing"), flush=False)


def spoil(entry, vals, kw, deg):
    """make some argument invalid"""
    vals = list(vals)
    c = []
    for i, t in enumerate(flat_tokens(entry)):
        if t == "lat" and "karney" not in entry.path:  # which does not check them
            c.append((i, (90.0 if deg else math.pi / 2) * r.choice([1.0000001, 1.5, -1.01, 2.2])))
        elif t in ("rng", "srng") or t == "h0" and entry.has("los"):
            c.append((i, -abs(vals[i]) - r.choice([1e-3, 1.0, 1e4])))
        elif t == "frac":
            c.append((i, r.choice([-0.5, 1.5])))
    if r.random() < 0.3 and entry.opts:
        k = r.choice(list(entry.opts))
        if k != "force_non_astropy":
            kw[k] = "other"
            return vals
    if c:
        i, x = r.choice(c)
        vals[i] = x
    return vals


STRICT = {"loxodrome_direct", "vdist", "vreckon", "azel2radec", "radec2azel", "lookAtSpheroid", "nvector_interpolate", "curve", "triaxial",
          "ecef2body", "geodetic2body", "enu2body", "body2ned"}


def flat_tokens(entry):
    out_ = []
    for t in entry.toks:
        out_ += [t] * len(TOK[t][0])
    return out_


CODES = {}


def code(name):
    """0 for numbers, else a number per kind of exception"""
    if not isinstance(name, str):
        return 0
    return CODES.setdefault(name, len(CODES) + 1)


def twins(entries, n):
    import subprocess

    calls, asks = [], []
    i = 0
    # those that reject arguments are asked again
    strict = [x for x in entries if x.name in STRICT]
    while len(calls) < n:
        reject = i % 7 == 6
        entry = strict[i // 7 % len(strict)] if reject and strict else entries[i % len(entries)]
        i += 1
        ell = g.ell() if entry.ell else WGS
        g.begin()
        vals, cls = numbers(entry, g, ell)
        tail, kw = call_args(entry, g, ell)
        deg = not entry.deg or r.random() < 0.7
        if not deg:
            kw["deg"] = False
            vals = clamp(entry, vals, cls, to_radians(vals, cls))
        bad = r.random() < (0.7 if reject else 0.2)
        if bad:
            vals = spoil(entry, vals, kw, deg)
        near = [vals] + [[nudge(g, x) for x in vals] for _ in range(2)]
        t = tail[0].isoformat() if tail else None
        calls.append((entry, ell, near, cls, tail, kw, deg))
        asks.append(json.dumps([entry.path, vals, t, ship(kw)]))
    cut = 2 * n // 3
    lines = []
    for py, part, env in (("/opt/venv-stdlib/bin/python", asks[:cut], {}), (sys.executable, asks[cut:], dict(VERIF_NO_ASTROPY="1"))):
        p = subprocess.run([py, "-W", "ignore", __file__, "worker", "0", "0", "0"], env=dict(os.environ, **env),
                           input="\n".join(part) + "\n", capture_output=True, text=True)
        if p.returncode:
            sys.stderr.write(p.stderr)
            sys.exit(3)
        lines += p.stdout.splitlines()
    for at, ((entry, ell, near, cls, tail, kw, deg), line) in enumerate(zip(calls, lines, strict=True)):
        std = json.loads(line)
        here = [outcome(entry, v, tail, kw) for v in near]
        txt = show(entry.mod + "." + entry.name, [*near[0], *tail], kw) + (" without NumPy" if at < cut else " without Astropy")
        # entering as one call with two outcomes
        out.add("raises", [code(std), code(here[0])], txt + f": {std if isinstance(std, str) else 'numbers'} instead of "
                f"{here[0] if isinstance(here[0], str) else 'numbers'}")
        if isinstance(std, str) or isinstance(here[0], str):
            continue
        h = [x if not isinstance(x, str) else ["EXC"] * entry.nres() for x in here]
        w = head(entry, int(not deg), int(not deg), 2, near[0], cls, ell)
        if tail and not kw.get("force_non_astropy"):
            # Astropy's Earth orientation against the built-in one
            w = loosen(entry, w, near[0], cls)
        out.add("agree", w + std + h[0] + h[1] + h[2], txt)


def loosen(entry, w, vals, cls):
    L = max([abs(x) for x, c in zip(vals, cls) if c == "l"] + [w[4], 6.4e6])
    for j, o in enumerate(entry.outs):
        # (sky directions: of date instead of J2000)
        w[7 + 2 * j] = 8e-3 if o == "azel" else 3e-4 if o == "num" else 1.5e-4 * L if o != "vec" or j == 0 else 1.5e-4 * L + 7.3e-5 * L
    return w


# -------------------------------------------------------- ellipsoids (C13)
def ev_scale(entry):
    """both axes and all lengths times a power of two"""
    k = r.choice([-3, -2, -1, 1, 2, 3])
    ell = g.ell()
    vals, cls = numbers(entry, g, ell)
    tail, kw = call_args(entry, g, ell)
    kw["ell"] = ell
    # a name means nothing
    name, model = r.choice([("scaled", ""), ("", ""), (ell.name, ell.model), (WGS.name, WGS.model), (WGS.name, ""), ("", WGS.model)])
    kw2 = dict(kw, ell=Ellipsoid(math.ldexp(ell.semimajor_axis, k), math.ldexp(ell.semiminor_axis, k), name=name, model=model))
    vals2 = [math.ldexp(x, k) if c == "l" else x for x, c in zip(vals, cls)]
    f = entry.fn()
    res = call(f, *vals2, *tail, **kw2)
    ref = call(f, *vals, *tail, **kw)
    nears = [flatten(call(f, *[nudge(g, x) for x in vals], *tail, **kw), entry) for _ in range(2)]
    w = head(entry, 0, 0, 2, vals, cls, ell)
    pw = []
    for o in entry.outs:
        pw += LENGTHS.get(o, (0,) * GROUPS[o][1])
    unscaled = flatten(res, entry)
    out.add("scaled", [k, len(pw), *pw, *w, *unscaled, *flatten(ref, entry), *nears[0], *nears[1]],
            show(entry.mod + "." + entry.name, [*vals2, *tail], kw2) + f" against a {2 ** -k} times as large one")


def ev_default(entry):
    vals, cls = numbers(entry, g, WGS)
    tail, kw = call_args(entry, g, WGS)
    kw.pop("ell", None)
    f = entry.fn()
    ref = call(f, *vals, *tail, **kw, ell=r.choice([WGS, Ellipsoid(6378137.0, 6356752.31424518), Ellipsoid.from_name("wgs84")]))
    if r.random() < 0.5:
        res, how = call(f, *vals, *tail, **kw), "omitted"
    else:
        res, how = call(f, *vals, *tail, **kw, ell=None), "None"
    r0 = flatten(ref, entry)
    out.add("agree", head(entry, 0, 0, 0, vals, cls, WGS) + flatten(res, entry) + r0,
            show(entry.mod + "." + entry.name, [*vals, *tail], kw) + f" with ell {how} against WGS84")


def ev_neutral():
    """nothing moved, or there and back, on ellipsoids very unlike the default"""
    a = g.pick(6378137.0, g.logu(1e3, 1e8))
    ell = Ellipsoid(a, a * (1 - g.pick(0.0, r.uniform(0.02, 0.1), r.uniform(0.02, 0.1))), name=g.pick("", WGS.name), model=g.pick("", WGS.model))
    f = ell.flattening
    deg = r.random() < 0.6
    q = (lambda x: x) if deg else math.radians
    lat, lon, lat2, lon2 = [r.choice([-1, 1]) * r.uniform(5, 80), r.uniform(-170, 170), r.uniform(-80, 80), r.uniform(-170, 170)]
    la, lo, p2, l2 = q(lat), q(lon), q(lat2), q(lon2)
    h = g.pick(0.0, r.uniform(0, 0.1), r.uniform(0, 3)) * a
    az, tilt = q(r.uniform(0, 360)), q(r.uniform(-80, 80))
    obs = [la, lo, h]
    x3 = [r.uniform(0.9, 1.5) * a * x for x in unit(lat2, lon2)]
    kw = dict(ell=ell) if deg else dict(ell=ell, deg=False)
    Z = [0.0] * 3
    fn = lambda p: raw_fn(p)  # noqa: E731
    H, G2, G3, L, A = "l", "aa", "aal", "l", "a"
    ypr = [az, tilt, q(r.uniform(-80, 80))]
    T = []
    for s in ("enu", "ned", "aer"):
        z = Z if s != "aer" else [az, tilt, 0.0]
        T.append((f"{s}2geodetic", [*z, *obs], G3, obs))
        if s != "aer":
            T.append((f"geodetic2{s}", [*obs, *obs], "lll", Z))
        T.append((f"ecef2{s}", f"{s}2ecef", [*x3, *obs], obs, "lll", x3))
    for s in ("nwu", "sez"):
        T.append((f"{s}.{s}2geodetic", [*Z, *obs], G3, obs))
        T.append((f"{s}.geodetic2{s}", [*obs, *obs], "lll", Z))
    T += [("dca.dca2geodetic", [*Z, *obs, az], G3, obs), ("dca.geodetic2dca", [*obs, *obs, az], "lll", Z),
          ("body.body2geodetic", [*Z, *obs, *ypr], G3, obs), ("body.geodetic2body", [*obs, *obs, *ypr], "lll", Z),
          ("geodetic2ecef", "ecef2geodetic", obs, [], G3, obs), ("ecef2geodetic", "geodetic2ecef", x3, [], "lll", x3),
          ("spherical.geodetic2spherical", "spherical.spherical2geodetic", obs, [], G3, obs),
          ("nvector.ecef2nvector", "nvector.nvector2ecef", fn("geodetic2ecef")(la, lo, 0.0, **kw), [], "lll", fn("geodetic2ecef")(la, lo, 0.0, **kw)),
          ("los.lookAtSpheroid", [la, lo, h + 0.01 * a, az, 0.0], G3, [la, lo, h + 0.01 * a]),
          ("vincenty.vreckon", [la, lo, 0.0, az], G2, [la, lo]), ("vincenty.vdist", [la, lo, la, lo], "l?", [0.0, 0.0]),
          ("lox.loxodrome_direct", [la, lo, 0.0, az], G2, [la, lo]), ("lox.departure", [lo, lo, la], "l", [0.0]),
          ("lox.meridian_arc", [la, la], "l", [0.0]),
          ("karney.geodesic_inverse", [la, lo, la, lo], "l??", [0.0] * 3), ("karney.geodesic_direct", [la, lo, az, 0.0], "aaa", [la, lo, az]),
          ("karney.geodesic_inverse", "karney.geodesic_direct", None, None, G2, [p2, l2])]
    for s in ("authalic", "conformal", "rectifying", "parametric", "isometric"):
        T.append((f"latitude.geodetic2{s}", f"latitude.{s}2geodetic", [la], [], A, [la]))
    T.append(("latitude.geodetic2geocentric", "latitude.geocentric2geodetic", [la, h], [h], A, [la]))
    if HAVE_NP:
        k = r.choice([1, 2, 2, 3, 4, 7])
        for _ in range(3):
            T.append(("lox.meanm", [np.full(k, la), np.full(k, lo)], G2, [la, lo]))
    t = r.choice(T)
    names = [t[0]] if len(t) == 4 else [t[0], t[1]]
    fs = [fn(x) for x in names]
    if any(x is None for x in fs):
        return
    kinds_, want = t[-2], t[-1]
    series = "latitude" in names[0] or "meanm" in names[0] or "lox" in names[0]
    tol = 3e-9 + (8 * f**4 if series else 1e-6 * f**2)
    if len(t) == 4:
        args = t[1]
        res = call(fs[0], *args, **kw)
        if names[0] == "los.lookAtSpheroid":
            tol = 1e-6
    elif t[2] is None:  # to the second point
        args = [la, lo, p2, l2]
        c = math.sin(math.radians(lat)) * math.sin(math.radians(lat2)) + math.cos(math.radians(lat)) * math.cos(math.radians(lat2)) * math.cos(math.radians(lon - lon2))
        if c < -0.9:
            return
        res = call(fs[0], *args, **kw)
        if not isinstance(res, Failed):
            res = call(fs[1], la, lo, res[1], res[0], **kw)
            res = res if isinstance(res, Failed) else res[:2]
    else:
        args = t[2]
        res = call(fs[0], *args, **kw)
        if not isinstance(res, Failed):
            res = call(fs[1], *(res if isinstance(res, tuple) else [res]), *t[3], **kw)
    w = []
    got = words(res, len(want))
    for kd, x, y in zip(kinds_, got, want):
        if kd == "?":
            continue
        if kd == "a" and deg:
            x = math.radians(x) if isinstance(x, float) else x
            y = math.radians(y)
        w += [1 if kd == "a" else 0, x, y]
    out.add("neutral", [a, tol, len(w) // 3, *w], " and then ".join(show("pymap3d." + p, args if i == 0 else ["..."], kw) for i, p in enumerate(names)))


def raw_fn(path_):
    import importlib

    m, _, nm = path_.rpartition(".")
    try:
        return getattr(importlib.import_module("pymap3d" + ("." + m if m else "")), nm)
    except (ImportError, AttributeError):
        return None


class Own(Ellipsoid):
    """a user's kind of ellipsoid"""


def ev_model():
    c = r.random()
    if c < 0.7:
        name = ALL_MODELS[r.randrange(len(ALL_MODELS))] if len(out.ev) % 2 else ALL_MODELS[len(out.ev) // 2 % len(ALL_MODELS)]
        cls = Own if r.random() < 0.1 else Ellipsoid
        E = call(cls.from_name, name)
        txt = f"{cls.__name__}.from_name({name!r})"
        idx = KNOWN_MODELS.index(name) if name in KNOWN_MODELS else -1
        reg = Ellipsoid.models[name]
        again = call(cls.from_name, name)
        named = not isinstance(E, Failed) and E.model == name and E.name == reg["name"] and E == again and isinstance(E, cls)
        reg = [reg["a"], reg["b"]]
    elif c < 0.85:
        a = g.logu(1, 1e9)
        b = a * (1 - g.pick(0.0, r.uniform(0, 0.3), g.logu(1e-12, 0.1)))
        E = call(Ellipsoid, a, b)
        txt, idx, named, reg = f"Ellipsoid({a!r}, {b!r})", -1, True, [a, b]
    else:
        name = r.choice(["", "nope", "WGS84", "wgs-84", "wgs84 ", "grs", "none", "earth", "wgs", "84", "sphere"])
        E = call(Ellipsoid.from_name, name)
        out.add("unknown", [0 if isinstance(E, Failed) else 1], f"Ellipsoid.from_name({name!r})")
        return
    if isinstance(E, Failed):
        w = ["EXC"] * 5
    else:
        w = [num(x) for x in (E.semimajor_axis, E.semiminor_axis, E.flattening, E.thirdflattening, E.eccentricity)]
    out.add("model", [idx, int(named), *reg, *w], txt)


WGS = Ellipsoid.from_name("wgs84")
# in the order of the table in c_rel.qnt
KNOWN_MODELS = """maupertuis plessis everest1830 everest1830m everest1967 airy bessel clarke1866 clarke1878 clarke1860 helmert hayford
international1924 krassovsky1940 wgs66 australian international1967 grs67 sa1969 wgs72 grs80 wgs84 wgs84_mean iers1989 pz90.11
iers2003 gsk2011""".split()

if fam == "worker":
    worker()
    sys.exit()
if fam == "twin":
    twins([x for x in CATALOG if x.name not in ("track2", "meanm")], n)
    out.close()
    sys.exit()
if fam == "units":
    entries = [(x, ev_units) for x in CATALOG if x.deg]
elif fam == "ell":
    E_ = [x for x in CATALOG if x.ell]
    entries = []
    for x in E_:
        entries += [(x, ev_scale), (x, ev_default)]
else:
    entries = [(x, ev_arrays) for x in CATALOG if not (x.flags & {"scalar", "matrix", "const"})]
for p in MISSING:
    out.add("missing", [1], "pymap3d." + p)
i = 0
while len(out.ev) < n:
    x, ev = entries[i % len(entries)]
    g.begin()
    ev(x)
    if fam == "ell" and i % 10 == 0:
        ev_model()
    if fam == "ell" and i % 5 == 0:
        ev_neutral()
    i += 1
out.close()
