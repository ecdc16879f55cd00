"""Records time parsing, Julian dates and sidereal time (c_time.qnt).

usage: rec_time.py <n> <salt> <out>"""

import sys
from datetime import datetime, timedelta, timezone

from recutil import *  # noqa: F403

n, salt, path = int(sys.argv[1]), sys.argv[2], sys.argv[3]
g = Gen(f"time/{salt}")
out = Out(path)
r = g.r

from pymap3d import sidereal  # noqa: E402

try:
    from pymap3d.earth_orientation import leap_seconds
except ImportError:
    leap_seconds = None
try:
    from pymap3d.earth_orientation import earth_rotation_angle as era
except ImportError:
    era = None
ASTRO = "astropy" in sys.modules
tau = math.tau


def variants(t):
    """other spellings of the same time: (object, text, expected datetime)"""
    o = []
    if t.tzinfo is None or t.utcoffset().total_seconds() % 60 == 0:
        o += [t.isoformat(), t.isoformat(" "), t.isoformat(timespec="microseconds")]
        if t.microsecond == 0:
            o.append(t.isoformat(timespec="seconds"))
            if t.second == 0:
                o.append(t.isoformat(timespec="minutes"))
            if t.tzinfo is None and (t.hour, t.minute, t.second) == (0, 0, 0):
                o.append(t.date().isoformat())
    res = [(x, t) for x in o]
    if HAVE_NP and t.tzinfo is None:
        d = np.datetime64(t)
        res.append((d, t))
        if 1700 < t.year < 2250:
            res.append((d.astype("datetime64[ns]"), t))
        if t.microsecond % 1000 == 0:
            res.append((d.astype("datetime64[ms]"), t))
        if t.microsecond == 0:
            res.append((d.astype("datetime64[s]"), t))
            if t.second == 0:
                res.append((d.astype("datetime64[m]"), t))
                if (t.hour, t.minute) == (0, 0):
                    res += [(d.astype("datetime64[D]"), t)] * 2
                elif t.minute == 0:
                    res.append((d.astype("datetime64[h]"), t))
        if 1700 < t.year < 2250:
            res.append((np.datetime64(t, "ns") + np.timedelta64(r.randrange(1000), "ns"), t))
    return res


def flat(x):
    if isinstance(x, (list, tuple)) or (HAVE_NP and isinstance(x, np.ndarray)):
        return [z for y in x for z in flat(y)]
    return [x]


def ev_parse():
    t = gen_time(g)
    vs = variants(t) + [(t, t)]
    x, want = r.choice(vs)
    c = r.random()
    if c < 0.6:
        res = call(pm.str2dt, x)
        got = [res]
        wants = [want]
        arg = x
    else:
        items = [r.choice(variants(q) + [(q, q)]) for q in (t, *(gen_time(g) for _ in range(r.randrange(1, 4))))]
        wants = [w for _, w in items]
        arg = [i for i, _ in items]
        if c < 0.7:
            arg = tuple(arg)
        elif c < 0.8 and len(arg) > 2:
            arg = [arg[:1], arg[1:]]
        elif c < 0.9 and HAVE_NP and all(w.tzinfo is None for w in wants):
            arg = np.array([np.datetime64(w) for w in wants])
            if r.random() < 0.4:
                wants = [w.replace(hour=0, minute=0, second=0, microsecond=0) for w in wants]
                arg = arg.astype("datetime64[D]")
        res = call(pm.str2dt, arg)
        got = flat(res) if not isinstance(res, Failed) else [res]
        if len(got) != len(wants):
            got = [None] * len(wants)
    k = r.randrange(len(wants))
    out.add("parse", time_words(wants[k]) + time_words(got[k]), show("pymap3d.str2dt", (arg,)))


def ev_jd():
    t = gen_time(g, 1600, 2400)
    f = r.choice([pm.sidereal.juliandate, pm.sidereal.juliandate, sidereal._juliandate if hasattr(sidereal, "_juliandate") else sidereal.juliandate])
    if r.random() < 0.75 or f is not pm.sidereal.juliandate:
        res = words(call(f, t), 1)
        arg = t
    else:
        ts = [t] + [gen_time(g) for _ in range(r.randrange(3))]
        r.shuffle(ts)
        arg = tuple(ts) if r.random() < 0.5 else ts
        res = call(f, arg)
        res = words(res[ts.index(t)], 1) if isinstance(res, (list, tuple)) and len(res) == len(ts) else ["EXC"]
    out.add("jd", time_words(t) + res, show("juliandate", (arg,)))


def ev_gmst():
    jd = g.pick(r.uniform(2305000, 2598000), r.uniform(2440000, 2470000), 2451545.0, 2415020.0,
                float(r.randrange(2430000, 2470000)), r.randrange(2430000, 2470000) + 0.5, 2451545 + g.small())
    if r.random() < 0.75:
        res, arg = words(call(pm.greenwichsrt, jd), 1), jd
    else:
        js = [jd] + [r.uniform(2430000, 2470000) for _ in range(r.randrange(3))]
        arg = js if r.random() < 0.6 or not HAVE_NP else np.array(js)
        res = call(pm.greenwichsrt, arg)
        res = words(res[0], 1) if not isinstance(res, Failed) and len(res) == len(js) else ["EXC"]
    out.add("gmst", [jd] + res, show("pymap3d.greenwichsrt", (arg,)))


def ev_era():
    jd = g.pick(r.uniform(2305000, 2598000), r.uniform(2440000, 2470000), 2451545.0, float(r.randrange(2430000, 2470000)), 2451545 + g.small())
    if r.random() < 0.7 or not HAVE_NP:
        res, arg = words(call(era, jd), 1), jd
    else:
        arg = np.array([jd, r.uniform(2430000, 2470000)])
        res = call(era, arg)
        res = words(res[0], 1) if not isinstance(res, Failed) else ["EXC"]
    out.add("era", [jd] + res, show("pymap3d.earth_orientation.earth_rotation_angle", (arg,)))


def ev_lst():
    # without the built-in method forced, Astropy's UT1 is used when present
    forced = r.random() < 0.8
    exact = forced or not ASTRO
    t = gen_time(g) if exact else gen_time(g, 1975, 2023)
    lon = math.radians(g.lon()) if r.random() < 0.8 else r.uniform(-4 * tau, 4 * tau)
    dut = r.choice([0.0, 0.0, r.uniform(-0.9, 0.9), r.uniform(-0.9, 0.9)]) if exact else 0.0
    kw = {}
    if forced:
        kw["force_non_astropy"] = True
    if dut:
        kw["delta_ut1"] = dut
    x, want = t, t
    c = r.random()
    if c < 0.3 and exact:
        x, want = r.choice(variants(t) + [(t, t)])
    pick = lambda v: v  # noqa: E731
    a = x
    if 0.3 <= c < 0.45:
        ts = [gen_time(g, 1975, 2023) for _ in range(r.randrange(3))]
        k = r.randrange(len(ts) + 1)
        ts.insert(k, x)
        a = tuple(ts) if r.random() < 0.5 else ts
        pick = lambda v: v[k] if len(v) == len(ts) else None  # noqa: E731
    L = lon
    if HAVE_NP and 0.45 <= c < 0.6:
        k = r.randrange(3)
        L = np.array([lon if j == k else r.uniform(-3, 3) for j in range(3)])
        pick = lambda v: v[k] if len(v) == 3 else None  # noqa: E731
    res = call(pm.datetime2sidereal, a, L, **kw)
    try:
        res = res if isinstance(res, Failed) else pick(res)
    except Exception:
        res = Failed("shape")
    res = words(res, 1)
    if not exact and res[0] != "EXC":
        res[0] %= tau
    out.add("lst", time_words(t) + [lon, dut] + res + [1e-8 if exact else 1.5e-4],
            show("pymap3d.datetime2sidereal", (a, L), kw))


def ev_leap():
    t = gen_time(g)
    out.add("leap", time_words(t) + words(call(leap_seconds, t), 1), show("leap_seconds", (t,)))


def leap_calendar():
    """every month since 1960, and around the first of every one that may begin with a leap second"""
    def ask(t):
        if r.random() < 0.5:
            t = t.replace(tzinfo=timezone.utc)
            if r.random() < 0.5:
                t = t.astimezone(timezone(timedelta(minutes=r.randrange(-840, 841, 15))))
        out.add("leap", time_words(t) + words(call(leap_seconds, t), 1), show("leap_seconds", (t,)))

    for y in range(1960, 2030):
        for m in range(1, 13):
            one = datetime(y, m, 1)
            if m in (1, 7) or m in (4, 10) and r.random() < 0.3:
                for d in (timedelta(0), timedelta(microseconds=-1), timedelta(seconds=r.uniform(-2, 2))):
                    ask(one + d)
            ask(one + timedelta(days=r.uniform(0, 28)))


if leap_seconds:
    leap_calendar()
for i in range(n):
    k = i % 10
    if k < 3:
        ev_parse()
    elif k < 5:
        ev_jd()
    elif k < 6:
        if era and r.random() < 0.3:
            ev_era()
        else:
            ev_gmst()
    elif k < 9 or leap_seconds is None:
        ev_lst()
    else:
        ev_leap()
out.close()
