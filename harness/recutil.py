"""Shared by the recorders: inputs, guarded calls, event output.

Runs under any of the code's interpreters (NumPy optional)."""

from __future__ import annotations

import datetime as _dtm
import inspect
import json
import math
import os
import random
import signal
import sys

sys.path.insert(0, "/repo/src")


class _NoAstropy:
    """NumPy without Astropy"""

    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] in ("astropy", "erfa"):
            raise ImportError(name)


if os.environ.get("VERIF_NO_ASTROPY"):
    sys.meta_path.insert(0, _NoAstropy())

try:
    import numpy as np
except ImportError:  # the pure-Python installation
    np = None

import pymap3d as pm  # noqa: E402
from pymap3d.ellipsoid import Ellipsoid  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HAVE_NP = np is not None


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout


signal.signal(signal.SIGALRM, _alarm)


class Failed:
    """the outcome of a call that raised"""

    def __init__(self, name, msg=""):
        self.name = name
        self.msg = msg

    def __repr__(self):
        return f"{self.name}: {self.msg}"


_prime = random.Random(f"{SEED}/prime/{sys.argv[:4]}")
PRIME = 0.0 if os.path.basename(sys.argv[0]) in ("rec_pure.py", "rec_cache.py", "rec_cli.py") else 0.12
_deg = {}
primed = ""  # the call made before the last one


def _accepts_deg(f):
    try:
        if f not in _deg:
            _deg[f] = "deg" in inspect.signature(f).parameters
        return _deg[f]
    except (TypeError, ValueError):
        return False


def _other(x):
    """another value of the same kind, or None"""
    p = _prime
    if isinstance(x, Ellipsoid):
        a = x.semimajor_axis
        return Ellipsoid(a * p.choice([1.0, 1.0, 2.0]), a * p.choice([0.91, 0.97]), name=x.name, model=x.model)
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return None
    if isinstance(x, _dtm.datetime):
        try:
            if p.random() < 0.4:  # what the clock shows, elsewhere
                return x.replace(tzinfo=p.choice([None, _dtm.timezone.utc, _dtm.timezone(_dtm.timedelta(hours=-9))]))
            if p.random() < 0.2:
                return x.replace(microsecond=p.choice([0, 999999]))
            return x + _dtm.timedelta(seconds=p.choice([1, 3600, 86400, -86400 * 365]))
        except OverflowError:
            return None
    if isinstance(x, int):
        return x + 1 if abs(x) < 2 ** 53 else None
    if isinstance(x, float) or HAVE_NP and isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return p.choice([lambda: -x, lambda: x * 0.5, lambda: x * 0.5 + 0.1])()
    return None


def _related(f, a, k):
    """a call that differs in one thing: what it leaves behind must not matter to f(*a, **k)"""
    p = _prime
    a, k = list(a), dict(k)
    if p.random() < 0.4 and _accepts_deg(f):
        k["deg"] = not k.get("deg", True)
        if any(x is True or x is False for x in a):
            return None
        return a, k
    if p.random() < 0.3 and "ell" in k:
        k["ell"] = _other(k["ell"]) or Ellipsoid.from_name("mars")
        return a, k
    for _ in range(3):
        j = p.randrange(len(a)) if a else 0
        y = _other(a[j]) if a else None
        if y is not None:
            a[j] = y
            return a, k
    return None


def call(f, *a, limit=20, **k):
    """f(*a, **k), or Failed when it raises or does not return in time; sometimes a related call is made before"""
    global primed
    primed = ""
    if PRIME and _prime.random() < PRIME:
        try:
            rel = _related(f, a, k)
        except Exception:  # noqa: BLE001
            rel = None
        if rel:
            _call(f, rel[0], rel[1], min(limit, 3))
            primed = f"  # after a call with {show('', *rel)}"
    return _call(f, a, k, limit)


def _call(f, a, k, limit):
    signal.alarm(limit)
    try:
        return f(*a, **k)
    except Timeout:
        return Failed("Timeout", f"no result in {limit} s")
    except Exception as e:  # noqa: BLE001
        return Failed(type(e).__name__, str(e)[:120])
    finally:
        signal.alarm(0)


def words(res, n):
    """n result numbers as JSON words, EXC when the call failed or has another shape"""
    if isinstance(res, Failed):
        return ["EXC"] * n
    if n == 1 and not isinstance(res, (tuple, list)):
        res = (res,)
    try:
        out = [num(x) for x in res]
    except Exception:  # noqa: BLE001
        return ["EXC"] * n
    return out if len(out) == n else ["EXC"] * n


def num(x):
    """a scalar result as a float word (size-one arrays are not scalars)"""
    if isinstance(x, bool):
        return 1.0 if x else 0.0
    if isinstance(x, complex):
        return "EXC"
    if HAVE_NP and isinstance(x, np.ndarray) and x.ndim > 0:
        return "EXC"
    return float(x)


class Out:
    def __init__(self, path):
        self.path = path
        self.ev = []

    def add(self, op, w, call="", **kw):
        if primed:
            call += primed[:1500]
        self.ev.append(dict(op=op, w=w, call=call, **kw))

    def close(self):
        with open(self.path, "w") as f:
            for e in self.ev:
                f.write(json.dumps(e) + "\n")


def show(fname, args, kw=None):
    def r(x):
        if isinstance(x, Ellipsoid):
            return f"Ellipsoid({x.semimajor_axis!r}, {x.semiminor_axis!r}" + (f", {x.name!r}, {x.model!r})" if x.name or x.model else ")")
        if HAVE_NP and isinstance(x, np.generic):
            return repr(x.item())
        if HAVE_NP and isinstance(x, np.ndarray) and x.size > 30:
            return f"<array {x.shape} {x.dtype.str} {x.reshape(-1)[:24].tolist()}...>"
        return repr(x)

    a = [r(x) for x in args] + [f"{k}={r(v)}" for k, v in (kw or {}).items()]
    return f"{fname}({', '.join(a)})"


# ------------------------------------------------------------------ inputs
ALL_MODELS = list(Ellipsoid.models)


def ellipsoids():
    """every registered model, and custom ones up to flattening 1/10"""
    out = [Ellipsoid.from_name(m) for m in ALL_MODELS]
    out += [
        Ellipsoid(6.4e6, 6.4e6, name="ball"),
        Ellipsoid(1.0, 0.95, name="unit"),
        Ellipsoid(1e7, 9e6, name="flat"),
    ]
    return out


def is_wgs(ell):
    return (ell.semimajor_axis, ell.semiminor_axis) == (6378137.0, 6356752.31424518)


class Gen:
    def __init__(self, tag):
        self.r = random.Random(f"{SEED}/{tag}/{'np' if HAVE_NP else 'std'}")
        self.ells = ellipsoids()
        self.k = 0
        self.whole = False  # whole numbers, passed as integers

    def begin(self, p=0.07):
        """before every event: some use integers only"""
        self.whole = self.r.random() < p

    def w(self, x):
        """x, or the integer next to it"""
        return int(round(x)) if self.whole and math.isfinite(x) else x

    def named(self, a, b):
        """an ellipsoid of these axes, sometimes under the name of another"""
        k = self.r.random()
        if k < 0.5:
            return Ellipsoid(a, b)
        m = self.r.choice(["wgs84", "wgs84", "grs80", "mars", "custom", "sphere"])
        n = Ellipsoid.models.get(m, dict(name=m))["name"]
        return Ellipsoid(a, b, name=n if k < 0.85 else "", model=m if k > 0.7 else "")

    def ell(self):
        """WGS84 a third of the time, otherwise every model in turn"""
        self.k += 1
        if self.k % 3 == 0:
            return self.ells[0] if self.ells[0].model == "wgs84" else Ellipsoid.from_name("wgs84")
        return self.ells[self.k % len(self.ells)]

    def pick(self, *xs):
        return self.r.choice(xs)

    def logu(self, lo, hi):
        return math.exp(self.r.uniform(math.log(lo), math.log(hi)))

    def small(self):
        return self.r.choice([-1, 1]) * self.logu(1e-13, 1.0)

    def lat(self, *a, **k):
        return self.w(self._lat(*a, **k))

    def _lat(self, poles=True, lim=90.0):
        c = self.r.random()
        if c < 0.55:
            return self.r.uniform(-lim, lim)
        if c < 0.65:
            return math.degrees(math.asin(self.r.uniform(-1, 1))) if lim == 90 else self.r.uniform(-lim, lim)
        if c < 0.75:
            return self.r.choice([0.0, -0.0, 45.0, -45.0, 30.0, -60.0, float(int(self.r.uniform(-lim, lim)))])
        if c < 0.85:
            return self.small()
        if not poles:
            return self.r.uniform(-lim, lim)
        if c < 0.93:
            return self.r.choice([-1, 1]) * (90.0 - self.logu(1e-13, 1.0))
        return self.r.choice([90.0, -90.0])

    def lon(self, *a, **k):
        return self.w(self._lon(*a, **k))

    def _lon(self):
        """also beyond a half turn: 0 to 360 east, and a turn too many"""
        c = self.r.random()
        if c < 0.08:
            return self._lon() + self.r.choice([360.0, -360.0])
        c = self.r.random()
        if c < 0.7:
            return self.r.uniform(-180, 180)
        if c < 0.8:
            return self.r.choice([0.0, -0.0, 90.0, -90.0, 180.0, -180.0, 45.0, -135.0])
        if c < 0.9:
            return self.r.choice([-1, 1]) * (180.0 - self.logu(1e-13, 1.0))
        if c < 0.95:
            return self.r.choice([90.0, -90.0, 0.0]) + self.small()
        return self.r.uniform(-180, 180)

    def az(self, *a, **k):
        return self.w(self._az(*a, **k))

    def _az(self):
        """also counted from -180, and a turn too many"""
        c = self.r.random()
        if c < 0.08:
            return self._az() + self.r.choice([360.0, -360.0])
        c = self.r.random()
        if c < 0.7:
            return self.r.uniform(0, 360)
        if c < 0.85:
            return self.r.choice([0.0, 90.0, 180.0, 270.0, 45.0, 135.0, 225.0, 315.0])
        return (self.r.choice([0.0, 90.0, 180.0, 270.0]) + self.small()) % 360

    def el(self, *a, **k):
        return self.w(self._el(*a, **k))

    def _el(self):
        c = self.r.random()
        if c < 0.75:
            return self.r.uniform(-90, 90)
        if c < 0.9:
            return self.r.choice([0.0, 90.0, -90.0])
        return self.r.choice([-1, 1]) * (90 - self.logu(1e-10, 1)) if self.r.random() < 0.5 else self.small()

    def height(self, *a, **k):
        return self.w(self._height(*a, **k))

    def _height(self, a=6378137.0, deep=0.45, far=900.0):
        """altitude: mostly near the surface, else down to the core or far away"""
        s = a / 6378137.0
        c = self.r.random()
        if c < 0.25:
            return self.r.choice([0.0, -0.0, 1.0, 100.0, 12345.0]) * s
        if c < 0.5:
            return self.r.uniform(-11e3, 9e3) * s
        if c < 0.65:
            return self.r.uniform(2e5, 4e7) * s
        if c < 0.75:
            return self.small() * s
        if c < 0.85:
            return -self.r.uniform(0, deep) * a
        return self.logu(1.0, far * a)

    def disp(self, *a, **k):
        return self.w(self._disp(*a, **k))

    def _disp(self, big=1e8):
        """one local Cartesian component"""
        c = self.r.random()
        if c < 0.15:
            return self.r.choice([0.0, -0.0, 1.0, -1.0, 1e3, -1e3])
        if c < 0.3:
            return self.r.choice([-1, 1]) * self.logu(1e-5, 1.0)
        return self.r.choice([-1, 1]) * self.logu(1.0, big)


def column(g, xs, shape=None):
    """an array of the numbers: of integers, when all of them are"""
    a = np.array(xs)
    if a.dtype.kind == "i" and a.size and abs(a).max() < 2 ** 31 and g.r.random() < 0.4:
        a = a.astype(np.int32)
    elif a.dtype.kind != "i":
        a = a.astype(float)
    return a if shape is None else a.reshape(shape)


_pool = {}


def embed(g, f, args, nres, key, kw=None, p=0.35):
    """f(*args, **kw) as nres words; sometimes as one element of a call on arrays,
    among the arguments of earlier calls with the same key, some of which stay scalars.
    Returns the words and the arguments used."""
    kw = kw or {}
    args = list(args)
    key = (key, len(args), g.whole)
    old = _pool.setdefault(key, [])
    try:
        if not HAVE_NP or g.r.random() > p:
            return words(call(f, *args, **kw), nres), args
        m = g.pick(1, 2, 2, 3, 4, 6)
        j = g.r.randrange(m)
        rows = [g.r.choice(old) if old and g.r.random() < 0.9 else args for _ in range(m)]
        rows[j] = args
        shape = g.pick((m,), (m,), (1, m), (m, 1), (2, m // 2) if m % 2 == 0 else (m,))
        vary = g.pick(1.0, 1.0, 0.7, 0.4)
        arr = [column(g, [r[k] for r in rows], shape) if g.r.random() < vary else args[k] for k in range(len(args))]
        if all(np.ndim(x) == 0 for x in arr):
            k = g.r.randrange(len(args))
            arr[k] = column(g, [r[k] for r in rows], shape)
        res = call(f, *arr, **kw)
        if isinstance(res, Failed):
            return ["EXC"] * nres, arr
        if nres == 1 and not isinstance(res, (tuple, list)):
            res = (res,)
        try:
            if len(res) != nres or any(np.shape(x) not in (shape, ()) for x in res):
                return ["EXC"] * nres, arr
            return [float(np.broadcast_to(x, shape).reshape(-1)[j]) for x in res], arr
        except Exception:  # noqa: BLE001
            return ["EXC"] * nres, arr
    finally:
        old.append(args)
        del old[:-40]


def to_unit(deg, x):
    return x if deg else math.radians(x)


# ------------------------------------------------------------------ times
import datetime as dt  # noqa: E402

_STEPS = [(1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7),
          (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1),
          (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]


def gen_time(g, lo=1950, hi=2060, zones=True, edges=True):
    """a datetime: naive (UTC) or aware, often at a day, month, year or leap-second edge"""
    r = g.r
    c = r.random()
    if edges and c < 0.25:
        y, m = r.choice([s for s in _STEPS if lo <= s[0] < hi])
        t = dt.datetime(y, m, 1)
    elif edges and c < 0.45:
        y = r.randrange(lo + 1, hi)
        t = dt.datetime(y, *r.choice([(1, 1), (3, 1), (2, 28), (12, 31), (7, 1), (10, 1), (11, 30)]))
    else:
        t = dt.datetime(r.randrange(lo + 1, hi), 1, 1) + dt.timedelta(days=r.randrange(365))
    c = r.random()
    if c < 0.2:
        t += dt.timedelta(microseconds=r.choice([0, 0, 1, -1, 10 ** 6, -10 ** 6, 36 * 10 ** 8, -36 * 10 ** 8, 432 * 10 ** 8]))
    elif c < 0.4:
        t += dt.timedelta(seconds=r.randrange(86400))
    else:
        t += dt.timedelta(microseconds=r.randrange(86400 * 10 ** 6))
    if zones and r.random() < 0.4:
        off = r.choice([0, 60, -60, 330, 345, -210, 765, -720, 840, r.randrange(-1439, 1440)])
        t = t.replace(tzinfo=dt.timezone(dt.timedelta(minutes=off)))
    return t


def time_words(t):
    if not isinstance(t, dt.datetime):
        return ["EXC"] * 8
    o = t.utcoffset()
    return [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond,
            None if o is None else round(o.total_seconds() * 1e6)]
