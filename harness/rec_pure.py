"""Replays sequences of calls on shared buffers (pure_calls.qnt) in the library (c_pure.qnt).

usage: rec_pure.py <traces.json> <salt> <out>"""

import copy
import hashlib
import logging
import struct
import sys
from catalog import *  # noqa: F403

traces, salt, path = json.load(open(sys.argv[1])), sys.argv[2], sys.argv[3]
g = Gen(f"pure/{salt}")
r = g.r
out = Out(path)
M53 = 1 << 52


def feed(h, x):
    if HAVE_NP and isinstance(x, (np.ndarray, np.generic)) and x.dtype != object:
        x = np.asarray(x)
        h.update(f"a{x.dtype}{x.shape}".encode())
        h.update(x.tobytes())
    elif isinstance(x, float):
        h.update(b"f" + struct.pack("d", x))
    elif isinstance(x, Failed):
        h.update(b"E" + x.name.encode())
    elif isinstance(x, Ellipsoid):
        h.update(repr(sorted(vars(x).items())).encode())
    elif isinstance(x, (tuple, list)):
        h.update(f"t{len(x)}".encode())
        for y in x:
            feed(h, y)
    else:
        try:
            h.update(repr(np.asarray(x).tolist() if HAVE_NP and hasattr(x, "__array__") else x).encode())
        except Exception as e:
            h.update(repr(e).encode())


def fp(x):
    h = hashlib.sha1()
    feed(h, x)
    return int.from_bytes(h.digest()[:8], "big") % M53


def world():
    """global state that calls must leave alone"""
    s = [sorted((k, sorted(v.items())) for k, v in Ellipsoid.models.items()), random.getstate(), logging.getLogger().level,
         os.getcwd(), sorted(os.environ.items()), [k for k, v in vars(math).items()]]
    if HAVE_NP:
        st = np.random.get_state()
        s += [sorted(np.geterr().items()), sorted((k, str(v)) for k, v in np.get_printoptions().items()), st[1].tobytes(), st[2:]]
    return int.from_bytes(hashlib.sha1(repr(s).encode()).digest()[:8], "big") % M53


NB = 8  # buffers of a kind
SIZE = 4


def twin(x, memo):
    """the same contents and memory layout in memory of its own, writable"""
    if HAVE_NP and isinstance(x, np.ndarray):
        n = x.size
        if not n or x.ndim == 0:
            return x.copy()
        step = abs(x.strides[0]) // 8 or 1
        base = np.zeros(step * (n - 1) + 1 + 16)
        off = (x.__array_interface__["data"][0] - (0 if x.strides[0] > 0 else (n - 1) * step * 8)) % 64
        sh = ((off - base.__array_interface__["data"][0]) % 64) // 8
        v = base[sh:sh + step * (n - 1) + 1:step]
        if x.strides[0] < 0:
            v = v[::-1]
        v[...] = x
        return v
    if isinstance(x, (list, Ellipsoid)):
        return copy.deepcopy(x)
    return x


def buffers(kind, value):
    """eight buffers of one kind: 0, 3 and 5 overlap, 2 is read-only, 4 strided, 6 and 7 numbers"""
    if not HAVE_NP:
        return [float(value()) for _ in range(NB)]
    base = np.array([value() for _ in range(SIZE + 3)], dtype=float)
    b1 = np.array([value() for _ in range(SIZE)], dtype=float)
    b2 = np.array([value() for _ in range(SIZE)], dtype=float)
    b2.flags.writeable = False
    b4 = np.array([value() for _ in range(2 * SIZE)], dtype=float)[::2]
    return [base[:SIZE], b1, b2, base[1:SIZE + 1], b4, base[SIZE - 1::-1], float(value()), np.float64(value())]


def kinds(deg, a):
    q = (lambda x: x) if deg else math.radians
    H = lambda: r.choice([0.0, g.logu(1, 1e5), r.uniform(0, 1e4), g.logu(1e-3, 1e6)]) * a / 6378137  # noqa: E731
    val = dict(
        ang=lambda: q(r.choice([0.0, 90.0, -90.0, 45.0, r.uniform(-90, 90), r.uniform(-90, 90), r.uniform(-90, 90)])),
        len=H, pos=lambda: r.choice([-1, 1]) * r.uniform(0.6, 1.1) * a, rad=lambda: r.uniform(1.0, 1.2) * a,
        num=lambda: r.uniform(-1, 1), jd=lambda: r.uniform(2430000, 2470000), frac=lambda: r.random())
    return {k: buffers(k, v) for k, v in val.items()}


KIND = dict(lat="ang", lon="ang", az="ang", el="ang", ang="ang", pitch="ang", tilt="ang", iso="ang", h="len", h0="len", P3="pos",
            D3="len", V3="len", rng="len", srng="len", R="rad", N3="num", frac="frac", x="pos", rho="len", theta="num", jd="jd", rad="num")


def raw(path_):
    m, _, n = path_.rpartition(".")
    try:
        return getattr(importlib.import_module("pymap3d" + ("." + m if m else "")), n)
    except (ImportError, AttributeError):
        return None


class Raw(Entry):
    """called with whole lists or arrays"""

    def fn(self):
        return raw(self.path)


EXTRA = [Raw("karney.geodesic_area", "LIST LIST", "area len", flags="raw"),
         Raw("datetime2sidereal", "TIMES rad", "num", ell=False, deg=False, flags="raw one"),
         Raw("timeconv.str2dt", "TIMES", "num", ell=False, deg=False, flags="raw"),
         Raw("timeconv.str2dt", "STRS", "num", ell=False, deg=False, flags="raw")]
if HAVE_NP:
    EXTRA += [Raw("lox.meanm", "ARR ARR", "ll", flags="raw"), Raw("vincenty.track2", "lat lon lat lon", "ll", flags="raw scalar")]
# functions called once and again: those that touch their arguments are the interesting ones
FUNS = [x for x in CATALOG if not x.wrap] + EXTRA * 6


def scalar_only(x):
    return x.flags & {"scalar", "matrix", "one"} or not HAVE_NP


class Client:
    def __init__(self, run):
        self.run = run
        self.deg = r.random() < 0.6
        self.ells = [Ellipsoid.from_name("wgs84"), g.ell(), Ellipsoid(6.4e6, 6.3e6)]
        self.bufs = kinds(self.deg, 6378137.0)
        tl = [gen_time(g, 1975, 2023) for _ in range(3)]
        self.lists = dict(
            LIST=[[r.uniform(-1, 1) for _ in range(k)] for k in r.choice([(4, 4, 4), (3, 3, 3), (3, 4, 4), (5, 3, 3), (2, 3, 3)])],
            TIMES=[tl, tl[:2], [tl[0]]], STRS=[[t.isoformat() for t in tl], ["2020-01-01T00:00:00"], [t.isoformat() for t in tl[:2]]])
        if HAVE_NP:
            if r.random() < 0.5:
                self.lists["LIST"][2] = np.array(self.lists["LIST"][2])
            self.lists["ARR"] = [self.bufs["ang"][0], self.bufs["ang"][2], self.bufs["ang"][3]]
        if r.random() < 0.3:  # which makes calls fail
            L = self.lists["LIST"][0]
            L[r.randrange(len(L))] = "north"
        self.first = copy.deepcopy(self.bufs)
        # one fingerprint for the buffers of a kind
        self.slots = list(self.bufs.values()) + list(self.lists.values()) + [self.ells]
        self.kept = []
        self.time = gen_time(g, 1975, 2023)
        self.opts = {}
        out.add("start", self.heap(), "start", run=run)

    def heap(self):
        return [world()] + [fp(b) for b in self.slots] + [fp(x) for x in self.kept]

    def choose(self, kind, j):
        v = self.bufs[kind]
        return v[j % NB]

    def call(self, f, x, y, txt):
        entry = FUNS[f % len(FUNS)]
        fn = entry.fn()
        args, ids = [], []
        toks = flat_tokens(entry)
        for i, t in enumerate(toks):
            if t in self.lists:
                v = self.lists[t]
                j = (x + i * (1 + y % 2)) % len(v)
                a = v[j]
                if i and t in ("LIST", "ARR") and len(a) != len(args[0]):
                    a = v[x % len(v)]
                args.append(a)
            else:
                j = (x + i * y) % NB
                if scalar_only(entry):
                    j = 6 + j % 2
                args.append(self.choose(KIND[t], j))
            ids.append(j)
        key = (entry.path, x, y)
        if key not in self.opts:
            kw = {k: g.pick(*vs) for k, vs in entry.opts.items() if r.random() < 0.7}
            if entry.ell and r.random() < 0.7:
                kw["ell"] = r.choice(self.ells)
            if entry.deg and not self.deg:
                kw["deg"] = False
            self.opts[key] = kw
        kw = self.opts[key]
        tail = [self.time] if entry.tail else []
        mine = [twin(a, None) for a in args]
        kmine = {k: twin(v, None) for k, v in kw.items()}
        before = [fp(a) for a in args]
        # the client's call, and the same one in memory of its own, in either order
        if (x + y) % 2:
            alone = fp(call(fn, *mine, *tail, **kmine))
        res = call(fn, *args, *tail, **kw)
        ans = fp(res)
        if not (x + y) % 2:
            alone = fp(call(fn, *mine, *tail, **kmine))
        parts = list(res) if isinstance(res, (tuple, list)) else [res]
        parts = [p for p in parts if HAVE_NP and isinstance(p, np.ndarray) and p.ndim]
        if parts and not any(np.shares_memory(p, b) for p in parts for b in args if isinstance(b, np.ndarray)):
            self.kept.append(parts)
        w = [f % len(FUNS), fp(repr(sorted((k, repr(v)) for k, v in kw.items()))), *ids, *before]
        out.add("call", [len(w), *w, ans, alone, *self.heap()],
                txt + show(entry.mod + "." + entry.name, [*args, *tail], kw) + (f" raised {res}" if isinstance(res, Failed) else ""), run=self.run)

    def write(self, x, v, restore):
        """into buffer x of every kind (the numbers are replaced)"""
        for k, bs in self.bufs.items():
            b = bs[x % NB]
            src = self.first[k]
            if HAVE_NP and isinstance(b, np.ndarray):
                if b.flags.writeable:
                    b[...] = src[x % NB] if restore else src[(x + v) % 6][::-1]
            else:
                bs[x % NB] = src[x % NB] if restore else src[6 + (x + v) % 2]
        out.add("write", self.heap(), f"buffers {x} {'restored' if restore else 'changed'}", run=self.run)


def flat_tokens(entry):
    o = []
    for t in entry.toks:
        o += [t] * (len(TOK[t][0]) if t in TOK else 1)
    return o


# modules that are loaded on first use belong to no call
for x in FUNS:
    c0 = Client(-1)
    if x.tail or "TIMES" in x.toks:
        c0.call(FUNS.index(x), 6, 0, "")
out.ev.clear()

for run, states in enumerate(traces):
    c = Client(run)
    for s in states[1:]:
        a = s["act"]
        if a["op"] in ("call", "again"):
            c.call(a["fn"], a["x"], a["y"], "again: " if a["op"] == "again" else "")
        elif a["op"] == "write":
            c.write(a["x"], a["y"], False)
        elif a["op"] == "restore":
            c.write(a["x"], 0, True)
out.close()
