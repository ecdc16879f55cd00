"""Types the lines of cli.qnt into the command line and makes the calls they mean.

usage: rec_cli.py <traces.json> <salt> <out>"""

import contextlib
import hashlib
import io
import subprocess
from datetime import datetime
from fractions import Fraction

from recutil import *  # noqa: F403
from cli_table import COMMANDS, MODELS

traces, salt, path = json.load(open(sys.argv[1])), sys.argv[2], sys.argv[3]
g = Gen(f"cli/{salt}")
r = g.r
out = Out(path)

POS, UNKNOWN_CMD = 1000, 990
GLOBAL = {2000: "--ellipsoid", 2001: "--output", 2002: "--precision"}
FLAG = {2010: "--deg", 2011: "--no-deg", 2012: "--force-non-astropy", 2013: "--no-force-non-astropy"}
VALUED = {2014: "delta_ut1", 2015: "xp", 2016: "yp", 2017: "sequence", 2018: "frame", 2019: "alt", 2020: "radius"}
UNKNOWN, VAL, BADVAL = 2030, 3000, 3999
T_DEG, T_FNA = 2010, 2012

try:
    import pymap3d.__main__ as cli

    MAIN = cli.main
except (ImportError, AttributeError):
    MAIN = None


def run_in_process(argv):
    so, se = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["pymap3d", *argv]
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            rc = 0
            try:
                if MAIN:
                    MAIN()
                else:
                    import runpy

                    runpy.run_module("pymap3d", run_name="__main__", alter_sys=False)
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception:  # noqa: BLE001
                rc = 1
    finally:
        sys.argv = old
    return rc, so.getvalue()


def run_process(argv):
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "pymap3d", *argv], capture_output=True, text=True, timeout=60,
                       env=dict(os.environ, PYTHONPATH="/repo/src"), cwd="/tmp")
    return p.returncode, p.stdout


TIMES = ["2013-04-14T02:28:05", "2000-01-01", "1999-12-31 23:59:59.999999", "2020-02-29T12:00", "1985-06-30T00:00:00.5",
         "2016-12-31T23:59:59", "2009-07-04 06:30:15"]


def number(name, deg):
    """a value for an argument of this name"""
    n = name.lower()
    turn = 1.0 if deg else math.pi / 180
    if n in ("lat", "lat0", "lat_deg", "dec_deg") or n.endswith("_lat"):
        v = 95.5 if r.random() < 0.02 else g.lat()
        return v * (1.0 if n.endswith("_deg") else turn)
    if n in ("az", "heading", "yaw", "ra_deg", "az_deg"):
        return g.az() * (1.0 if n.endswith("_deg") else turn)
    if n in ("el", "elev", "pitch", "roll", "el_deg"):
        return r.uniform(-89, 89) * (1.0 if n.endswith("_deg") else turn)
    if n in ("lon", "lon0", "lon_deg", "lon_radians"):
        return g.lon() * (1.0 if n.endswith("_deg") else turn)
    if n in ("h", "h0", "alt", "alt0", "alt_m", "above"):
        return g.pick(0.0, r.uniform(0, 9000), g.logu(1, 1e7), 100.0)
    if n in ("srange", "slantrange", "geocentric_distance", "radius"):
        return -5.0 if r.random() < 0.02 else g.logu(1, 1e8)
    if n in ("x", "y", "z"):
        return r.uniform(-1, 1) * 8e6
    if n.startswith("n") and ("_" in n or n[1:].isdigit()):
        return r.uniform(-1, 1)
    if n == "fraction":
        return r.random()
    if n.startswith("v"):
        return r.uniform(-8000, 8000)
    return g.pick(r.uniform(-1, 1) * 1e5, float(r.randrange(-1000, 1000)), g.small())


def spell(v):
    """a decimal text of the number, and the number it is"""
    if v != v:
        return "nan"
    t = repr(v)
    c = r.random()
    if c < 0.1:
        t = f"{v:.3f}"
    if "e" in t and v < 0:
        t = f"{v:.10f}"
    if c > 0.95 and not t.startswith("-"):
        t = "+" + t
    elif c > 0.9:
        t = f" {t} "
    elif c > 0.85 and t.endswith(".0"):
        t = t[:-2]
    return t


def argument(name, deg):
    """text typed for a positional argument and the value it means"""
    if name in ("t", "time"):
        t = r.choice(TIMES)
        return t, datetime.fromisoformat(t)
    if name in ("n1s", "n2s", "n3s"):
        vs = [r.uniform(0.1, 1), r.uniform(-1, 1), r.uniform(-1, 1)]
        return ",".join(map(repr, vs)), vs
    t = spell(number(name, deg) if r.random() > 0.005 else math.nan)
    return t, float(t)


def option(tok, k):
    n = VALUED[tok]
    if n == "sequence":
        t = ["zyx", "zyx", "zyx", "xyz"][k % 4]
        return t, t
    if n == "frame":
        t = ["ned", "enu", "nwu", "sez"][k % 4]
        return t, t
    t = {"delta_ut1": f"{(k % 19 - 9) * 0.1:.2f}", "xp": f"{(k % 13 - 6) * 1e-6:.8f}", "yp": f"{(k % 11 - 5) * 1e-6:.8f}",
         "alt": f"{k * 37.5}", "radius": f"{6.3e6 + 1000.25 * k}"}[n]
    return t, float(t)


def plain(v):
    if isinstance(v, (tuple, list)):
        return [plain(x) for x in v]
    return v.tolist() if hasattr(v, "tolist") else v


def shape(v):
    return "[" + ",".join(shape(x) for x in v) + "]" if isinstance(v, list) else "x"


def leaves(v):
    return [y for x in v for y in leaves(x)] if isinstance(v, list) else [v]


def code(s):
    return int.from_bytes(hashlib.sha1(s.encode()).digest()[:6], "big")


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def frac(t):
    try:
        f = float(t)
    except ValueError:
        return "NONE"
    if f != f or f in (math.inf, -math.inf):
        return f
    q = Fraction(t.strip())
    return [str(q.numerator), str(q.denominator)]


def decimals(t):
    return len(t.partition(".")[2]) if "." in t and "e" not in t else 0


def render(toks, want):
    """argv, positional values, option values (as meant)"""
    argv, pos, opts = [], [], {}
    k = want["cmd"]
    names = COMMANDS[k][1].split() if k >= 0 else []
    deg = want["opts"].get(T_DEG, 1) == 1
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == POS:
            name = names[len(pos)] if len(pos) < len(names) else "x"
            s, v = argument(name, deg)
            pos.append(v)
            argv.append(s)
        elif t in FLAG:
            argv.append(FLAG[t])
        elif t in GLOBAL or t in VALUED:
            name = GLOBAL.get(t) or "--" + VALUED[t].replace("_", "-")
            if i + 1 < len(toks) and toks[i + 1] >= VAL:
                x = toks[i + 1]
                i += 1
                if x == BADVAL:
                    s = {2000: r.choice(["nosuch", "wgs", "wgs841", ""]), 2001: r.choice(["xml", "", "jso"]), 2002: r.choice(["x", "1.5", ""])}[t]
                elif t == 2000:
                    s = MODELS[x - VAL]
                elif t == 2001:
                    s = ["text", "json"][x - VAL]
                elif t == 2002:
                    s = str(x - VAL)
                else:
                    s, opts[VALUED[t]] = option(t, x - VAL)
                argv += [f"{name}={s}"] if r.random() < 0.3 else [name, s]
            else:
                argv.append(name)
        elif t == UNKNOWN:
            argv.append("--bogus")
        elif t == UNKNOWN_CMD:
            argv.append(r.choice(["nosuch", "Ellipsoid", "geodetic2", "wgs84", "", "GEODETIC2ECEF"]))
        else:
            argv.append(COMMANDS[t][0])
        i += 1
    return argv, pos, opts


def line(toks, want, run, sub):
    argv, pos, kw = render(toks, want)
    rc, text = (run_process if sub else run_in_process)(argv)
    lines = [x for x in text.split("\n") if x]
    res, raised = None, True
    usage = want["usage"]
    if not usage:
        name = COMMANDS[want["cmd"]][0]
        if T_DEG in want["opts"]:
            kw["deg"] = want["opts"][T_DEG] == 1
        if T_FNA in want["opts"]:
            kw["force_non_astropy"] = want["opts"][T_FNA] == 1
        f = getattr(pm, name)
        if takes_ell(want["cmd"]):
            kw["ell"] = Ellipsoid.from_name(MODELS[want["ell"]])
        res = call(f, *pos, **kw)
        raised = isinstance(res, Failed)
    w = [len(toks), *toks, rc, len(lines), raised]
    if usage or raised or rc or len(lines) != 1:
        w += [0, 0, 0, 0]
    else:
        lib = plain(res)
        want_l = leaves(lib)
        got = None
        if want["out"] == 1:
            try:
                got = json.loads(lines[0])
            except ValueError:
                pass
            gl = leaves(got)
            w += [code(shape(lib)), code(shape(got)), len(gl), len(want_l)]
            for a, b in zip(want_l, gl):
                if isnum(a):
                    w += [0, float(a), float(b) if isnum(b) else "NONE", 0]
                else:
                    w += [2, code(a.isoformat() if isinstance(a, datetime) else repr(a)), code(b if isinstance(b, str) else repr(b)), 0]
        elif all(isnum(x) for x in want_l):
            gl = lines[0].translate(str.maketrans("()[],", "     ")).split()
            w += [0, 0, len(gl), len(want_l)]
            for a, b in zip(want_l, gl):
                w += [0 if isinstance(a, float) else 1, float(a), frac(b) if want["prec"] >= 0 else as_float(b), decimals(b)]
        else:
            w += [0, 0, 1, 1, 2, code(str(res)), code(lines[0]), 0]
    out.add("line", w, "pymap3d " + " ".join(repr(a) if " " in a or not a else a for a in argv) + f"  [exit {rc}: {text.strip()[:150]}]  library: {str(res)[:150]}", run=run)


def as_float(t):
    try:
        return float(t)
    except ValueError:
        return "NONE"


def takes_ell(k):
    return (OPTIONS[k] // 2) % 2 == 1


import re  # noqa: E402

OPTIONS = [int(x) for x in re.findall(r"options: (\d+) }", open(os.path.join(os.path.dirname(__file__), "..", "spec", "cli_table.qnt")).read())]

rc, text = run_in_process(["--help"])
m = re.findall(r"\{([a-z0-9_,\s]+)\}", text)
names = set(re.sub(r"\s", "", max(m, key=len)).split(",")) if m else set()
out.add("commands", [len(names), *[c in names for c, _ in COMMANDS]], "pymap3d --help", run=-1)

n = 0
for run, states in enumerate(traces):
    for s in states:
        if s["done"]:
            n += 1
            w = s["want"]
            w["usage"] = s["slip"] or w["cmd"] < 0 or w["npos"] != len(COMMANDS[w["cmd"]][1].split())
            w["opts"] = {int(k): v for k, v in w["opts"].items()}
            line(s["toks"], w, run, n % 60 == 0)
out.close()
