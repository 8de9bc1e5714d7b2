"""Recording calls of DeadReckoning and RangeCoordinates for GeoTrace.tla."""
import json, math, os, shutil, tempfile
from fractions import Fraction

import numpy as np

import tlc
import bind
from core import part, suite
import opendis.DeadReckoning as dr
import opendis.RangeCoordinates as rc

assert os.path.dirname(os.path.abspath(dr.__file__)) == os.path.join(bind.REPO, "opendis"), dr.__file__
assert os.path.dirname(os.path.abspath(rc.__file__)) == os.path.join(bind.REPO, "opendis"), rc.__file__

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
HALF, FULL = 5000, 10000
A, B = 6378137.0, 6356752.3142
E2 = 1 - (B / A) ** 2


class Odd(Exception):
    """The code gave something that is no number, or one no input in range can give."""


def limbs(x):
    """A number of Fix.tla: exact to half of 10^-20."""
    x = float(x)
    if x != x or abs(x) > 4e19:
        raise Odd("gave %r" % x)
    n = round(Fraction(x) * 10 ** 20)
    out = []
    for _ in range(10):
        d = (n + HALF) % FULL - HALF
        out.append(d)
        n = (n - d) // FULL
    return out


def vec(v, k=None):
    v = list(v)
    if k is not None and len(v) != k:
        raise Odd("gave %d numbers instead of %d" % (len(v), k))
    return [limbs(x) for x in v]


def flat(m):
    m = np.asarray(m)
    if m.shape != (3, 3):
        raise Odd("gave shape %r" % (m.shape,))
    return vec(m.reshape(9))


# -- containers ---------------------------------------------------------------------
KINDS = ["list", "tuple", "array", "strided", "readonly", "ints", "intarray", "kept list", "kept array"]


class Kept:
    """Arrays a program keeps and changes in place between calls; the n-th argument is always the same object."""

    def __init__(self):
        self.things, self.next, self.turn = [], 0, 1

    def get(self, kind, v):
        v = [self.turn * x for x in v]
        k, self.next = self.next, self.next + 1
        if k == len(self.things):
            self.things.append(list(v) if kind == "kept list" else np.array(v))
        else:
            self.things[k][:] = v
        return self.things[k]


kept = Kept()


def contain(kind, v):
    v = [float(x) for x in v]
    if kind.startswith("kept"):
        return kept.get(kind, v)
    if kind in ("ints", "intarray") and not all(x.is_integer() for x in v):
        kind = "list"
    if kind == "list":
        return list(v)
    if kind == "tuple":
        return tuple(v)
    if kind == "ints":
        return [int(x) for x in v]
    if kind == "intarray":
        return np.array([int(x) for x in v])
    if kind == "strided":
        big = np.full(2 * len(v), 99.0)
        big[::2] = v
        return big[::2]
    if kind == "single":
        return np.array(v, dtype=np.float32)
    a = np.array(v)
    if kind == "readonly":
        a.flags.writeable = False
    return a


def guise(x, kind=None):
    """The same number in another of the types programs have it in."""
    x = float(x)
    k = {"ints": 0, "intarray": 1, "array": 2}.get(kind, 3) if kind else int(abs(x) * 7919) % 5
    if k < 2 and x.is_integer() and abs(x) < 1e15 and (x or math.copysign(1, x) > 0):
        return int(x) if k == 0 else np.int64(x)
    return np.float64(x) if k == 2 else x


def frozen(x):
    return (type(x).__name__, [repr(e) for e in x])


def touches(a, b):
    return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)


# -- one record per kind of call: raw arguments -> event ---------------------------------
REC = {}


def rec(f):
    REC[f.__name__] = f
    return f


USES = {"static": "PO", "fpw": "PVdO", "rpw": "PVdOW", "rvw": "PVAdOW", "fvw": "PVAdO", "fpb": "PVdO", "rpb": "PVdOW",
        "rvb": "PVAdOW", "fvb": "PVAdO"}


@rec
def reckon(alg, kind, P, V, A, O, W, dt):
    given = {n: contain(kind, x) for n, x in zip("PVAOW", (P, V, A, O, W))}
    before = {n: frozen(x) for n, x in given.items()}
    got = getattr(dr, "drm_" + alg)(*[guise(dt, kind) if n == "d" else given[n] for n in USES[alg]])
    if not (isinstance(got, tuple) and len(got) == 2 and all(np.shape(x) == (3,) for x in got)):
        raise Odd("gave %r" % (got,))
    p2, o2 = got
    ev = {"alg": alg, "P2": vec(p2, 3), "O2": vec(o2, 3), "dt": limbs(dt)}
    ev.update({n: vec(x, 3) for n, x in zip("PVAOW", (P, V, A, O, W))})
    # the results belong to the caller: changing one changes neither the inputs nor the other
    shared = any(touches(r, x) for r in (p2, o2) for x in given.values()) or touches(p2, o2) or p2 is o2
    fresh = not shared
    try:
        for r in (p2, o2):
            r += 1234.5
    except Exception:
        fresh = False
    ev["kept"] = all(frozen(x) == before[n] for n, x in given.items())
    ev["fresh"] = bool(fresh)
    return ev


@rec
def matrix(O):
    return {"O": vec(O), "m": flat(dr.get_rotation_matrix(*O))}


@rec
def cross(kind, v):
    w = contain(kind, v)
    old = frozen(w)
    m = dr.get_angular_velocity_matrix(w)
    if frozen(w) != old:
        raise Odd("changed its input")
    return {"v": vec(v), "m": flat(m)}


gps = rc.GPS()


@rec
def ecef(kind, lla):
    return {"lla": vec(lla), "xyz": vec(gps.lla2ecef(contain(kind, lla)), 3)}


@rec
def lla(kind, xyz):
    return {"xyz": vec(xyz), "lla": vec(gps.ecef2lla(contain(kind, xyz)), 3)}


@rec
def centre(kind):
    """The centre of the earth has no geodetic position."""
    try:
        got = gps.ecef2lla(contain(kind, [0.0, 0.0, 0.0]))
    except Exception:
        return {"got": "refused"}
    return {"got": repr(got)}


@rec
def gcc(kind, lla, org, text):
    got = gps.lla2gcc(contain(kind, lla), text) if text != "absent" else gps.lla2gcc(contain(kind, lla))
    return {"lla": vec(lla), "org": vec(org), "xyz": vec(got, 3)}


@rec
def ned(kind, xyz, org, g):
    got = gps.ecef2ned(contain(kind, xyz), contain(kind, org))
    return {"xyz": vec(xyz), "org": vec(org), "g": vec(polar(org, g)), "ned": vec(got, 3),
            "back": vec(gps.ned2ecef(got, contain(kind, org)), 3)}


@rec
def unned(kind, v, org, g):
    got = gps.ned2ecef(contain(kind, v), contain(kind, org))
    return {"ned": vec(v), "org": vec(org), "g": vec(polar(org, g)), "xyz": vec(got, 3),
            "back": vec(gps.ecef2ned(got, contain(kind, org)), 3)}


def polar(org, g):
    """At a pole any longitude will do: the one the code reports."""
    return [g[0], gps.ecef2lla(org)[1], g[2]] if org[0] == 0 and org[1] == 0 else g


@rec
def pae(kind, v, xyz, org, g):
    if org:
        return {"ned": vec([a - b for a, b in zip(xyz, org)]), "xyz": vec(xyz), "org": vec(org), "g": vec(polar(org, g)),
                "pae": vec(gps.ecef2pae(contain(kind, xyz), contain(kind, org)), 3)}
    return {"ned": vec(v), "org": [], "pae": vec(gps.ned2pae(contain(kind, v)), 3)}


@rec
def distance(kind, u, ref):
    got = rc.euclideanDistance(contain(kind, u), contain(kind, ref)) if ref else rc.euclideanDistance(contain(kind, u))
    return {"u": vec(u), "ref": vec(ref), "r": limbs(got)}


@rec
def degrees(u):
    v = guise(u)
    return {"u": limbs(u), "rad": limbs(rc.deg2rad(v)), "deg": limbs(rc.rad2deg(v)),
            "deg2": limbs(rc.rad2deg(rc.deg2rad(v))), "rad2": limbs(rc.deg2rad(rc.rad2deg(v)))}


@rec
def to_ecef(g, rpy):
    x = gps.llarpy2ecef(*map(guise, g), *map(guise, rpy))
    return {"e": "attitude", "lla": vec(g), "rpy": vec(rpy), "xyz": vec(x[:3], 3), "ptp": vec(x[3:], 3)}


@rec
def from_ecef(xyz, ptp):
    x = gps.ecef2llarpy(*map(guise, xyz), *map(guise, ptp))
    return {"e": "attitude", "xyz": vec(xyz), "ptp": vec(ptp), "lla": vec(x[:3], 3), "rpy": vec(x[3:], 3)}


@rec
def there_and_back(g, rpy):
    """The attitude after conversion there and back: the same as the first."""
    x = gps.llarpy2ecef(*g, *rpy)
    y = gps.ecef2llarpy(*x)
    return {"e": "attitude", "lla": vec(y[:3], 3), "rpy": vec(y[3:], 3), "xyz": vec(gps.llarpy2ecef(*g, *rpy)[:3], 3), "ptp": vec(x[3:], 3)}


@rec
def axis(kind, axis, angle):
    v = contain(kind, axis)
    if kind == "array":                 # the documented form: a column
        v = v.reshape(3, 1)
    elif kind in ("ints", "tuple"):
        v = contain("list", axis)
    old = repr(v)
    m = gps.rotate_3x3(guise(angle), v)
    if repr(v) != old:
        raise Odd("changed its axis")
    return {"axis": vec(axis), "angle": limbs(angle), "m": flat(m)}


@rec
def frame(lat, lon):
    return {"lat": limbs(lat), "lon": limbs(lon), "m": flat(gps.ecefvec2nedvec(guise(lat), guise(lon)))}


@rec
def utm(kind, g, xyz):
    if xyz:
        got, info = gps.ecef2utm(contain(kind, xyz))
        g = list(gps.ecef2lla(contain(kind, xyz)))
    else:
        got, info = gps.lla2utm(contain(kind, g))
    e, n, h = vec(got, 3)
    zone, k = info
    return {"lla": vec(g), "far": vec(xyz), "zone": int(zone[:-1]), "band": zone[-1], "e": "utm", "east": e, "north": n, "h": h, "k": limbs(k)}


@rec
def band(lat):
    return {"lat": limbs(lat), "band": gps.utmLetterDesignator(guise(lat))}


def unhex(x):
    if isinstance(x, list):
        return [unhex(y) for y in x]
    return float.fromhex(x[2:]) if isinstance(x, str) and x.startswith("f:") else x


def tohex(x):
    if isinstance(x, (list, tuple)):
        return [tohex(y) for y in x]
    return "f:" + float(x).hex() if isinstance(x, float) else x


def event(name, args):
    """The event of a call, args being a dict of raw arguments."""
    raw = {"call": name, "args": {k: tohex(v) for k, v in args.items()}}
    global kept
    kept = Kept()
    if args.get("kind", "").startswith("kept"):
        # the same call before, on the same arrays with other contents: nothing of it may remain
        kept.turn = -1
        try:
            REC[name](**args)
        except Exception:
            pass
        kept.next, kept.turn = 0, 1
    try:
        ev = REC[name](**args)
    except Exception as e:
        return {"e": "raised", "raw": raw, "why": "%s: %s" % (type(e).__name__, e)}
    ev.setdefault("e", name)
    ev["raw"] = raw
    return ev


# -- inputs -------------------------------------------------------------------------------
def number(rng, top, small=1e-3):
    """A number up to top, of any magnitude."""
    k = rng.randrange(8)
    if k == 0:
        return 0.0
    if k == 1:
        return float(rng.randint(-9, 9)) if top >= 9 else rng.uniform(-top, top)
    if k == 2:
        return rng.choice([-1, 1]) * top * rng.uniform(0.5, 1)
    return rng.choice([-1, 1]) * math.exp(rng.uniform(math.log(small), math.log(top)))


def number3(rng, top):
    k = rng.randrange(6)
    if k == 0:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(3)] = number(rng, top)
        return v
    if k == 1:
        return [float(rng.randint(-50, 50)) for _ in range(3)]
    return [number(rng, top) for _ in range(3)]


def turn(rng, wide=True):
    """An angle in radians."""
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 3 * math.pi / 2])
    if k == 1:      # next to a quarter or an eighth of a turn
        return rng.choice([-4, -3, -2, -2, -1, 0, 0, 1, 2, 2, 3, 4]) * math.pi / 4 + rng.choice([-1, 0, 1]) * 10 ** rng.uniform(-9, -1)
    if k == 2 and wide:
        return rng.uniform(-1, 1) * 10 ** rng.uniform(0.5, 4)
    return rng.uniform(-math.pi, math.pi)


def pitch(rng):
    """A pitch: sometimes in gimbal lock, or just outside it."""
    k = rng.randrange(8)
    s = rng.choice([-1, 1])
    if k == 0:
        return s * math.pi / 2
    if k == 1:
        return s * (math.pi / 2 + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, -6.4))
    if k == 2:
        return s * (math.pi / 2 + rng.choice([-1, 1]) * 10 ** rng.uniform(-5.6, -1))
    if k == 3:
        return s * math.pi * 3 / 2
    while True:
        t = turn(rng)
        if not 10 ** -6.4 < abs(abs(t) % math.pi - math.pi / 2) < 10 ** -5.6:
            return t


def aside(rng, wide=0.5):
    """A small step off an edge, to either side, of any size; or none."""
    return rng.choice([0.0, 1e-9, -1e-9, wide, -wide, 10 ** rng.uniform(-9, math.log10(wide)), -10 ** rng.uniform(-9, math.log10(wide))])


def geodetic(rng, low=-1e5, high=1e8):
    k = rng.randrange(8)
    s = rng.choice([-1, 1])
    lat = (rng.choice([0.0, 90.0, -90.0, 45.0, -45.0]) if k == 0 else
           s * (90 - 10 ** rng.uniform(-12, 0)) if k == 1 else
           s * 10 ** rng.uniform(-12, 0) if k == 2 else rng.uniform(-90, 90))
    k = rng.randrange(8)
    s = rng.choice([-1, 1])
    lon = (rng.choice([0.0, 90.0, -90.0, 180.0, -180.0, 45.0, -135.0]) if k == 0 else
           s * (180 - 10 ** rng.uniform(-12, 0)) if k == 1 else
           s * 10 ** rng.uniform(-12, 0) if k == 2 else
           s * 90 + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 0) if k == 3 else rng.uniform(-180, 180))
    k = rng.randrange(8)
    alt = (0.0 if k == 0 else rng.uniform(low, 0) if k == 1 else rng.uniform(0, high) if k == 2 else rng.choice([low, high]) if k == 3 else
           10 ** rng.uniform(0, math.log10(high)))
    return [lat, lon, alt]


def point(g):
    """Near enough the ECEF point of a geodetic position: only an input."""
    lat, lon = math.radians(g[0]), math.radians(g[1])
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return [(n + g[2]) * math.cos(lat) * math.cos(lon), (n + g[2]) * math.cos(lat) * math.sin(lon), (n * (1 - E2) + g[2]) * math.sin(lat)]


def witness(p):
    """The geodetic position of a point, by iteration to rounding; the specification decides whether it is right."""
    x, y, z = p
    r = math.hypot(x, y)
    if r == 0:
        return [math.copysign(90.0, z), 69.0, abs(z) - B]
    lat = math.atan2(z, r * (1 - E2))
    for _ in range(40):
        s = math.sin(lat)
        lat = math.atan2(z + E2 * A / math.sqrt(1 - E2 * s * s) * s, r)
    s = math.sin(lat)
    n = A / math.sqrt(1 - E2 * s * s)
    return [math.degrees(lat), math.degrees(math.atan2(y, x)), r * math.cos(lat) + z * s - A * A / n]


def place(rng):
    """A point in space."""
    k = rng.randrange(10)
    r = rng.choice([6.3e6, 6378137.0, 6356752.3142, 7e6, 4.2e7, 1e8]) * rng.uniform(1, 1.05)
    s = rng.choice([-1, 1])
    if k == 0:
        return rng.choice([[s * r, 0.0, 0.0], [0.0, s * r, 0.0], [0.0, 0.0, s * r]])
    if k == 1:
        return [rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 3), rng.choice([0.0, 1e-3, -20.0]), s * r]
    if k == 2:
        return [s * r * math.cos(1), rng.choice([-1, 1]) * r * math.sin(1), 0.0]
    if k == 3:
        return [-r * math.cos(0.3), rng.choice([0.0, 1e-9, -1e-6]), s * r * math.sin(0.3)]
    return [x + 0.0 for x in point(geodetic(rng))]


def tiny3(rng, top=-2.0):
    """Three small numbers, most of a like size."""
    e = rng.uniform(-9, top)
    return [rng.choice([0, -1, 1, -1, 1]) * 10 ** (e - abs(rng.gauss(0, 1))) for _ in range(3)]


def single3(v):
    return [float(np.float32(x)) for x in v]


def attitude3(rng):
    k = rng.randrange(20)
    if k < 2:
        return [float(rng.randint(-3, 3)) for _ in range(3)]
    if k < 4:       # nearly level, or nearly along the axes
        v = tiny3(rng)
        return v if k == 2 else [x + rng.randint(-2, 2) * math.pi / 2 * (n != 1) for n, x in enumerate(v)]
    return [turn(rng), pitch(rng), turn(rng)]


def reckon_inputs(rng, count):
    for i in range(count):
        for alg in USES:
            kind = rng.choice(KINDS + ["single"])
            a = {"P": [number3(rng, 1e8), number3(rng, 1e8), [0.0] * 3, tiny3(rng, 3)][rng.randrange(4)],
                 "V": number3(rng, 1e5) if rng.randrange(6) else tiny3(rng, 0),
                 "A": number3(rng, 1e3) if rng.randrange(6) else tiny3(rng, 0), "O": attitude3(rng),
                 "W": number3(rng, 10) if rng.randrange(6) else tiny3(rng, 0)}
            if kind == "single":
                a = {k: single3(v) for k, v in a.items()}
            yield "reckon", {"alg": alg, "kind": kind, **a,
                             "dt": rng.choice([0.0, 1.0, -1.0, number(rng, 1e4), number(rng, 1e4), number(rng, 100), rng.uniform(0, 5),
                                               rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -3), float(rng.randint(-100, 5000))])}
        yield "matrix", {"O": [turn(rng), pitch(rng), turn(rng)]}
        yield "cross", {"kind": rng.choice(KINDS), "v": number3(rng, 1e6)}


def quarter(rng):
    return rng.choice([0.0, math.pi / 2, math.pi, -math.pi / 2])


def geodesy_inputs(rng, count):
    for i in range(count):
        yield "ecef", {"kind": rng.choice(KINDS), "lla": geodetic(rng)}
        yield "lla", {"kind": rng.choice(KINDS), "xyz": place(rng)}
        if i % 100 == 0:
            yield "centre", {"kind": rng.choice(KINDS)}
        if i % 3 == 0:
            g = geodetic(rng)
            text = rng.choice(["%r %r %r", " %r  %r\t%r ", "%.3f %.4f %.1f", "%d %d %d"]) % (g[1], g[0], g[2])
            words = text.split()
            org = [float(words[1]), float(words[0]), float(words[2])]
            if abs(org[0]) > 90:
                continue
            how = rng.randrange(4)
            yield "gcc", {"kind": rng.choice(KINDS), "lla": geodetic(rng), "org": org if how else [], "text": text if how else rng.choice(["absent", ""])}


def local_inputs(rng, count):
    for i in range(count):
        org = place(rng)
        far = 10 ** rng.uniform(-3, 7)
        d = [rng.uniform(-1, 1) * far for _ in range(3)] if i % 7 else [0.0, 0.0, 0.0]
        if i % 11 == 0:
            d = [0.0, 0.0, 0.0]
            d[i % 3] = far
        xyz = [a + b for a, b in zip(org, d)]
        yield "ned", {"kind": rng.choice(KINDS), "xyz": xyz, "org": org, "g": witness(org)}
        yield "unned", {"kind": rng.choice(KINDS), "v": d, "org": org, "g": witness(org)}
        yield "pae", {"kind": rng.choice(KINDS), "v": number3(rng, 1e8), "xyz": [], "org": [], "g": []}
        if any(d):
            yield "pae", {"kind": rng.choice(KINDS), "v": [], "xyz": xyz, "org": org, "g": witness(org)}
        u = [number(rng, 1e8) for _ in range(rng.randrange(0, 7))]
        yield "distance", {"kind": rng.choice(KINDS), "u": u, "ref": [number(rng, 1e8) for _ in u] if rng.randrange(2) else []}
        yield "degrees", {"u": rng.choice([number(rng, 1e5), turn(rng), math.degrees(turn(rng)), rng.choice([0.0, 90.0, 180.0, 360.0, -180.0, math.pi])])}


def attitude_inputs(rng, count):
    half = math.pi / 2
    for i in range(count):
        g = geodetic(rng)
        g = [math.radians(g[0]), math.radians(g[1]), g[2]]
        rpy = [turn(rng, False), pitch(rng), turn(rng, False)]
        if i % 4 == 0:
            g = [rng.choice([0.0, half, -half, 0.5]), quarter(rng), rng.choice([0.0, 1000.0])]
            rpy = [quarter(rng), rng.choice([0.0, half, -half]), quarter(rng)]
        if i % 4 == 2:      # angles on the quarter turns and next to them
            rpy = [quarter(rng) + aside(rng, 0.1), rng.choice([0.0, rpy[1]]), quarter(rng) + aside(rng, 0.1)]
        yield "to_ecef", {"g": g, "rpy": rpy}
        if abs(abs(g[0]) - half) > 1e-7:
            yield "there_and_back", {"g": g, "rpy": rpy}
        xyz = place(rng)
        yield "from_ecef", {"xyz": xyz, "ptp": [turn(rng, False), pitch(rng), turn(rng, False)] if i % 3 else [quarter(rng), quarter(rng), quarter(rng)]}
        v = [rng.gauss(0, 1) for _ in range(3)]
        r = math.sqrt(sum(x * x for x in v))
        v = [x / r for x in v]
        if i % 3 == 0:
            v = [0.0, 0.0, 0.0]
            v[rng.randrange(3)] = rng.choice([1.0, -1.0])
        yield "axis", {"kind": rng.choice(KINDS), "axis": v, "angle": turn(rng)}
        yield "frame", {"lat": turn(rng), "lon": turn(rng)}


def utm_inputs(rng, count):
    edges = list(range(-80, 85, 8)) + [56, 64, 72]
    cuts = list(range(-180, 181, 6)) + [0, 3, 9, 12, 21, 33, 42] * 4
    for i in range(count):
        lat = rng.uniform(-80, 84)
        lon = rng.uniform(-180, 180)
        if i % 3 == 0:
            lat = min(83.999, max(-80.0, rng.choice(edges) + aside(rng)))
        if i % 2 == 0:
            lon = min(180.0, max(-180.0, rng.choice(cuts) + aside(rng, rng.choice([0.5, 2.5]))))
        if i % 5 == 0:          # where the grid is irregular
            lat, lon = rng.choice([rng.uniform(56, 64), rng.uniform(72, 83.99), 56.0, 64.0, 72.0]), rng.choice([rng.uniform(0, 42), 3.0, 9.0, 12.0, 21.0, 33.0, 42.0])
        g = [lat, lon, rng.choice([0.0, rng.uniform(-1e4, 1e6)])]
        yield "utm", {"kind": rng.choice(KINDS), "g": g, "xyz": []}
        if i % 3 == 1:
            yield "utm", {"kind": rng.choice(KINDS), "g": [], "xyz": point([rng.uniform(-79.9, 83.9), rng.uniform(-180, 180), rng.uniform(-100, 1e6)])}
        yield "band", {"lat": rng.choice([rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(84.001, 90), rng.uniform(-90, -80.001),
                                          rng.choice(edges) + aside(rng)])}


INPUTS = {"reckon": reckon_inputs, "geodesy": geodesy_inputs, "local": local_inputs, "attitude": attitude_inputs, "utm": utm_inputs}


# -- judging --------------------------------------------------------------------------------
@suite
def record_geo(ctx, args):
    rng = ctx.rng("geo", args["of"], args["batch"])
    with open(args["path"], "w") as f:
        for name, a in INPUTS[args["of"]](rng, args["count"]):
            f.write(json.dumps(event(name, a)) + "\n")
    return 0, []


def judge_geo(ctx, of, count, clauses=None):
    """Record count calls of each kind and have TLC judge them; report the clauses asked for."""
    ctx.tlc(tlc.run("FixLaws", "CONSTANTS Steps=%d\n" % (30 if ctx.thorough else 2) + CFG + "INVARIANTS Proper Ring Order Circle Inverses\n"))
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        parts = 16
        ctx.run([("record_geo", {"of": of, "batch": i, "count": -(-count // parts), "path": os.path.join(d, "%d.json" % i)}) for i in range(parts)])
        lines = [l for i in range(parts) for l in open(os.path.join(d, "%d.json" % i))]
        judge_lines(ctx, lines, d, clauses)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge_lines(ctx, lines, d, clauses=None):
    path = os.path.join(d, "trace.json")
    with open(path, "w") as f:
        f.writelines(lines)
    recs = ctx.tlc(tlc.run("GeoTrace", CFG + "INVARIANT Report\n", {"TRACE": path}))
    if [r["events"] for r in recs if "events" in r] != [len(lines)]:
        raise RuntimeError("TLC did not read the whole trace")
    ctx.judged += len(lines)
    ctx.sample({"judged": json.loads(lines[0])})
    for r in recs:
        if "bad" in r:
            e = json.loads(lines[r["bad"] - 1])
            for why in r["why"]:
                if clauses is None or why in clauses or why == "raised":
                    raw = e["raw"]
                    ctx.violation("rejudge_geo", {"raw": raw}, "%s:%s" % (raw["args"].get("alg") or raw["call"], why),
                                  "the specification does not allow the result of %s(%s): %s %s" % (
                                      raw["call"], unhex_text(raw["args"]), why, e.get("why", "")))


def unhex_text(args):
    return ", ".join("%s=%r" % (k, unhex(v)) for k, v in args.items())


@suite
def rejudge_geo(ctx, args):
    raw = args["raw"]
    ev = event(raw["call"], {k: unhex(v) for k, v in raw["args"].items()})
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        before = len(ctx.violations)
        judge_lines(ctx, [json.dumps(ev) + "\n"], d)
        bad = [(v["where"], v["detail"]) for v in ctx.violations[before:]]
        del ctx.violations[before:]
        return 1, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- behaviours of Steer.tla -----------------------------------------------------------------
QUARTER = math.pi / 2


def steer_load(ctx):
    ctx.tlc(tlc.run("Steer", "CONSTANTS Depth=%d EmitOn=FALSE Arrays=9\n" % (3 if ctx.thorough else 2) + CFG +
                    "VIEW View\nCONSTRAINT Shallow\nINVARIANTS TypeOK Laws\nPROPERTIES Steady\n"))
    recs = ctx.tlc(tlc.simulate("Steer", "CONSTANTS Depth=12 EmitOn=TRUE Arrays=17\n" + CFG + "INVARIANTS Emit\n",
                                16000 if ctx.thorough else 1600, 15, ctx.seed))
    return tlc.unique(r["hist"][:-1] for r in recs if "hist" in r)


def angular(k):
    """Array k (from 1) holds angles: the orientation, the angular velocity, every other result."""
    return k in (4, 5) or (k > 5 and k % 2 == 1)


@suite
def steer(ctx, args):
    """C18, C19: a program that feeds results back and changes arrays in place; every array after every step."""
    n, bad = 0, []
    for hist in part(ctx, args):
        for kind in ("array", "list", "strided"):
            n += 1
            held = []
            for op, a, b, store, uses in hist:
                try:
                    if op == "start":
                        held = [contain(kind, [x * QUARTER if angular(k) else float(x) for x in v]) for k, v in enumerate(store, 1)]
                    elif op == "call":
                        held += list(getattr(dr, "drm_" + a)(*[float(b) if r == "d" else held[uses[r] - 1] for r in USES[a]]))
                    elif op == "poke":
                        held[a - 1][b[0] - 1] = b[1] * QUARTER if angular(a) else float(b[1])
                    # "go": the last results become the inputs, by reference
                except Exception as ex:
                    bad.append(("steer:%s:raised" % (a if op == "call" else op), "%r in %s of %s" % (ex, kind, brief(hist))))
                    break
                wrong = [k for k, v in enumerate(store, 1) if len(held) < k or not alike(held[k - 1], v, angular(k))]
                if wrong or len(held) != len(store):
                    k = wrong[0] if wrong else 0
                    bad.append(("steer:%s:%s" % (a if op == "call" else op, "orientation" if wrong and angular(k) else "position"),
                                "array %d is %r, not %r, after the last step of %s (%s)" % (
                                    k, list(held[k - 1]) if k and k <= len(held) else None, store[k - 1] if k else None,
                                    brief(hist[:[h is not None and h[3] is store for h in hist].index(True) + 1]), kind)))
                    break
    what = args.get("what")
    return n, [x for x in bad if what is None or x[0].endswith(("raised", what))]


def brief(hist):
    return " ".join("%s%s" % (op, (a, b) if op != "start" else (b,)) for op, a, b, store, uses in hist)


def alike(got, want, turns):
    try:
        return len(got) == 3 and all(abs(float(x) - y * (QUARTER if turns else 1)) <= 1e-9 * (1 + abs(y)) for x, y in zip(got, want))
    except Exception:
        return False


# -- UtmGrid.tla -------------------------------------------------------------------------------
def grid_load(ctx):
    return ctx.tlc(tlc.run("UtmGrid", CFG + "INVARIANTS One Ordered Missing Near Lettered Emit\n"))


@suite
def grid_rows(ctx, args):
    """C23: zone and band of every cell of half a degree, at its south-west corner, inside and just short of its far corner."""
    n, bad = 0, []
    for r in part(ctx, args):
        i = r["row"]
        for lat in (i / 2, i / 2 + .3, (i + 1) / 2 - 1e-9):
            got = gps.utmLetterDesignator(lat)
            n += 1
            # 84 degrees itself still belongs to the grid
            if got != r["letter"] and not (lat == 84 and got == "X"):
                bad.append(("utmLetterDesignator:grid", "latitude %r gets band %r instead of %r" % (lat, got, r["letter"])))
        if not any(r["zones"]):
            continue
        for k, zone in enumerate(r["zones"]):
            j = k - 360
            for lat, lon in ((i / 2, j / 2), (i / 2 + .2, j / 2 + .3), ((i + 1) / 2 - 1e-9, (j + 1) / 2 - 1e-9), (i / 2, (j + 1) / 2 - 1e-9)):
                n += 1
                info = gps.lla2utm((lat, lon, 0.0))[1]
                if info[0] != "%d%s" % (zone, r["letter"]):
                    bad.append(("lla2utm:grid", "(%r, %r) gets %r instead of %d%s" % (lat, lon, info[0], zone, r["letter"])))
        n += 1
        if gps.lla2utm((i / 2, 180.0, 0.0))[1][0] != "1" + r["letter"]:
            bad.append(("lla2utm:date line", "(%r, 180) gets %r" % (i / 2, gps.lla2utm((i / 2, 180.0, 0.0))[1][0])))
    return n, bad
