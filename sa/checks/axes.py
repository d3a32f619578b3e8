"""E05: axes and units.

Dimension inference over the value terms of every native function.  A dimension is (power of length, parity of the power of longitude, parity of
the power of latitude, decimal scale against microdegrees); reflecting either axis must not change what may be added, which is what the parities
say: a longitude cannot be added to or compared with a latitude, the two products of a cross product can be, and so can the two squares of a
squared distance.  Numbers without a known dimension (constants, loop counters, values of foreign calls) fit everything: only two known and
different dimensions are a violation.
"""
from fractions import Fraction
from math import log10

from .. import terms as tm
from ..par import pmap
from ..world import World
from ..pyast import MObj, Op
from . import file
from .geom import Geo, e06
from .order import nodes
from .pylayer import b01, p06, y02
from .space import conversions

LON = (Fraction(1), 1, 0, 0.0)
LAT = (Fraction(1), 0, 1, 0.0)
SAME = ("i2f", "f2i", "round", "trunc", "floor", "ceil", "fround", "f32", "f64")
TURN = (180, 360, 540)
NAMES = {(1, 1, 0): "longitude", (1, 0, 1): "latitude", (1, 0, 0): "distance", (2, 0, 0): "squared distance", (2, 1, 1): "product of a longitude and a latitude"}


def pure(c):
    """a factor that is a number or a change of unit, not a quantity: small, or small times a power of a million"""
    x = abs(float(c))
    if not x:
        return True
    k = round(log10(x) / 6)
    return .1 <= x / 10.0 ** (6 * k) <= 10


def name(d):
    s = NAMES.get((d[0], d[1], d[2])) or "quantity of degree %s, parity (%d, %d)" % (d[0], d[1], d[2])
    if d[0] == 1 and abs(d[3]) < .5:
        return s + " in microdegrees"
    if d[0] == 1 and abs(d[3] + 6) < .5:
        return s + " in degrees"
    return s + (" (10^%.0f of microdegrees)" % d[3] if abs(d[3]) > .5 else "")


class Dims:
    """dimension of a term; conflicts are collected in bad"""

    def __init__(self, lon, lat, roles=()):
        self.lon, self.lat = lon, lat
        self.memo = dict(roles)
        self.bad = []
        self.typed = 0          # sums, comparisons and joins whose parts all have a known dimension
        self.keep = []

    def clash(self, a, b, what, t):
        """do two known dimensions differ?"""
        if a is None or b is None:
            return False
        if a[:3] != b[:3]:
            self.bad.append("%s: %s and %s" % (what, name(a), name(b)))
            return True
        if abs(a[3] - b[3]) > 4.5:
            self.bad.append("%s in different units: %s and %s" % (what, name(a), name(b)))
            return True
        return False

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        d = self._of(t)
        self.memo[t] = d
        return d

    def mono(self, m, c):
        deg, p, q, s = Fraction(0), 0, 0, 0.0
        for a, e in m:
            d = self.of(a)
            if d is None:
                return None
            deg += d[0] * e
            p ^= d[1] * e & 1
            q ^= d[2] * e & 1
            s += d[3] * e
        return (deg, p, q, s + (log10(abs(float(c))) if c else 0.0))

    def _of(self, t):
        op = t.op
        if op == "fld" and t.sort in ("i", "r"):
            if t.a[1] == self.lon:
                return LON
            if t.a[1] == self.lat:
                return LAT
            return None
        if op == "poly":
            res, const, plain = None, None, True
            n = 0
            for m, c in t.a[0]:
                if m == ():
                    const = c
                    continue
                d = self.mono(m, c)
                if d is None:
                    plain = False
                    continue
                if d[0] == 0:
                    plain = False
                    continue
                if not pure(c):
                    plain = False       # the factor may have a dimension of its own
                    continue
                n += 1
                if res is None:
                    res = d
                elif not self.clash(res, d, "added or compared", t):
                    continue
                else:
                    return None
            if n > 1:
                self.typed += 1
            if res is not None and plain and const is not None and res[0] == 1 and len(t.a[0]) == 2:
                m, c = next(x for x in t.a[0] if x[0] != ())
                k = abs(float(const) / float(c)) if c else 0.0
                unit = res[3] - log10(abs(float(c)))            # of the atom itself
                near = lambda f: any(abs(k / f - x) * f <= 2 for x in TURN)
                if abs(unit) < .5 and (near(1) or near(10 ** 12)):
                    self.bad.append("a %s is set against %g of another unit" % (name((res[0], res[1], res[2], 0.0)), k))
                if res[:3] == LAT[:3] and any(abs(k - x * 10 ** y) <= 2 for x in (180, 270, 360, 540) for y in ((6,) if abs(unit) < .5 else (0,))):
                    self.bad.append("a latitude is set against %g, an angle between longitudes" % k)
                if abs(unit + 6) < .5 and near(10 ** 6):
                    self.bad.append("a %s is set against %g, an angle in microdegrees" % (name((res[0], res[1], res[2], -6.0)), k))
                self.typed += 1
            return res
        if op == "inv":
            d = self.of(t.a[0])
            return (-d[0], d[1], d[2], -d[3]) if d else None
        if op == "fmul":
            ds = [self.of(x) for x in t.a if isinstance(x, tm.T)]
            if any(d is None for d in ds):
                return None
            return (sum(d[0] for d in ds), sum(d[1] for d in ds) & 1, sum(d[2] for d in ds) & 1, sum(d[3] for d in ds))
        if op == "fdiv":
            a, b = self.of(t.a[0]), self.of(t.a[1])
            return (a[0] - b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] - b[3]) if a and b else None
        if op == "fadd":
            ds = [self.of(x) for x in t.a]
            self.clash(ds[0], ds[1], "added", t)
            return ds[0] if ds[1] == ds[0] else None
        if op == "abs":
            d = self.of(t.a[0])
            return (d[0], 0, 0, d[3]) if d else None
        if op in ("min", "max", "fmin", "fmax"):
            return self.join(t, [x for x in t.a if isinstance(x, tm.T)])
        if op == "ite" and t.sort in ("i", "r"):
            self.of(t.a[0])
            return self.join(t, t.a[1:])
        if op in ("trunc",):
            return self.of(t.a[-1]) if isinstance(t.a[-1], tm.T) else None
        if op == "irem":
            return self.of(t.a[0])
        if op == "eq" and t.a[0].sort in ("i", "r"):
            self.clash(self.of(t.a[0]), self.of(t.a[1]), "compared", t)
            return None
        if op == "sqrt":
            d = self.of(t.a[0])
            return (d[0] / 2, 0, 0, d[3] / 2) if d and not d[1] and not d[2] else None
        if op == "app":
            n = t.a[0].split("::")[-1]
            if n in ("sqrt", "sqrtf") and len(t.a) == 2:
                d = self.of(t.a[1])
                if d and (d[1] or d[2]):
                    return None
                return (d[0] / 2, 0, 0, d[3] / 2) if d else None
            if n == "hypot" and len(t.a) == 3:
                a, b = self.of(t.a[1]), self.of(t.a[2])
                return (a[0], 0, 0, a[3]) if a and b and a[0] == b[0] and abs(a[3] - b[3]) < 4.5 else None
            if n in SAME and len(t.a) >= 2 and isinstance(t.a[1], tm.T):
                return self.of(t.a[1])
            if n in ("abs", "fabs") and len(t.a) == 2:
                d = self.of(t.a[1])
                return (d[0], 0, 0, d[3]) if d else None
            return None
        if op in SAME and t.a and isinstance(t.a[0], tm.T):
            return self.of(t.a[0])
        if op == "rec" and t.a[0] == "Coordinate":
            f = dict(t.a[1])
            for k, want in ((self.lon, LON), (self.lat, LAT)):
                d = self.of(f[k]) if k in f else None
                if d is not None:
                    self.typed += 1
                    if d[0] != 0:
                        self.clash(want, d, "stored as the %s of a coordinate" % ("longitude" if want is LON else "latitude"), t)
            return None
        return None

    def join(self, t, xs):
        ds = [self.of(x) for x in xs]
        k = [d for d in ds if d]
        for d in k[1:]:
            if self.clash(k[0], d, "alternatives of one value", t):
                return None
        if len(k) > 1:
            self.typed += 1
        return k[0] if k and len(k) == len(ds) else None

    def judge(self, t):
        for x in sorted(tm.walk(t), key=lambda x: x.id):
            self.of(x)


def roles(P, f):
    """parameters whose meaning is given by the interface: constructing from degrees, the limit of a search"""
    out = {}
    ps = f.params()
    fl = lambda i: f.pty(i).noref().k in ("float", "double", "real")
    if f.qn == "Coordinate::Coordinate" and len(ps) == 2 and fl(0) and fl(1):
        out[0], out[1] = (Fraction(1), 1, 0, -6.0), (Fraction(1), 0, 1, -6.0)
    if f.qn == "ShortestPathComputer::shortest_path" and len(ps) > 2 and fl(2):
        out[2] = (Fraction(1), 0, 0, -6.0)
    return out


def terms_of(r):
    for o in [r.value]:
        if isinstance(o, tm.T):
            yield o
    if r.S is not None:
        for k, v in r.S.env.items():
            if isinstance(v, tm.T):
                yield v
        for p in r.S.pc:
            yield p
    for o in r.throws:
        for p in o.S.pc:
            yield p
    for e in r.events():
        for x in e.a:
            if isinstance(x, tm.T):
                yield x
        for p in e.pc:
            yield p


def loops(f):
    """does the function loop itself? such callees are summarised on their own"""
    return any(isinstance(n, dict) and n.get("s") in ("for", "rfor", "while", "do") for n in nodes(f.o["body"]))


def one(P, g, f, big):
    w = World(P, opaque=[q for q in big if q != f.qn])
    try:
        r = w.call(f, w.obj(f.cls, "this") if f.cls and not f.o.get("static") else None)
    except RecursionError:
        return ("unknown", "too deep", 0)
    ps = f.params()
    rl = {}
    for i, d in roles(P, f).items():
        n = ps[i]["n"] or "arg%d" % i
        for s in ("r",):
            rl[tm.sym(n, s)] = d
    D = Dims(g.lon, g.lat, rl)
    for t in terms_of(r):
        D.judge(t)
    return ("no" if D.bad else "yes", sorted(set(D.bad))[:4], D.typed)


def points(o, out):
    """the pairs of numbers (longitude, latitude) in a value of the Python layer"""
    if isinstance(o, MObj):
        if "longitude" in o.f and "latitude" in o.f:
            out.add((o.f["longitude"], o.f["latitude"]))
            return
        for v in o.f.values():
            points(v, out)
    elif isinstance(o, Op):
        points(o.a, out)
    elif isinstance(o, (list, tuple)):
        if len(o) == 2 and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in o):
            out.add(tuple(o))
            return
        for v in o:
            points(v, out)
    elif isinstance(o, dict):
        for v in o.values():
            points(v, out)


def swapped(got, want):
    """does the code give a point with its axes exchanged?"""
    a, b = set(), set()
    points(got, a)
    points(want, b)
    return any(p not in b and p[::-1] in b for p in a)


def part(c, fn, keep, explain=None):
    """obligations of another check that are about axes or units"""
    sub = type(c)(c.pid, c.tier)
    sub._P = c.P
    sub.explain = explain
    fn(sub)
    for o in sub.obs:
        if keep(o):
            c.obs.append(o)
    c.functions |= sub.functions


def e05(c):
    P = c.P
    g = Geo(c)
    if not g.ready(c):
        return
    fs, seen = [], set()
    for f in P.fns.values():
        if f.kind == "lambda" or "/code/" not in f.file or "example" in f.file or (f.file, f.line, f.qn) in seen:
            continue
        seen.add((f.file, f.line, f.qn))
        if f.qn.startswith("std::hash"):
            continue            # mixes everything, by design
        fs.append(f)
    big = sorted({f.qn for f in fs if loops(f)} | {f.qn for f in P.fns.values() if f.qn.startswith("std::hash")})
    res = pmap(lambda f: one(P, g, f, big), fs)
    n = 0
    for f, (v, why, k) in zip(fs, res):
        if v == "no":
            c.bad("axes and units", "%s adds, compares and stores like with like" % f.qn, f.where(), "; ".join(why))
        elif v == "yes" and k:
            c.saw(f)
            n += k
            c.ok("axes and units", "%s adds, compares and stores like with like (%d places)" % (f.qn, k), f.where())
    conversions(c, g, "sphere")
    file.axes(c, "file")
    part(c, e06, lambda o: o.rule == "construction" or (o.rule == "arithmetic" and o.what.split()[0] in ("latitude", "longitude")))
    part(c, b01, lambda o: o.what.startswith(("VisGraphCoord.l", "VisGraphCoord is constructed")) or (o.rule == "constructor" and "VisGraphCoord" in o.what))
    part(c, y02, lambda o: o.rule in ("outlines", "native"), swapped)
    part(c, p06, lambda o: o.rule in ("arguments", "result"), swapped)
    c.notes.append("%d sums, comparisons, joins and stored coordinates with known dimensions in %d functions" % (n, len(fs)))
