"""Coordinates, segments, polygons: exact predicates, periodicity, equality and hashing, vector arithmetic."""
from fractions import Fraction
from itertools import product

from .. import terms as tm
from ..loops import box_ptrs
from ..evalcpp import LV
from ..interp import same, valid, vocab
from ..loops import replace
from ..terms import TRUE, FALSE, and_, or_, not_, eqt, ite, const, app
from ..world import World, under

B1 = 540000001          # a coordinate or one of its periodic copies
B2 = 2 * B1             # a difference of two of them


def ctor_fields(c, cls, np, pred=None, names=None):
    """{field: term} a constructor gives an object, in terms of its parameters"""
    f = c.P.need("%s::%s" % (cls, cls.split("::")[-1]), np, pred)
    w = World(c.P)
    a = names or tuple("p%d" % i for i in range(np))
    r = w.call(f, args=a)
    c.saw(f)
    if r.S is None:
        return None, f
    t = r.S.env.get(("arg", "this"))
    return (dict(t.a[1]) if t is not None and t.op == "rec" else None), f


class Geo:
    """builds symbolic coordinates, segments and corners from their public constructors"""

    def __init__(self, c):
        self.c = c
        P = c.P
        two = lambda k: (lambda f: all(f.pty(i).k == k for i in range(2)))
        fs, self.cf = ctor_fields(c, "Coordinate", 2, two("int"))
        self.lon = self.lat = None
        if fs:
            for k, v in fs.items():
                if v is tm.sym("p0", "i") or str(tm.show(v)) == "p0":
                    self.lon = k
                elif str(tm.show(v)) == "p1":
                    self.lat = k
        self.nf = len(fs or {})

    def ready(self, c, rule="representation"):
        if self.lon is None or self.lat is None or self.nf != 2:
            c.unk(rule, "representation of a coordinate", self.cf.where(), "constructor does not store its two arguments")
            return False
        c.ok(rule, "a coordinate stores its two integer arguments", self.cf.where())
        return True

    def num(self, name, b=B1):
        return tm.sym(name, "i", (-b, b))

    def coord(self, name, b=B1, lon=None, lat=None):
        x = lon if lon is not None else self.num(name + ".lon", b)
        y = lat if lat is not None else self.num(name + ".lat", b)
        order = [f for f, *_ in tm.RECORDS["Coordinate"]]
        t = tm.rec("Coordinate", [(f, x if f == self.lon else y) for f in order])
        tm.set_type(t, "Coordinate")
        return t

    def x(self, t):
        return tm.fld(t, self.lon, "i")

    def y(self, t):
        return tm.fld(t, self.lat, "i")

    def cross(self, a, b):
        return tm.sub(tm.mul(self.x(a), self.y(b)), tm.mul(self.x(b), self.y(a)))

    def dot(self, a, b):
        return tm.add(tm.mul(self.x(a), self.x(b)), tm.mul(self.y(a), self.y(b)))

    def minus(self, a, b):
        return self.coord("", lon=tm.sub(self.x(a), self.x(b)), lat=tm.sub(self.y(a), self.y(b)))

    def plus(self, a, b):
        return self.coord("", lon=tm.add(self.x(a), self.x(b)), lat=tm.add(self.y(a), self.y(b)))

    def orient(self, a, b, p):
        """sign source: twice the signed area of a, b, p"""
        return self.cross(self.minus(b, a), self.minus(p, a))

    def eq(self, a, b):
        return and_(eqt(self.x(a), self.x(b)), eqt(self.y(a), self.y(b)))

    def make(self, cls, *args):
        """an object built by the public constructor taking these values"""
        P = self.c.P
        f = P.need("%s::%s" % (cls, cls), len(args), lambda f: all(f.pty(i).noref().rec() == "Coordinate" for i in range(len(args))))
        w = World(P)
        r = w.call(f, args=args)
        t = r.S.env.get(("arg", "this")) if r.S is not None else None
        if t is not None:
            tm.set_type(t, cls)
        return t

    def run(self, cls, meth, this, args=(), exact=False, pred=None, opaque=()):
        f = self.c.P.need("%s::%s" % (cls, meth), len(args), pred)
        self.c.saw(f)
        w = World(self.c.P, exact=exact, opaque=opaque)
        th = w.place("this", this)
        r = w.call(f, th, args)
        return r, f


# ------------------------------------------------------------------ rounding and overflow
FOPS = {"f+": tm.add, "f-": tm.sub, "f*": tm.mul}


def integral(t):
    """polynomial with integer coefficients over integers"""
    if t.sort == "i":
        return True
    P = tm.to_poly(t)
    return all(Fraction(k).denominator == 1 and all(a.sort == "i" or a.op == "i2r" for a, _ in m) for m, k in P.items())


def corners(t):
    """(min, max) over the corners of the ranges of its symbols, None unless multi-affine"""
    P = tm.to_poly(t)
    vs = sorted({a for m in P for a, _ in m}, key=id)
    if len(vs) > 14 or any(e != 1 for m in P for _, e in m):
        return None
    rs = []
    for v in vs:
        lo, hi = tm.rng(v)
        if lo is None or hi is None or v.op != "sym":
            return None
        rs.append((lo, hi))
    vals = []
    for p in product(*rs):
        d = dict(zip(vs, p))
        s = 0
        for m, k in P.items():
            x = k
            for a, _ in m:
                x = x * d[a]
            s += x
        vals.append(s)
    return min(vals), max(vals)


def bound(t):
    r = corners(t)
    if r is not None:
        return r, True
    return tm.rng(t), False


def unround(t, bad, memo=None):
    """replace floating-point operations that cannot round by exact ones; the others go to bad"""
    memo = {} if memo is None else memo
    if not isinstance(t, tm.T):
        return tuple(unround(x, bad, memo) for x in t) if isinstance(t, tuple) else t
    if t in memo:
        return memo[t]
    a = [unround(x, bad, memo) for x in t.a]
    if t.op == "app" and t.a[0] in FOPS:
        r = FOPS[t.a[0]](a[1], a[2])
        ok = False
        if integral(a[1]) and integral(a[2]):
            lo, hi = bound(r)[0]
            ok = lo is not None and hi is not None and -(1 << 53) <= lo and hi <= 1 << 53
        if not ok:
            bad.append(t)
    elif t.op == "app" and t.a[0] == "f/":
        r = tm.rdiv(a[1], a[2])
        bad.append(t)
    else:
        r = t if all(x is y for x, y in zip(a, t.a)) else tm.rebuild(t.op, a, t)
    memo[t] = r
    return r


def has_float(t):
    return any(x.op == "f2i" for x in tm.walk(t))


def arithmetic(c, rule, what, f, r):
    """no signed overflow and no lossy narrowing on the way to a predicate"""
    seen = set()
    n = 0
    for e in r.S.ev if r.S is not None else ():
        if e.kind not in ("ovf", "narrow"):
            continue
        if e.kind == "narrow":
            w, sg = e.a[1], e.a[2]
            lim = ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1))
        else:
            w = e.a[1]
            lim = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        t = e.a[0]
        k = (e.kind, t, w)
        if k in seen:
            continue
        seen.add(k)
        n += 1
        if t.sort == "r" or has_float(t):
            # a value computed from the answer in floating point: no predicate depends on it ("decided without rounding")
            n -= 1
            continue
        (lo, hi), tight = bound(t)
        if lo is not None and hi is not None and lim[0] <= lo and hi <= lim[1]:
            c.ok(rule, what + ": no overflow", e.where())
        elif tight and e.pc is TRUE:
            c.bad(rule, what + ": no overflow", e.where(), "%d-bit value reaches [%s, %s]" % (w, lo, hi))
        elif tight:
            c.bad(rule, what + ": no overflow", e.where(), "%d-bit value reaches [%s, %s]" % (w, lo, hi))
        else:
            c.unk(rule, what + ": no overflow", e.where(), "range not determined")
    if not n:
        c.ok(rule, what + ": no integer operation can overflow or lose bits", f.where())


def predicate(c, g, rule, what, cls, meth, this, args, spec, opt=None, assume=TRUE):
    """an exactly decided predicate: value under exact arithmetic, no rounding, no overflow"""
    r, f = g.run(cls, meth, this, args, exact=True)
    if r.S is None or r.value is None:
        c.unk(rule, what, f.where(), "no value")
        return None
    v = r.value
    if opt:
        v = opt(v)
    inexact = []
    ve = unround(v, inexact)
    if inexact:
        c.bad(rule, what + ": decided without rounding", f.where(), "depends on a rounded floating-point operation: %s" % tm.show(inexact[0])[:200])
    else:
        c.ok(rule, what + ": decided without rounding", f.where())
    c.judge(rule, what, f.where(), same(ve, spec, assume))
    arithmetic(c, rule, what, f, r)
    return ve


def orientations(c):
    f = c.P.need("Coordinate::vector_orientation", 1)
    en = {e["n"]: e["v"] for e in f.ret().o.get("en", [])}
    try:
        return {k: const(en[k]) for k in ("CLOCKWISE", "COUNTER_CLOCKWISE", "COLLINEAR")}
    except KeyError:
        return None


def sign3(d, o):
    return ite(tm.eq0(d), o["COLLINEAR"], ite(tm.lt(const(0), d), o["COUNTER_CLOCKWISE"], o["CLOCKWISE"]))


def e01(c):
    for a in ("Coordinate::vector_orientation", "Coordinate::parallel", "LineSegment::orientation_of_point_to_segment", "LineSegment::on_segment",
              "LineSegment::intersection_with_segment", "ThreeVertexPolyline::point_visible"):
        c.P.need(a)
    g = Geo(c)
    if not g.ready(c):
        return
    o = orientations(c)
    if o is None:
        c.unk("orientation", "orientation values", None, "enumeration not recognised")
        return
    u, v = g.coord("u", B2), g.coord("v", B2)
    predicate(c, g, "vectors", "orientation of two vectors", "Coordinate", "vector_orientation", u, (v,), sign3(g.cross(u, v), o))
    predicate(c, g, "vectors", "two vectors are parallel", "Coordinate", "parallel", u, (v,), tm.eq0(g.cross(u, v)))
    predicate(c, g, "vectors", "cross product in microdegrees", "Coordinate", "cross_product_magnitude_microdegrees", u, (v,), g.cross(u, v))
    predicate(c, g, "vectors", "dot product in microdegrees", "Coordinate", "dot_product_microdegrees", u, (v,), g.dot(u, v))
    predicate(c, g, "vectors", "squared length in microdegrees", "Coordinate", "magnitude_squared_microdegrees", u, (), g.dot(u, u))
    a, b, p, q = (g.coord(k) for k in "abpq")
    s, t = g.make("LineSegment", a, b), g.make("LineSegment", p, q)
    if s is None or t is None:
        c.unk("segments", "construction of a segment", None, "constructor not understood")
        return
    predicate(c, g, "segments", "side of a point to a segment", "LineSegment", "orientation_of_point_to_segment", s, (p,), sign3(g.orient(a, b, p), o))
    between = lambda x, y, z: or_(and_(tm.le(x, y), tm.le(y, z)), and_(tm.le(z, y), tm.le(y, x)))
    on = and_(tm.eq0(g.orient(a, b, p)), between(g.x(a), g.x(p), g.x(b)), between(g.y(a), g.y(p), g.y(b)))
    # points on the line through a and b as well as arbitrary ones
    predicate(c, g, "segments", "a point lies on a segment", "LineSegment", "on_segment", s, (p,), on)
    onl = lines(g, a, b, p)
    r, f = g.run("LineSegment", "on_segment", s, (p,), exact=True)
    if r.value is not None:
        bad = []
        ve = unround(r.value, bad)
        if not bad:
            for nm, m in onl:
                c.judge("segments", "a point lies on a segment (%s)" % nm, f.where(), same(tm.subst(ve, m), tm.subst(on, m)))
    # crossing
    D = g.cross(g.minus(b, a), g.minus(q, p))
    opp = lambda d1, d2: tm.le(tm.mul(sgn(d1), sgn(d2)), const(0))
    meet = and_(opp(g.orient(a, b, p), g.orient(a, b, q)), opp(g.orient(p, q, a), g.orient(p, q, b)))
    shared = or_(g.eq(a, p), g.eq(a, q), g.eq(b, p), g.eq(b, q))
    spec = ite(tm.eq0(D), shared, meet)
    hv = predicate(c, g, "segments", "two segments meet", "LineSegment", "intersection_with_segment", s, (t,), spec, opt=tm.has_value)
    if hv is not None:
        f = c.P.need("LineSegment::intersection_with_segment", 1)
        for nm, m in crossing_cases(g, a, b, p, q):
            c.judge("segments", "two segments meet (%s)" % nm, f.where(), same(tm.subst(hv, m), tm.subst(spec, m)))
    # corners: decided through the public visibility test (see E09), reflexness itself where it is a function of its own
    v1, v2, v3 = (g.coord(k) for k in ("v1", "v2", "v3"))
    k = g.make("ThreeVertexPolyline", v1, v2, v3)
    fr = c.P.fn("ThreeVertexPolyline::is_reflex", 0)
    if k is not None and fr is not None:
        predicate(c, g, "corners", "a corner is reflex", "ThreeVertexPolyline", "is_reflex", k, (), tm.lt(g.cross(g.minus(v2, v1), g.minus(v3, v2)), const(0)))


def sgn(d):
    return ite(tm.eq0(d), const(0), ite(tm.lt(const(0), d), const(1), const(-1)))


def small(name, lo=-6, hi=6):
    return tm.sym(name, "i", (lo, hi))


def lines(g, a, b, p):
    """substitutions that put p on the line through a and b, or leave everything small"""
    k, j, dx, dy = small("k"), small("j", 1, 4), small("dx", -4, 4), small("dy", -4, 4)
    x0, y0 = small("x0"), small("y0")
    A = {g.x(a): x0, g.y(a): y0}
    return [
        ("points on its line", {**A, g.x(b): tm.add(x0, tm.mul(j, dx)), g.y(b): tm.add(y0, tm.mul(j, dy)),
                                g.x(p): tm.add(x0, tm.mul(k, dx)), g.y(p): tm.add(y0, tm.mul(k, dy))}),
        ("small coordinates", {**A, g.x(b): small("x1"), g.y(b): small("y1"), g.x(p): small("x2"), g.y(p): small("y2")}),
    ]


def crossing_cases(g, a, b, p, q):
    out = []
    x = [small("sx%d" % i) for i in range(4)]
    y = [small("sy%d" % i) for i in range(4)]
    pts = (a, b, p, q)
    base = {}
    for i, t in enumerate(pts):
        base[g.x(t)], base[g.y(t)] = x[i], y[i]
    out.append(("small coordinates", base))
    # p on the line a b
    k, dx, dy = small("k", -2, 4), small("dx", -4, 4), small("dy", -4, 4)
    m = dict(base)
    m[g.x(b)], m[g.y(b)] = tm.add(x[0], tm.mul(const(2), dx)), tm.add(y[0], tm.mul(const(2), dy))
    m[g.x(p)], m[g.y(p)] = tm.add(x[0], tm.mul(k, dx)), tm.add(y[0], tm.mul(k, dy))
    out.append(("an endpoint on the other's line", m))
    # parallel segments
    m = dict(base)
    j = small("j", -3, 3)
    m[g.x(b)], m[g.y(b)] = tm.add(x[0], dx), tm.add(y[0], dy)
    m[g.x(q)], m[g.y(q)] = tm.add(x[2], tm.mul(j, dx)), tm.add(y[2], tm.mul(j, dy))
    out.append(("parallel segments", m))
    for i, (s, t) in enumerate(((a, p), (a, q), (b, p), (b, q))):
        m = dict(base)
        m[g.x(t)], m[g.y(t)] = base[g.x(s)], base[g.y(s)]
        out.append(("shared endpoint %d" % (i + 1), m))
    # collinear, with an endpoint in common
    for i, (s, t) in enumerate(((a, p), (a, q), (b, p), (b, q))):
        s2, t2 = (b if s is a else a), (q if t is p else p)
        m = dict(base)
        m[g.x(s)], m[g.y(s)] = x[0], y[0]
        m[g.x(t)], m[g.y(t)] = x[0], y[0]
        m[g.x(s2)], m[g.y(s2)] = tm.add(x[0], dx), tm.add(y[0], dy)
        m[g.x(t2)], m[g.y(t2)] = tm.add(x[0], tm.mul(j, dx)), tm.add(y[0], tm.mul(j, dy))
        out.append(("collinear with shared endpoint %d" % (i + 1), m))
    return out


# ------------------------------------------------------------------ equality and hashing
def e03(c):
    g = Geo(c)
    if not g.ready(c):
        return
    P = c.P
    for n in ("Coordinate", "LineSegment", "Polygon"):
        P.need(n + "::operator==", 1)
        P.need("std::hash<%s>::operator()" % n, 1)
    a, b = g.coord("a"), g.coord("b")

    def equality(cls, x, y, spec, cases=()):
        r, f = g.run(cls, "operator==", x, (y,))
        c.judge("equality", "%s equality decides on all of the content" % cls, f.where(), same(r.value, spec))
        for nm, m in cases:
            c.judge("equality", "%s equality decides on all of the content (%s)" % (cls, nm), f.where(), same(tm.subst(r.value, m), tm.subst(spec, m)))
        fn = P.fn(cls + "::operator!=", 1)
        if fn is not None:
            rn, _ = g.run(cls, "operator!=", x, (y,))
            c.judge("equality", "%s inequality is the negation of equality" % cls, fn.where(), same(rn.value, not_(r.value)))
            for nm, m in cases:
                c.judge("equality", "%s inequality is the negation of equality (%s)" % (cls, nm), fn.where(), same(tm.subst(rn.value, m), tm.subst(not_(spec), m)))

    def hashed(cls, x):
        f = P.need("std::hash<%s>::operator()" % cls, 1)
        c.saw(f)
        w = World(P)
        r = w.call(f, w.place("this", tm.rec("std::hash<%s>" % cls, [])), (x,))
        return r, f

    def pure(cls, r, f, inputs):
        """the value is a function of the given inputs alone"""
        if r.value is None or tm.is_opaque(r.value):
            c.unk("hash", "%s hash is a function of the content" % cls, f.where(), "not interpreted")
            return False
        extra = [s for s in tm.free(r.value) if s not in inputs and not str(s.a[0]).startswith("$")]
        if extra:
            known = all(str(s.a[0]).startswith(("this", "g:")) or "." in str(s.a[0]) for s in extra)
            (c.bad if known else c.unk)("hash", "%s hash is a function of the content" % cls, f.where(), "also depends on %s" % ", ".join(tm.show(s) for s in extra[:3]))
            return False
        c.ok("hash", "%s hash is a function of the content compared by equality" % cls, f.where())
        return True

    # coordinates
    m1 = {g.x(b): g.x(a), g.y(b): g.y(a)}
    equality("Coordinate", a, b, g.eq(a, b), [("equal", m1), ("equal longitudes", {g.x(b): g.x(a)}), ("equal latitudes", {g.y(b): g.y(a)})])
    r, f = hashed("Coordinate", a)
    pure("Coordinate", r, f, {g.x(a), g.y(a)})
    # segments
    p, q = g.coord("p"), g.coord("q")
    s, t, sw = g.make("LineSegment", a, b), g.make("LineSegment", p, q), g.make("LineSegment", b, a)
    cases = []
    X = {"a": a, "b": b, "p": p, "q": q}

    def ident(pairs):
        m = {}
        for u, v in pairs:
            m[g.x(X[u])], m[g.y(X[u])] = g.x(X[v]), g.y(X[v])
        return m
    for nm, pr in (("same direction", [("p", "a"), ("q", "b")]), ("opposite direction", [("p", "b"), ("q", "a")]), ("one endpoint shared", [("p", "a")]),
                   ("other endpoint shared", [("q", "b")]), ("first with second", [("q", "a")]), ("second with first", [("p", "b")]),
                   ("degenerate against proper", [("p", "a"), ("q", "a")]), ("proper against degenerate", [("b", "a"), ("p", "a")])):
        cases.append((nm, ident(pr)))
    for nm, pr in (("equal longitudes", None),):
        m = {g.x(p): g.x(a), g.x(q): g.x(b)}
        cases.append((nm, m))
        cases.append(("equal latitudes", {g.y(p): g.y(a), g.y(q): g.y(b)}))
        cases.append(("equal longitudes crosswise", {g.x(p): g.x(b), g.x(q): g.x(a), g.y(p): g.y(b)}))
        cases.append(("equal latitudes crosswise", {g.y(p): g.y(b), g.y(q): g.y(a), g.x(p): g.x(b)}))
    spec = or_(and_(g.eq(a, p), g.eq(b, q)), and_(g.eq(a, q), g.eq(b, p)))
    equality("LineSegment", s, t, spec, cases)
    r, f = hashed("LineSegment", s)
    r2, _ = hashed("LineSegment", sw)
    if pure("LineSegment", r, f, {g.x(a), g.y(a), g.x(b), g.y(b)}):
        c.judge("hash", "a segment and its reverse have the same hash", f.where(), same(r.value, r2.value))
    # polygons
    w = World(P)
    w.obj("Polygon", "p1")
    w.obj("Polygon", "p2")
    gv = P.need("Polygon::get_vertices", 0)
    V1, V2 = (value_of(w, w.call(gv, n)) for n in ("p1", "p2"))
    f = P.need("Polygon::operator==", 1)
    c.saw(f, gv)
    r = w.call(f, "p1", ("p2",))
    if V1 is None or V2 is None or r.value is None:
        c.unk("equality", "Polygon equality decides on all of the content", f.where(), "not interpreted")
    else:
        i = tm.fresh("i", "i", (0, 1 << 40))
        spec = and_(eqt(tm.ln(V1), tm.ln(V2)), tm.bind("forall", i, tm.ln(V1), g.eq(tm.at(V1, i), tm.at(V2, i))))
        c.judge("equality", "Polygon equality compares all vertices in order", f.where(), same(r.value, spec))
        rn = w.call(P.need("Polygon::operator!=", 1), "p1", ("p2",))
        c.judge("equality", "Polygon inequality is the negation of equality", f.where(), same(rn.value, not_(spec)))
    f = P.need("std::hash<Polygon>::operator()", 1)
    w2 = World(P)
    w2.obj("Polygon", "p1")
    r = w2.call(f, w2.place("this", tm.rec("std::hash<Polygon>", [])), ("p1",))
    c.saw(f)
    if r.value is None or V1 is None or tm.is_opaque(r.value):
        c.unk("hash", "Polygon hash is a function of the vertices", f.where(), "not interpreted")
    else:
        S = tm.sym("the vertices")
        hv = replace(r.value, {V1: S})
        rest = [x for x in tm.free(hv) if x is not S]
        if rest:
            ok = any(x.a[0] == "p1" for x in rest)
            (c.bad if ok else c.unk)("hash", "Polygon hash is a function of the vertices", f.where(), "also depends on %s" % ", ".join(tm.show(x) for x in rest[:3]))
        else:
            c.ok("hash", "Polygon hash is a function of the vertices compared by equality", f.where())
    # polygons of three vertices, written out
    fe, fh = P.need("Polygon::operator==", 1), P.need("std::hash<Polygon>::operator()", 1)
    v = [g.coord("v%d" % k) for k in range(3)]
    d = g.coord("d")
    for nm, other in (("itself", v), ("one starting at the second vertex", [v[1], v[2], v[0]]), ("one starting at the third vertex", [v[2], v[0], v[1]]),
                      ("its reverse", [v[2], v[1], v[0]]), ("one with another first vertex", [d, v[1], v[2]]), ("one with another last vertex", [v[0], v[1], d]),
                      ("one with a vertex less", v[:2]), ("one with a vertex more", v + [d])):
        p1, p2 = outline_polygon(c, v), outline_polygon(c, other)
        if p1 is None or p2 is None:
            c.unk("equality", "polygons of three vertices", fe.where(), "representation not interpreted")
            break
        w = World(P)
        w.place("p1", p1)
        w.place("p2", p2)
        q = w.call(fe, "p1", ("p2",)).value
        spec = FALSE if len(other) != 3 else and_(*[g.eq(x, y) for x, y in zip(v, other)])
        c.judge("equality", "a triangle against " + nm, fe.where(), same(q, spec) if q is not None else ("unknown", "no value"))
        h = []
        for n in ("p1", "p2"):
            r = w.call(fh, w.place("this", tm.rec("std::hash<Polygon>", [])), (n,))
            h.append(r.value)
        if q is None or None in h:
            c.unk("hash", "a triangle and " + nm + " hash alike if equal", fh.where(), "no value")
        else:
            c.judge("hash", "a triangle and " + nm + " hash alike if equal", fh.where(), same(or_(not_(q), eqt(h[0], h[1])), TRUE, known={"hash"} | vocab(h[0])))
    # visible vertices: equality only
    f = P.fn("VisibleVertex::operator==", 1)
    if f is not None:
        w3 = World(P)
        w3.obj("VisibleVertex", "u")
        w3.obj("VisibleVertex", "v")
        r = w3.call(f, "u", ("v",))
        U, V = w3.S.env[("arg", "u")], w3.S.env[("arg", "v")]
        spec = TRUE
        for fl, sort, _, rec in tm.RECORDS["VisibleVertex"]:
            x, y = tm.fld(U, fl, sort), tm.fld(V, fl, sort)
            spec = and_(spec, g.eq(x, y) if rec == "Coordinate" else eqt(x, y))
        c.saw(f)
        c.judge("equality", "visible vertices are equal exactly when vertex and flag are", f.where(), same(r.value, spec))


def value_of(w, r):
    v = r.value
    if isinstance(v, LV):
        v = w.ev.load(r.S, v)
    return v


# ------------------------------------------------------------------ vector arithmetic
def e06(c):
    g = Geo(c)
    P = c.P
    if not g.ready(c):
        return
    a, b = g.coord("a"), g.coord("b")
    k = tm.sym("k", "r")
    rnd = lambda t: tm.mk("f2i", app("round", t, sort="r"), sort="i")
    sc = lambda t, x: rnd(tm.mul(tm.i2r(t), x))
    deg = Fraction(1, 1000000)
    D = lambda t: tm.mul(const(deg, "r"), tm.i2r(t))
    msq = tm.add(tm.mul(D(g.x(a)), D(g.x(a))), tm.mul(D(g.y(a)), D(g.y(a))))

    def op(what, meth, args, spec, pred=None):
        r, f = g.run("Coordinate", meth, a, args, pred=pred)
        v = value_of2(r)
        if v is None:
            c.unk("arithmetic", what, f.where(), "no value")
            return None
        if isinstance(spec, tuple):
            for nm, get, sp in (("longitude", g.x, spec[0]), ("latitude", g.y, spec[1])):
                c.judge("arithmetic", "%s: %s" % (what, nm), f.where(), same(get(v), sp, fits(sp)))
        else:
            c.judge("arithmetic", what, f.where(), same(v, spec))
        return v

    def fits(sp):
        """a rounded coordinate that does not fit the type has no specified value"""
        if not any(x.op == "f2i" for x in tm.walk(sp)):
            return TRUE
        return and_(tm.le(const(-(1 << 31)), sp), tm.le(sp, const((1 << 31) - 1)))
    op("sum", "operator+", (b,), (tm.add(g.x(a), g.x(b)), tm.add(g.y(a), g.y(b))))
    op("difference", "operator-", (b,), (tm.sub(g.x(a), g.x(b)), tm.sub(g.y(a), g.y(b))))
    op("negation", "operator-", (), (tm.neg(g.x(a)), tm.neg(g.y(a))))
    op("product with a scalar", "operator*", (k,), (sc(g.x(a), k), sc(g.y(a), k)))
    op("quotient by a scalar", "operator/", (k,), (sc(g.x(a), tm.rdiv(const(1, "r"), k)), sc(g.y(a), tm.rdiv(const(1, "r"), k))))
    op("latitude in degrees", "get_latitude", (), D(g.y(a)))
    op("longitude in degrees", "get_longitude", (), D(g.x(a)))
    for m, t in (("get_latitude_microdegrees", g.y(a)), ("get_longitude_microdegrees", g.x(a)), ("get_latitude_microdegrees_long", g.y(a)),
                 ("get_longitude_microdegrees_long", g.x(a))):
        if P.fn("Coordinate::" + m, 0) is not None:
            op(m.replace("get_", "").replace("_", " "), m, (), t)
    op("dot product", "dot_product", (b,), tm.add(tm.mul(D(g.x(a)), D(g.x(b))), tm.mul(D(g.y(a)), D(g.y(b)))))
    op("cross product", "cross_product_magnitude", (b,), tm.sub(tm.mul(D(g.x(a)), D(g.y(b))), tm.mul(D(g.x(b)), D(g.y(a)))))
    op("squared magnitude", "magnitude_squared", (), msq)
    op("magnitude", "magnitude", (), tm.mk("sqrt", msq, sort="r"))
    f = P.fn("Coordinate::angle_to_horizontal", 0)
    if f is not None:
        r, f = g.run("Coordinate", "angle_to_horizontal", a, ())
        at2 = app("atan2", tm.i2r(g.y(a)), tm.i2r(g.x(a)), sort="r")
        full = const(Fraction(3141592653589793, 500000000000000), "r")
        c.judge("arithmetic", "angle to the horizontal is the arc tangent brought into [0, 2 pi)", f.where(),
                same(r.value, ite(tm.lt(at2, const(0, "r")), tm.add(at2, full), at2)))
    # constructors
    for kind, what in (("float", "degrees"), ("int", "microdegrees")):
        fs, f = ctor_fields(c, "Coordinate", 2, lambda f, kind=kind: all(f.pty(i).k == kind for i in range(2)))
        if fs is None:
            c.unk("construction", "coordinate from " + what, f.where(), "constructor not understood")
            continue
        for nm, fld, i in (("longitude", g.lon, 0), ("latitude", g.lat, 1)):
            p = tm.sym("p%d" % i, "r" if kind == "float" else "i")
            want = p if kind == "int" else tm.mk("f2i", tm.mul(const(1000000, "r"), p), sort="i")
            got = fs.get(fld)
            v = same(got, want)
            if v[0] == "unknown" and got is not None:
                # whatever the rounding, the argument of the other axis must not be involved
                fr = tm.free(got)
                if tm.sym("p%d" % (1 - i), p.sort) in fr and p not in fr:
                    v = ("no", "built from the other argument")
            c.judge("construction", "coordinate from %s: %s" % (what, nm), f.where(), v)
    # parallel vectors: the factor takes this vector to the other
    f = P.fn("Coordinate::scalar_multiple_factor", 1)
    if f is not None:
        x, y, m, n = small("x"), small("y"), small("m"), small("n")
        u = g.coord("", lon=tm.mul(m, x), lat=tm.mul(m, y))
        v = g.coord("", lon=tm.mul(n, x), lat=tm.mul(n, y))
        r, f = g.run("Coordinate", "scalar_multiple_factor", u, (v,))
        if r.value is None:
            c.unk("arithmetic", "factor between parallel vectors", f.where(), "no value")
        else:
            nz = not_(and_(tm.eq0(g.x(u)), tm.eq0(g.y(u))))
            c.judge("arithmetic", "parallel vectors have a factor", f.where(), valid(tm.has_value(r.value)))
            k = tm.opt_value(r.value, "r")
            for nm, get in (("longitude", g.x), ("latitude", g.y)):
                c.judge("arithmetic", "factor times this vector is the other one: %s" % nm, f.where(),
                        same(tm.mul(k, tm.i2r(get(u))), tm.i2r(get(v)), nz))
        r, f = g.run("Coordinate", "scalar_multiple_factor", a, (b,))
        if r.value is not None:
            c.judge("arithmetic", "only parallel vectors have a factor", f.where(), same(tm.has_value(r.value), tm.eq0(g.cross(a, b))))
    # segments
    s = g.make("LineSegment", a, b)
    if s is not None:
        for m, want in (("get_endpoint_1", a), ("get_endpoint_2", b), ("get_tangent_vector", g.minus(b, a))):
            r, f = g.run("LineSegment", m, s, ())
            c.judge("arithmetic", "segment: " + m.replace("get_", "").replace("_", " "), f.where(), both(g, value_of2(r), want))
        p = g.coord("p")
        r, f = g.run("LineSegment", "get_adjacent_to", s, (p,))
        if r.value is not None:
            for nm, m, want in (("of the first endpoint", {g.x(p): g.x(a), g.y(p): g.y(a)}, b), ("of the second endpoint", {g.x(p): g.x(b), g.y(p): g.y(b)}, a)):
                asm = not_(g.eq(a, b))
                c.judge("arithmetic", "segment: other endpoint " + nm, f.where(), both(g, tm.subst(r.value, m), want, asm))
    # the crossing point
    q = g.coord("q")
    p = g.coord("p")
    t = g.make("LineSegment", p, q)
    if s is not None and t is not None:
        r, f = g.run("LineSegment", "intersection_with_segment", s, (t,))
        if r.value is not None:
            n, mm = g.minus(b, a), g.minus(p, q)
            Dn = g.cross(n, mm)
            Q = g.cross(g.minus(p, a), mm)
            ratio = tm.rdiv(tm.i2r(Q), tm.i2r(Dn))
            val = tm.opt_value(r.value)
            for nm, get in (("longitude", g.x), ("latitude", g.y)):
                want = tm.add(get(a), sc(get(n), ratio))
                got = get(val)
                for case, m in crossing_cases(g, a, b, p, q)[:1] + [("far apart", far_points(g, (a, b, p, q)))]:
                    asm = and_(tm.subst(tm.has_value(r.value), m), tm.subst(not_(tm.eq0(Dn)), m))
                    c.judge("crossing point", "crossing of two segments: " + nm, f.where(), same(tm.subst(got, m), tm.subst(want, m), asm, n=1500, need=8))
            # parallel segments: the shared endpoint
            for case, m in crossing_cases(g, a, b, p, q):
                if "shared" in case and "collinear" in case:
                    asm = tm.subst(tm.has_value(r.value), m)
                    pt = tm.subst(val, m)
                    ok = or_(*[and_(g.eq(pt, tm.subst(e, m)), or_(*[g.eq(pt, tm.subst(d, m)) for d in (p, q)])) for e in (a, b)])
                    c.judge("crossing point", "parallel segments meet in an endpoint of both", f.where(), valid(ok, asm))


def far_points(g, pts):
    """points all over the world, in microdegrees"""
    m = {}
    for i, p in enumerate(pts):
        m[g.x(p)] = tm.add(tm.mul(small("fx%d" % i), const(25000003)), small("fu%d" % i))
        m[g.y(p)] = tm.add(tm.mul(small("fy%d" % i), const(13000001)), small("fv%d" % i))
    return m


def both(g, v, want, asm=TRUE):
    if v is None:
        return "unknown", "no value"
    for get in (g.x, g.y):
        r = same(get(v), get(want), asm)
        if r[0] != "yes":
            return r
    return "yes", None


def value_of2(r):
    v = r.value
    return None if isinstance(v, LV) else v


# ------------------------------------------------------------------ periodicity
HALF = 180000000


def e02(c):
    P = c.P
    g = Geo(c)
    for n in ("periodic_coordinates_from_coordinate", "is_coordinate_over_meridian", "coordinate_from_periodic_coordinate", "make_polygons_periodic",
              "make_coordinates_periodic", "make_segments_periodic"):
        P.need(n, 1)
    if not g.ready(c):
        return
    a = g.coord("a")

    def call(n, *args, opaque=()):
        f = P.need(n, len(args))
        c.saw(f)
        w = World(P, opaque=opaque)
        r = w.call(f, args=args)
        return r, f, w
    r, f, _ = call("periodic_coordinates_from_coordinate", a)
    L = r.value
    if L is None or L.op != "list":
        if L is None or tm.ln(L).op != "c":
            c.unk("copies", "periodic copies of a coordinate", f.where(), "not interpreted")
            return
    n = tm.ln(L)
    if n is not const(3):
        c.bad("copies", "a coordinate has exactly three periodic copies", f.where(), "length %s" % tm.show(n))
        return
    cp = [tm.at(L, const(i)) for i in range(3)]
    d = [tm.sub(g.x(t), g.x(a)) for t in cp]
    if not all(x.op == "c" for x in d):
        c.unk("copies", "periodic copies of a coordinate", f.where(), "longitudes not at constant distances")
        return
    dv = [x.a[0] for x in d]
    per = max(abs(x) for x in dv)
    good = dv == [0, per, -per] and per in (360000000, 360000001)
    if sorted(dv) == sorted([0, per, -per]) and per in (360000000, 360000001) and not good:
        # order matters only to the callers: they are checked below with the order found here
        pass
    (c.ok if sorted(dv) == [-per, 0, per] and per in (360000000, 360000001) else lambda r_, w_, l_: c.bad(r_, w_, l_, "offsets %s" % dv))(
        "copies", "the copies are the coordinate itself and one period to either side", f.where())
    for i, t in enumerate(cp):
        c.judge("copies", "copy %d keeps the latitude" % i, f.where(), same(g.y(t), g.y(a)))
    lon = g.x(a)
    # over the meridian, and normalisation, for every representable longitude
    a = g.coord("any", b=(1 << 31) - 1)
    lon = g.x(a)
    r, f, _ = call("is_coordinate_over_meridian", a)
    c.judge("meridian", "a coordinate is over the meridian exactly when outside [-180, 180]", f.where(),
            same(r.value, or_(tm.lt(lon, const(-HALF)), tm.lt(const(HALF), lon))))
    # normalisation
    r, f, _ = call("coordinate_from_periodic_coordinate", a)
    v = r.value
    if v is None:
        c.unk("normalisation", "normalised coordinate", f.where(), "no value")
    else:
        nl = g.x(v)
        c.judge("normalisation", "keeps the latitude", f.where(), same(g.y(v), g.y(a)))
        asm = TRUE
        c.judge("normalisation", "brings the longitude into [-180, 180]", f.where(), valid(and_(tm.le(const(-HALF), nl), tm.le(nl, const(HALF))), asm))
        c.judge("normalisation", "moves by whole periods", f.where(), valid(tm.eq0(tm.irem(tm.sub(nl, lon), const(per)))))
        c.judge("normalisation", "keeps a longitude already in range", f.where(),
                same(nl, lon, and_(tm.le(const(-HALF), lon), tm.le(lon, const(HALF)))))
        s = tm.sym("n.lon", "i", (-HALF, HALF))
        for i, off in enumerate(dv):
            c.judge("normalisation", "the copy at %d comes back to the original" % off, f.where(), same(tm.subst(nl, {lon: tm.add(s, const(off))}), s))
    # collections
    w0 = World(P)
    w0.obj("Polygon", "%q")
    i = tm.fresh("i", "i", (0, 1 << 40))
    j = tm.fresh("j", "i", (0, 1 << 40))

    def copies(t):
        return [g.coord("", lon=tm.add(g.x(t), const(x)), lat=g.y(t)) for x in dv]
    r, f, w = call("make_coordinates_periodic", "coordinates")
    X = tm.sym("coordinates")
    e = tm.at(X, i)
    tm.set_type(e, "Coordinate")
    want = tm.catmap(i, tm.ln(X), tm.lst(*copies(e)))
    c.judge("copies", "every coordinate of a list gets its copies, in order", f.where(), coords_same(g, r.value, want))
    r, f, w = call("make_segments_periodic", "segments", opaque=())
    X = tm.sym("segments")
    e = tm.at(X, i)
    tm.set_type(e, "LineSegment")
    ws = World(P)
    e1, e2 = (value_of2(ws.call(P.need("LineSegment::" + m, 0), ws.place("s", e))) for m in ("get_endpoint_1", "get_endpoint_2"))
    segs = []
    for x in dv:
        s = g.make("LineSegment", g.coord("", lon=tm.add(g.x(e1), const(x)), lat=g.y(e1)), g.coord("", lon=tm.add(g.x(e2), const(x)), lat=g.y(e2)))
        segs.append(tm.mk("box", s))
    want = tm.catmap(i, tm.ln(X), tm.lst(*segs))
    v = set_same(g, r.value, want)
    if v[0] != "yes":
        v = listed_copies(c, g, f, dv, "LineSegment", v)
    c.judge("copies", "every segment of a list gets its copies", f.where(), v)
    r, f, w = call("make_polygons_periodic", "polygons", opaque=("Polygon::Polygon",))
    X = tm.sym("polygons")
    e = tm.at(X, i)
    tm.set_type(e, "Polygon")
    wp = World(P)
    V = value_of(wp, wp.call(P.need("Polygon::get_vertices", 0), wp.place("s", e)))
    v = tm.at(V, j)
    polys = [app("Polygon::Polygon", tm.comp(j, tm.ln(V), TRUE, t)) for t in copies(v)]
    want = tm.catmap(i, tm.ln(X), tm.lst(*polys))
    got = r.value
    if got is not None:
        same_poly = lambda t: canonical_polys(t)
        got = under(got, [not_(tm.eq0(tm.ln(X)))])
        got, want = canonical_polys(got), canonical_polys(want)
    v = set_same(g, got, want)
    if v[0] != "yes":
        v = listed_copies(c, g, f, dv, "Polygon", v)
    c.judge("copies", "every polygon of a list gets its copies", f.where(), v)
    scan_flag(c, g)


def canonical_polys(t):
    """Polygon(vertices of p) is p (canonicalisation does not change a canonical polygon)"""
    m = {}
    for x in tm.walk(t):
        if x.op == "app" and x.a[0] == "Polygon::Polygon":
            a = x.a[1]
            if a.op == "comp" and a.a[2] is TRUE and a.a[3].op == "rec":
                srcs = {f.a[0] for _, f in a.a[3].a[1] if f.op == "fld"}
                if len(srcs) == 1:
                    s = srcs.pop()
                    if s.op == "at" and s.a[1] is a.a[0] and tm.ln(s.a[0]) is a.a[1] and all(f.op == "fld" and f.a[1] == k for k, f in a.a[3].a[1]):
                        a = s.a[0]
            if a.op == "deref" and a.a[0].op == "fld" and tm.type_of(a.a[0].a[0]) in ("Polygon", None):
                m[x] = a.a[0].a[0]
            elif a.op == "deref" and a.a[0].op == "fld":
                m[x] = a.a[0].a[0]
    return replace(t, m)


def coords_same(g, got, want):
    if got is None:
        return "unknown", "no value"
    return same(expand(g, got), expand(g, want))


def expand(g, t):
    """coordinates taken whole from a collection are written out by their components"""
    m = {}
    for x in tm.walk(t):
        if x.op == "list":
            for y in x.a:
                if y.op == "at" and tm.type_of(y) in ("Coordinate", None) and y.sort == "o":
                    m[y] = None
    if not m:
        return t

    def go(x):
        if x.op == "list":
            return tm.lst(*[g.coord("", lon=g.x(y), lat=g.y(y)) if y.op == "at" and y.sort == "o" else go(y) for y in x.a])
        if x.op == "catmap":
            return tm.catmap(x.a[0], x.a[1], go(x.a[2]))
        return x
    return go(t)


def listed_copies(c, g, f, dv, cls, verdict):
    """the copies of given lists, decided on their coordinates; the verdict is kept where all of them agree"""
    P = c.P
    M = 1000000
    num = lambda t: t.a[0] if t is not None and t.op == "c" else None
    if cls == "LineSegment":
        outs = [[(170, 10), (-175, 20)], [(0, 0), (5, 5)], [(179, -3), (180, 40)]]
        build = lambda pts: g.make("LineSegment", *pts)

        def read(t):
            w = World(P)
            return frozenset(pt(value_of2(w.call(P.need("LineSegment::" + m, 0), w.place("s", t)))) for m in ("get_endpoint_1", "get_endpoint_2"))
        canon = frozenset
    else:
        outs = [[(170, 10), (178, 12), (174, 20)], [(-3, -3), (3, -3), (3, 3), (-3, 3)], [(-179, -3), (-170, 2), (-180, 40)]]
        build = lambda pts: outline_polygon(c, pts)

        def read(t):
            w = World(P)
            v = value_of(w, w.call(P.need("Polygon::get_vertices", 0), w.place("s", t)))
            if v is None or v.op != "list":
                return None
            return canon([pt(x) for x in v.a])

        def canon(ps):
            return frozenset(tuple(ps[i:] + ps[:i]) for i in range(len(ps)))

    def pt(t):
        x, y = num(g.x(t)), num(g.y(t))
        if x is None or y is None:
            raise ValueError
        return (x, y)
    for k in (1, 2, 3):
        ins = [[(x * M, y * M) for x, y in o] for o in outs[-k:]]
        elems = [build([g.coord("", lon=const(x), lat=const(y)) for x, y in o]) for o in ins]
        if any(e is None for e in elems):
            return verdict
        for e in elems:
            tm.set_type(e, cls)
        w = World(P)
        r = w.call(f, args=(tm.lst(*elems),))
        v = value_of(w, r)
        if v is None or v.op != "list":
            return ("unknown", verdict[1])
        v = box_ptrs(w.ev, v, World(P).S, r.S)
        try:
            got = [read(unbox(g, x)) for x in v.a]
        except (ValueError, AttributeError):
            return ("unknown", verdict[1])
        if None in got:
            return ("unknown", verdict[1])
        want = [canon([(x + d, y) for x, y in o]) for o in ins for d in dv]
        for o in want:
            if got.count(o) != 1:
                return "no", "%d times among the copies of %s: %s" % (got.count(o), ins, sorted(o)[:1])
        if len(got) != len(want):
            return "no", "%d copies of %d" % (len(got), len(ins))
    return verdict if verdict[0] == "yes" else ("unknown", verdict[1])


def set_same(g, got, want):
    """two enumerations catmap(i < n, [..]) with the same elements per index, in any order"""
    if got is None:
        return "unknown", "no value"
    r = same(got, want)
    if r[0] == "yes":
        return r
    if got.op == "catmap" and want.op == "catmap":
        w2 = tm.subst(want.a[2], {want.a[0]: got.a[0]}) if want.a[0] is not got.a[0] else want.a[2]
        if got.a[2].op == "list" and w2.op == "list" and same(got.a[1], want.a[1])[0] == "yes":
            if len(got.a[2].a) != len(w2.a):
                return "no", "%d copies per element instead of %d" % (len(got.a[2].a), len(w2.a))
            left = list(w2.a)
            res = "yes", None
            for x in got.a[2].a:
                hit = None
                unk = False
                for y in left:
                    q = same(unbox(g, x), unbox(g, y))
                    if q[0] == "yes":
                        hit = y
                        break
                    unk = unk or q[0] == "unknown"
                if hit is None:
                    return ("unknown", "copy not interpreted") if unk else ("no", "no such copy: %s" % tm.show(x)[:200])
                left.remove(hit)
            return res
    return r if r[0] != "no" or got.op == "catmap" else ("unknown", "another shape")


def unbox(g, t):
    t = t.a[0] if t.op == "box" else t
    if tm.type_of(t) == "LineSegment" and t.op != "rec":
        fs = tm.RECORDS["LineSegment"]
        t = tm.rec("LineSegment", [(f, tm.fld(t, f)) for f, *_ in fs])
    if t.op == "rec" and t.a[0] == "LineSegment":
        return tm.rec("LineSegment", [(f, g.coord("", lon=g.x(v), lat=g.y(v))) for f, v in t.a[1]])
    return t


# ------------------------------------------------------------------ polygons
def outline(g, vs):
    """the vertices at which the outline turns, in order; the other way round if that is clockwise"""
    v = tm.sym("%0", "i")

    def nxt(i, n):
        return ite(tm.eq0(tm.sub(tm.add(i, const(1)), n)), const(0), tm.add(i, const(1)))

    def prv(i, n):
        return ite(tm.eq0(i), tm.sub(n, const(1)), tm.sub(i, const(1)))
    n = tm.ln(vs)
    A, B, C = tm.at(vs, prv(v, n)), tm.at(vs, v), tm.at(vs, nxt(v, n))
    ab, bc = g.minus(B, A), g.minus(C, B)
    keep = or_(not_(tm.eq0(g.cross(ab, bc))), tm.lt(g.dot(ab, bc), const(0)))
    ks = tm.comp(v, n, keep, B)
    m = tm.ln(ks)
    w = tm.sym("%1", "i")
    E, F = tm.at(ks, w), tm.at(ks, nxt(w, m))
    area2 = tm.sumt(w, m, tm.sub(tm.mul(g.x(E), g.y(F)), tm.mul(g.x(F), g.y(E))))
    return ite(tm.lt(area2, const(0)), tm.rev(ks), ks)


def e07(c):
    P = c.P
    g = Geo(c)
    ge = P.need("Polygon::get_vertices", 0)
    sg = P.need("Polygon::get_line_segments", 0)
    if not g.ready(c):
        return
    c.saw(sg)

    def far(pts):
        """the same outlines moved anywhere on the globe"""
        X, Y = tm.sym("moved.lon", "i", (-B1, B1)), tm.sym("moved.lat", "i", (-90000000, 90000000))
        m = {}
        for t in pts:
            m[g.x(t)], m[g.y(t)] = tm.add(X, g.x(t)), tm.add(Y, g.y(t))
        return m
    # edges
    w = World(P)
    th = w.obj("Polygon", "p")
    r, q = w.call(sg, th), w.call(ge, th)
    vs = q.value
    if isinstance(vs, LV):
        vs = w.ev.load(q.S, vs)
    if r.value is None or vs is None:
        c.unk("edges", "edges of a polygon", sg.where(), "no value")
    else:
        n = tm.ln(vs)
        c.judge("edges", "a polygon has as many edges as vertices", sg.where(), same(tm.ln(r.value), n))
        i = tm.sym("i", "i", (0, 1 << 20))
        e = tm.at(r.value, i)
        tm.set_type(e, "LineSegment")
        inr = and_(tm.ge(i, const(0)), tm.lt(i, n))
        nx = ite(tm.eq0(tm.sub(tm.add(i, const(1)), n)), const(0), tm.add(i, const(1)))
        w2 = World(P)
        se = w2.place("e", e)
        for m, at, what in (("get_endpoint_1", i, "starts at its vertex"), ("get_endpoint_2", nx, "ends at the next vertex, the last one at the first")):
            v = value_of2(w2.call("LineSegment::" + m, se))
            if v is None:
                c.unk("edges", "edge i of a polygon " + what, sg.where(), "no value")
                continue
            c.judge("edges", "edge i of a polygon " + what, sg.where(), same(v, tm.at(vs, at), inr))
            # and for each small polygon in full
        for k in range(0, 7):
            pts = [g.coord("v%d" % j) for j in range(k)]
            m = {vs: tm.lst(*pts) if pts else tm.EMPTY}
            segs = [g.make("LineSegment", pts[j], pts[(j + 1) % k]) for j in range(k)]
            c.judge("edges", "edges of a polygon of %d vertices" % k, sg.where(), same(replace(r.value, m), tm.lst(*segs) if segs else tm.EMPTY))
    # construction
    ctors = [f for f in P.by_qn.get("Polygon::Polygon", ()) if len(f.params()) == 1 and f.pty(0).noref().rec() in ("std::vector", "std::initializer_list")]
    if not ctors:
        from ..program import AnalysisBroken
        raise AnalysisBroken("no constructor of Polygon takes a list of vertices")
    for f in ctors:
        c.saw(f)
        what = "polygon from a " + f.pty(0).noref().rec().split("::")[-1]
        w = World(P)
        vs = tm.sym("vertices")
        tm.set_type(vs, "std::vector<Coordinate>")
        r = w.call(f, args=("vertices",))
        if r.S is None or r.S.env.get(("arg", "this")) is None:
            c.unk("construction", what, f.where(), "no normal return")
            continue
        q = w.call(ge, LV(("arg", "this"), (), None), S=r.S)
        got = q.value
        if isinstance(got, LV):
            got = w.ev.load(q.S, got)
        arg = r.args[0] if getattr(r, "args", None) else None
        src = [x for x in tm.walk(got) if x.op == "sym" and x.a[0] == f.params()[0]["n"] or (x.op == "sym" and x.a[0] == "vertices")] if got is not None else []
        if not src:
            # the loop has no closed form: follow it through for a few vertices
            for k in (3, 4):
                pts = [g.coord("", lon=small("x%d" % j, -3, 3), lat=small("y%d" % j, -3, 3)) for j in range(k)]
                l = tm.lst(*pts)
                tm.set_type(l, "std::vector<Coordinate>")
                w = World(P)
                r = w.call(f, args=(l,))
                q = w.call(ge, LV(("arg", "this"), (), None), S=r.S) if r.S is not None else None
                got = q.value if q is not None else None
                if isinstance(got, LV):
                    got = w.ev.load(q.S, got)
                if got is None:
                    c.unk("construction", what + " of %d vertices" % k, f.where(), "no value")
                else:
                    c.judge("construction", what + " of %d vertices" % k, f.where(), same(got, outline(g, l), n=300))
                    m = far(pts)
                    c.judge("construction", what + " of %d vertices close together, anywhere" % k, f.where(), same(tm.subst(got, m), tm.subst(outline(g, l), m), n=300))
            continue
        vs = src[0]
        c.judge("construction", what + ": drops straight-on vertices, keeps the order, turns clockwise outlines around", f.where(), same(got, outline(g, vs), n=600))
        for k in range(0, 7):
            pts = [g.coord("", lon=small("x%d" % j, -3, 3), lat=small("y%d" % j, -3, 3)) for j in range(k)]
            m = {vs: tm.lst(*pts) if pts else tm.EMPTY}
            c.judge("construction", what + " of %d vertices" % k, f.where(), same(replace(got, m), outline(g, m[vs]), n=300))
            if 3 <= k <= 4:
                f2 = far(pts)
                c.judge("construction", what + " of %d vertices close together, anywhere" % k, f.where(),
                        same(tm.subst(replace(got, m), f2), tm.subst(outline(g, m[vs]), f2), n=300))


# ------------------------------------------------------------------ scans
def outline_polygon(c, pts):
    """a Polygon value whose vertices are exactly these (already canonical ones)"""
    fs = tm.RECORDS.get("Polygon", ())
    if len(fs) != 1:
        return None
    n, _, _, ty = (list(fs[0]) + [None] * 4)[:4]
    l = tm.lst(*pts) if pts else tm.EMPTY
    v = {"std::shared_ptr": tm.mk("box", l), "std::unique_ptr": tm.mk("box", l), "std::vector": l}.get(ty)
    if v is None:
        return None
    t = tm.rec("Polygon", [(n, v)])
    tm.set_type(t, "Polygon")
    return t


def scan(c, polys, observer, opaque, half=FALSE):
    """value and result of VistreeGenerator(polys).get_visible_vertices(observer, half)"""
    P = c.P
    fs = [f for f in P.by_qn.get("VistreeGenerator::VistreeGenerator", ()) if len(f.params()) == 1 and "Polygon" in f.pty(0).s]
    gv = P.need("VistreeGenerator::get_visible_vertices", 2)
    if not fs:
        return None, None, gv
    w = World(P, opaque=opaque)
    r = w.call(fs[0], args=(tm.lst(*polys),))
    if r.S is None:
        return None, None, gv
    q = w.call(gv, LV(("arg", "this"), (), None), (observer, half), S=r.S)
    return q.value, q, gv


NORMAL, OVER, PV = "coordinate_from_periodic_coordinate", "is_coordinate_over_meridian", "ThreeVertexPolyline::point_visible"


def reported(v):
    """(guard, coord, flag, sequence) of everything a scan may report"""
    out = []

    def rec(t, g):
        if t.op == "comp" and t.a[3].op == "rec":
            out.append((and_(g, t.a[2]), t.a[3], t))
        elif t.op == "list":
            out.extend((g, x, t) for x in t.a)
        elif t.op == "ite":
            rec(t.a[1], and_(g, t.a[0]))
            rec(t.a[2], and_(g, not_(t.a[0])))
        elif t.op == "cat":
            for x in t.a:
                rec(x, g)
        elif t.op in ("sub", "slice", "take", "rev"):
            rec(t.a[0], g)
        else:
            raise ValueError(t.op)
    rec(v, TRUE)
    return out


def scan_flag(c, g):
    P = c.P
    for meth in ("get_visible_vertices", "get_visible_vertices_from_candidate_segments"):
        f = P.fn("VistreeGenerator::" + meth)
        if f is None:
            c.unk("scan", meth, None, "no such function")
            continue
        c.saw(f)
        w = World(P, opaque=(NORMAL, OVER))
        r = w.call(f, w.obj("VistreeGenerator", "this"))
        recs = {x for x in tm.walk(r.value) if x.op == "rec" and x.a[0] == "VisibleVertex"} if r.value is not None else ()
        if not recs:
            c.unk("scan", meth + ": what is reported", f.where(), "no value")
            continue
        fo = P.need(OVER, 1)
        for t in recs:
            d = dict(t.a[1])
            co = next((v for k, v in d.items() if v.sort != "b"), None)
            fl = next((v for k, v in d.items() if v.sort == "b"), None)
            if co is None or fl is None or co.op != "app" or co.a[0] != NORMAL:
                if co is not None and co.op == "at":
                    c.bad("scan", meth + ": the vertex reported is the one seen, normalised", f.where(), "reported without normalisation: %s" % tm.show(co)[:120])
                else:
                    c.unk("scan", meth + ": the vertex reported is the one seen, normalised", f.where(), tm.show(co)[:120] if co is not None else "")
                continue
            c.ok("scan", meth + ": the vertex reported is the one seen, normalised", f.where())
            x = co.a[1]
            w2 = World(P)
            sx = tm.sym("seen")
            tm.set_type(sx, "Coordinate")
            spec = w2.call(fo, args=(sx,)).value
            a = tm.app(OVER, x, sort="b")
            got = replace(fl, {a: spec, x: sx})
            others = [y for y in tm.walk(got) if y.op == "app" and y.a[0] in (OVER, NORMAL)]
            if others:
                y = others[0].a[1]
                if y.op == "app" and y.a[0] == NORMAL or y is tm.sym("observer"):
                    c.bad("scan", meth + ": the flag tells whether the vertex seen lies outside [-180, 180]", f.where(), "taken of %s" % tm.show(y)[:120])
                else:
                    c.unk("scan", meth + ": the flag tells whether the vertex seen lies outside [-180, 180]", f.where(), "taken of %s" % tm.show(y)[:120])
            else:
                c.judge("scan", meth + ": the flag tells whether the vertex seen lies outside [-180, 180]", f.where(), same(got, spec))


def e09(c):
    P = c.P
    g = Geo(c)
    fp = P.need(PV, 1)
    P.need("ThreeVertexPolyline::ThreeVertexPolyline", 3)
    if not g.ready(c):
        return
    v1, v2, v3, p = (g.coord(k) for k in ("v1", "v2", "v3", "p"))
    k = g.make("ThreeVertexPolyline", v1, v2, v3)
    if k is None:
        c.unk("corner", "construction of a corner", fp.where(), "not understood")
        return

    def corner(v1, v2, v3, p):
        a, b, d = g.minus(v1, v2), g.minus(v3, v2), g.minus(p, v2)
        z = const(0)
        wall = lambda e: and_(tm.eq0(g.cross(e, d)), tm.ge(g.dot(e, d), z), tm.le(g.dot(e, d), g.dot(e, e)))
        conv = and_(tm.lt(z, g.cross(b, d)), tm.lt(z, g.cross(d, a)))
        ray = lambda e: and_(tm.eq0(g.cross(e, d)), tm.lt(z, g.dot(e, d)))
        outside = ite(tm.lt(z, g.cross(b, a)), not_(or_(conv, ray(a), ray(b))), and_(tm.lt(z, g.cross(a, d)), tm.lt(z, g.cross(d, b))))
        return or_(wall(a), wall(b), outside), and_(not_(tm.eq0(g.cross(b, a))), not_(g.eq(p, v2)))
    r, f = g.run("ThreeVertexPolyline", "point_visible", k, (p,), exact=True)
    if r.value is None:
        c.unk("corner", "what a corner hides", f.where(), "no value")
    else:
        arithmetic(c, "corner", "what a corner hides", f, r)
        v = r.value
        for nm, m in corner_cases(g, v1, v2, v3, p):
            spec, asm = corner(*(tm.subst(x, m) for x in (v1, v2, v3, p)))
            bad = []
            ve = unround(tm.subst(v, m), bad)
            c.judge("corner", "from a vertex exactly the points off the land of its corner, and along its two edges, are in view (%s)" % nm, f.where(),
                    same(ve, spec, asm, n=1200))
    # the scan applies it to the corner at the observer
    for n in (3, 4):
        pts = [g.coord("q%d" % i) for i in range(n)]
        poly = outline_polygon(c, pts)
        if poly is None:
            c.unk("scan", "corner at the observer", None, "representation of Polygon")
            break
        for i in ((0, 1, n - 1) if n == 3 else (2,)):
            what = "a scan from vertex %d of a polygon with %d vertices reports nothing its corner hides" % (i, n)
            v, q, fg = scan(c, [poly], pts[i], (PV, NORMAL, OVER))
            c.saw(fg)
            if v is None:
                c.unk("scan", what, fg.where(), "no value")
                continue
            distinct = [not_(g.eq(a, b)) for x, a in enumerate(pts) for b in pts[x + 1:]]
            try:
                rep = reported(v)
            except ValueError as e:
                c.unk("scan", what, fg.where(), "result is a %s" % e)
                continue
            for gd, el, _ in rep:
                co = next((y for _, y in el.a[1] if y.sort != "b"), None) if el.op == "rec" else None
                if co is None or co.op != "app" or co.a[0] != NORMAL:
                    c.unk("scan", what, fg.where(), "reported value not recognised")
                    continue
                x = co.a[1]
                sx = g.coord("x")
                gd = replace(gd, {x: sx})
                gd = under(gd, distinct)
                pv = [y for y in tm.walk(gd) if y.op == "app" and y.a[0] == PV]
                if not pv:
                    if not any(e.kind == "call" and e.a and e.a[0] == PV for e in q.S.ev) and PV not in called(P):
                        c.bad("scan", what, fg.where(), "the corner at the observer is never consulted")
                    else:
                        c.unk("scan", what, fg.where(), "no use of the corner rule")
                    continue
                want = g.make("ThreeVertexPolyline", pts[i - 1], pts[i], pts[(i + 1) % n])
                st = "yes", None
                for y in pv:
                    a = under(y.a[1], distinct)
                    if a is not want:
                        s = same_rec(g, a, want, and_(*distinct))
                        st = s if s[0] != "yes" else st
                    if y.a[2] is not sx:
                        st = ("unknown", "applied to %s" % tm.show(y.a[2])[:80])
                if st[0] == "yes" and replace(gd, {y: FALSE for y in pv}) is not FALSE:
                    st = ("no", "a vertex is reported although the corner hides it")
                c.judge("scan", what, fg.where(), st)


def called(P):
    out = set()
    for f in P.fns.values():
        out.update(calls_in(f.o.get("body")))
    return out


def calls_in(o):
    if isinstance(o, dict):
        if o.get("k") == "call" and o.get("n"):
            yield ("%s::%s" % (o["cls"], o["n"])) if o.get("cls") else o["n"]
        for v in o.values():
            yield from calls_in(v)
    elif isinstance(o, list):
        for v in o:
            yield from calls_in(v)


def same_rec(g, a, b, asm):
    if a.op != "rec" or b.op != "rec" or len(a.a[1]) != len(b.a[1]):
        return "unknown", "corner not in the recognised form"
    for (n, x), (m, y) in zip(a.a[1], b.a[1]):
        r = both(g, x, y, asm)
        if r[0] != "yes":
            return r[0], "corner built of other vertices: " + str(r[1])
    return "yes", None


def corner_cases(g, v1, v2, v3, p):
    pts = (v1, v2, v3, p)
    x = [small("cx%d" % i) for i in range(4)]
    y = [small("cy%d" % i) for i in range(4)]
    base = {}
    for i, t in enumerate(pts):
        base[g.x(t)], base[g.y(t)] = x[i], y[i]
    out = [("small coordinates", base)]
    # p on a line through v2 and a neighbour
    for nm, i in (("on the line to the previous vertex", 0), ("on the line to the next vertex", 2)):
        m = dict(base)
        j, k = small("cj", 1, 3), small("ck", -4, 4)
        dx, dy = small("cdx", -3, 3), small("cdy", -3, 3)
        m[g.x(pts[i])], m[g.y(pts[i])] = tm.add(x[1], tm.mul(j, dx)), tm.add(y[1], tm.mul(j, dy))
        m[g.x(p)], m[g.y(p)] = tm.add(x[1], tm.mul(k, dx)), tm.add(y[1], tm.mul(k, dy))
        out.append((nm, m))
    return out
