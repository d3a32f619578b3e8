"""The rotational sweep: which vertices it looks at, which edges are open when it does, and what it reports."""
from fractions import Fraction

from .. import terms as tm
from ..evalcpp import LV, St
from ..interp import Interp, Universe, Unknown, ROUND, unsolved
from ..terms import TRUE, FALSE, and_, or_, not_, const, ite
from ..world import World
from .geom import Geo, orientations, outline_polygon
from .space import names

SWEEP = "VistreeGenerator::get_visible_vertices_from_candidate_segments_and_vertices"
SORT = "AngleSorter::sort_counter_clockwise_around_observer"
INTER, ON, ORI, ADJ, PV, NORMAL, OVER = ("LineSegment::intersection_with_segment", "LineSegment::on_segment", "LineSegment::orientation_of_point_to_segment",
                                         "LineSegment::get_adjacent_to", "ThreeVertexPolyline::point_visible", "coordinate_from_periodic_coordinate", "is_coordinate_over_meridian")
OPEN = ("OpenEdges::add_edge", "OpenEdges::remove_edge", "OpenEdges::closest_edge", "OpenEdges::empty")
FAR = 540000000


class Sweep(Interp):
    """an assignment in which the geometric predicates are arbitrary relations with their symmetries, and the open edges a set of edges with distances"""
    ori = {}
    grid = wide = 0
    fields = ("", "")

    def o_fld(self, t, B):
        v = self.ev(t.a[0], B)
        if isinstance(v, tuple) and v and v[0] == "oe":
            return ("oef", v, t.a[1])
        if isinstance(v, tuple) and v and v[0] == "pos":
            return v[1 + self.fields.index(t.a[1])]
        if isinstance(v, tuple) and v and v[0] == "rec":
            return Interp.o_fld(self, t, B)
        if t.a[1] in self.fields:
            return self.micro((v, t.a[1]))
        return Interp.o_fld(self, t, B)

    def o_val(self, t, B):
        v = self.ev(t.a[0], B)
        if isinstance(v, tuple) and v and v[0] == "some":
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "none":
            return self.rec(("pos", 0, 0))
        return Interp.o_val(self, t, B)

    def o_box(self, t, B):
        return ("box", self.ev(t.a[0], B))

    heap = {}

    def o_ptr(self, t, B):
        x = t.a[0] if t.a else None
        k = x.a[0] if isinstance(x, tm.T) and x.op == "lvh" else None
        if isinstance(k, tuple) and k[0] == "lv" and k[2] == () and isinstance(self.heap.get(k[1]), tm.T):
            return ("box", self.ev(self.heap[k[1]]))
        raise Unknown("pointer")

    def o_deref(self, t, B):
        v = self.ev(t.a[0], B)
        if isinstance(v, tuple) and v and v[0] == "box":
            return v[1]
        return Interp.o_deref(self, t, B) if hasattr(Interp, "o_deref") else self.uf(t, B)

    def o_rec(self, t, B):
        if t.a[0] == "OpenEdges":
            vs = [(f, self.ev(x, B)) for f, x in t.a[1]]
            if all(isinstance(v, tuple) and v and v[0] == "oef" and v[2] == f for f, v in vs) and len({v[1] for _, v in vs}) == 1:
                return vs[0][1][1]
            if all(isinstance(v, tuple) and v and v[0] == "m" and v[1] is None and not v[2] for _, v in vs):
                return ("oe", frozenset())
            raise Unknown("open edges")
        return Interp.o_rec(self, t, B)

    def lon_key(self, key):
        return key[-1] == self.fields[0] if isinstance(key, tuple) else key.endswith(".lon")

    def micro(self, key):
        m = self.U.memo
        k = ("micro", key)
        if k not in m and self.grid:
            m[k] = self.U.rnd.randint(-self.grid, self.grid)
            if self.wide:         # over the world and its copies
                m[k] = m[k] * (self.wide // self.grid) if self.lon_key(key) else m[k] * (80000000 // self.grid)
        if k not in m:
            m[k] = self.U.rnd.choice((0, 1, -1, 2, 1000000, -1000000, 90000000)) + self.U.rnd.choice((0, 0, 0, 1, -1))
        return m[k]

    def o_sym(self, t, B):
        if t.sort == "i" and isinstance(t.a[0], str) and t.a[0][-4:] in (".lat", ".lon"):
            return self.micro(t.a[0])
        return Interp.o_sym(self, t, B)

    # -- canonical values
    def pos(self, v):
        if isinstance(v, tuple) and v and v[0] == "pos":
            return v[1:]
        if isinstance(v, tuple) and v and v[0] == "rec" and v[1] == "Coordinate":
            d = dict(v[2])
            return d[self.fields[0]], d[self.fields[1]]
        if isinstance(v, tuple) and v and v[0] == "o":
            return tuple(self.micro((v, f)) for f in self.fields)
        raise Unknown("coordinate")

    def rec(self, p):
        """a coordinate value as the sources' constructor makes it"""
        return ("rec", "Coordinate", tuple((f, p[1 + self.fields.index(f)]) for f, *_ in tm.RECORDS["Coordinate"]))

    def ends(self, v):
        if isinstance(v, tuple) and v and v[0] == "rec" and v[1] == "LineSegment" and len(v[2]) == 2:
            return tuple(self.pos(x) for _, x in v[2])
        raise Unknown("segment %s" % (v,))

    def line(self, v):
        """a segment, or the ray it stands for when it reaches beyond every copy of the world"""
        a, b = self.ends(v)
        if b[0] >= FAR and a[1] == b[1]:
            return ("ray", a)
        return frozenset((a, b)) if a != b else ("point", a)

    def draw(self, key, make):
        if key not in self.U.memo:
            self.U.memo[key] = make(self.U.rnd)
        return self.U.memo[key]

    def o_app(self, t, B):
        h = MODEL.get(t.a[0])
        if h is None:
            return Interp.o_app(self, t, B)
        return h(self, *[self.arg(x, B) for x in t.a[1:]])


def inter(I, s, l):
    a, b = I.line(s), I.line(l)
    common = [p for p in (I.ends(s) if not isinstance(a, tuple) else a[1:]) if not isinstance(b, tuple) and p in b]
    if common:
        return ("some", I.rec(("pos",) + sorted(common)[0]))
    places = [(0, 0), (1, 1), (1000000, 0), (3, -2), (7, 7)]
    v = I.draw(("inter", frozenset((a, b)) if a != b else a), lambda r: r.choice(places) if r.random() < 0.6 else None)
    return ("none",) if v is None else ("some", I.rec(("pos",) + v))


def on(I, s, p):
    p = I.pos(p)
    l = I.line(s)
    if p in (l if isinstance(l, frozenset) else l[1:]):
        return True
    return I.draw(("on", l, p), lambda r: r.random() < 0.25)


def orient(I, s, p):
    a, b = I.ends(s)
    p = I.pos(p)
    if p in (a, b) or a == b:
        return I.ori["collinear"]
    k = tuple(sorted((a, b)))
    v = I.draw(("ori", k, p), lambda r: r.choice((1, 1, -1, -1, 0)))
    v = v if k == (a, b) else -v
    return I.ori["ccw" if v > 0 else "cw" if v < 0 else "collinear"]


def adjacent(I, s, p):
    a, b = I.ends(s)
    p = I.pos(p)
    if p not in (a, b):
        return I.rec(("pos", 0, 0))
    return I.rec(("pos",) + (b if p == a else a))


def corner(I, k, p):
    if not (isinstance(k, tuple) and k[0] == "rec"):
        raise Unknown("corner")
    vs = []
    for _, v in k[2]:
        if isinstance(v, tuple) and v and v[0] == "rec" and v[1] == "Coordinate":
            vs.append(I.pos(v))
        else:
            raise Unknown("corner")
    return I.draw(("corner", tuple(vs), I.pos(p)), lambda r: r.random() < 0.7)


def backwards(l):
    """an ordering that differs from the given one"""
    if not isinstance(l, tm.T) or l.op != "list":
        return None
    r = tm.lst(*reversed(l.a))
    if l in tm.ELEM_TYPE:
        tm.ELEM_TYPE[r] = tm.ELEM_TYPE[l]
    return r


def put(I, st, d, s):
    if not (isinstance(st, tuple) and st[0] == "oe"):
        raise Unknown("open edges")
    return ("oe", frozenset({x for x in st[1] if x[0] != I.line(s)} | {(I.line(s), d, s)}))


def drop(I, st, s):
    if not (isinstance(st, tuple) and st[0] == "oe"):
        raise Unknown("open edges")
    return ("oe", frozenset(x for x in st[1] if x[0] != I.line(s)))


def nearest(I, st):
    if not (isinstance(st, tuple) and st[0] == "oe"):
        raise Unknown("open edges")
    if not st[1]:
        a = I.rec(("pos", 11, 13)), I.rec(("pos", 17, 19))
        return ("rec", "LineSegment", tuple((f, x) for (f, *_), x in zip(tm.RECORDS["LineSegment"], a)))
    ds = sorted(st[1], key=lambda x: (x[1], str(x[0])))
    if len(ds) > 1 and ds[0][1] == ds[1][1]:
        raise Unknown("two edges equally near")
    return ds[0][2]


MODEL = {
    INTER: inter, ON: on, ORI: orient, ADJ: adjacent, PV: corner,
    NORMAL: lambda I, p: I.draw(("normal", I.pos(p)), lambda r: ("rec", "Coordinate", (("normal", I.pos(p)),))),
    OVER: lambda I, p: I.draw(("over", I.pos(p)), lambda r: r.random() < 0.5),
    "OpenEdges::add_edge'": put, "OpenEdges::remove_edge'": drop,
    "OpenEdges::empty": lambda I, st: not st[1], "OpenEdges::closest_edge": nearest,
}


class Plan:
    """one sweep with named candidates: what the sources compute, and what they should"""

    def __init__(self, c, g, f, nv, atvertex, seen, opaque, turn=0, wide=False):
        self.turn, self.wide = turn, wide
        self.c, self.g, self.f, self.opaque = c, g, f, opaque
        self.P = c.P
        self.half = tm.sym("half", "b")
        self.obs = g.coord("o")
        vs = [g.coord("v%d" % i) for i in range(nv)]
        self.inc = {}
        for i, v in enumerate(vs):
            self.inc[v] = [self.seg(g.coord("p%d" % i), v), self.seg(v, g.coord("n%d" % i))]
        if atvertex:
            self.prev, self.next = g.coord("op"), g.coord("on")
            self.inc[self.obs] = [self.seg(self.prev, self.obs), self.seg(self.obs, self.next)]
        self.atvertex = atvertex
        self.cands = list(vs)
        if atvertex:
            self.cands.insert(seen, self.obs)
        self.segs = [s for v in self.inc for s in self.inc[v]]

    def seg(self, a, b):
        return self.g.make("LineSegment", a, b)

    def assume(self):
        """every corner is a place of its own"""
        ks = [self.obs] + [x for ss in self.inc.values() for s in ss for _, x in s.a[1]] + ([self.g.coord("far")] if self.wide else [])
        ks = [k for i, k in enumerate(ks) if k not in ks[:i]]
        out = [not_(self.g.eq(a, b)) for i, a in enumerate(ks) for b in ks[i + 1:]]
        # the order of a sweep: what is below the observer comes after what is not
        vs = [v for v in reversed(self.cands) if v is not self.obs]
        low = [tm.lt(self.g.y(v), self.g.y(self.obs)) for v in vs]
        return and_(*out, *[or_(not_(a), b) for a, b in zip(low, low[1:])])

    heap = {}

    def polygons(self):
        """the outlines, each with its corners in another rotation"""
        out = []
        for i, (v, ss) in enumerate(self.inc.items()):
            p, n = (dict(s.a[1])[e] for s, e in zip(ss, (tm.RECORDS["LineSegment"][0][0], tm.RECORDS["LineSegment"][1][0])))
            vs = [p, v, n]
            if self.wide and i == 0:
                vs.append(self.g.coord("far"))
            k = (i + self.turn) % len(vs)
            q = outline_polygon(self.c, vs[k:] + vs[:k])
            if q is None:
                return None
            out.append(q)
        return out

    def run(self, entry=None):
        P = self.P
        polys = self.polygons()
        ctor = [f for f in P.by_qn.get("VistreeGenerator::VistreeGenerator", ()) if len(f.params()) == 1 and "Polygon" in f.pty(0).s]
        if polys is None or len(ctor) != 1:
            return None
        w = World(P, opaque=self.opaque, inplace={SORT: backwards})
        r = w.call(ctor[0], args=(tm.lst(*polys),))
        if r.S is None or r.undetermined():
            return r
        this = LV(("arg", "this"), (), None)
        self.heap = r.S.env
        if entry == "all":
            return w.call(self.f, this, (self.obs, self.half), S=r.S)
        cs = tm.lst(*[tm.mk("box", s) for s in self.segs])
        if entry == "segments":
            return w.call(self.f, this, (self.obs, cs, self.half), S=r.S)
        cv = tm.lst(*self.cands)
        tm.ELEM_TYPE[cv] = ("o", "Coordinate", None)
        return w.call(self.f, this, (self.obs, cv, cs, self.half), S=r.S)

    def call(self, qn, this, *args):
        """the value of a predicate: uninterpreted, or what the sources compute"""
        np = len(args)
        fs = [x for x in self.P.by_qn.get(qn, ()) if len(x.params()) == np]
        f = fs[0]
        if qn in self.opaque:
            return tm.app(qn, *([this] if this is not None else []), *args, sort=f.ret().noref().sort())
        w = World(self.P, opaque=self.opaque)
        r = w.call(f, w.place("this", this) if this is not None else None, args)
        return r.value

    def expected(self):
        g, o = self.g, self.obs
        far = g.coord("", lon=const(FAR + 1), lat=g.y(o))
        ray = self.seg(o, far)
        st = tm.app("none open")
        ends = lambda s: [x for _, x in s.a[1]]
        d2 = lambda p: tm.add(tm.mul(tm.sub(g.x(p), g.x(o)), tm.sub(g.x(p), g.x(o))), tm.mul(tm.sub(g.y(p), g.y(o)), tm.sub(g.y(p), g.y(o))))
        O = {k: const(v) for k, v in Sweep.ori.items()}
        for s in self.segs:
            e1, e2 = ends(s)
            x = self.call(INTER, s, ray)
            c = and_(not_(g.eq(o, e1)), not_(g.eq(o, e2)), tm.has_value(x), not_(self.call(ON, ray, e1)), not_(self.call(ON, ray, e2)))
            st = ite(c, tm.app("OpenEdges::add_edge'", st, d2(tm.opt_value(x)), s), st)
        out = []
        going = TRUE
        for v in reversed(self.cands):
            me = and_(not_(g.eq(o, v)))
            if me is FALSE:
                continue
            below = tm.lt(g.y(v), g.y(o))
            going = and_(going, not_(and_(me, self.half, below)))
            act = and_(going, me)
            line = self.seg(o, v)
            side = [(s, self.call(ORI, line, self.call(ADJ, s, v))) for s in self.inc[v]]
            for s, q in side:
                st = ite(and_(act, tm.eqt(q, O["cw"])), tm.app("OpenEdges::remove_edge'", st, s), st)
            ok = TRUE
            if self.atvertex:
                k = g.make("ThreeVertexPolyline", self.prev, o, self.next)
                ok = self.call(PV, k, v)
            near = tm.app("OpenEdges::closest_edge", st)
            x = self.call(INTER, near, line)
            hid = and_(not_(tm.app("OpenEdges::empty", st, sort="b")), tm.has_value(x), not_(g.eq(tm.opt_value(x), v)))
            out.append((and_(act, ok, not_(hid)), v))
            for s, q in side:
                st = ite(and_(act, tm.eqt(q, O["ccw"])), tm.app("OpenEdges::add_edge'", st, d2(v), s), st)
        return out


MODEL["none open"] = lambda I: ("oe", frozenset())


def seen(I, v):
    """the reported vertices, in order"""
    out = []
    if not (isinstance(v, tuple) and v and v[0] == "l"):
        raise Unknown("not a list")
    return list(v[1:])


def compare(c, g, plan, f, value, exp, n=400, need=60, real=False):
    terms = [value] + [x for p in exp for x in p]
    if tm.is_opaque(value):
        return "unknown", "uninterpreted construct"
    fs = [x[0] for x in tm.RECORDS["VisibleVertex"]]
    done, lost, why = 0, 0, None
    ass = plan.assume()
    flag = {v: g_flag(plan, v) for _, v in exp}
    for k in range(n):
        I = Sweep(Universe(104729 * k + 7, mode=k % 2))
        I.fields = (g.lon, g.lat)
        I.heap = plan.heap
        if real:
            I.grid = 3 + k % 5
            I.wide = 540000000 if real > 1 else 0
        try:
            if ass is not TRUE and not I.b(ass, {}):
                continue
            if real and not turning(I, plan):
                continue
            if real > 1 and abs(I.pos(I.ev(plan.obs))[0]) > 180000000:
                continue
            got = seen(I, I.ev(value))
            want = []
            for cond, v in exp:
                if I.b(cond, {}):
                    want.append((I.ev(flag[v][0]), I.ev(flag[v][1])))
            have = []
            for r in got:
                if not (isinstance(r, tuple) and r and r[0] == "rec" and r[1] == "VisibleVertex"):
                    raise Unknown("not a vertex")
                d = dict(r[2])
                have.append(tuple(d[x] for x in fs))
        except Unknown as e:
            why = str(e)
            lost += 1
            continue
        except RecursionError:
            return "unknown", "depth"
        if have != want:
            if I.missing:
                lost += 1
                continue
            odd = sorted(names(value) - set(MODEL) - set(ROUND) - names(*[x for p in exp for x in p]))
            if odd:
                return "unknown", "uses %s" % odd
            return "no", "with assignment %d it reports %s and should report %s" % (k, [str(x)[:80] for x in have], [str(x)[:80] for x in want])
        done += 1
        if done >= need and k > n // 2 and not lost:
            break
    if done >= need and lost <= done:
        return "yes", None
    return "unknown", why or "no assignment satisfied the assumption"


def turning(I, plan):
    """are the candidates in counter-clockwise order around the observer, from the east, the nearer first?"""
    ox, oy = I.pos(I.ev(plan.obs))
    ds = [(x - ox, y - oy) for x, y in (I.pos(I.ev(v)) for v in reversed(plan.cands) if v is not plan.obs)]
    for (x, y), (u, v) in zip(ds, ds[1:]):
        h, k = [0 if b > 0 or b == 0 and a > 0 else 1 for a, b in ((x, y), (u, v))]
        d = x * v - y * u
        if h > k or h == k and (d < 0 or d == 0 and x * x + y * y > u * u + v * v):
            return False
    return True


def g_flag(plan, v):
    return plan.call(NORMAL, None, v), plan.call(OVER, None, v)


PREDICATES = (INTER, ON, ORI, ADJ, PV, NORMAL, OVER)


def one(c, g, f, shape, opaque, n, real=False):
    """verdict for one shape of the scene; also what was called"""
    nv, at, pos, turn, wide = shape
    p = Plan(c, g, f, nv, at, pos, opaque, turn, wide)
    r = p.run()
    if r is None:
        return ("unknown", "the outlines cannot be given"), set(), None
    if r.S is None or r.undetermined() or r.value is None:
        return ("unknown", "; ".join(str(u) for u in r.undetermined()[:2]) or "no value"), set(), None
    called = {e.a[0] for e in r.events() if e.kind == "call"}
    exp = p.expected()
    if exp is None or unsolved(r.value):
        return ("unknown", "a loop without a closed form"), called, r
    return compare(c, g, p, f, r.value, exp, n, real=real), called, r


def scene(c, g, f, shape, n):
    opaque = {q for q in PREDICATES if c.P.by_qn.get(q)} | {SORT} | set(OPEN)
    first = None
    for _ in range(3):
        v, called, r = one(c, g, f, shape, opaque, n)
        gone = {q for q in PREDICATES if q in opaque and q not in called and (q != PV or shape[1])}
        if v[0] == "yes" or not called:
            return v
        if not gone:
            break
        # the sources compute it in another way: both sides computed
        opaque = opaque - gone
    if v[0] == "no" and SORT not in called and SORT in all_calls(c):
        return "unknown", "the vertices are ordered elsewhere"
    if v[0] == "no":
        # arbitrary relations tell the two apart; do the real ones?
        w, called, _ = one(c, g, f, shape, opaque - {INTER, ON, ORI, ADJ, PV}, 12000, True)
        if w[0] != "no":
            w, called, _ = one(c, g, f, shape, opaque - {INTER, ON, ORI, ADJ, PV}, 12000, 2)
        if w[0] != "no":
            return "unknown", "differs only for relations that are no geometry (%s)" % (w[1],)
        return w
    return v


def all_calls(c):
    from .order import nodes
    return {x.get("qn") for f in c.P.fns.values() if f.o.get("body") and f.where().startswith("capi/src") for x in nodes(f.o["body"]) if x.get("k") == "call"}


SHAPES = ((2, False, 0, 0, False), (2, False, 0, 2, True), (1, True, 0, 0, False), (1, True, 1, 1, False), (2, True, 1, 2, False), (2, True, 0, 1, True))
DEEP = ((3, False, 0, 0, False), (3, False, 0, 1, True), (3, True, 2, 1, False))


def w01(c):
    P = c.P
    g = Geo(c)
    if not g.ready(c):
        return
    o = orientations(c)
    fs = [f for f in P.by_qn.get(SWEEP, ()) if len(f.params()) == 4]
    if len(fs) != 1 or not o or len(tm.RECORDS.get("LineSegment", ())) != 2 or len(tm.RECORDS.get("VisibleVertex", ())) != 2:
        c.unk("sweep", "the vertices a sweep reports", None, "it is gone")
        return
    f = fs[0]
    c.saw(f)
    Sweep.ori = {"cw": o["CLOCKWISE"].a[0], "ccw": o["COUNTER_CLOCKWISE"].a[0], "collinear": o["COLLINEAR"].a[0]}
    for sh in SHAPES + (DEEP if c.tier == "thorough" else ()):
        what = "the vertices a sweep reports of %d candidates%s" % (sh[0], ", from a corner of an outline" if sh[1] else "")
        c.judge("sweep", what, f.where(), scene(c, g, f, sh, 400))
    entries(c, g, f)


def entries(c, g, f):
    """the public entry points sweep over everything there is"""
    P = c.P
    opaque = {SWEEP}
    for q, kind in (("VistreeGenerator::get_visible_vertices", "all"), ("VistreeGenerator::get_visible_vertices_from_candidate_segments", "segments")):
        fs = [x for x in P.by_qn.get(q, ()) if len(x.params()) == (2 if kind == "all" else 3)]
        what = "what %s sweeps over" % q
        if len(fs) != 1:
            c.unk("entry", what, None, "it is gone")
            continue
        c.saw(fs[0])
        p = Plan(c, g, fs[0], 2, False, 0, opaque)
        r = p.run(kind)
        if r is None or r.S is None or r.undetermined() or r.value is None or r.value.op != "app" or r.value.a[0] != SWEEP or len(r.value.a) != 6:
            c.unk("entry", what, fs[0].where(), "not a call of the sweep")
            continue
        c.judge("entry", what, fs[0].where(), swept(g, p, r, kind))


def swept(g, p, r, kind):
    obs, verts, segs, half = r.value.a[2:]
    ss = [s for v in p.inc for s in p.inc[v]]
    done = 0
    why = "no assignment satisfied the assumption"
    for k in range(60):
        I = Sweep(Universe(31 * k + 5, mode=k % 2))
        I.fields, I.heap = (g.lon, g.lat), p.heap
        try:
            if not I.b(p.assume(), {}):
                continue
            if I.pos(I.ev(obs)) != I.pos(I.ev(p.obs)):
                return "no", "it looks from another place"
            if I.b(half, {}) != I.b(p.half, {}):
                return "no", "a half sweep is taken for a whole one"
            places = sorted(I.pos(x) for x in I.ev(verts)[1:])
            ends = [I.ends(I.ev(s)) for s in ss]
            want = sorted({q for e in ends for q in e})
            if places != want:
                return "no", "it looks for %d of %d corners" % (len(places), len(want))
            lines = set()
            for x in I.ev(segs)[1:]:
                if not (isinstance(x, tuple) and x[0] == "box"):
                    raise Unknown("segment")
                lines.add(I.line(x[1]))
            every = {frozenset(e) for e in ends}
            if kind == "all":
                # every outline is a triangle: its third side joins the neighbours
                every |= {frozenset((ends[i][0], ends[i + 1][1])) for i in range(0, len(ends), 2)}
            if lines != every:
                return "no", "it tests %d of %d edges" % (len(lines & every), len(every))
        except (Unknown, TypeError, IndexError) as e:
            why = str(e)
            continue
        done += 1
    return ("yes", None) if done >= 10 else ("unknown", why)


# ------------------------------------------------------------------ the set of open edges
def e08(c):
    P = c.P
    g = Geo(c)
    if not g.ready(c):
        return
    fn = {}
    for n, k in (("add_edge", 2), ("remove_edge", 1), ("closest_edge", 0), ("empty", 0)):
        fn[n] = P.need("OpenEdges::" + n, k)
        c.saw(fn[n])
    pt = lambda x, y: g.coord("", lon=const(x), lat=const(y))
    segs = [g.make("LineSegment", pt(3, 1), pt(4, 2)), g.make("LineSegment", pt(4, 2), pt(5, -7)), g.make("LineSegment", pt(-3, 1), pt(6, 8))]
    for dist in ((0, 1, (1 << 33) + 1), (5, (1 << 32) + 5, 4), ((1 << 58) + 2, (1 << 58) + 1, (1 << 58) + 3)):
        histories(c, g, fn, segs, dist)


def fresh_set(P, w):
    ctor = [f for f in P.methods("OpenEdges") if f.kind == "ctor" and not f.params()]
    if ctor:
        r = w.call(ctor[0])
        return r.S
    S = w.S.copy()
    lv = w.place("this", w.ev.record_default("OpenEdges", S), S)
    return S


def histories(c, g, fn, segs, dist):
    P = c.P
    where = fn["closest_edge"].where()
    w = World(P)
    this = LV(("arg", "this"), (), None)
    try:
        S = fresh_set(P, w)
    except (KeyError, AttributeError, IndexError):
        S = None
    texts = {"closest": "the closest edge is one of least distance, after every history", "empty": "empty exactly when every edge was removed, after every history", "step": "every history of insertions and removals is carried out"}
    if S is None or not isinstance(S.env.get(this.root), tm.T):
        for k in texts:
            c.unk(k, texts[k], where, "no empty set")
        return
    todo = [(S.env[this.root], frozenset(), ())]
    done = set()
    bad, unk = {}, {}
    while todo and len(done) < 600:
        st, have, how = todo.pop(0)
        if (st, have) in done:
            continue
        done.add((st, have))

        def ask(name, *args):
            X = St()
            w2 = World(P)
            w2.place("this", st, X)
            return w2.call(fn[name], this, args, S=X)
        r = ask("empty")
        tell(bad, unk, "empty", how, r, lambda v: True if v is (TRUE if not have else FALSE) else None if v not in (TRUE, FALSE) else False)
        if have:
            r = ask("closest_edge")
            best = segs[min(have, key=lambda i: dist[i])]
            tell(bad, unk, "closest", how, r, lambda v: {TRUE: True, FALSE: False}.get(tm.eqt(v, best)))
        for i, s in enumerate(segs):
            for name, args, nxt in (("add_edge", (const(dist[i]), s), have | {i}), ("remove_edge", (s,), have - {i})):
                r = ask(name, *args)
                h = how + ("%s %d" % (name.split("_")[0], i),)
                if r.S is None:
                    (bad if not r.undetermined() and r.throws else unk).setdefault("step", "%s does not return" % ", ".join(h))
                elif r.undetermined() or any(x.op == "opaque" for x in tm.walk(r.S.env[this.root])) or r.throws:
                    unk.setdefault("step", "%s: %s" % (", ".join(h), [str(u) for u in r.undetermined()[:1]]))
                else:
                    todo.append((tidy(r.S.env[this.root]), nxt, h))
    for k in texts:
        if k in bad:
            c.bad(k, texts[k], where, bad[k])
        elif k in unk or "step" in unk or len(done) >= 600:
            c.unk(k, texts[k], where, unk.get(k) or unk.get("step") or "too many states")
        else:
            c.ok(k, texts[k], where)


def tidy(t):
    """maps with known keys, their entries in one order"""
    if t.op == "rec":
        return tm.rec(t.a[0], [(f, tidy(x)) for f, x in t.a[1]])
    if t.op != "mput":
        return t
    seen, m = [], t
    while m.op == "mput":
        e = [tm.eqt(m.a[1], k) for k, _ in seen]
        if any(x not in (TRUE, FALSE) for x in e):
            return t
        if TRUE not in e:
            seen.append((m.a[1], m.a[2]))
        m = m.a[0]
    if m.op != "mempty":
        return t
    for k, v in sorted(seen, key=lambda x: str(tm.show(x[0]))):
        m = tm.mput(m, k, v)
    return m


def tell(bad, unk, k, how, r, test):
    h = "after %s" % (", ".join(how) or "nothing")
    if r.undetermined() or r.value is None or r.throws:
        unk.setdefault(k, h)
        return
    v = test(r.value)
    if v is None:
        unk.setdefault(k, "%s: %s" % (h, str(tm.show(r.value))[:100]))
    elif not v:
        bad.setdefault(k, "%s it answers %s" % (h, str(tm.show(r.value))[:150]))
