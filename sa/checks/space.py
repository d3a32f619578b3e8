"""The spherical-geometry library at the edges of the repository: conversions to and from it, and the index of coastlines."""
from fractions import Fraction
from math import pi

from .. import terms as tm
from ..evalcpp import LV
from ..interp import Interp, Universe, Unknown, ROUND, half_even
from ..loops import trips
from ..terms import TRUE, FALSE, and_, const
from ..world import World
from .geom import Geo, outline_polygon

MICRO = Fraction(1, 1000000)
SEMI_OPEN = 1


def opq(v):
    return isinstance(v, tuple) and v and v[0] == "o"


class Sphere(Interp):
    """an assignment under which the library's conversions have their documented meaning (exactly, in degrees)"""

    fields = ("", "")

    def o_fld(self, t, B):
        v = self.ev(t.a[0], B)
        if opq(v) and t.a[1] in self.fields:
            return self.micro(("fld", v, t.a[1]), t.a[1] == self.fields[1])
        if opq(v) and t.a[1] in ("v0", "v1"):
            return ("edgepoint", v, t.a[1])
        return Interp.o_fld(self, t, B)

    def micro(self, key, lat):
        """a whole number of microdegrees on the globe"""
        m = self.U.memo
        if ("micro", key) not in m:
            r = self.U.rnd
            b = 89999999 if lat else 179999999
            m[("micro", key)] = r.choice((r.randint(-b, b), r.randint(-b, b), r.randint(-5, 5), r.choice((1, -1)) * (b - r.randint(0, 3))))
        return m[("micro", key)]

    def o_sym(self, t, B):
        if t.sort in ("i", "r") and isinstance(t.a[0], str) and t.a[0][-4:] in (".lat", ".lon"):
            return self.micro(("sym", t.a[0]), t.a[0].endswith(".lat"))
        return Interp.o_sym(self, t, B)

    # -- library values: ("ll", lat, lng) ("pt", lat, lng) ("ang", degrees)
    def pt(self, v):
        """any point of the sphere, by latitude and longitude in degrees; never half-way between two microdegrees"""
        if isinstance(v, tuple) and v and v[0] in ("pt", "ll"):
            return v[1], v[2]
        if opq(v) or isinstance(v, tuple) and v and v[0] in ("edgepoint", "lib"):
            r = self.U.rnd
            out = []
            for lat in (True, False):
                k = ("pt", v, lat)
                if k not in self.U.memo:
                    self.U.memo[k] = (self.micro(k, lat) + Fraction(r.choice((-3, -2, -1, 0, 1, 2, 3)), 7)) * MICRO
                out.append(self.U.memo[k])
            return tuple(out)
        raise Unknown("point of the sphere")

    def deg(self, v):
        if isinstance(v, tuple) and v and v[0] == "ang":
            return v[1]
        raise Unknown("angle")

    def num(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, Fraction)):
            raise Unknown("number")
        return Fraction(v)

    def o_app(self, t, B):
        q = t.a[0]
        h = LIB.get(q)
        if h is None:
            last = q.split("::")[-1]
            h = OPTION.get(last.rstrip("'")) if "Options" in q or "Query" in q else None
        if h is None:
            return Interp.o_app(self, t, B)
        a = [self.arg(x, B) for x in t.a[1:]]
        try:
            return h(self, *a)
        except TypeError:
            raise Unknown("call of " + q)

    def o_sorted(self, t, B):
        return ("l",) + tuple(self.seq(t.a[0], B))

    o_perm = o_sorted

    def o_list(self, t, B):
        return ("l",) + tuple(self.ev(x, B) for x in t.a)


def crossing(I, q, a, b, kind=0):
    """the edges found for a segment: the same for either direction, another answer for another kind of crossing"""
    key = ("cross", q, frozenset((I.pt(a), I.pt(b))), kind)
    return ("l",) + tuple(("lib", "edge", key, k) for k in range(I.U.length(key)))


def e6(x):
    return half_even(x * 1000000)


LIB = {
    "S2LatLng::FromE6": lambda I, a, b: ("ll", I.num(a) * MICRO, I.num(b) * MICRO),
    "S2LatLng::FromE5": lambda I, a, b: ("ll", I.num(a) / 10 ** 5, I.num(b) / 10 ** 5),
    "S2LatLng::FromE7": lambda I, a, b: ("ll", I.num(a) / 10 ** 7, I.num(b) / 10 ** 7),
    "S2LatLng::FromDegrees": lambda I, a, b: ("ll", I.num(a), I.num(b)),
    "S2LatLng::FromRadians": lambda I, a, b: ("ll", I.num(a) * DEG, I.num(b) * DEG),
    "S2LatLng::operator Vector3": lambda I, l: ("pt",) + I.pt(l),
    "S2LatLng::ToPoint": lambda I, l: ("pt",) + I.pt(l),
    "S2LatLng::Normalized": lambda I, l: ("ll",) + I.pt(l),
    "S2LatLng": lambda I, *a: ("ll",) + (I.pt(a[0]) if len(a) == 1 else (I.deg(a[0]), I.deg(a[1])) if len(a) == 2 else (Fraction(0), Fraction(0))),
    "S2LatLng::lat": lambda I, l: ("ang", I.pt(l)[0]),
    "S2LatLng::lng": lambda I, l: ("ang", I.pt(l)[1]),
    "S2LatLng::Latitude": lambda I, p: ("ang", I.pt(p)[0]),
    "S2LatLng::Longitude": lambda I, p: ("ang", I.pt(p)[1]),
    "S1Angle::e5": lambda I, a: half_even(I.deg(a) * 10 ** 5),
    "S1Angle::e6": lambda I, a: e6(I.deg(a)),
    "S1Angle::e7": lambda I, a: half_even(I.deg(a) * 10 ** 7),
    "S1Angle::degrees": lambda I, a: I.deg(a),
    "S1Angle::E6": lambda I, a: ("ang", I.num(a) * MICRO),
    "S1Angle::Degrees": lambda I, a: ("ang", I.num(a)),
    "S1Angle::Radians": lambda I, a: ("ang", I.num(a) * DEG),
    "S1Angle::radians": lambda I, a: I.deg(a) / DEG,
    "S2CrossingEdgeQuery": lambda I, i: ("lib", "crossings", i),
    "S2CrossingEdgeQuery::GetCrossingEdges": crossing,
    "s2shapeutil::ShapeEdge::v0": lambda I, e: ("edgepoint", e, "v0"),
    "s2shapeutil::ShapeEdge::v1": lambda I, e: ("edgepoint", e, "v1"),
    "S2ContainsPointQueryOptions": lambda I, m=SEMI_OPEN: ("lib", "model", m),
    "MakeS2ContainsPointQuery": lambda I, i, o=("lib", "model", SEMI_OPEN): ("lib", "contains", i, o),
    "S2ContainsPointQuery": lambda I, i, o=("lib", "model", SEMI_OPEN): ("lib", "contains", i, o),
    "S2ContainsPointQuery::Contains": lambda I, q, p: I.U.prf(("contains", q, I.pt(p)), "b", None),
    "S2Polyline": lambda I, s: ("lib", "line", s),
    "absl::Span": lambda I, s: s,
}
DEG = Fraction(180) / Fraction(pi)
OPTION = {"set_vertex_model": lambda I, o, m: ("lib", "model", m)}


def project(I, line, p, out=None):
    if not (isinstance(line, tuple) and line[:2] == ("lib", "line") and I.is_list(line[2])):
        raise Unknown("line")
    ends = [I.pt(x) for x in line[2][1:]]
    key = ("lib", "projection", frozenset(ends), I.pt(p))
    if key not in I.U.memo:
        # one of the two ends, or a place in between
        I.U.memo[key] = I.U.rnd.choice(sorted(set(ends)) + [None, None])
    e = I.U.memo[key]
    return key if e is None else ("pt",) + e


def after(I, line, p, out=None):
    """index of the vertex after the projection; past the last when it is the last vertex"""
    q = project(I, line, p)
    ends = [I.pt(x) for x in line[2][1:]]
    if len(ends) != 2:
        raise Unknown("line")
    return 2 if I.pt(q) == ends[1] else 1


LIB["S2Polyline::Project"] = project
LIB["S2Polyline::Project'1"] = after
LIB["out1"] = lambda I: ("unit",)


# ------------------------------------------------------------------ comparing summaries under these meanings
def names(*ts):
    """functions whose values matter (not those that only order a list)"""
    out, seen, todo = set(), set(), list(ts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "app":
            out.add(t.a[0])
        todo += [t.a[0]] if t.op in ("sorted", "perm") else tm.children(t)
    return out


def foreign(ts, known):
    """functions without a meaning here"""
    return sorted(n for n in names(*ts) if n not in LIB and n not in ROUND and n not in known and n.split("::")[-1].rstrip("'") not in OPTION)


def agree(g, terms, check, known=(), assume=TRUE, n=120, need=20):
    """verdict of a relation between the values of some terms; check(I, values) -> True or a description of the difference"""
    if any(t is None or tm.is_opaque(t) for t in terms):
        return "unknown", "uninterpreted construct"
    done, why = 0, None
    for k in range(n):
        I = Sphere(Universe(7919 * k + 13, mode=k % 2))
        I.fields = (g.lon, g.lat)
        try:
            if assume is not TRUE and not I.b(assume, {}):
                continue
            r = check(I, [I.ev(t) for t in terms])
        except Unknown as e:
            why = str(e)
            continue
        except RecursionError:
            return "unknown", "depth"
        done += 1
        if r is not True:
            ex = foreign(terms, known)
            return ("unknown", "uses %s" % ex) if ex else ("no", r)
    return ("yes", None) if done >= need else ("unknown", why or "no assignment satisfied the assumption")


def coord(I, v):
    """(longitude, latitude) of a coordinate value, in microdegrees"""
    if isinstance(v, tuple) and v and v[0] == "rec":
        d = dict(v[2])
        if set(I.fields) == set(d):
            x, y = d[I.fields[0]], d[I.fields[1]]
            if all(isinstance(z, (int, Fraction)) and not isinstance(z, bool) for z in (x, y)):
                return x, y
    raise Unknown("coordinate")


def segment(I, v):
    if isinstance(v, tuple) and v and v[0] == "rec" and len(v[2]) == 2:
        return frozenset(coord(I, x) for _, x in v[2])
    raise Unknown("segment")


def near(a, b):
    return abs(a - b) <= MICRO / 1000


def micro_pt(I, v):
    """coordinate nearest to a point of the sphere, as (longitude, latitude) in microdegrees"""
    a, b = I.pt(v)
    return e6(b), e6(a)


def settled(r, v):
    """a difference is believed only when the summary is complete"""
    if v[0] == "no" and r.undetermined():
        return "unknown", str(r.undetermined()[:2])
    return v


# ------------------------------------------------------------------ conversions
def conversions(c, g, rule="conversion"):
    P = c.P
    for m, kind in (("to_s2_point", "point"), ("to_s2_lat_lng", "latitude and longitude")):
        fs = [f for f in P.by_qn.get("Coordinate::" + m, ()) if not f.params()]
        if len(fs) != 1:
            c.unk(rule, "a coordinate as a %s of the sphere" % kind, None, "%s is gone" % m)
            continue
        f = fs[0]
        c.saw(f)
        w = World(P)
        r = w.call(f, w.place("this", g.coord("a")))
        v = agree(g, [r.value, g.coord("a")], lambda I, x: place_of(I, x)) if r.value is not None else ("unknown", "no value")
        c.judge(rule, "a coordinate stands for the point of the sphere at its latitude and longitude (%s)" % m, f.where(), settled(r, v))
    fs = [f for f in P.by_qn.get("Coordinate::Coordinate", ()) if len(f.params()) == 1 and f.pty(0).noref().rec() not in ("Coordinate", None)]
    if len(fs) != 1:
        c.unk(rule, "the coordinate of a point of the sphere", None, "constructor is gone")
        return
    f = fs[0]
    c.saw(f)
    w = World(P)
    p = tm.sym("p")
    r = w.call(f, args=(p,))
    t = r.S.env.get(("arg", "this")) if r.S is not None else None
    v = agree(g, [t, p], lambda I, x: nearest(I, x)) if t is not None else ("unknown", "no value")
    c.judge(rule, "a point of the sphere becomes the nearest coordinate, longitude and latitude in their places", f.where(), settled(r, v))


def place_of(I, x):
    lat, lng = I.pt(x[0])
    lo, la = coord(I, x[1])
    if near(lat, la * MICRO) and near(lng, lo * MICRO):
        return True
    return "(longitude %s, latitude %s) microdegrees becomes latitude %s, longitude %s" % (lo, la, float(lat), float(lng))


def nearest(I, x):
    got, want = coord(I, x[0]), micro_pt(I, x[1])
    if got == want:
        return True
    a, b = I.pt(x[1])
    return "latitude %s, longitude %s becomes (longitude %s, latitude %s) microdegrees" % (float(a), float(b), got[0], got[1])


# ------------------------------------------------------------------ contents of the index
def inside(S, t, depth=0):
    """a term with what its pointers point to put in place of them"""
    from ..evalcpp import LVALS
    if depth > 12:
        return t
    if t.op == "ptr" and t.a[0] in LVALS and not LVALS[t.a[0]].path and LVALS[t.a[0]].root in S.env:
        return inside(S, S.env[LVALS[t.a[0]].root], depth + 1)
    if any(isinstance(x, tm.T) for x in t.a):
        return tm.mk(t.op, *[inside(S, x, depth + 1) if isinstance(x, tm.T) else x for x in t.a], sort=t.sort)
    return t


def contents(c, g, rule="index"):
    P = c.P
    fs = [f for f in P.by_qn.get("SpatialSegmentIndex::SpatialSegmentIndex", ()) if len(f.params()) == 1 and "Polygon" in f.pty(0).s]
    if len(fs) != 1:
        c.unk(rule, "the index holds every polygon", None, "constructor is gone")
        return
    f = fs[0]
    c.saw(f)
    for sizes in ((), (3,), (3, 4), (5, 3, 4)):
        polys, verts = [], []
        for i, n in enumerate(sizes):
            vs = [g.coord("v%d%d" % (i, j)) for j in range(n)]
            verts.append(vs)
            polys.append(outline_polygon(c, vs))
        what = "an index of %s holds each exactly once" % ("polygons with %s vertices" % " and ".join(map(str, sizes)) if sizes else "no polygon")
        if any(p is None for p in polys):
            c.unk(rule, what, f.where(), "representation of polygons")
            continue
        w = World(P)
        l = tm.lst(*polys) if polys else tm.EMPTY
        r = w.call(f, args=(l,))
        for u in w.ev.visited:
            if u in P.fns:
                c.saw(P.fns[u])
        if r.S is None:
            c.unk(rule, what, f.where(), "no summary")
            continue
        adds = [e for e in r.events() if e.kind == "lib" and e.a[0].endswith("ShapeIndex::Add")]
        other = [e for e in r.events() if e.kind == "lib" and "ShapeIndex::" in e.a[0] and e not in adds and e.a[0].split("::")[-1] not in ("ForceBuild", "reserve", "num_shape_ids")]
        if r.undetermined() or other or any(e.loops for e in adds):
            c.unk(rule, what, f.where(), str(r.undetermined()[:2] or [e.a[0] for e in other] or "a loop"))
            continue
        loops = []
        bad = None
        for e in adds:
            t = inside(r.S, e.a[-1])
            ls = {x for x in tm.walk(t) if x.op == "app" and x.a[0] == "S2Loop"}
            if not ls or foreign([t], ("S2Loop", "S2Polygon", "S2Polygon::OwningShape", "S2Polygon::Shape", "S2Loop::Shape", "S2Loop::OwningShape")):
                bad = "shape added: %s" % str(tm.show(t))[:160]
                break
            loops.append([(x.a[1], e) for x in sorted(ls, key=str)])
        if bad:
            c.unk(rule, what, f.where(), bad)
            continue
        terms = [x for ls in loops for x, _ in ls] + [v for vs in verts for v in vs] + [and_(*e.pc) for e in adds]
        flat = [[x for x, _ in ls] for ls in loops]

        def check(I, vals):
            got = []
            for ls, e in zip(flat, adds):
                if not I.b(and_(*e.pc), {}):
                    continue
                for x in ls:
                    s = I.ev(x)
                    if not I.is_list(s):
                        raise Unknown("vertices of a loop")
                    got.append(turn([tuple(map(e6, I.pt(y)))[::-1] for y in s[1:]]))
            want = [turn([coord(I, I.ev(v)) for v in vs]) for vs in verts]
            if sorted(got) == sorted(want):
                return True
            return "of %d polygons with %s vertices the index holds %s" % (len(want), [len(x) for x in want], "loops with %s vertices" % [len(x) for x in got] if [len(x) for x in got] != [len(x) for x in want] else "others: %s instead of %s" % (got[:2], want[:2]))

        c.judge(rule, what, f.where(), agree(g, terms, check, known=("S2Loop",)))


def turn(vs):
    """a closed ring of vertices, whichever it starts from"""
    vs = tuple(vs)
    return min(vs[i:] + vs[:i] for i in range(len(vs))) if vs else vs


# ------------------------------------------------------------------ queries
def query(c, g, name, args):
    P = c.P
    fs = [f for f in P.by_qn.get("SpatialSegmentIndex::" + name, ()) if len(f.params()) == len(args)]
    if len(fs) != 1:
        return None, None
    f = fs[0]
    c.saw(f)
    w = World(P)
    w.obj("SpatialSegmentIndex", "this")
    r = w.call(f, LV(("arg", "this"), (), None), args)
    for u in w.ev.visited:
        if u in P.fns:
            c.saw(P.fns[u])
    return f, r


def index_of(r):
    """the term the query is made over"""
    for e in r.events():
        if e.kind == "lib":
            for t in e.a[1:]:
                if isinstance(t, tm.T):
                    for x in tm.walk(t):
                        if x.op == "ptr" and "arg" in str(x.a[0]) and "this" in str(x.a[0]):
                            return x
    return None


def contained(c, g, rule="land"):
    p = g.coord("p")
    f, r = query(c, g, "is_point_contained", (p,))
    what = "a point is on land exactly when it lies strictly inside some polygon, not on its boundary"
    if f is None or r.value is None:
        c.unk(rule, what, None, "query is gone")
        return
    ix = index_of(r)
    if ix is None:
        c.unk(rule, what, f.where(), "no index")
        return

    def check(I, vals):
        lo, la = coord(I, vals[1])
        want = I.U.prf(("contains", ("lib", "contains", vals[2], ("lib", "model", 0)), (la * MICRO, lo * MICRO)), "b", None)
        return True if bool(vals[0]) == want else "another question is asked of the index: %s" % str(tm.show(r.value))[:200]
    c.judge(rule, what, f.where(), settled(r, agree(g, [r.value, p, ix], check)))


def closest(c, g, rule="nearest"):
    p = g.coord("p")
    f, r = query(c, g, "closest_segment_to_point", (p,))
    what = "the closest segment is an edge of the boundary nearest to the point"
    if r is not None and r.value is None and not r.undetermined() and r.throws and all(and_(*o.S.pc) is TRUE for o in r.throws):
        c.bad(rule, what, f.where(), "no segment is ever returned")
        return
    if f is None or r.value is None:
        c.unk(rule, what, None, "query is gone")
        return
    evs = r.events()
    finds = [e for e in evs if e.kind == "lib" and e.a[0].split("::")[-1].startswith("FindClosestEdge")]
    if len(finds) != 1 or finds[0].a[0] != "S2ClosestEdgeQuery::FindClosestEdge" or finds[0].loops:
        c.unk(rule, what, f.where(), "%d searches" % len(finds))
        return
    q = finds[0]
    before = evs[:evs.index(q)]
    interiors, odd = None, []
    for e in before:
        n = e.a[0].split("::")[-1] if e.kind == "lib" else ""
        if n == "set_include_interiors":
            interiors = e.a[-1]
        elif n in ("set_max_distance", "set_inclusive_max_distance", "set_conservative_max_distance", "set_max_error"):
            odd.append((n, e))
    if r.undetermined():
        c.unk(rule, what, f.where(), str(r.undetermined()[:2]))
        return
    if interiors is None or interiors is TRUE:
        c.bad(rule, "only boundaries count, not the inside of polygons", q.where(), "interiors are included, so a point on land is its own closest place")
    elif interiors is FALSE:
        c.ok(rule, "only boundaries count, not the inside of polygons", q.where())
    else:
        c.unk(rule, "only boundaries count, not the inside of polygons", q.where(), str(tm.show(interiors))[:100])
    for n, e in odd:
        x = e.a[-1]
        lim = any(y.op == "app" and y.a[0] in ("S1Angle::Radians", "S1Angle::Degrees", "S1Angle::E6") and y.a[1].op == "c" for y in tm.walk(x))
        if lim and (n != "set_max_error" or not any(y.op == "c" and y.a[0] == 0 for y in tm.walk(x))):
            c.bad(rule, "the search is not cut short", e.where(), "%s(%s)" % (n, str(tm.show(x))[:80]))
        else:
            c.unk(rule, "the search is not cut short", e.where(), n)
    if not odd:
        c.ok(rule, "the search is not cut short", q.where())
    tgt = q.a[-1]
    tp = tgt.a[1] if tgt.op == "app" and tgt.a[0].endswith("PointTarget") and len(tgt.a) == 2 else None
    c.judge(rule, "the search starts from the point asked about", q.where(), agree(g, [tp, p], place_of) if tp is not None else ("unknown", "target of the search"))
    found = tm.app("S2ClosestEdgeQuery::GetEdge", q.a[1], tm.app(q.a[0], *q.a[1:]))

    def check(I, vals):
        e = vals[1]
        want = frozenset(micro_pt(I, ("edgepoint", e, x)) for x in ("v0", "v1"))
        return True if segment(I, vals[0]) == want else "its ends are %s, not those of the edge found, %s" % (sorted(segment(I, vals[0])), sorted(want))
    c.judge(rule, "the segment returned joins the two ends of the edge found", f.where(),
            agree(g, [r.value, found], check, known=names(found) | set(SETTERS(evs))))
    for o in r.throws:
        pc = and_(*o.S.pc)
        em = [x for x in tm.walk(pc) if x.op == "app" and x.a[0].endswith("Result::is_empty")]
        ok = pc in em
        c.judge(rule, "an error is raised only when there is no edge at all", "%s:%s" % (f.where().rsplit(":", 1)[0], o.line),
                ("yes", None) if ok else ("no", "an error is raised whether or not an edge is found") if pc is TRUE else ("unknown", str(tm.show(pc))[:120]))


def SETTERS(evs):
    return [e.a[0] for e in evs if e.kind == "lib"] + [e.a[0] + "'" for e in evs if e.kind == "lib"]


def crossings(c, g, rule="crossings"):
    s = tm.rec("LineSegment", []) and g.make("LineSegment", g.coord("a"), g.coord("b"))
    for name in ("intersect_with_segments", "does_segment_intersect_with_segments"):
        what = {"intersect_with_segments": "every edge sharing a point with the segment is returned, with its own ends, and nothing else",
                "does_segment_intersect_with_segments": "a segment meets the land exactly when some edge shares a point with it"}[name]
        f, r = query(c, g, name, (s,))
        if f is None or r.value is None or s is None:
            c.unk(rule, what, None, "query is gone")
            continue
        ix = index_of(r)
        if ix is None:
            c.unk(rule, what, f.where(), "no index")
            continue

        def check(I, vals):
            a, b = (("pt", y * MICRO, x * MICRO) for x, y in (coord(I, v) for v in vals[1:3]))
            es = crossing(I, ("lib", "crossings", vals[3]), a, b, 1)[1:]
            if name.startswith("does"):
                return True if bool(vals[0]) == bool(es) else "%d edges share a point with it, the answer is %s" % (len(es), bool(vals[0]))
            if not I.is_list(vals[0]):
                raise Unknown("not a list")
            got = sorted(map(sorted, (segment(I, x) for x in vals[0][1:])))
            want = sorted(sorted(micro_pt(I, ("edgepoint", e, k)) for k in ("v0", "v1")) for e in es)
            want = [sorted(set(map(tuple, x))) for x in want]
            return True if got == want else "of the edges sharing a point with it, with ends %s, it returns %s" % (want[:3], got[:3])
        c.judge(rule, what, f.where(), settled(r, agree(g, [r.value, g.coord("a"), g.coord("b"), ix], check)))


def projection(c, g, rule="projection"):
    P = c.P
    fs = [f for f in P.by_qn.get("LineSegment::project", ())]
    what = "a point is projected onto the nearest point of the segment"
    s = g.make("LineSegment", g.coord("a"), g.coord("b"))
    if len(fs) != 1 or s is None:
        c.unk(rule, what, None, "projection is gone")
        return
    f = fs[0]
    c.saw(f)
    w = World(P)
    p = g.coord("p")
    args = [p] + [const(0, "r")] * (len(f.params()) - 1)
    r = w.call(f, w.place("this", s), args)
    if r.S is None or r.value is None:
        c.unk(rule, what, f.where(), "no value")
        return
    for u in w.ev.visited:
        if u in P.fns:
            c.saw(P.fns[u])
    v = inside(r.S, r.value)

    def check(I, vals):
        a, b, q = ((y * MICRO, x * MICRO) for x, y in (coord(I, x) for x in vals[1:4]))
        want = micro_pt(I, project(I, ("lib", "line", ("l", ("pt",) + a, ("pt",) + b)), ("pt",) + q))
        got = coord(I, vals[0])
        return True if got == want else "the nearest point of the segment is %s, the answer %s" % (want, tuple(map(float, got)))
    c.judge(rule, what + " (no margin)", f.where(), settled(r, agree(g, [v, g.coord("a"), g.coord("b"), p], check)))


def wiring(c, g, rule="planner"):
    """what a route planner asks its questions of"""
    P = c.P
    fs = [f for f in P.by_qn.get("ShortestPathComputer::ShortestPathComputer", ()) if len(f.params()) == 1 and "Graph" in f.pty(0).s]
    if len(fs) != 1:
        c.unk(rule, "the index a planner uses", None, "constructor is gone")
        return
    f = fs[0]
    c.saw(f)
    IX, VG = "SpatialSegmentIndex::SpatialSegmentIndex", "VistreeGenerator::VistreeGenerator"
    w = World(P, opaque={IX, VG})
    r = w.call(f, w.obj(f.cls, "this"))
    t = r.S.env.get(("arg", "this")) if r.S is not None else None
    vals = dict(t.a[1]) if t is not None and t.op == "rec" else {}
    graph = tm.sym(f.params()[0]["n"] or "arg0")
    if r.undetermined() or not vals:
        c.unk(rule, "the index a planner uses", f.where(), str(r.undetermined()[:2]))
        return
    for what, q in (("the index a planner asks holds all polygons of its graph", IX), ("the visibility a planner computes is among the polygons of its graph", VG)):
        got = [v for v in vals.values() if v.op == "app" and v.a[0] == q]
        if len(got) != 1 or len(got[0].a) != 2:
            c.unk(rule, what, f.where(), "%d found" % len(got))
            continue
        a = got[0].a[1]
        gp = {x for x in tm.walk(a) if x.op == "app" and x.a[0] in ("virtual:get_polygons", "Graph::get_polygons") and graph in tm.free(x)}
        if a in gp:
            c.ok(rule, what, f.where())
        elif not gp and not names(a) and not tm.free(a):
            c.bad(rule, what, f.where(), "it is made from %s" % str(tm.show(a))[:80])
        else:
            v = agree(Geo(c), [a] + list(gp), lambda I, x: x[0] == x[1] or "it is made from %s" % str(tm.show(a))[:120], known=names(*gp)) if len(gp) == 1 else ("unknown", "another list")
            c.judge(rule, what, f.where(), v)


def s01(c):
    g = Geo(c)
    if g.ready(c):
        conversions(c, g)
        projection(c, g)


def s02(c):
    g = Geo(c)
    if g.ready(c):
        contents(c, g)
        contained(c, g)
        closest(c, g)
        crossings(c, g)
        wiring(c, g)
