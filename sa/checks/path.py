"""Path queries: ends, land, hops, search limit, absence of side effects."""
from .. import terms as tm
from ..evalcpp import LV, typed
from ..interp import same, valid
from ..loops import drop_range, replace
from ..terms import TRUE, FALSE, and_, or_, not_, eqt, ite, const, app
from ..world import World, under
from . import space
from .geom import Geo, small

OPAQUE = ("SpatialSegmentIndex::is_point_contained", "SpatialSegmentIndex::closest_segment_to_point", "SpatialSegmentIndex::intersect_with_segments",
          "LineSegment::project", "VistreeGenerator::get_visible_vertices", "coordinate_from_periodic_coordinate",
          "ModifiedGraph::add_edge", "ModifiedGraph::add_vertex", "ModifiedGraph::add_directed_edge", "ModifiedGraph::remove_edge",
          "ModifiedGraph::remove_directed_edge", "ModifiedGraph::get_neighbors", "ModifiedGraph::has_vertex", "ModifiedGraph::has_edge",
          "ModifiedGraph::is_edge_meridian_crossing")
MUTATORS = ("add_edge", "add_vertex", "add_directed_edge", "remove_edge", "remove_directed_edge")


def leaves(t, conds=()):
    if t.op == "ite":
        yield from leaves(t.a[1], conds + (t.a[0],))
        yield from leaves(t.a[2], conds + (not_(t.a[0]),))
    else:
        yield conds, t


def short(t, n=160):
    s = tm.show(t)
    return s if len(s) <= n else s[:n] + "..."


def verdict(vs):
    """worst of several verdicts"""
    for k in ("no", "unknown"):
        for v in vs:
            if v[0] == k:
                return v
    return ("yes", None)


class Search:
    """summary of one path query and the terms of its specification"""

    def __init__(self, c):
        self.c = c
        P = self.P = c.P
        self.g = Geo(c)
        self.f = P.need("ShortestPathComputer::shortest_path", 5)
        self.good = False
        if not self.g.ready(c):
            return
        c.saw(self.f)
        self.w = World(P, opaque=OPAQUE)
        self.r = self.w.call(self.f, self.w.obj("ShortestPathComputer", "this"))
        for u in self.w.ev.visited:
            f = P.fns.get(u)
            if f is not None:
                c.saw(f)
        if self.r.S is None or self.r.value is None:
            c.unk("summary", "summary of a path query", self.f.where(), "no normal return")
            return
        ps = self.f.params()
        self.src, self.dst, self.max, self.correct, self.weight = [p["n"] or "arg%d" % i for i, p in enumerate(ps)]
        self.MAX, self.CORRECT = tm.sym(self.max, "r"), tm.sym(self.correct, "b")
        self.EV = self.r.S.ev
        this = tm.sym("this")
        fields = {}
        for f, s, *_ in tm.RECORDS.get("ShortestPathComputer", []):
            t = tm.fld(this, f, s)
            fields[f] = t
        self.idx = self.obj_of("SpatialSegmentIndex")
        self.gen = self.obj_of("VistreeGenerator")
        self.base = None
        for e in self.EV:
            if e.kind == "vcall" and e.a[1].op == "deref" and tm.free(e.a[1]) == {this}:
                self.base = e.a[1]
                break
        miss = [n for n, v in (("spatial index", self.idx), ("graph", self.base)) if v is None]
        if miss:
            c.unk("summary", "summary of a path query", self.f.where(), "%s not found" % ", ".join(miss))
            return
        A = self.app
        self.NS = A("coordinate_from_periodic_coordinate", 1, self.sym(self.src))
        self.ND = A("coordinate_from_periodic_coordinate", 1, self.sym(self.dst))
        self.landS = A("SpatialSegmentIndex::is_point_contained", 1, self.idx, self.NS)
        self.landD = A("SpatialSegmentIndex::is_point_contained", 1, self.idx, self.ND)
        self.eS = A("SpatialSegmentIndex::closest_segment_to_point", 1, self.idx, self.NS)
        self.eD = A("SpatialSegmentIndex::closest_segment_to_point", 1, self.idx, self.ND)
        if any(x is None for x in (self.NS, self.landS, self.eS)):
            c.unk("summary", "summary of a path query", self.f.where(), "a helper it is specified by is gone")
            return
        zero = const(0, "r")
        self.pS = A("LineSegment::project", None, self.eS, self.NS, zero)
        self.pD = A("LineSegment::project", None, self.eD, self.ND, zero)
        if self.pS is None:
            c.unk("summary", "summary of a path query", self.f.where(), "projection onto a segment is gone")
            return
        self.CS, self.CD = ite(self.landS, self.pS, self.NS), ite(self.landD, self.pD, self.ND)
        self.good = True

    def sym(self, n):
        t = tm.sym(n)
        tm.set_type(t, "Coordinate")
        return t

    def obj_of(self, cls):
        for e in self.EV:
            if e.kind == "call" and str(e.a[0]).startswith(cls + "::") and len(e.a) > 1 and e.a[1].op == "fld" and e.a[1].a[0] is tm.sym("this"):
                return e.a[1]
        return None

    def app(self, qn, np, *args):
        fs = [f for f in self.P.fns.values() if f.qn == qn and f.kind != "lambda" and (np is None or len(f.params()) == np)]
        if len(fs) != 1:
            return None
        rty = fs[0].ret()
        n = len(fs[0].params()) + (1 if fs[0].cls and not fs[0].o.get("static") else 0)
        return typed(tm.app(qn, *args[:n], sort=rty.noref().sort()), rty)

    # ---- equality of coordinates, componentwise
    def eq(self, a, b):
        return and_(eqt(self.g.x(a), self.g.x(b)), eqt(self.g.y(a), self.g.y(b)))

    def same_coord(self, a, b, assume=TRUE):
        if a is None or a.op == "opaque":
            return ("unknown", "no value")
        return verdict([same(self.g.x(a), self.g.x(b), assume, known=VOC(self)), same(self.g.y(a), self.g.y(b), assume, known=VOC(self))])

    # ---- parts of the result
    def parts(self):
        """(direct [(conds, list)], searched [(conds, term)])"""
        d, s = [], []
        for cs, t in leaves(self.r.value):
            (d if t.op == "list" else s).append((cs, t))
        return d, s

    def loop_of(self, exits):
        for e in self.EV:
            if e.kind == "loop":
                L = e.a[0]
                if exits & set(L.exitsym.values()):
                    return L, e
        return None, None

    def unfold(self, t, m):
        """(value of t, assumption) when the loop that builds it makes m rounds"""
        free = {x for x in tm.walk(t) if x.op == "sym" and str(x.a[0]).startswith("exit:")}
        L, e = self.loop_of(free)
        if L is None or L.kind not in ("while", "for", "do") or L.cond is None:
            return None, None, None
        st = {p: i for p, (i, s) in L.phis.items()}
        asm = []
        for i in range(m):
            cond = tm.subst(replace(L.cond, st), {L.k: const(i)})
            asm.append(cond)
            st = {p: tm.subst(replace(s, st), {L.k: const(i)}) for p, (i0, s) in L.phis.items()}
        asm.append(not_(tm.subst(replace(L.cond, st), {L.k: const(m)})))
        v = replace(t, {L.exitsym[p]: x for p, x in st.items()})
        if L.exits:
            return None, None, None
        self.last = [x for x in st.values() if tm.type_of(x) == "Coordinate" or x.op == "ite"]
        self.stop = asm[-1]
        return v, and_(*asm), L


def VOC(s):
    from ..interp import vocab
    k = set()
    for t in (s.CS, s.CD):
        k |= vocab(t)
    return k | {"round"}


# ------------------------------------------------------------------ ends and land
def ends(c, s, what_first, what_last, rule, only=None):
    d, sr = s.parts()
    if not d and not sr:
        c.unk(rule, what_first, s.f.where(), "no value")
        return
    for cs, t in d:
        a = and_(*cs)
        if only is not None:
            a = and_(a, only)
        if len(t.a) < 1:
            c.bad(rule, "a returned path has a first and a last vertex", s.f.where(), "empty list")
            continue
        c.judge(rule, what_first + " (direct line)", s.f.where(), s.same_coord(t.a[0], s.CS, assume=a))
        c.judge(rule, what_last + " (direct line)", s.f.where(), s.same_coord(t.a[-1], s.CD, assume=a))
    for cs, t in sr:
        for m in range(4):
            v, asm, L = s.unfold(t, m)
            if v is None:
                c.unk(rule, what_first + " (searched)", s.f.where(), "the loop that builds the path is not of a known form")
                break
            n = tm.ln(v)
            first, last = tm.at(v, const(0)), tm.at(v, tm.sub(n, const(1)))
            for x in (first, last):
                tm.set_type(x, "Coordinate")
            a = asm
            if m == 0:
                # no step: both ends coincide
                a = s.eq(s.CS, s.CD)
                mm = {}
                c.judge(rule, "a search whose ends coincide returns their position", s.f.where(),
                        valid(or_(not_(a), and_(s.eq(first, s.CS), s.eq(last, s.CD))), n=60))
                continue
            c.judge(rule, what_first + " (searched, %d steps)" % m, s.f.where(), ends_eq(s, first, s.CS, asm))
            c.judge(rule, what_last + " (searched, %d steps)" % m, s.f.where(), ends_eq(s, last, s.CD, asm))


def ends_eq(s, got, want, asm):
    """the loop stops at a vertex equal to the source: use what its condition says"""
    if got is want:
        return ("yes", None)
    v = s.same_coord(got, want)
    if v[0] == "no":
        # equal only because the loop has ended
        lits = [x for x in (asm.a if asm.op == "and" else (asm,))]
        if s.eq(got, want) in lits or any(x is y for x in lits for y in (s.eq(got, want), s.eq(want, got))):
            return ("yes", None)
        if and_(asm, s.eq(got, want)) is asm or under(s.eq(got, want), [asm]) is TRUE:
            return ("yes", None)
    return v


def p01(c):
    s = Search(c)
    if not s.good:
        return
    ends(c, s, "a path starts at the normalised source, moved only if it is on land", "a path ends at the normalised destination, moved only if it is on land", "ends")


def p02(c):
    s = Search(c)
    if not s.good:
        return
    ok = or_(s.CORRECT, and_(not_(s.landS), not_(s.landD)))
    pc = and_(*s.r.S.pc)
    cases = [(a, b, k) for a in (TRUE, FALSE) for b in (TRUE, FALSE) for k in (TRUE, FALSE)]
    names = lambda a, b, k: "source %s, destination %s, correction %s" % ("on land" if a is TRUE else "not on land", "on land" if b is TRUE else "not on land", "on" if k is TRUE else "off")
    refused = []
    for o in s.r.throws:
        refused.append(and_(*o.S.pc))
    for a, b, k in cases:
        m = {s.landS: a, s.landD: b, s.CORRECT: k}
        p = replace(pc, m)
        want_refused = k is FALSE and (a is TRUE or b is TRUE)
        if want_refused:
            what = "refused: " + names(a, b, k)
            if p is FALSE or any(x is FALSE for x in (p.a if p.op == "and" else ())):
                c.ok("refusal", what, s.f.where())
                continue
            # a line that crosses nothing: what is done then?
            p0 = p
            for X in {x for x in tm.walk(p) if x.op == "app" and x.a[0] == "SpatialSegmentIndex::intersect_with_segments"}:
                p0 = relist(p0, X, tm.lst(), {})
            if p0 is FALSE:
                c.ok("refusal", what, s.f.where())
            elif p0 is TRUE:
                c.bad("refusal", what, s.f.where(), "a path is returned")
            else:
                c.judge("refusal", what, s.f.where(), valid(not_(p0), n=200))
        else:
            early = [replace(x, m) for x in refused]
            early = [x for x in early if x is TRUE]
            if early:
                c.bad("refusal", "not refused: " + names(a, b, k), s.f.where(), "an error is raised")
            elif p is FALSE:
                c.bad("refusal", "not refused: " + names(a, b, k), s.f.where(), "no path is ever returned")
            else:
                c.ok("refusal", "not refused: " + names(a, b, k), s.f.where())
    # where the two ends go
    d, sr = s.parts()
    for cs, t in d:
        if len(t.a) < 2:
            c.unk("correction", "ends of the direct line", s.f.where(), "not two ends")
            continue
        for nm, got, land, proj, plain in (("source", t.a[0], s.landS, s.pS, s.NS), ("destination", t.a[-1], s.landD, s.pD, s.ND)):
            c.judge("correction", "a %s not on land is not moved" % nm, s.f.where(), s.same_coord(replace(got, {land: FALSE}), plain))
            c.judge("correction", "a %s on land is moved to its projection onto the closest coast segment" % nm, s.f.where(),
                    s.same_coord(replace(got, {land: TRUE}), proj))
    pushes = [e for e in s.EV if e.kind == "push" and not e.loops]
    for e in pushes:
        x = node_of(s, e.a[1])
        if x is None:
            c.unk("correction", "vertex the search starts from", e.where(), "no coordinate")
            continue
        c.judge("correction", "the search starts from the source, moved only if on land", e.where(), s.same_coord(x, s.CS))
    if not d and not pushes:
        c.unk("correction", "ends", s.f.where(), "neither a direct line nor a search start")
    # what being on land, the closest coast and the projection onto it are
    space.wiring(c, s.g)
    space.contents(c, s.g)
    space.contained(c, s.g)
    space.closest(c, s.g)
    space.projection(c, s.g)
    space.conversions(c, s.g)


def node_of(s, el):
    """the coordinate held by a queue element"""
    if el.op == "rec":
        for f, v in el.a[1]:
            if tm.type_of(v) == "Coordinate" or (v.op == "rec" and v.a[0] == "Coordinate"):
                return v
        for f, v in el.a[1]:
            if v.sort == "o":
                return v
    return None


# ------------------------------------------------------------------ hops
def segment_eq(s, a, b):
    """equality of segments as the sources define it, or by end points in either order"""
    f = [x for x in s.P.fns.values() if x.qn == "LineSegment::operator=="]
    if len(f) == 1:
        w = World(s.P)
        r = w.call(f[0], w.place("sega", a), (b,))
        if r.value is not None and r.value.op != "opaque":
            return r.value
    return None


def p03(c):
    s = Search(c)
    if not s.good:
        return
    g = s.g
    d, sr = s.parts()
    # -- the direct line
    inter = [e for e in s.EV if e.kind == "call" and e.a[0] == "SpatialSegmentIndex::intersect_with_segments"]
    terms = {e for x in tm.walk(s.r.value) for e in [x] if x.op == "app" and x.a[0] == "SpatialSegmentIndex::intersect_with_segments"}
    if len(terms) != 1:
        c.unk("direct line", "condition of the direct line", s.f.where(), "%d crossing queries" % len(terms))
    else:
        X = next(iter(terms))
        seg = X.a[-1]
        ends2 = [v for f, v in seg.a[1]] if seg.op == "rec" else []
        if len(ends2) == 2:
            fw = verdict([s.same_coord(ends2[0], s.CS), s.same_coord(ends2[1], s.CD)])
            bw = verdict([s.same_coord(ends2[0], s.CD), s.same_coord(ends2[1], s.CS)])
            c.judge("direct line", "the line tested is the one between the two ends", s.f.where(), fw if fw[0] == "yes" or bw[0] != "yes" else bw)
        else:
            c.unk("direct line", "the line tested is the one between the two ends", s.f.where(), "not a segment")
        cond = or_(*[and_(*cs) for cs, t in d])
        ok = or_(s.CORRECT, and_(not_(s.landS), not_(s.landD)))
        mk = lambda n: segment_of(s, n)
        free = [mk("free%d" % i) for i in range(3)]
        for a in (TRUE, FALSE):
            for b in (TRUE, FALSE):
                other = lambda x: and_(TRUE if a is FALSE else not_(seqq(s, x, s.eS)), TRUE if b is FALSE else not_(seqq(s, x, s.eD)))
                lists = [[], [free[0]], [free[0], free[1]], [s.eS], [s.eD], [s.eS, s.eD], [s.eD, s.eS], [free[0], s.eS], [s.eS, free[0]], [s.eD, free[0]],
                         [free[0], s.eS, s.eD], [s.eS, s.eS], [s.eS, free[0], s.eD], [s.eS, s.eD, free[0]], [free[0], free[1], free[2]]]
                worst, cnt = ("yes", None), 0
                for l in lists:
                    m0 = {s.landS: a, s.landD: b, s.CORRECT: TRUE}
                    got = relist(cond, X, tm.lst(*l), m0)
                    if seqq(s, free[0], s.eS) is None:
                        worst = ("unknown", "equality of segments")
                        break
                    want = and_(*[not_(other(x)) for x in l])
                    v = same(got, replace(want, m0), n=120, known=KN(s))
                    cnt += 1
                    if v[0] != "yes":
                        v = (v[0], "crossed segments %s: %s" % ([name_of(s, x) for x in l], v[1]))
                        worst = v
                        if v[0] == "no":
                            break
                c.judge("direct line", "taken exactly when the line crosses nothing but the segments its ends were moved onto (source %s, destination %s; %d lists of crossed segments)" % (
                    "moved" if a is TRUE else "not moved", "moved" if b is TRUE else "not moved", cnt), s.f.where(), worst)
        for cs, t in d:
            c.judge("direct line", "the direct line has exactly its two ends", s.f.where(), ("yes", None) if len(t.a) == 2 else ("no", "%d vertices" % len(t.a)))
    # -- each step of a searched path is a recorded predecessor
    maps = set()
    for cs, t in sr:
        for m in (1, 2, 3):
            v, asm, L = s.unfold(t, m)
            if v is None:
                c.unk("hops", "steps of a searched path", s.f.where(), "the loop that builds the path is not of a known form")
                break
            n = tm.ln(v)
            if n.op != "c":
                c.unk("hops", "steps of a searched path (%d)" % m, s.f.where(), "length not known")
                continue
            el = [tm.at(v, const(i)) for i in range(int(n.a[0]))]
            bad = None
            for i, (x, y) in enumerate(zip(el, el[1:])):
                ok, ms = is_prev(s, x, y)
                if ok is None and i == 0:
                    # the vertex the loop stopped at, equal to the source by its condition
                    for z in s.last:
                        if under(s.eq(z, x), [s.stop]) is TRUE:
                            ok, ms = is_prev(s, z, y)
                            if ok:
                                break
                maps |= ms
                if ok is None:
                    bad = ("unknown", "step %s -> %s" % (short(x, 60), short(y, 60)))
                elif not ok:
                    # the last one is the source by the loop condition
                    bad = bad or ("unknown", "%s is not the recorded predecessor of %s" % (short(x, 60), short(y, 60)))
            if int(n.a[0]) != m + 1:
                # the closing vertex may repeat the source
                bad = bad or ("unknown", "%s vertices after %d steps" % (n.a[0], m))
            c.judge("hops", "each vertex of a searched path follows its recorded predecessor (%d steps)" % m, s.f.where(), bad or ("yes", None))
    if sr and not maps:
        c.unk("hops", "the record of predecessors", s.f.where(), "not found")
        return
    # -- predecessors are only recorded along edges of the extended graph
    seen, todo, puts = set(), list(maps), []
    phis = {}
    for e in s.EV:
        if e.kind == "loop":
            for p, (i, st) in e.a[0].phis.items():
                phis[p] = (i, st, e.a[0], e)
                x = e.a[0].exitsym.get(p)
                if x is not None:
                    phis[x] = (i, st, e.a[0], e)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for cs, l in leaves(t):
            if l.op == "mput":
                puts.append((cs, l))
                todo.append(l.a[0])
            elif l in phis:
                todo += [phis[l][0], phis[l][1]]
            elif l.op == "mempty":
                pass
            elif l.op == "sym" and str(l.a[0]).startswith("phi:"):
                pass        # the enclosing loop's value at the start of a round
            else:
                c.unk("hops", "what the record of predecessors holds", s.f.where(), short(l))
    if not puts:
        c.unk("hops", "predecessors recorded", s.f.where(), "no write found")
    nb = set()
    for cs, l in {(cs, l) for cs, l in puts}:
        key, val = l.a[1], l.a[2]
        N = key.a[0] if key.op == "at" else None
        if N is None or N.op != "app" or not str(N.a[0]).endswith("get_neighbors"):
            c.unk("hops", "a recorded predecessor has the vertex among its neighbours", s.f.where(), short(key))
            continue
        G, V = N.a[-2], N.a[-1]
        nb.add(G)
        v = ("yes", None)
        if V is not val:
            from ..interp import vocab
            tops = {x for t in (V, val) for x in tm.walk(t) if x.op == "pq_top" or x.op == "app" and x.a[0] == "pq_top"}
            mt = {x: tm.sym("qtop%d" % i) for i, x in enumerate(sorted(tops, key=tm.show))}
            v = s.same_coord(replace(V, mt), replace(val, mt))
            if v[0] == "no" and not known_node(s, val):
                v = ("unknown", v[1])
        c.judge("hops", "a recorded predecessor has the vertex among its neighbours", s.f.where(), v)
    # -- the graph searched is the base graph, extended by what the ends see
    calls = [e for e in s.EV if e.kind == "call" and str(e.a[0]).startswith("ModifiedGraph::") and str(e.a[0]).split("::")[1] in MUTATORS]
    edges = [e for e in calls if e.a[0].endswith("_edge")]
    start = next((e for e in s.EV if e.kind == "push" and not e.loops), None)
    S0 = list(start.pc) if start is not None else []
    done = {"S": [], "D": []}
    for e in edges:
        nm = e.a[0].split("::")[1]
        if nm.startswith("remove"):
            c.bad("extended graph", "edges are only added to the overlay", e.where(), "%s is called" % nm)
            continue
        v, pt, fl = e.a[2], e.a[3], e.a[4]
        p0 = pt.a[0] if pt.op == "fld" else pt
        if p0.op != "at" or p0.a[0].op != "app" or p0.a[0].a[0] != "VistreeGenerator::get_visible_vertices":
            c.unk("extended graph", "an added edge leads to a vertex the end sees", e.where(), short(pt))
            continue
        vis = p0.a[0]
        who = None
        for k, C in (("S", s.CS), ("D", s.CD)):
            if s.same_coord(v, C)[0] == "yes":
                who = k
        if who is None:
            c.unk("extended graph", "an added edge starts at one of the ends", e.where(), short(v))
            continue
        C, land, eg = (s.CS, s.landS, s.eS) if who == "S" else (s.CD, s.landD, s.eD)
        nmx = "source" if who == "S" else "destination"
        c.judge("extended graph", "the %s is joined to what can be seen from the %s itself" % (nmx, nmx), e.where(), s.same_coord(vis.a[2], C))
        half = vis.a[3] if len(vis.a) > 3 else FALSE
        c.judge("extended graph", "the %s looks all the way round" % nmx, e.where(), ("yes", None) if half is FALSE else ("no", "half scan") if half is TRUE else ("unknown", short(half)))
        # the vertex and the flag belong to the same visible vertex
        if pt.op == "fld" and fl.op == "fld" and fl.a[0] is p0 and fl.sort == "b":
            c.ok("extended graph", "an edge of the %s carries its own meridian flag" % nmx, e.where())
        elif fl in (TRUE, FALSE) or fl.op == "not" and fl.a[0].op == "fld" and fl.a[0].a[0] is p0:
            c.bad("extended graph", "an edge of the %s carries its own meridian flag" % nmx, e.where(), "the flag is %s" % short(fl, 60))
        else:
            c.unk("extended graph", "an edge of the %s carries its own meridian flag" % nmx, e.where(), short(fl))
        done[who].append((e, p0, nm))
    for who in "SD":
        C, land, eg = (s.CS, s.landS, s.eS) if who == "S" else (s.CD, s.landD, s.eD)
        nmx = "source" if who == "S" else "destination"
        what = "the %s is joined to every vertex it sees on its own side of the segment it was moved onto, if it is not a vertex itself" % nmx
        es = [x for x in done[who] if x[2] == "add_edge"]
        if len(es) != 1:
            c.unk("extended graph", what, s.f.where(), "%d places" % len(es))
            continue
        e, p0, nm = es[0]
        got = and_(*[p for p in e.pc if p not in S0])
        hv = [x for x in tm.walk(got) if x.op == "app" and str(x.a[0]).endswith("has_vertex") and x.a[1] is s.base]
        mine = [x for x in hv if s.same_coord(x.a[2], C)[0] == "yes"]
        pos = p0 and tm.fld(p0, pt_field(s, p0), "o")
        if pos is None or not mine:
            c.unk("extended graph", what, e.where(), "no test of the graph's vertices")
            continue
        tm.set_type(pos, "Coordinate")
        # positive cross product: the point is to the left of the segment
        e1, e2 = segment_ends(s, eg)
        if e1 is None:
            c.unk("extended graph", what, e.where(), "ends of a segment")
            continue
        cr = g.cross(g.minus(e2, e1), g.minus(pos, e1))
        rng = and_(tm.le(const(0), p0.a[1]), tm.lt(p0.a[1], tm.ln(p0.a[0])))
        want = and_(not_(mine[0]), or_(not_(land), tm.le(cr, const(0))))
        m = {}
        for q, nm2 in ((e1, "se1"), (e2, "se2"), (pos, "pos")):
            m[g.x(q)], m[g.y(q)] = small(nm2 + "x", -3, 3), small(nm2 + "y", -3, 3)
        c.judge("extended graph", what, e.where(), same(replace(got, m), replace(want, m), assume=replace(rng, m), n=600, known=KN(s) | {"virtual:has_vertex"}))
    for G in nb:
        gl = [(cs, l) for cs, l in leaves(G)]
        bad = None
        for cs, l in gl:
            if l is s.base:
                a = and_(*cs)
                hv = [x for x in tm.walk(a) if x.op == "app" and str(x.a[0]).endswith("has_vertex") and x.a[1] is s.base]
                both = []
                for C in (s.CS, s.CD):
                    h = [x for x in hv if s.same_coord(x.a[2], C)[0] == "yes"]
                    both.append(h[0] if h else None)
                if None in both:
                    bad = bad or ("unknown", "the graph itself is searched under %s" % short(a))
                else:
                    v = valid(or_(not_(a), and_(*both)))
                    if v[0] != "yes":
                        bad = (v[0], "the graph itself is searched although an end is not one of its vertices: %s" % v[1])
        c.judge("extended graph", "the graph itself is searched only if both ends are its vertices", s.f.where(), bad or ("yes", None))
    # what the crossing query the direct line depends on answers
    space.wiring(c, s.g)
    space.contents(c, s.g)
    space.crossings(c, s.g)
    space.conversions(c, s.g)


def KN(s):
    return VOC(s) | {"SpatialSegmentIndex::is_point_contained", "SpatialSegmentIndex::closest_segment_to_point", "LineSegment::project", "VistreeGenerator::get_visible_vertices"}


def known_node(s, val):
    return any(x.op == "pq_top" or (x.op == "app" and x.a[0] == "pq_top") for x in tm.walk(val)) or not any(
        x.op == "sym" and str(x.a[0]).startswith(("phi:", "exit:")) for x in tm.walk(val))


def segment_of(s, n):
    a, b = s.g.coord(n + "a", 180000000), s.g.coord(n + "b", 180000000)
    fs = [f for f, *_ in tm.RECORDS.get("LineSegment", [])]
    t = tm.rec("LineSegment", list(zip(fs, (a, b))))
    tm.set_type(t, "LineSegment")
    return t


def segment_ends(s, t):
    fs = [f for f, *_ in tm.RECORDS.get("LineSegment", [])]
    if len(fs) != 2:
        return None, None
    out = []
    for f in fs:
        x = tm.fld(t, f, "o")
        tm.set_type(x, "Coordinate")
        out.append(x)
    return out


def seqq(s, a, b):
    k = (a, b)
    if not hasattr(s, "_seq"):
        s._seq = {}
    if k not in s._seq:
        s._seq[k] = segment_eq(s, a, b)
    return s._seq[k]


def name_of(s, x):
    return "source's" if x is s.eS else "destination's" if x is s.eD else "another"


def relist(t, X, l, m):
    t = tm.subst(t, {X: l}) if X.op == "sym" else replace(t, {X: l})
    return replace(t, m)


def pt_field(s, p0):
    for f, so, *_ in tm.RECORDS.get("VisibleVertex", []):
        if so == "o":
            return f
    return None


def is_prev(s, x, y):
    """x is the recorded predecessor of y: (True/False/None, maps)"""
    ms, res = set(), True
    for cs, l in leaves(x):
        if l.op in ("mget",) and (l.a[1] is y):
            for c2, mm in leaves(l.a[0]):
                ms.add(mm)
        elif l.op == "mget":
            for c2, mm in leaves(l.a[0]):
                ms.add(mm)
            res = False
        else:
            res = None if res else res
    return res, ms


# ------------------------------------------------------------------ search limit
def degrees(g, u, v, dx=0):
    D = lambda t: tm.mul(const(__import__("fractions").Fraction(1, 1000000), "r"), tm.i2r(t))
    x, y = D(tm.add(tm.sub(g.x(u), g.x(v)), const(dx))), D(tm.sub(g.y(u), g.y(v)))
    return tm.mk("sqrt", tm.add(tm.mul(x, x), tm.mul(y, y)), sort="r")


PERIOD = 360000001


def step_length(g, u, v, across):
    return ite(across, tm.mint(degrees(g, u, v, PERIOD), degrees(g, u, v, -PERIOD)), degrees(g, u, v))


def estimate(g, u, v):
    return tm.mint(degrees(g, u, v), tm.mint(degrees(g, u, v, PERIOD), degrees(g, u, v, -PERIOD)))


def plain_ends(s, t, extra=()):
    """the ends as two plain coordinates"""
    m = {}
    for C, n in ((s.CS, "S"), (s.CD, "D")):
        m[C] = s.g.coord("end" + n, 180000000)
    for x, n in extra:
        m[x] = s.g.coord(n, 180000000)
    return m


def abstract(s, t, pts):
    """coordinates of the given terms replaced by those of plain symbols"""
    m = {}
    for x, p in pts:
        m[s.g.x(x)] = s.g.x(p)
        m[s.g.y(x)] = s.g.y(p)
        if x.op != "rec":
            m[x] = p
    t = replace(t, m)
    tops = {x for x in tm.walk(t) if x.op == "pq_top" or x.op == "app" and x.a[0] == "pq_top"}
    flags = {x for x in tm.walk(t) if x.op == "app" and str(x.a[0]).endswith("is_edge_meridian_crossing")}
    m = {x: tm.sym("qtop%d" % i) for i, x in enumerate(sorted(tops, key=tm.show))}
    m.update({x: tm.sym("flag%d" % i, "b") for i, x in enumerate(sorted(flags, key=tm.show))})
    return replace(t, m) if m else t


def guards(s):
    """(what, vertex, path condition, event) of every way a vertex enters the search"""
    out = []
    for e in s.EV:
        if e.kind == "push" and e.loops:
            x = node_of(s, e.a[1])
            out.append(("queue", x, list(e.pc), e))
    # records of predecessors
    seen = set()
    for e in s.EV:
        if e.kind == "loop":
            for p, (i, st) in e.a[0].phis.items():
                for cs, l in leaves(st):
                    if l.op == "mput" and tm.type_of(l.a[1]) in ("Coordinate", None) and (l, cs) not in seen:
                        seen.add((l, cs))
                        v = l.a[2]
                        if v.sort == "o":
                            out.append(("record of predecessors", l.a[1], [and_(*cs)], e))
    return out


def p04(c):
    s = Search(c)
    if not s.good:
        return
    gs = guards(s)
    if not gs:
        c.unk("limit", "vertices entering the search", s.f.where(), "none found")
        return
    d1, d2 = tm.sym("beyond1", "r"), tm.sym("beyond2", "r")
    for what, key, pc, e in gs:
        if key is None:
            c.unk("limit", "vertex entering the %s" % what, e.where(), "no coordinate")
            continue
        S, K = s.g.coord("endS", 180000000), s.g.coord("vertex", 180000000)
        D = s.g.coord("endD", 180000000)
        lim = [p for p in pc if s.MAX in tm.free(p)]
        t1 = "a vertex entering the %s is within the limit of the source" % what
        t2 = "the limit keeps no vertex within it from the %s" % what
        if not lim:
            if s.MAX in tm.free(key) or any(tm.is_opaque(p) for p in pc):
                c.unk("limit", t1, e.where(), "the limit is applied elsewhere")
            else:
                c.bad("limit", t1, e.where(), "the limit is not tested on the way")
            continue
        p = abstract(s, and_(*lim), [(key, K), (s.CS, S), (s.CD, D)])
        h = estimate(s.g, S, K)
        i1 = tm.sym("over1", "i", (-3, 3))
        i2 = tm.sym("over2", "i", (-3, 3))
        q = lambda i: replace(p, {s.MAX: tm.add(h, tm.mul(const(__import__("fractions").Fraction(1, 8), "r"), tm.i2r(i)))})
        kn = KN(s) | {"pq_top", "virtual:get_neighbors", "virtual:is_edge_meridian_crossing"}
        res = []
        for near in (False, True):
            m = {}
            if near:
                m = {s.g.x(S): small("sx", -3, 3), s.g.y(S): small("sy", -3, 3), s.g.x(K): small("kx", -3, 3), s.g.y(K): small("ky", -3, 3)}
            a1, a2 = replace(q(i1), m), replace(q(i2), m)
            v1 = valid(or_(not_(a1), tm.le(const(0), i1)), n=400, known=kn)
            v2 = valid(or_(not_(a1), or_(tm.lt(i2, const(0)), a2)), n=400, known=kn)
            res.append((v1, v2))
        # far sources and vertices on either side of the meridian
        m = {s.g.x(S): tm.add(small("sx", -3, 3), const(179999990)), s.g.x(K): tm.add(small("kx", -3, 3), const(-179999990)),
             s.g.y(S): small("sy", -3, 3), s.g.y(K): small("ky", -3, 3)}
        a1, a2 = replace(q(i1), m), replace(q(i2), m)
        res.append((valid(or_(not_(a1), tm.le(const(0), i1)), n=400, known=kn), valid(or_(not_(a1), or_(tm.lt(i2, const(0)), a2)), n=400, known=kn)))
        # limits that differ from the distance by a billionth of it only
        q = lambda i: replace(p, {s.MAX: tm.mul(h, tm.add(const(1, "r"), tm.mul(const(__import__("fractions").Fraction(1, 10 ** 9), "r"), tm.i2r(i))))})
        m = {s.g.x(S): small("sx", 20000000, 20000900), s.g.y(S): small("sy", -3, 300), s.g.x(K): small("kx", -3, 3), s.g.y(K): small("ky", -30000003, -30000000)}
        a1, a2 = replace(q(i1), m), replace(q(i2), m)
        res.append((valid(or_(not_(a1), tm.le(const(0), i1)), n=400, known=kn), valid(or_(not_(a1), or_(tm.lt(i2, const(0)), a2)), n=400, known=kn)))
        c.judge("limit", t1, e.where(), verdict([x for x, _ in res]))
        c.judge("limit", t2, e.where(), verdict([y for _, y in res]))


# ------------------------------------------------------------------ accumulated distances (part of P07)
def queue_elements(c, s, rule="queue"):
    g = s.g
    pushes = [e for e in s.EV if e.kind == "push" and e.a[1].op == "rec"]
    first = [e for e in pushes if not e.loops]
    if not first:
        c.unk(rule, "first element of the queue", s.f.where(), "not found")
        return
    names = [f for f, so, *_ in tm.RECORDS.get(first[0].a[1].a[0], ()) if so == "r"]
    d0 = dict(first[0].a[1].a[1])
    z = [f for f in names if d0[f].op == "c" and d0[f].a[0] == 0]
    if len(names) != 2 or len(z) != 1:
        c.unk(rule, "first element of the queue", first[0].where(), "not a pair of distances of which one is zero")
        return
    DF, HF = z[0], next(f for f in names if f != z[0])
    S, D, K, T = (g.coord(n, 180000000) for n in ("endS", "endD", "vertex", "top"))
    for e in pushes:
        el = dict(e.a[1].a[1])
        key = node_of(s, e.a[1])
        if key is None:
            c.unk(rule, "element of the queue", e.where(), "no coordinate")
            continue
        if not e.loops:
            got = abstract(s, el[HF], [(s.CS, S), (s.CD, D)])
            c.judge(rule, "the source enters the queue with the estimate of its distance to the destination", e.where(), same(got, estimate(g, S, D), known=KN(s)))
            continue
        tops = {x for x in tm.walk(el[DF]) if x.op == "app" and x.a[0] == "pq_top" or x.op == "pq_top"}
        got = abstract(s, el[HF], [(key, K), (s.CD, D), (s.CS, S)])
        c.judge(rule, "a vertex enters the queue with the estimate of its distance to the destination", e.where(), same(got, estimate(g, K, D), known=KN(s)))
        if len(tops) != 1:
            c.unk(rule, "a vertex enters the queue with the distance of its predecessor plus the step", e.where(), "%d queue tops" % len(tops))
            continue
        top = next(iter(tops))
        tn = node_of_top(s, top, e.a[1])
        fl = [x for x in tm.walk(el[DF]) if x.op == "app" and str(x.a[0]).endswith("is_edge_meridian_crossing")]
        if tn is None or not fl or len(set(fl)) != 1:
            c.unk(rule, "a vertex enters the queue with the distance of its predecessor plus the step", e.where(), "%d meridian flags" % len(set(fl)))
            continue
        fl = fl[0]
        ends = fl.a[-2:]
        pair = {ends[0], ends[1]} == {tn, key}
        c.judge(rule, "the meridian flag used is that of the step itself", e.where(), ("yes", None) if pair else ("no", "flag of %s" % short(fl)))
        F = tm.sym("across", "b")
        got = abstract(s, replace(el[DF], {fl: F, tm.fld(top, DF, "r"): tm.sym("sofar", "r")}), [(key, K), (tn, T)])
        c.judge(rule, "a vertex enters the queue with the distance of its predecessor plus the step", e.where(),
                same(got, tm.add(tm.sym("sofar", "r"), step_length(g, K, T, F)), known=KN(s)))


def node_of_top(s, top, el):
    """the coordinate of the element taken from the queue"""
    for f, v in el.a[1]:
        if tm.type_of(v) == "Coordinate" or v.sort == "o":
            t = tm.fld(top, f, "o")
            tm.set_type(t, "Coordinate")
            return t
    return None


# ------------------------------------------------------------------ absence of side effects
LOCKS = ("std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::shared_timed_mutex", "std::timed_mutex", "std::once_flag")
STATEFUL = ("rand", "srand", "random", "drand48", "lrand48", "rand_r", "strtok", "setlocale")


def walk(o):
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def bodies(f):
    return [f.o.get("body"), f.o.get("inits")] + [p.get("def") for p in f.params() if isinstance(p.get("def"), dict)]


def reach(P, roots):
    seen, todo = {}, list(roots)
    while todo:
        f = todo.pop()
        if f.usr in seen:
            continue
        seen[f.usr] = f
        us = set()
        for b in bodies(f):
            for x in walk(b):
                u = x.get("usr")
                if isinstance(u, str):
                    us.add((u, x.get("virt", False)))
        for u, virt in us:
            if u in P.fns:
                todo.append(P.fns[u])
            if virt:
                todo += P.overriders.get(u, [])
    return list(seen.values())


def is_lock_type(s):
    return any(k in s for k in LOCKS)


def root_of(e):
    """what an lvalue expression refers to"""
    while isinstance(e, dict):
        k = e.get("k")
        if k == "mem":
            if e.get("mut"):
                return e
            e = e["b"]
        elif k == "ref":
            return e
        elif k in ("sub", "cast", "un"):
            e = e.get("e") or e.get("b") or e.get("a")
        elif k == "call" and e.get("o") is not None:
            e = e["o"]
        else:
            return None
    return None


def state_key(e):
    if not isinstance(e, dict):
        return None
    if e.get("k") == "mem" and e.get("mut"):
        return "field %s::%s" % (e.get("rec"), e.get("f"))
    if e.get("k") == "ref" and e.get("dk") in ("slocal", "global"):
        return "%s %s" % ("static local" if e["dk"] == "slocal" else "global", e.get("qn") or e["n"])
    return None


def shared_state(P, fs):
    """{key: [(fn, line, 'r'/'w')]} of mutable fields, static locals and globals touched by the functions"""
    out = {}
    for f in fs:
        for b in bodies(f):
            mods = set()
            for x in walk(b):
                k = x.get("k")
                tgt = None
                if k == "asg":
                    tgt = [x.get("a")]
                elif k == "un" and x.get("op") in ("++", "--", "&"):
                    tgt = [x.get("e")]
                elif k == "call":
                    tgt = []
                    if x.get("o") is not None and x.get("cls") and x.get("const") is False:
                        tgt.append(x["o"])
                    for a, t in zip(x.get("a") or [], x.get("pt") or []):
                        ty = f.tu.ty(t)
                        if ty is not None and ty.k == "ref" and not ty.pointee().const:
                            tgt.append(a)
                elif k == "ctor":
                    tgt = []
                    for a, t in zip(x.get("a") or [], x.get("pt") or []):
                        ty = f.tu.ty(t)
                        if ty is not None and ty.k == "ref" and not ty.pointee().const:
                            tgt.append(a)
                for t in tgt or []:
                    r = root_of(t)
                    if r is not None and state_key(r):
                        mods.add(id(r))
            for x in walk(b):
                sk = state_key(x)
                if sk is None:
                    continue
                t = x.get("t")
                ty = f.tu.ty(t) if t is not None else None
                out.setdefault(sk, []).append((f, x.get("l"), "w" if id(x) in mods else "r", ty))
    return out


def const_globals(P):
    out = set()
    for k, (tu, g) in P.globals.items():
        if g.get("const"):
            out.add(g["qn"])
    return out


def history(c, fs, rule="shared state", entry="a query"):
    P = c.P
    cg = const_globals(P)
    ss = shared_state(P, fs)
    c.saw(*fs)
    n = 0
    for sk, uses in sorted(ss.items()):
        kind, _, nm = sk.partition(" ")
        nm = sk.split(" ")[-1]
        if nm in cg:
            continue
        tys = [t for *_, t in uses if t is not None]
        if tys and all(t.noref().const for t in tys):
            continue
        if any(is_lock_type(t.s) for t in tys):
            continue
        wr = [u for u in uses if u[2] == "w"]
        n += 1
        f, l = (wr or uses)[0][:2]
        if wr:
            c.bad(rule, "nothing %s touches outlives it: %s" % (entry, sk), f.where(l), "changed in %s" % ", ".join(sorted({u[0].qn for u in wr})))
        elif kind == "static":
            c.unk(rule, "nothing %s touches outlives it: %s" % (entry, sk), f.where(l), "not constant")
        else:
            c.ok(rule, "only read: %s" % sk, f.where(l))
    for f in fs:
        for b in bodies(f):
            for x in walk(b):
                if x.get("k") == "call" and x.get("n") in STATEFUL and not x.get("cls"):
                    c.bad(rule, "no hidden state of the C library is used", f.where(x.get("l")), x["n"])
                if x.get("k") == "cast" and x.get("ck") == "ConstCast":
                    c.unk(rule, "no constness is cast away", f.where(x.get("l")), "const_cast")
    c.ok(rule, "%d functions reachable from %s use no state that outlives the call (%d exceptions)" % (len(fs), entry, n), None)


def writes(c, f, w, r, rule, entry):
    """no write in the summary goes to an object that existed before the call"""
    ev = w.ev
    bad, unk, n = [], [], 0
    if r.S is None:
        c.unk(rule, "writes of %s" % entry, f.where(), "no normal return")
        return
    for e in r.S.ev:
        if e.kind not in ("wr", "push", "pop", "sort", "free"):
            continue
        lv = e.a[0]
        if not isinstance(lv, LV):
            continue
        n += 1
        rt = lv.root
        if rt[0] in ("arg", "g", "static", "slocal", "global"):
            bad.append((e, lv))
        elif rt[0] == "d":
            base = rt[1]
            fr = tm.free(base) if isinstance(base, tm.T) else set()
            ops = {x.op for x in tm.walk(base)} if isinstance(base, tm.T) else set()
            if tm.sym("this") in fr and ops <= {"sym", "fld", "deref", "val", "at", "app", "c", "poly", "keys", "mget"} and base.op in ("fld", "sym", "at", "val", "deref", "mget"):
                bad.append((e, lv))
            elif tm.sym("this") in fr and base.op != "app":
                unk.append((e, lv))
    for e, lv in bad[:5]:
        c.bad(rule, "%s writes only to objects of its own" % entry, e.where(), "writes %s" % (lv,))
    for e, lv in unk[:5]:
        c.unk(rule, "%s writes only to objects of its own" % entry, e.where(), "writes %s" % str(lv)[:120])
    if not bad and not unk:
        c.ok(rule, "%s writes only to objects of its own (%d writes)" % (entry, n), f.where())


def mutator(P, nm):
    m = [x for x in P.decls.values() if x.n == nm and x.o.get("virt")] + [x for x in P.fns.values() if x.n == nm and x.o.get("virt")]
    return bool(m) and not any(x.o.get("const") for x in m)


def overlay_only(c, f, r, qn):
    """an update of the overlay calls no updating operation of the graph below it"""
    bad = [e for e in (r.S.ev if r.S is not None else []) if e.kind == "vcall" and mutator(c.P, str(e.a[0]))
           and isinstance(e.a[1], tm.T) and e.a[1].op == "deref" and tm.free(e.a[1]) == {tm.sym("this")}]
    what = "%s leaves the graph below the overlay alone" % qn
    if r.S is None:
        c.unk("graph", what, f.where(), "no normal return")
    elif bad:
        c.bad("graph", what, bad[0].where(), "calls %s on it" % bad[0].a[0])
    else:
        c.ok("graph", what, f.where())


def p05(c):
    P = c.P
    s = Search(c)
    if not s.good:
        return
    roots = [s.f] + [f for f in P.by_qn.get("ShortestPathComputer::shortest_paths", [])]
    fs = reach(P, roots)
    history(c, fs)
    # the query itself
    writes(c, s.f, s.w, s.r, "writes", "a query")
    muts = {}
    for e in s.EV:
        if e.kind == "vcall":
            nm = str(e.a[0])
            if mutator(P, nm):
                tgt = [l for cs, l in leaves(e.a[1])]
                if s.base in tgt:
                    c.bad("graph", "no updating operation of the graph is called", e.where(), nm)
                else:
                    c.ok("graph", "%s is called on the overlay only" % nm, e.where())
            else:
                muts[nm] = e
    for nm, e in sorted(muts.items()):
        c.ok("graph", "%s cannot change the graph" % nm, e.where())
    calls = [e for e in s.EV if e.kind == "call" and str(e.a[0]).startswith("ModifiedGraph::") and str(e.a[0]).split("::")[1] in MUTATORS]
    for e in calls:
        lv = e.extra
        own = isinstance(lv, LV) and lv.root[0] in ("h", "v", "t")
        if own:
            c.ok("graph", "%s is called on an overlay made by this query" % e.a[0], e.where())
        elif isinstance(lv, LV) and (lv.root[0] == "arg" or lv.root[0] == "d" and tm.sym("this") in tm.free(lv.root[1])):
            c.bad("graph", "%s is called on an overlay made by this query" % e.a[0], e.where(), "called on %s" % (lv,))
        else:
            c.unk("graph", "%s is called on an overlay made by this query" % e.a[0], e.where(), str(lv)[:100])
    # the helpers a query is summarised by
    for qn in ("SpatialSegmentIndex::is_point_contained", "SpatialSegmentIndex::closest_segment_to_point", "SpatialSegmentIndex::intersect_with_segments",
               "LineSegment::project", "VistreeGenerator::get_visible_vertices", "ModifiedGraph::get_neighbors", "ModifiedGraph::has_vertex",
               "ModifiedGraph::is_edge_meridian_crossing", "ModifiedGraph::add_edge", "ModifiedGraph::add_vertex", "ModifiedGraph::add_directed_edge", "Graph::get_neighbors", "Graph::has_vertex", "Graph::is_edge_meridian_crossing"):
        for f in P.by_qn.get(qn, []):
            w = World(P, opaque=("OpenEdges::remove_edge", "OpenEdges::add_edge", "OpenEdges::closest_edge", "AngleSorter::sort_counter_clockwise_around_observer",
                                 "LineSegment::intersection_with_segment", "VistreeGenerator::orientation_segments", "ThreeVertexPolyline::point_visible",
                                 "coordinate_from_periodic_coordinate", "is_coordinate_over_meridian"))
            r = w.call(f, w.obj(f.cls, "this"))
            if not f.o.get("const") and not f.o.get("static"):
                overlay_only(c, f, r, qn)
                continue
            writes(c, f, w, r, "writes", qn)


# ------------------------------------------------------------------ relaxation of steps
def p08(c):
    from fractions import Fraction
    from ..interp import vocab
    s = Search(c)
    if not s.good:
        return
    g = s.g
    pushes = [e for e in s.EV if e.kind == "push" and e.loops and e.a[1].op == "rec"]
    if len(pushes) != 1 or len(pushes[0].loops) != 2:
        c.unk("relaxation", "where a vertex enters the queue", s.f.where(), "%d places" % len(pushes))
        return
    e = pushes[0]
    outer, inner = e.loops
    TOP = tm.sym("taken")

    def N0(t):
        """one name for the element taken from the queue, whatever round it is written in"""
        m = {x: TOP for x in tm.walk(t) if x.op == "pq_top" or x.op == "app" and x.a[0] == "pq_top"}
        return replace(t, m) if m else t
    ents = {x for x in tm.walk(e.a[1]) if x.op == "pq_top" or x.op == "app" and x.a[0] == "pq_top"}
    elem = N0(e.a[1])
    key = node_of(s, elem)
    el = dict(elem.a[1])
    names = [f for f, so, *_ in tm.RECORDS.get(e.a[1].a[0], ()) if so == "r"]
    if key is None or len(ents) != 1 or key.op != "at":
        c.unk("relaxation", "the vertex entering the queue", e.where(), "not a neighbour of the vertex taken from it")
        return
    top = TOP
    tn = node_of_top(s, top, elem)
    # -- every neighbour is examined
    N = key.a[0]
    nb = N.op == "app" and str(N.a[0]).endswith("get_neighbors")
    what = "every neighbour of the vertex taken from the queue is examined"
    kn = KN(s) | {"pq_top", "pq_empty", "virtual:get_neighbors", "virtual:is_edge_meridian_crossing", "virtual:has_vertex"}
    if not nb or key.a[1] is not inner.k or inner.n is None:
        c.unk("relaxation", what, e.where(), "loop over %s" % short(inner.n if inner.n is not None else key, 80))
    elif inner.breaks:
        b = or_(*[N0(x) for _, x in inner.breaks])
        c.judge("relaxation", what, e.where(), ("no", "the loop over the neighbours ends early when %s" % short(b, 100)) if not tm.is_opaque(b) else ("unknown", "an early end"))
    elif not inner.exact:
        c.unk("relaxation", what, e.where(), "loop not understood")
    else:
        v = ("yes", None) if N0(inner.n) is tm.ln(N) else same(N0(inner.n), tm.ln(N), known=kn | vocab(tm.ln(N)))
        c.judge("relaxation", what, e.where(), verdict([v, s.same_coord(N.a[-1], tn)]))
    # -- the search ends when the destination is taken or nothing is left
    S, D, K, T = (g.coord(n, 180000000) for n in ("endS", "endD", "vertex", "top"))
    sm = {g.x(q): small(n + "x", -2, 2) for q, n in ((D, "D"), (T, "T"))}
    sm.update({g.y(q): small(n + "y", -2, 2) for q, n in ((D, "D"), (T, "T"))})

    def plain(t, pts):
        em = {x: tm.sym("qempty", "b") for x in tm.walk(t) if x.op == "pq_empty" or x.op == "app" and x.a[0] == "pq_empty"}
        m = {}
        t = N0(replace(t, em) if em else t)
        for x, p in pts:
            m[g.x(x)] = g.x(p)
            m[g.y(x)] = g.y(p)
            if x.op != "rec":
                m[x] = p
        return replace(t, m)
    what = "the search ends exactly when the destination is taken from the queue or the queue is empty"
    EMPTY = tm.sym("qempty", "b")
    other = [k for k, _ in outer.breaks if k != "brk"]
    if other:
        c.unk("end of search", what, e.where(), "the search returns from within")
    else:
        stop = or_(*[plain(x, [(tn, T), (s.CD, D)]) for _, x in outer.breaks])
        cnd = plain(outer.cond if outer.cond is not None else TRUE, [(tn, T), (s.CD, D)])
        got = or_(not_(cnd), and_(cnd, stop))
        want = or_(EMPTY, and_(eqt(g.x(T), g.x(D)), eqt(g.y(T), g.y(D))))
        v = verdict([same(got, want, n=300, known=kn), same(replace(got, sm), replace(want, sm), n=300, known=kn)])
        c.judge("end of search", what, e.where(), v)
    pops = [x for x in s.EV if x.kind == "pop" and x.loops and x.loops[-1] is outer]
    what = "the vertex examined is taken from the queue"
    if len(pops) != 1:
        (c.bad if not pops else c.unk)("end of search", what, e.where(), "it stays in the queue" if not pops else "%d places" % len(pops))
    else:
        flat = lambda ps: [y for p in ps for y in (p.a if p.op == "and" else (p,))]
        base = set(flat(outer_pc(s, outer) or ()))
        got = or_(plain(and_(*[p for p in flat(pops[0].pc) if p not in base]), [(tn, T), (s.CD, D), (s.CS, S)]), EMPTY)
        v = verdict([same(replace(got, z), TRUE, n=200, known=kn) for z in ({}, sm)])
        c.judge("end of search", what, pops[0].where(), v)
    # -- records: the maps written for the vertex in a round of the inner loop
    recs = []
    for p, (i, st) in inner.phis.items():
        for cs, l in leaves(st):
            if l.op == "mput" and l.a[0] is p:
                recs.append((p, N0(and_(*cs)), N0(l)))
    dist = [r for r in recs if r[2].a[2].sort == "r"]
    pred = [r for r in recs if r[2].a[2].sort == "o"]
    what = "the distance recorded for a vertex is the one it enters the queue with"
    if len(dist) != 1 or len(pred) != 1:
        c.unk("relaxation", what, e.where(), "%d records of distances, %d of predecessors" % (len(dist), len(pred)))
        return
    dp, dc, dl = dist[0]
    pp, pc_, pl = pred[0]
    first = [x for x in s.EV if x.kind == "push" and not x.loops and x.a[1].op == "rec"]
    d0 = dict(first[0].a[1].a[1]) if first else {}
    DF = [f for f in names if f in d0 and d0[f].op == "c" and d0[f].a[0] == 0]
    if len(DF) != 1:
        c.unk("relaxation", what, e.where(), "%d distances" % len(DF))
        return
    tent = el[DF[0]]
    F = tm.sym("across", "b")

    def num(t):
        m = {x: F for x in tm.walk(t) if x.op == "app" and str(x.a[0]).endswith("is_edge_meridian_crossing")}
        m.update({tm.fld(top, f, "r"): tm.sym("top_" + f, "r") for f in names})
        return abstract(s, replace(t, m), [(key, K), (tn, T), (s.CS, S), (s.CD, D)])
    c.judge("relaxation", what, e.where(), ("yes", None) if dl.a[2] is tent else same(num(dl.a[2]), num(tent), known=kn))
    for nm, l in (("distance", dl), ("predecessor", pl)):
        c.judge("relaxation", "the %s is recorded for the vertex itself" % nm, e.where(), ("yes", None) if l.a[1] is key else ("yes", None) if s.eq(l.a[1], key) is TRUE else ("unknown", short(l.a[1], 80)))
    # -- exactly when it improves on what is recorded
    HAS, OLD = tm.sym("recorded", "b"), tm.sym("old", "r")
    flat = lambda ps: [y for p in ps for y in (p.a if p.op == "and" else (p,))]
    base = set(flat(outer_pc(s, inner) or ()))
    conds = {"enters the queue": N0(and_(*[p for p in flat(e.pc) if p not in base])), "has its distance recorded": dc, "has its predecessor recorded": pc_}
    for nm, cd in conds.items():
        what = "a neighbour within the limit %s exactly when no distance as short is recorded for it" % nm
        cd = drop_range(cd, inner.k, N0(inner.n))
        m = {}
        odd = None
        for x in tm.walk(cd):
            if x.op == "mhas":
                if x.a[0] in (dp, pp) and x.a[1] is key:
                    m[x] = HAS
                else:
                    odd = x
            elif x.op == "mget":
                if x.a[0] is dp and x.a[1] is key:
                    m[x] = OLD
                else:
                    odd = x
        if odd is not None or any(x.op == "pq_empty" for x in tm.walk(cd)):
            c.unk("relaxation", what, e.where(), "looks at %s" % short(odd if odd is not None else cd, 80))
            continue
        t = num(replace(cd, m))
        tv = num(tent)
        h = estimate(g, S, K)
        eighth = const(Fraction(1, 8), "r")
        i, j = tm.sym("over1", "i", (-3, 3)), tm.sym("over2", "i", (-3, 3))
        res = []
        A = 179999950
        for ox in ((0, 0, 0, 0), (A, A, -A, -A), (-A, -A, A, A), (A, -A, A, -A), (0, A, -A, 0), (0, -A, A, 0), (A, 0, 0, -A)):
            for rg in (3, 40) if ox == (0, 0, 0, 0) else (40,):
                z = {g.x(q): tm.add(small(n + "x", -rg, rg), const(o)) for (q, n), o in zip(((S, "s"), (K, "k"), (T, "t"), (D, "d")), ox)}
                z.update({g.y(q): small(n + "y", -rg, rg) for q, n in ((S, "s"), (K, "k"), (T, "t"), (D, "d"))})
                sub = {s.MAX: tm.add(h, tm.mul(eighth, tm.i2r(i))), OLD: tm.add(tv, tm.mul(eighth, tm.i2r(j)))}
                got = replace(replace(t, sub), z)
                want = and_(tm.le(const(0), i), or_(not_(HAS), tm.lt(const(0), j)))
                asm = and_(not_(eqt(j, const(0))), not_(eqt(i, const(0))))
                res.append(same(got, want, assume=asm, n=150, known=kn | {"round"}))
        c.judge("relaxation", what, e.where(), verdict(res))


def outer_pc(s, L):
    for x in s.EV:
        if x.kind == "loop" and x.a[0] is L:
            return x.pc
    return None
