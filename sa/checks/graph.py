"""G01: the adjacency the graph reports is the one its mutators built.   G03: equality.   G04: overlay."""
from .. import terms as tm
from ..interp import same
from ..loops import replace, trips
from ..terms import TRUE, FALSE, and_, or_, not_, eqt, ite
from ..world import EQ_COORD, World, under
from ..evalcpp import LV, lvh

BIG = (1 << 31) - 1


def graph_rep(c):
    """representation of Graph, read off its constructor: (vertex map field, count field, vertex list field)"""
    P = c.P
    f = P.need("Graph::Graph", 1)
    w = World(P, opaque=EQ_COORD)
    r = w.call(f, args=("polygons",))
    c.saw(f)
    if r.S is None:
        return None
    this = next((v for k, v in r.S.env.items() if k == ("arg", "this")), None)
    if this is None or this.op != "rec":
        return None
    fs = dict(this.a[1])
    M = [(k, v) for k, v in fs.items() if v.op == "mfold"]
    if len(M) != 1:
        return None
    mf, mv = M[0]
    v, cnt, g, key, val, init = mv.a
    L = [k for k, x in fs.items() if key.op == "at" and x is key.a[0]]
    N = [k for k, x in fs.items() if x is cnt]
    if val is not v or g is not TRUE or init.op != "mempty" or len(L) != 1 or len(N) != 1:
        return None
    if key.a[1] is not v or tm.ln(fs[L[0]]) is not cnt:
        return None
    return {"map": mf, "n": N[0], "list": L[0], "fields": fs, "fn": f, "count": cnt}


class GW:
    """symbolic Graph with its representation invariant, and named coordinates"""

    def __init__(self, c, rep, coords, opaque=()):
        self.c, self.rep = c, rep
        self.w = World(c.P, opaque=EQ_COORD + tuple(opaque))
        self.g = self.w.obj("Graph", "g")
        gs = self.w.S.env[self.g.root]
        self.gs = gs
        self.n = tm.fld(gs, rep["n"], "i")
        tm.SYM_RANGE[self.n] = (0, BIG)
        self.n._rng = None
        self.M = tm.fld(gs, rep["map"])
        self.L = tm.fld(gs, rep["list"])
        tm.ELEM_TYPE.setdefault(self.L, ("o", "Coordinate", None))
        # lengths the constructor gives the other fields (add_vertex is checked to keep them)
        self.len = {}
        cnt = rep["count"]
        for k, v in rep["fields"].items():
            if v.sort == "o" and k not in (rep["map"], rep["list"]):
                n = tm.ln(v)
                new = self.n if n is cnt else tm.mul(self.n, self.n) if n is tm.mul(cnt, cnt) else None
                if new is not None:
                    self.len[tm.ln(tm.fld(gs, k))] = new
        self.C = {}
        for k in coords:
            t = tm.sym(k)
            tm.set_type(t, "Coordinate")
            self.C[k] = t
            self.bound(self.idx(t))

    def bound(self, q):
        tm.BOUNDS[q] = self.n
        tm.SYM_RANGE[q] = (0, BIG)
        q._rng = None

    def idx(self, t):
        return tm.mk("mget", self.M, t, sort="i")

    def known(self, *names):
        return [tm.mhas(self.M, self.C[k]) for k in names]

    def inv(self, *names):
        """the index map is injective and below n (discharged by the constructor and add_vertex rules)"""
        out = []
        for i, a in enumerate(names):
            out.append(tm.lt(self.idx(self.C[a]), self.n))
            for b in names[i + 1:]:
                e = eqt(self.C[a], self.C[b])
                d = tm.eq0(tm.sub(self.idx(self.C[a]), self.idx(self.C[b])))
                out.append(or_(and_(e, d), and_(not_(e), not_(d))))
        return out

    def call(self, m, *args, S=None, np=None):
        f = self.c.P.need("Graph::" + m, np if np is not None else len(args))
        self.c.saw(f)
        r = self.w.call(f, self.g, args, S=S)
        return r

    def norm(self, t, facts):
        """apply the facts, and the injectivity of the index map to comparisons of indices"""
        t = under(t, facts)
        m = dict(self.len)
        names = list(self.C)
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                d = tm.eq0(tm.sub(self.idx(self.C[a]), self.idx(self.C[b])))
                m[d] = eqt(self.C[a], self.C[b])
        return under(replace(t, m), facts)


def query(gw, m, S, facts, *args):
    r = gw.call(m, *args, S=S)
    return (gw.norm(r.value, facts) if r.value is not None else None), r


def undet_run(c, rule, what, where, *rs):
    for r in rs:
        if r.S is None:
            c.unk(rule, what, where, "no normal return")
            return True
    return False


def g01(c):
    P = c.P
    for m in ("add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge", "has_edge", "is_edge_meridian_crossing", "get_neighbors",
              "add_vertex", "has_vertex", "get_vertices"):
        P.need("Graph::" + m)
    histories(c)
    rep = graph_rep(c)
    if rep is None:
        c.unk("representation", "vertex index of Graph", P.need("Graph::Graph", 1).where(), "constructor not in the recognised form")
        return
    c.ok("representation", "every vertex is mapped to its own position (injective, below the vertex count)", rep["fn"].where())
    gw = GW(c, rep, ["a", "b", "x", "y"])
    facts = gw.known("a", "b", "x", "y")
    inv = and_(*gw.inv("a", "b", "x", "y"), *facts)
    a, b, x, y = (gw.C[k] for k in "abxy")
    m = tm.sym("m", "b")
    he0, _ = query(gw, "has_edge", None, facts, "x", "y")
    mc0, _ = query(gw, "is_edge_meridian_crossing", None, facts, "x", "y")
    he_ab = tm.subst(he0, {x: a, y: b})
    # ---- initial graph
    w2 = World(P, opaque=EQ_COORD)
    g2 = w2.place("this", tm.rec("Graph", tuple(rep["fields"].items())))
    for k in "xy":
        w2.place(k, gw.C[k])
    rr = w2.call("Graph::has_edge", g2, ("x", "y"))
    known2 = [tm.mhas(rep["fields"][rep["map"]], gw.C[k]) for k in "xy"]
    t = under(rr.value, known2)
    for k in "xy":
        q = tm.mget(rep["fields"][rep["map"]], gw.C[k], "i")
        tm.BOUNDS[q] = rep["count"]
        tm.SYM_RANGE[q] = (0, BIG)
        q._rng = None
    t = reat(t)
    c.judge("initial", "a graph built from polygons has no edges", rep["fn"].where(), same(t, FALSE) if not any(z.op == "mget" for z in tm.walk(t)) or t is FALSE else ("unknown", "not decided"))

    # ---- mutators against has_edge / is_edge_meridian_crossing
    hit = and_(eqt(x, a), eqt(y, b), not_(eqt(a, b)))
    hit2 = and_(eqt(x, b), eqt(y, a), not_(eqt(a, b)))
    base_he = tm.mk("sym", "edge?", sort="b")
    specs = [
        ("add_directed_edge", ("a", "b", "m"), lambda h: or_(h, hit), hit),
        ("add_edge", ("a", "b", "m"), lambda h: or_(h, hit, hit2), or_(hit, hit2)),
        ("remove_directed_edge", ("a", "b"), lambda h: and_(h, not_(hit)), None),
        ("remove_edge", ("a", "b"), lambda h: and_(h, not_(hit), not_(hit2)), None),
    ]
    for name, args, spec, added in specs:
        f = P.need("Graph::" + name)
        r = gw.call(name, *args)
        if undet_run(c, "mutator", name, f.where(), r):
            continue
        v, q = query(gw, "has_edge", r.S, facts, "x", "y")
        if undet_run(c, "mutator", name, f.where(), q):
            continue
        c.judge("has_edge after mutation", "has_edge(x,y) after %s(a,b) for all vertices a,b,x,y" % name, f.where(),
                same(v, spec(he0), inv, n=4000, known=VOC))
        v, q = query(gw, "is_edge_meridian_crossing", r.S, facts, "x", "y")
        old = mc0
        if added is None:
            want = and_(mc0, spec(TRUE))
        else:
            want = ite(added, and_(m, or_(not_(he0), mc0)), mc0)
        c.judge("meridian flag after mutation", "is_edge_meridian_crossing(x,y) after %s(a,b) for all vertices" % name, f.where(),
                same(v, want, inv, n=4000, known=VOC))
        # the edge itself, and its reverse, apart
        for u, w in (("a", "b"), ("b", "a")):
            fd = facts + [not_(eqt(a, b))]
            apart = and_(*gw.inv("a", "b"), *fd)
            h1, _ = query(gw, "has_edge", None, fd, u, w)
            k1, _ = query(gw, "is_edge_meridian_crossing", None, fd, u, w)
            v, q = query(gw, "is_edge_meridian_crossing", r.S, fd, u, w)
            mine = name.endswith("_edge") and "directed" not in name or u == "a"
            want = k1 if not mine else and_(m, or_(not_(h1), k1)) if added is not None else FALSE
            c.judge("meridian flag after mutation", "is_edge_meridian_crossing(%s,%s) after %s(a,b)" % (u, w, name), f.where(),
                    same(v, want, apart, n=4000, known=VOC))
            v, q = query(gw, "has_edge", r.S, fd, u, w)
            want = h1 if not mine else TRUE if added is not None else FALSE
            c.judge("has_edge after mutation", "has_edge(%s,%s) after %s(a,b)" % (u, w, name), f.where(),
                    same(v, want, apart, n=4000, known=VOC))
        # get_neighbors in the state after the mutation lists exactly the edges has_edge reports
        neighbors(c, gw, facts, inv, r.S, "after " + name)
    neighbors(c, gw, facts, inv, None, "in every state")
    # ---- refusal of unknown vertices
    for name, args in (("has_edge", "xy"), ("is_edge_meridian_crossing", "xy"), ("add_directed_edge", "xym"), ("remove_directed_edge", "xy"),
                       ("add_edge", "xym"), ("remove_edge", "xy")):
        f = P.need("Graph::" + name)
        r = gw.call(name, *args)
        hv = [gw.call("has_vertex", k).value for k in "xy"]
        if r.S is None:
            c.unk("unknown vertices", name, f.where(), "no normal return")
            continue
        c.judge("unknown vertices", "%s on two different vertices returns only if both are in the graph" % name, f.where(),
                same(or_(not_(r.ok()), eqt(x, y), and_(*hv)), TRUE, known=VOC))
        c.judge("known vertices", "%s on vertices of the graph never throws" % name, f.where(),
                same(gw.norm(r.ok(), facts), TRUE, inv, known=VOC))
    # ---- add_vertex
    f = P.need("Graph::add_vertex")
    gv = GW(c, rep, ["v", "x", "y"])
    new = [not_(tm.mhas(gv.M, gv.C["v"]))]
    old = gv.known("x", "y")
    dist = [not_(eqt(gv.C["v"], gv.C["x"])), not_(eqt(gv.C["v"], gv.C["y"]))]
    r = gv.call("add_vertex", "v")
    if undet_run(c, "add_vertex", "add_vertex", f.where(), r):
        return
    h0, _ = query(gv, "has_edge", None, old, "x", "y")
    k0, _ = query(gv, "is_edge_meridian_crossing", None, old, "x", "y")
    fc = new + old + dist
    for ob, base in (("has_edge", h0), ("is_edge_meridian_crossing", k0)):
        v, q = query(gv, ob, r.S, fc, "x", "y")
        c.judge("add_vertex keeps edges", "%s(x,y) is unchanged by add_vertex(v) of a new vertex" % ob, f.where(),
                same(reat(v), base, and_(*fc, *gv.inv("x", "y")), n=2000, known=VOC))
        v, q = query(gv, ob, r.S, [tm.mhas(gv.M, gv.C["v"])] + old, "x", "y")
        c.judge("add_vertex keeps edges", "%s(x,y) is unchanged by add_vertex(v) of a vertex already present" % ob, f.where(),
                same(reat(v), base, and_(*old, *gv.inv("v", "x", "y")), n=2000, known=VOC))
    v, q = query(gv, "has_vertex", r.S, [], "x")
    b0, _ = query(gv, "has_vertex", None, [], "x")
    c.judge("add_vertex adds", "has_vertex(x) after add_vertex(v)", f.where(), same(v, or_(b0, eqt(gv.C["x"], gv.C["v"])), known=VOC))
    # the new vertex starts without edges, in either direction
    for args in (("v", "x"), ("x", "v")):
        v, q = query(gv, "has_edge", r.S, new + old + dist, *args)
        c.judge("new vertex", "has_edge(%s,%s) is false after add_vertex(v) of a new vertex" % args, f.where(),
                same(reat(v), FALSE, and_(*new, *old, *dist, *gv.inv("x")), n=2000, known=VOC))
    r2 = gv.call("get_vertices", S=r.S)
    r0 = gv.call("get_vertices")
    v = under(r2.value, new)
    c.judge("add_vertex adds", "get_vertices gains exactly the new vertex", f.where(), same(v, tm.cat(under(r0.value, new), tm.lst(gv.C["v"])), and_(*new), known=VOC))
    v = under(r2.value, [tm.mhas(gv.M, gv.C["v"])])
    c.judge("add_vertex adds", "get_vertices is unchanged when the vertex is present", f.where(), same(v, r0.value, tm.mhas(gv.M, gv.C["v"]), known=VOC))


VOC = set()

SPOTS = {"a": (0, 0), "b": (4, 0), "c": (2, 3), "d": (6, 3), "e": (4, 7), "f": (-170, 20), "p": (-4, 0), "q": (0, -4), "r": (175, 3), "z": (50, 50), "y": (-50, 50)}
GIVEN = [           # polygons of the graphs whose histories are followed: apart, touching in a vertex, one alone
    ("abc", "def"), ("abc", "cde"), ("abdf",), ("abc", "def", "pqr"), ("cde", "abc"),
]


def listed(t):
    """an enumeration over maps with constant keys, as a list (in some order)"""
    m = {}
    for x in tm.walk(t):
        if x.op == "keys":
            ks, gone, y = [], [], x.a[0]
            while y.op in ("mput", "mdel"):
                if y.op == "mdel":
                    gone.append(y.a[1])
                elif y.a[1] not in gone and y.a[1] not in ks:
                    ks.append(y.a[1])
                y = y.a[0]
            if y.op == "mempty":
                m[x] = tm.lst(*ks) if ks else tm.EMPTY
    t = replace(t, m) if m else t

    def go(t):
        if t.op == "list":
            return list(t.a)
        if t.op == "cat":
            out = []
            for x in t.a:
                y = go(x)
                if y is None:
                    return None
                out += y
            return out
        if t.op == "ite":
            return go(t.a[1]) if t.a[0] is TRUE else go(t.a[2]) if t.a[0] is FALSE else None
        if t.op in ("comp", "catmap"):
            n = t.a[1]
            if n.op != "c" or not 0 <= n.a[0] < 100:
                return None
            out = []
            for i in range(int(n.a[0])):
                b = {t.a[0]: tm.const(i)}
                if t.op == "comp":
                    gd = tm.subst(t.a[2], b)
                    if gd is FALSE:
                        continue
                    if gd is not TRUE:
                        return None
                    out.append(tm.subst(t.a[3], b))
                else:
                    y = go(tm.subst(t.a[2], b))
                    if y is None:
                        return None
                    out += y
            return out
        return None
    return go(t)


class Given:
    """a graph of given polygons, followed through a history of constant calls next to a model of it"""

    def __init__(self, c, which, beside=None, at="g"):
        from .geom import Geo, outline_polygon
        self.c = c
        g = Geo(c)
        self.ok = g.ready(c)
        if not self.ok:
            return
        M = 1000000
        self.pts = {k: g.coord("", lon=tm.const(x * M), lat=tm.const(y * M)) for k, (x, y) in SPOTS.items()}
        self.names = {}
        for k, t in self.pts.items():
            tm.set_type(t, "Coordinate")
            self.names[(g.x(t), g.y(t))] = k
        self.g = g
        polys = [outline_polygon(c, [self.pts[k] for k in o]) for o in which]
        self.ok = None not in polys
        if not self.ok:
            return
        self.which = which
        self.cls = "Graph"
        self.w = beside.w if beside is not None else World(c.P)
        S = beside.S if beside is not None else self.w.S
        r = self.w.call(c.P.need("Graph::Graph", 1), self.w.place(at, tm.rec("Graph", []), S=S), (tm.lst(*polys),), S=S)
        self.S = r.S
        self.at = at
        self.vs = set("".join(which))
        self.edges = {}
        self.text = ["Graph(%s)" % ", ".join(which)]

    def stack(self):
        """continue with an overlay of the graph"""
        c = self.c
        f = c.P.need("ModifiedGraph::ModifiedGraph", 1)
        base = LV(("arg", "g"), (), None)
        r = self.w.call(f, self.w.place("m", tm.rec("ModifiedGraph", []), S=self.S), (tm.mk("ptr", lvh(base)),), S=self.S)
        self.S, self.cls, self.at = r.S, "ModifiedGraph", "m"
        self.base = dict(self.edges), set(self.vs), self.S.env.get(("arg", "g")) if self.S is not None else None
        self.text.append("overlay")

    def call(self, m, *args, on=None):
        a = tuple(self.pts[x] if isinstance(x, str) else TRUE if x else FALSE for x in args)
        f = self.c.P.need("%s::%s" % (on[0] if on else self.cls, m), len(a))
        return self.w.call(f, on[1] if on else self.at, a, S=self.S), f

    def read(self, v):
        """a list of coordinates as names"""
        xs = listed(v) if v is not None else None
        if xs is None:
            return None
        out = []
        for x in xs:
            k = self.names.get((self.g.x(x), self.g.y(x)))
            if k is None:
                return None
            out.append(k)
        return out

    def step(self, m, *args):
        """False when the call is not followed to a definite end"""
        r, f = self.call(m, *args)
        if r.S is None or r.undetermined() or r.throws:
            return False
        self.S = r.S
        self.text.append("%s(%s)" % (m, ", ".join(str(x) for x in args)))
        a = args[0]
        if m == "add_vertex":
            self.vs.add(a)
            return True
        b = args[1]
        for x, y in ((a, b), (b, a))[:1 if "directed" in m else 2]:
            if x == y:
                continue
            if m.startswith("add"):
                old = self.edges.get((x, y))
                self.edges[(x, y)] = bool(args[2]) and old is not False
            else:
                self.edges.pop((x, y), None)
        return True

    def ask(self, on=None, edges=None, vs=None):
        """(verdict, text) of every query against the model"""
        edges = self.edges if edges is None else edges
        vs = self.vs if vs is None else vs
        lost = None

        def said(v):
            return True if v is TRUE else False if v is FALSE else None
        for x in SPOTS:
            r, f = self.call("has_vertex", x, on=on)
            b = said(r.value)
            if b is None or r.throws:
                lost = lost or "has_vertex(%s)" % x
            elif b != (x in vs):
                return "no", "has_vertex(%s) is %s" % (x, b), f
        r, f = self.call("get_vertices", on=on)
        ns = self.read(r.value)
        if ns is None:
            lost = lost or "get_vertices"
        elif set(ns) != vs:
            return "no", "get_vertices lists %s" % "".join(ns), f
        elif len("".join(self.which)) == len(set("".join(self.which))) and len(ns) != len(vs):
            return "no", "get_vertices lists %s" % "".join(ns), f
        for x in sorted(vs):
            r, f = self.call("get_neighbors", x, on=on)
            ns = self.read(r.value)
            want = sorted(b for a, b in edges if a == x)
            if ns is None or r.throws and r.S is not None:
                lost = lost or "get_neighbors(%s)" % x
            elif sorted(ns) != want:
                return "no", "the neighbours of %s are %s instead of %s" % (x, "".join(sorted(ns)) or "none", "".join(want) or "none"), f
            for y in sorted(vs):
                for m, w in (("has_edge", (x, y) in edges), ("is_edge_meridian_crossing", edges.get((x, y), False))):
                    r, f = self.call(m, x, y, on=on)
                    b = said(r.value)
                    if b is None or r.throws:
                        lost = lost or "%s(%s, %s)" % (m, x, y)
                    elif b != w:
                        return "no", "%s(%s, %s) is %s" % (m, x, y, b), f
        return ("yes", None, None) if lost is None else ("unknown", lost + " is not constant", None)


def some_ops(rnd, vs, extra, n, overlay):
    """n calls over the vertices, dense enough for repetitions and reversals"""
    vs = list(vs)
    hot = [(rnd.choice(vs), rnd.choice(vs)) for _ in range(3)]
    for _ in range(n):
        k = rnd.randrange(10)
        if k == 0 and extra:
            vs.append(extra.pop())
            yield ("add_vertex", vs[-1])
            continue
        if k == 1:
            yield ("add_vertex", rnd.choice(vs))
            continue
        a, b = rnd.choice(hot) if rnd.randrange(3) else (rnd.choice(vs), rnd.choice(vs))
        if rnd.randrange(2):
            a, b = b, a
        m = ("add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge", "add_edge", "add_directed_edge")[rnd.randrange(6)]
        yield (m, a, b) + ((rnd.randrange(2) == 1,) if m.startswith("add") else ())


# short histories: + adds an edge (++ over the meridian), > a directed one (>>), - removes an edge, ~ a directed one, * adds a vertex
SHORT = ["++ab +ab", "+ab ++ab -ab ++ba", ">>ab >ab ++ab", "++ab ~ba +ba", "*z ++az >za ~az"]
SHORT_OVER = ["+ab|-ab", "++ab|+ab -ab ++ab", "++ab +ac|++ab", "+ab ++de|++ab ++de", ">>ab +bc|~ab ++ba -bc", "+ab|*z +az +zb ++ab -az"]


def given_op(o):
    k, xs = o.rstrip("abcdefpqrzy"), o.lstrip("+->~*")
    name = {"+": "add_edge", "++": "add_edge", ">": "add_directed_edge", ">>": "add_directed_edge", "-": "remove_edge", "~": "remove_directed_edge", "*": "add_vertex"}[k]
    return (name,) + tuple(xs) + ((len(k) == 2,) if k[0] in "+>" else ())


def histories(c, overlay=False):
    """constant propagation through given histories: every query agrees with the model of the history"""
    import random
    n = 24 if c.tier == "thorough" else 5
    what = "every query of %s agrees with the calls made before" % ("an overlay" if overlay else "a graph")
    rule = "given histories"
    done = 0
    f0 = c.P.need("ModifiedGraph::ModifiedGraph" if overlay else "Graph::Graph", 1)
    short = SHORT_OVER if overlay else SHORT
    for k in range(-len(short), n):
        rnd = random.Random(7000 + k)
        G = Given(c, GIVEN[k % len(GIVEN)] if k >= 0 else GIVEN[0])
        if not G.ok or G.S is None:
            c.unk(rule, what, f0.where(), "a graph of given polygons is not followed")
            return
        ops = list(some_ops(rnd, sorted(G.vs), ["z", "y"], 10, overlay)) if k >= 0 else [given_op(o) for o in short[k].split("|")[0].split()]
        if overlay:
            if not all(G.step(*o) for o in ops[:5]):
                c.unk(rule, what, f0.where(), "not followed after " + G.text[-1])
                return
            G.stack()
            if G.S is None:
                c.unk(rule, what, f0.where(), "the overlay is not followed")
                return
            ops = list(some_ops(rnd, sorted(G.vs), ["z", "y"], 8, overlay)) if k >= 0 else [given_op(o) for o in short[k].split("|")[1].split()]
        for i, o in enumerate(ops):
            if not G.step(*o):
                c.unk(rule, what, f0.where(), "%s is not followed after %s" % (o[0], G.text[-1]))
                return
            if k < 0 and overlay or i in (2, 5) or i == len(ops) - 1:
                v, why, f = G.ask()
                if v == "yes" and overlay:
                    v, why, f = G.ask(on=("Graph", "g"), edges=G.base[0], vs=G.base[1])
                    why = "base graph: %s" % why
                if v == "no":
                    c.bad(rule, what, f.where(), "after %s, %s" % ("; ".join(G.text), why))
                    return
                if v == "unknown":
                    c.unk(rule, what, f0.where(), "%s after %s" % (why, "; ".join(G.text)))
                    return
                done += 1
        if not overlay:
            x = sorted(G.vs)[0]
            for m, a in (("has_edge", (x, "r0")), ("has_edge", ("r0", x)), ("add_edge", (x, "r0", False)), ("get_neighbors", ("r0",))):
                out = next(s for s in SPOTS if s not in G.vs)
                r, f = G.call(m, *[out if y == "r0" else y for y in a])
                if r.S is not None and not r.throws and not r.undetermined():
                    c.bad(rule, "a vertex that is not in the graph is refused", f.where(), "%s(%s) returns after %s" % (m, ", ".join(str(out if y == "r0" else y) for y in a), "; ".join(G.text)))
                    return
    c.ok(rule, what + " (%d states of %d histories)" % (done, n + len(short)), f0.where())


def reat(t):
    """re-normalise element accesses after bounds became known"""
    return tm.subst(_shift(t), {})if t is None else _renorm(t, {})


def _shift(t):
    return t


def _renorm(t, memo):
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, tm.T):
            return _renorm(x, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    if not t.a or t.op in ("sym", "c", "str"):
        r = t
    else:
        r = tm.rebuild(t.op, [go(x) for x in t.a], t)
    memo[t] = r
    return r


def neighbors(c, gw, facts, inv, S, when):
    P = c.P
    f = P.need("Graph::get_neighbors")
    r = gw.call("get_neighbors", "x", S=S)
    what = "get_neighbors(x) lists exactly the y with has_edge(x,y), %s" % when
    if undet_run(c, "neighbors", what, f.where(), r):
        return
    v = gw.norm(r.value, facts)
    if v.op != "comp":
        c.unk("neighbors", what, f.where(), "not an enumeration of the vertices")
        return
    bv, cnt, guard, body = v.a
    i = tm.fresh("i", "i", (0, BIG))
    tm.BOUNDS[i] = cnt
    g2 = gw.norm(_renorm(tm.subst(guard, {bv: i}), {}), facts)
    b2 = tm.subst(body, {bv: i})
    if cnt is not gw.n and tm.eqt(cnt, tm.ln(gw.L)) is not TRUE:
        # another enumeration than "all vertices by position"
        c.unk("neighbors", what, f.where(), "enumerates %s" % cnt)
        return
    # position i holds the vertex whose index is i
    if b2 is not tm.at(gw.L, i):
        c.judge("neighbors", what, f.where(), same(b2, tm.at(gw.L, i), known=VOC))
        return
    he = gw.call("has_edge", "x", "y", S=S)
    if he.S is None:
        c.unk("neighbors", what, f.where(), "has_edge undetermined")
        return
    hv = under(he.value, facts)
    y = gw.C["y"]
    hv = replace(hv, {gw.idx(y): i})
    hv = _renorm(hv, {})
    ne = not_(eqt(gw.C["x"], y))
    # equality with x or a, b is equality of positions
    m = {}
    for k in gw.C:
        if k != "y":
            m[eqt(gw.C[k], y)] = tm.eq0(tm.sub(gw.idx(gw.C[k]), i))
    hv = replace(hv, m)
    g3 = g2
    others = [k for k in gw.C if k != "y"]
    asm = [p for p in gw.inv(*others)] + [tm.lt(i, gw.n)]
    asm += [not_(m[eqt(gw.C["x"], y)])]
    # a vertex has no edge to itself: its own cell is never written (mutator rule), so only other positions are compared
    # index comparisons on both sides as positions
    back = {}
    names = others
    for p, ka in enumerate(names):
        for kb in names[p + 1:]:
            back[eqt(gw.C[ka], gw.C[kb])] = tm.eq0(tm.sub(gw.idx(gw.C[ka]), gw.idx(gw.C[kb])))
    hv, g3 = replace(hv, back), replace(g3, back)
    drop = [not_(m[eqt(gw.C["x"], y)])]
    hv, g3 = under(hv, drop), under(g3, drop)
    c.judge("neighbors", what, f.where(), same(g3, hv, and_(*asm), n=4000, known=VOC))


# ------------------------------------------------------------------------------------------------ G03
QUERIES = ("Graph::get_neighbors", "Graph::get_vertices", "Graph::is_edge_meridian_crossing", "Graph::has_edge", "Graph::get_polygons")
CFIELDS = ("_longitude_microdegrees", "_latitude_microdegrees")


def coord_fields(P):
    """the fields Coordinate equality compares (read off operator==)"""
    w = World(P)
    w.obj("Coordinate", "l")
    w.obj("Coordinate", "r")
    r = w.call("Coordinate::operator==", LV(("arg", "l"), (), None), ("r",))
    if r.value is None:
        return None
    l, rr = w.S.env[("arg", "l")], w.S.env[("arg", "r")]
    fs = [f for f, *_ in tm.RECORDS.get("Coordinate", [])]
    want = and_(*[tm.eqt(tm.fld(l, f), tm.fld(rr, f)) for f in fs])
    return fs if tm.eqt(r.value, want) is TRUE or r.value is want or same(r.value, want)[0] == "yes" else None


def total_order(c, rule, what, where, cmp_, fields):
    """a comparator over the two bound symbols cmp:a / cmp:b is a strict total order on coordinates"""
    a = next((x for x in tm.walk(cmp_) if x.op == "sym" and str(x.a[0]).startswith("cmp:a")), None)
    b = next((x for x in tm.walk(cmp_) if x.op == "sym" and str(x.a[0]).startswith("cmp:b")), None)
    if a is None and b is None:
        c.bad(rule, what, where, "the comparator ignores its arguments")
        return
    ty = str((a or b).a[0]).split(":", 2)[2]
    a = a or tm.sym("cmp:a:" + ty)
    b = b or tm.sym("cmp:b:" + ty)
    swap = tm.subst(cmp_, {a: tm.sym("%t"), b: a})
    swap = tm.subst(swap, {tm.sym("%t"): b})
    eq = and_(*[tm.eqt(tm.fld(a, f, "i"), tm.fld(b, f, "i")) for f in fields])
    # exactly one of a<b, b<a, a==b
    one = or_(and_(cmp_, not_(swap), not_(eq)), and_(not_(cmp_), swap, not_(eq)), and_(not_(cmp_), not_(swap), eq))
    c.judge(rule, what + ": two different coordinates never tie", where, same(one, TRUE, n=4000, known=VOC))


def affine_in(t, leaf):
    """t = k*leaf + c with k != 0: distinct values render distinctly"""
    u = tm.fresh("u", "i")
    t = replace(t, {leaf: u})
    d = tm.sub(tm.subst(t, {u: tm.add(u, tm.const(1))}), t)
    return d.op == "c" and d.a[0] != 0


def spec_ok(fmt):
    """does a format string render every {} argument injectively (for microdegree-granular numbers)? yes/no/unknown"""
    import re
    for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}", fmt):
        s = m.group(1)
        if s is None or s in ("", "0", "1", "2", "3", "4"):
            continue
        k = re.fullmatch(r"\d?:(?:[+ ]?)(?:0?\d+)?(?:\.(\d+))?([fdgeF]?)", s)
        if not k:
            return "unknown"
        if k.group(1) is not None and k.group(2) in ("f", "F") and int(k.group(1)) < 6:
            return "no"
        if k.group(1) is not None and k.group(2) not in ("f", "F") and int(k.group(1)) < 10:
            return "no"
    return "yes"


def g03(c):
    P = c.P
    f = P.need("Graph::operator==", 1)
    ne = P.need("Graph::operator!=", 1)
    c.saw(f, ne)
    fields = coord_fields(P)
    if not fields:
        c.unk("coordinate", "coordinate equality compares every field", f.where())
        return
    given_pairs(c)
    w = World(P, opaque=EQ_COORD + QUERIES)
    g, h = w.obj("Graph", "g"), w.obj("Graph", "h")
    gt, ht = w.S.env[g.root], w.S.env[h.root]
    r = w.call(f, g, ("h",))
    rn = w.call(ne, g, ("h",))
    c.saw(*[P.fn(q) for q in ("Graph::to_string_representation",) if P.by_qn(q)] if hasattr(P, "by_qn") and callable(P.by_qn) else [])
    if r.S is None or r.value is None:
        c.unk("equality", "value of graph equality", f.where())
        return
    if rn.value is not None:
        c.judge("inequality", "g != h is the negation of g == h", ne.where(), same(rn.value, not_(r.value), known=vocab_of(r.value)))
    v = r.value
    swap = tm.sym("the other graph")
    if v.op == "and":
        # other conditions beside the comparison of a canonical form
        main = [x for x in v.a if x.op == "eq" and any(y is gt for y in tm.walk(x)) and any(y.op == "app" and y.a[0] in QUERIES for y in tm.walk(x))]
        big = max(main, key=lambda x: len(list(tm.walk(x)))) if main else None
        if big is not None:
            polys = {fd["n"] for fd in P.records["Graph"][1]["fields"] if "Polygon" in P.records["Graph"][0].ty(fd["t"]).s}
            for x in v.a:
                if x is big:
                    continue
                what = "nothing but vertices, edges and meridian flags decides equality"
                fl = {y.a[1] for y in tm.walk(x) if y.op == "fld" and y.a[0] in (gt, ht)}
                ap = {y.a[0] for y in tm.walk(x) if y.op == "app"}
                if x.op in ("eq", "eq0") and fl and fl <= polys and not ap or ap and not fl and ap <= {"Graph::get_polygons"}:
                    c.bad("content", what, f.where(), "the polygons take part: %s" % tm.show(x)[:150])
                else:
                    c.unk("content", what, f.where(), tm.show(x)[:150])
            v = big
    if v.op != "eq":
        # direct comparison: at least it has to be reflexive and symmetric
        sw = tm.subst(tm.subst(v, {gt: swap, ht: gt}), {swap: ht})
        c.judge("equivalence", "g == h is symmetric", f.where(), same(v, sw, known=vocab_of(v)))
        c.unk("canonical form", "equality compares a canonical form of both graphs", f.where(), "another shape of equality")
        return
    A, B = v.a
    if not any(x is gt for x in tm.walk(A)):
        A, B = B, A
    if tm.alpha_eq(tm.subst(A, {gt: ht}), B):
        c.ok("equivalence", "g == h compares one function of both graphs (an equivalence relation)", f.where())
    else:
        c.unk("equivalence", "g == h compares one function of both graphs", f.where())
    seq = A.a[1] if A.op == "app" and A.a[0] == "str" else A
    canonical(c, f, seq, fields)


def by_length(seq):
    """a condition on the length of an enumerated sequence on which an enumeration depends, when both outcomes occur"""
    for x in tm.walk(seq):
        if x.op == "ite":
            ls = {y for y in tm.walk(x.a[0]) if y.op == "len"}
            if len(ls) == 1:
                n = next(iter(ls))
                ends = [replace(x.a[0], {n: tm.const(k)}) for k in (0, 1, 2, 3, 10, 1000, 1000000)]
                if set(ends) == {TRUE, FALSE}:
                    # one element or none has only one order
                    return [p for p, v in ((x.a[0], TRUE), (not_(x.a[0]), FALSE)) if v in ends[2:]]
    return ()


def canonical(c, f, seq, fields, depth=0):
    """is the rendered sequence a canonical form of vertices, edges and flags?"""
    ps = by_length(seq) if depth < 2 else ()
    for p in ps:
        canonical(c, f, under(seq, [p]), fields, depth + 1)
    if ps:
        return
    levels = []
    undet = []

    def pieces(t, bound, depth):
        """walk the rendered sequence; bound: [(element term, source sequence)]"""
        if t.op == "cat":
            for x in t.a:
                pieces(x, bound, depth)
        elif t.op == "list":
            for x in t.a:
                atom(x, bound)
        elif t.op in ("catmap", "comp"):
            if t.op == "comp":
                vv, n, gd, body = t.a
                if gd is not TRUE:
                    undet.append("filtered enumeration")
            else:
                vv, n, body = t.a
            srcs = {x.a[0] for x in tm.walk(body) if x.op == "at" and x.a[1] is vv}
            # the enumerated sequence: the one whose length is the count
            src = [s for s in srcs if tm.eqt(n, tm.ln(s)) is TRUE]
            if len(src) != 1:
                undet.append("enumeration of %d sequences" % len(src))
                return
            s = src[0]
            el = tm.at(s, vv)
            b2 = bound + [(el, s)]
            levels.append((depth, s, el, []))
            if t.op == "comp":
                atom(body, b2)
            else:
                pieces(body, b2, depth + 1)
        elif t.op == "ite":
            undet.append("conditional rendering")
        else:
            undet.append("rendering by " + t.op)

    def atom(x, bound):
        if x.op == "str" and (not x.a or not isinstance(x.a[0], tm.T)):
            return
        if x.op == "app" and x.a[0] == "fmt":
            fs = x.a[1]
            s = fs.a[0] if isinstance(fs, tm.T) and fs.op == "str" else None
            ok = spec_ok(s) if isinstance(s, str) else "unknown"
            if ok == "unknown":
                undet.append("format %r" % (s,))
            elif ok == "no":
                c.bad("rendering", "coordinates are rendered without loss", f.where(), "format %r drops digits" % s)
            for y in x.a[2:]:
                put(y, bound)
        else:
            put(x, bound)

    def put(y, bound):
        if bound:
            levels_of(bound[-1][0]).append(y)

    def levels_of(el):
        for d, s, e, at_ in levels:
            if e is el:
                return at_
        return []
    pieces(seq, [], 0)
    if undet:
        c.unk("canonical form", "equality compares a canonical rendering", f.where(), undet[0])
        return
    where = f.where()
    P_ = lambda q, *a: tm.app(q, *a)
    got = {0: None, 1: None}
    for d, s, el, atoms in levels:
        if s.op == "sorted":
            total_order(c, "order", "enumeration at depth %d is sorted by a total order" % d, where, s.a[1], fields)
            base = s.a[0]
        else:
            base = s
            if s.op == "app" and s.a[0] in QUERIES or s.op == "fld" or s.op in ("iter", "keys"):
                c.bad("order", "enumeration at depth %d does not depend on insertion order" % d, where, "enumerates %s as stored" % str(s)[:120])
            else:
                c.unk("order", "enumeration at depth %d does not depend on insertion order" % d, where)
        name = base.a[0] if base.op == "app" else base.op
        for fl in fields:
            leaf = tm.fld(el, fl, "i")
            ok = any(affine_in(y, leaf) for y in atoms)
            tainted = any(any(z is leaf for z in tm.walk(y)) for y in atoms)
            what = "%s of every enumerated %s is part of the comparison" % (fl.strip("_").split("_")[0], "vertex" if d == 0 else "neighbour")
            if ok:
                c.ok("rendering", what, where)
            elif tainted or any(y is el for y in atoms):
                c.unk("rendering", what, where, "rendered by an unrecognised expression")
            else:
                c.bad("rendering", what, where, "it does not occur in the compared rendering")
        if name == "Graph::get_vertices":
            got[0] = el
        elif name == "Graph::get_neighbors":
            got[1] = (el, base.a[2] if len(base.a) > 2 else None, atoms)
    if got[0] is None:
        c.unk("content", "every vertex is compared", where)
    else:
        c.ok("content", "every vertex is compared", where)
    if got[1] is None:
        if any(s for d, s, e, a in levels if d > 0):
            c.unk("content", "every edge is compared", where)
        else:
            names = {x.a[0] for x in tm.walk(seq) if x.op == "app"}
            (c.unk if names & set(QUERIES[2:4]) else c.bad)("content", "every edge is compared", where, "the compared rendering has no neighbours")
    else:
        el, of, atoms = got[1]
        c.judge("content", "the neighbours compared are those of the enumerated vertex", where, ("yes" if of is got[0] else "unknown", None))
        fl = [y for y in atoms if y.sort == "b" or y.op == "app" and y.a[0].startswith("Graph::")]
        want = [y for y in atoms if any(z.op == "app" and z.a[0] == "Graph::is_edge_meridian_crossing" for z in tm.walk(y))]
        ask = [z for y in want for z in tm.walk(y) if z.op == "app" and z.a[0] == "Graph::is_edge_meridian_crossing"]
        back = [z for z in ask if z.a[2] is el and z.a[3] is got[0]]
        ok = [y for y in want if y.op == "app" and (y.a[2], y.a[3]) == (got[0], el) or y.op == "b2i" and not back]
        if back and len(back) == len(ask):
            c.bad("content", "the meridian flag compared is that of the enumerated edge", where, "it is the flag of the edge back from the neighbour")
        c.judge("content", "the meridian flag of every edge is compared", where,
                ("yes" if ok else "unknown" if want or fl else "no", None if ok else "no meridian flag in the compared rendering"))


PAIRS = [           # polygons and calls of two graphs, and whether they are equal
    ("abc def", "+ab ++cd", "def abc", "++cd +ab", True),
    ("abc def", "+ab ++cd", "def abc", "++cd", False),
    ("abc def", "+ab ++cd", "abc def", "+cd +ab", False),
    ("abc def pqr", "++ad >be +cq", "pqr abc def", "+qc >be ++da", True),
    ("abc def pqr", "++ad >be +cq", "pqr abc def", "+qc >eb ++da", False),
    ("abc", "*z +az", "abc", "*z +za", True),
    ("abc", "*z", "abc", "", False),
    ("abc", "+ab", "abc def", "+ab", False),
    ("abc def", "+ab -ab ++ae", "def abc", "++ae", True),
    ("abc def", "++ab +ab", "def abc", "+ba", True),
    ("abc pqr", "+ap +bp +cp +qp", "pqr abc", "+cp +pq +pa +pb", True),
    ("abc pqr", "+ap +bp +cp +qp", "pqr abc", "+cp +pq +pa +qb", False),
]


def rendered(t):
    """a text of given pieces; numbers stand for themselves"""
    if t.op == "app" and t.a[0] == "str":
        t = t.a[1]
    if t.op != "list":
        return None
    out = []
    for x in t.a:
        if x.op == "str" and isinstance(x.a[0], str):
            out.append(x.a[0])
        elif x.op == "app" and x.a[0] == "fmt" and x.a[1].op == "str":
            fs = x.a[1].a[0].split("{}")
            if len(fs) != len(x.a) - 1 or any(y.op != "c" and y is not TRUE and y is not FALSE for y in x.a[2:]):
                return None
            out.append(fs[0] + "".join("<%s>%s" % (y.a[0] if y.op == "c" else y is TRUE, z) for y, z in zip(x.a[2:], fs[1:])))
        else:
            return None
    return "".join(out)


def spelled(t):
    """the elements of a list of given length, when every one is a constant"""
    ups = []
    while t.op == "upd" and t.a[1].op == "c":
        ups.append(t)
        t = t.a[0]
    if t.op == "comp" and t.a[1].op == "c" and t.a[2] is TRUE and t.a[1].a[0] <= 400:
        xs = [replace(t.a[3], {t.a[0]: tm.const(i)}) for i in range(t.a[1].a[0])]
    elif t.op == "list":
        xs = list(t.a)
    else:
        return None
    for u in reversed(ups):
        if not 0 <= u.a[1].a[0] < len(xs):
            return None
        xs[u.a[1].a[0]] = u.a[2]
    return xs if all(x.op == "c" or x is TRUE or x is FALSE for x in xs) else None


def decided(v):
    """a comparison of given values, as far as it is decided"""
    if v.op in ("and", "or"):
        return (and_ if v.op == "and" else or_)(*[decided(x) for x in v.a])
    if v.op == "not":
        return not_(decided(v.a[0]))
    if v.op == "eq":
        for form in (rendered, spelled):
            a, b = [form(x) for x in v.a]
            if a is not None and b is not None:
                return TRUE if a == b else FALSE
    return v


def given_pairs(c):
    """constant propagation through the comparison of given graphs"""
    f = c.P.need("Graph::operator==", 1)
    what = "given graphs are equal exactly when their vertices, edges and flags are"
    done = 0
    tm.FOLD_SORTS = True
    try:
        for p1, o1, p2, o2, want in PAIRS:
            last = None
            for at, ps, ops in (("g1", p1, o1), ("h1", p2, o2)):
                last = Given(c, tuple(ps.split()), beside=last, at=at)
                if not last.ok or last.S is None or not all(last.step(*given_op(o)) for o in ops.split()):
                    c.unk("given graphs", what, f.where(), "a given graph is not followed")
                    return
            r = last.w.call(f, LV(("arg", "g1"), (), None), (LV(("arg", "h1"), (), None),), S=last.S)
            v = r.value
            if r.S is None or v is None or r.throws or r.undetermined():
                c.unk("given graphs", what, f.where(), "the comparison is not followed")
                return
            v = decided(v)
            text = "Graph(%s) %s and Graph(%s) %s" % (p1, o1, p2, o2)
            if v not in (TRUE, FALSE):
                c.unk("given graphs", what, f.where(), "not constant for %s" % text)
                return
            if (v is TRUE) != want:
                c.bad("given graphs", what, f.where(), "%s compare %s" % (text, "equal" if v is TRUE else "different"))
                return
            done += 1
    finally:
        tm.FOLD_SORTS = False
    c.ok("given graphs", what + " (%d pairs)" % done, f.where())


def vocab_of(t):
    from ..interp import vocab
    return vocab(t)


# ------------------------------------------------------------------------------------------------ G04
def members(v, el, inner):
    """membership of the element el in a sequence term; inner(seq term) -> formula for base sequences (or None)"""
    if v.op == "ite":
        a, b = members(v.a[1], el, inner), members(v.a[2], el, inner)
        return None if a is None or b is None else or_(and_(v.a[0], a), and_(not_(v.a[0]), b))
    if v.op == "cat":
        ms = [members(x, el, inner) for x in v.a]
        return None if any(m is None for m in ms) else or_(*ms)
    if v.op == "list":
        return or_(*[tm.eqt(x, el) for x in v.a])
    if v.op == "comp":
        bv, n, g, body = v.a
        cond = next((x.a[0] for x in tm.walk(body) if x.op == "ite" and bv not in tm.free(x.a[0])), None) or \
            next((x.a[0] for x in tm.walk(n) if x.op == "ite"), None)
        if cond is not None:
            parts = []
            for k in (cond, not_(cond)):
                m = members(tm.comp(bv, under(n, [k]), under(g, [k]), under(body, [k])), el, inner)
                if m is None:
                    return None
                parts.append(and_(k, m))
            return or_(*parts)
        if body.op == "at" and body.a[1] is bv and tm.eqt(tm.ln(body.a[0]), n) is TRUE:
            m = members(body.a[0], el, inner)
            return None if m is None else and_(m, replace(g, {body: el}))
        if n.op == "c" and n.a[0] == 0:
            return FALSE
        return None
    if v.op == "keys":
        return tm.mhas(v.a[0], el)
    return inner(v)


def parts(v, cond=TRUE):
    """alternatives of (condition, [consecutive sub-sequences])"""
    if v.op == "ite":
        return parts(v.a[1], and_(cond, v.a[0])) + parts(v.a[2], and_(cond, not_(v.a[0])))
    return [(cond, list(v.a) if v.op == "cat" else [v])]


def g04(c):
    P = c.P
    histories(c, overlay=True)
    MG = "ModifiedGraph::"
    names = ("add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge", "add_vertex", "has_vertex", "has_edge",
             "is_edge_meridian_crossing", "get_neighbors", "get_vertices", "get_polygons")
    F = {m: P.need(MG + m) for m in names}
    c.saw(*F.values())
    ctor = next((f for f in P.methods("ModifiedGraph") if f.qn == "ModifiedGraph::ModifiedGraph" and len(f.params()) == 1 and f.body), None)
    w = World(P, opaque=EQ_COORD)
    m = w.obj("ModifiedGraph", "m")
    C = {}
    for k in "abxyv":
        t = tm.sym(k)
        tm.set_type(t, "Coordinate")
        w.place(k, t)
        C[k] = t
    a, b, x, y, v = (C[k] for k in "abxyv")
    mer = tm.sym("mer", "b")

    def q(name, *args, S=None, this=None):
        r = w.call(F[name], this or m, args, S=S)
        return r

    def val(name, *args, S=None):
        r = q(name, *args, S=S)
        if r.S is None or r.value is None:
            return None
        return r.value
    # the base graph: read off the queries of a fresh overlay
    base_ev = [e for name in ("has_edge", "has_vertex") for e in q(name, *("xy" if name == "has_edge" else "x")).events() if e.kind == "vcall"]
    if not base_ev:
        c.unk("base", "queries fall through to the base graph", F["has_edge"].where())
        return
    G = base_ev[0].a[1]
    V = lambda p: tm.app("virtual:has_vertex", G, p, sort="b")
    E = lambda p, s: tm.app("virtual:has_edge", G, p, s, sort="b")
    K = lambda p, s: tm.app("virtual:is_edge_meridian_crossing", G, p, s, sort="b")
    N = lambda p: tm.app("virtual:get_neighbors", G, p)
    voc = {"virtual:has_vertex", "virtual:has_edge", "virtual:is_edge_meridian_crossing"}
    # what G01 establishes of a base graph, built into its queries: edges join two different vertices, only edges cross the meridian
    base_map = {}
    for p in C.values():
        for s in C.values():
            e0 = and_(V(p), V(s), not_(tm.eqt(p, s)), tm.app("edge", G, p, s, sort="b"))
            base_map[E(p, s)] = e0
            base_map[K(p, s)] = and_(e0, tm.app("crossing", G, p, s, sort="b"))
    nf = lambda t: replace(t, base_map)
    voc |= {"edge", "crossing"}
    binv = TRUE

    def cmp_(v, want, assume=TRUE, n=2000, known=None):
        return same(nf(v), nf(want), nf(assume), n=n, known=known) if v is not None else ("unknown", "no value")

    # ---- fresh overlay = base
    if ctor is not None:
        rc = w.call(ctor, args=("base",))
        th = next((t for k, t in (rc.S.env.items() if rc.S else []) if k == ("arg", "this")), None)
        if th is None:
            th = next((t for k, t in (rc.S.env.items() if rc.S else []) if isinstance(t, tm.T) and t.op == "rec" and t.a[0] == "ModifiedGraph"), None)
        if th is None:
            c.unk("fresh overlay", "state after construction", ctor.where())
        else:
            fresh = w.place("fresh", th)
            c.saw(ctor)
            GB = tm.app("?")
            for name, args, want in (("has_vertex", "x", lambda V, E, K: V(x)), ("has_edge", "xy", lambda V, E, K: and_(V(x), V(y), E(x, y))),
                                     ("is_edge_meridian_crossing", "xy", lambda V, E, K: and_(V(x), V(y), K(x, y), E(x, y)))):
                r = q(name, *args, this=fresh)
                ev = [e for e in r.events() if e.kind == "vcall"]
                if r.value is None or not ev:
                    c.unk("fresh overlay", name, F[name].where())
                    continue
                g0 = ev[0].a[1]
                mp = lambda t: replace(t, {G: g0})
                c.judge("fresh overlay", "%s of a fresh overlay is that of the base graph" % name, F[name].where(),
                        same(r.value, mp(want(V, E, K)), mp(binv), known=voc))
            for name, args in (("get_neighbors", "x"), ("get_vertices", ""), ("get_polygons", "")):
                r = q(name, *args, this=fresh)
                ev = [e for e in r.events() if e.kind == "vcall" and e.a[0] == name]
                if r.value is None or not ev:
                    c.unk("fresh overlay", name, F[name].where())
                    continue
                want = tm.app("virtual:" + name, *ev[0].a[1:])
                cond = ev[0].guard()
                got = under(r.value, [cond, V(x)] + [replace(V(x), {G: ev[0].a[1]})])
                c.judge("fresh overlay", "%s of a fresh overlay is that of the base graph" % name, F[name].where(),
                        ("yes", None) if got is want else same(got, want, known={"virtual:" + name} | voc))
    # ---- mutators
    old = {"e": {}, "k": {}}
    for p, s in (("x", "y"), ("a", "b"), ("b", "a")):
        old["e"][p + s] = val("has_edge", p, s)
        old["k"][p + s] = val("is_edge_meridian_crossing", p, s)
    if any(t is None for d in old.values() for t in d.values()):
        c.unk("overlay", "queries", F["has_edge"].where())
        return
    he, mk = old["e"]["xy"], old["k"]["xy"]
    # invariants of every reachable overlay, established below for each mutator
    inv = [or_(not_(old["k"][z]), old["e"][z]) for z in old["e"]]
    inv += [or_(not_(tm.eqt(C[z[0]], C[z[1]])), not_(old["e"][z])) for z in old["e"]]
    pre = and_(binv, *inv)
    hit = and_(tm.eqt(x, a), tm.eqt(y, b), not_(tm.eqt(a, b)))
    hit2 = and_(tm.eqt(x, b), tm.eqt(y, a), not_(tm.eqt(a, b)))
    hv0 = val("has_vertex", "x")
    for name, args, on, off in (("add_directed_edge", ("a", "b", "mer"), hit, FALSE), ("add_edge", ("a", "b", "mer"), or_(hit, hit2), FALSE),
                                ("remove_directed_edge", ("a", "b"), FALSE, hit), ("remove_edge", ("a", "b"), FALSE, or_(hit, hit2))):
        r = q(name, *args)
        where = F[name].where()
        if r.S is None:
            c.unk("overlay", name, where, "no normal return")
            continue
        c.judge("no refusal", "%s never throws" % name, where, cmp_(r.ok(), TRUE, pre, known=voc))
        v1 = val("has_edge", "x", "y", S=r.S)
        c.judge("has_edge after mutation", "has_edge(x,y) after %s(a,b), for every overlay and base" % name, where,
                cmp_(v1, and_(or_(he, on), not_(off)), pre, n=6000, known=voc) if v1 is not None else ("unknown", None))
        v2 = val("is_edge_meridian_crossing", "x", "y", S=r.S)
        want = ite(on, and_(mer, or_(not_(he), mk)), and_(mk, not_(off)))
        c.judge("meridian flag after mutation", "is_edge_meridian_crossing(x,y) after %s(a,b)" % name, where,
                cmp_(v2, want, pre, n=6000, known=voc) if v2 is not None else ("unknown", None))
        v3 = val("has_vertex", "x", S=r.S)
        want = hv0
        if name == "add_edge":
            c.judge("vertices", "both ends of an added edge are vertices", where,
                    cmp_(or_(not_(or_(and_(tm.eqt(x, a), not_(tm.eqt(a, b))), and_(tm.eqt(x, b), not_(tm.eqt(a, b))))), v3), TRUE, pre, n=2000, known=voc)
                    if v3 is not None else ("unknown", None))
        c.judge("vertices", "%s forgets no vertex" % name, where,
                cmp_(or_(not_(want), v3), TRUE, pre, n=2000, known=voc) if v3 is not None else ("unknown", None))
        overlay_lists(c, w, m, q, F, C, pre, r.S, "after " + name, G, (V, E, K, N), voc, cmp_)
    r = q("add_vertex", "v")
    where = F["add_vertex"].where()
    if r.S is None:
        c.unk("overlay", "add_vertex", where)
    else:
        for name, args, want in (("has_edge", "xy", he), ("is_edge_meridian_crossing", "xy", mk), ("has_vertex", "x", or_(hv0, tm.eqt(x, v)))):
            t = val(name, *args, S=r.S)
            c.judge("add_vertex", "%s after add_vertex(v)" % name, where, cmp_(t, want, pre, n=3000, known=voc) if t is not None else ("unknown", None))
        overlay_lists(c, w, m, q, F, C, pre, r.S, "after add_vertex", G, (V, E, K, N), voc, cmp_)
    overlay_lists(c, w, m, q, F, C, pre, None, "in every state", G, (V, E, K, N), voc, cmp_)
    # ---- the base graph is never modified, nor asked about vertices it does not have
    for name in names:
        args = {"add_edge": ("a", "b", "mer"), "add_directed_edge": ("a", "b", "mer"), "add_vertex": "v", "has_vertex": "x", "get_neighbors": "x",
                "get_vertices": (), "get_polygons": ()}.get(name, ("x", "y"))
        r = q(name, *args)
        n = 0
        for e in r.events():
            if e.kind != "vcall":
                continue
            n += 1
            if not e.extra[1]:
                g = e.guard()
                c.judge("base is read-only", "%s calls the mutating %s of the base graph" % (name, e.a[0]), e.where(),
                        "unknown" if tm.is_opaque(g) else "no")
            if e.a[0] in ("has_edge", "is_edge_meridian_crossing", "get_neighbors"):
                if not e.extra[1]:
                    continue
                need = and_(*[V(p) for p in e.a[2:]])
                exc = tm.eqt(e.a[2], e.a[3]) if len(e.a) > 3 else FALSE
                # a base query of unknown vertices throws
                known_to_base = or_(need, exc)
                c.judge("base is asked about its own vertices only", "%s in %s" % (e.a[0], name), e.where(),
                        cmp_(or_(not_(e.guard()), known_to_base), TRUE, pre, n=3000, known=voc))
        c.judge("base is read-only", "%s: %d base calls examined" % (name, n), F[name].where(), "yes")


def overlay_lists(c, w, m, q, F, C, pre, S, when, G, base, voc, cmp_):
    V, E, K, N = base
    x, y = C["x"], C["y"]

    def inner(t):
        if t is N(x):
            return E(x, y)
        if t.op == "app" and t.a[0] == "virtual:get_vertices" and t.a[1] is G:
            return V(y)
        if t.op == "app" and t.a[0] == "virtual:get_neighbors" and t.a[1] is G:
            return E(t.a[2], y)
        return None
    for name, args, query_, qa in (("get_neighbors", "x", "has_edge", "xy"), ("get_vertices", "", "has_vertex", "y")):
        what = "%s lists exactly what %s reports, each once, %s" % (name, query_, when)
        where = F[name].where()
        r = q(name, *args, S=S)
        h = q(query_, *qa, S=S)
        if r.S is None or h.S is None or r.value is None:
            c.unk("enumeration", what, where)
            continue
        pv = pre
        mem = members(r.value, y, inner)
        if mem is None:
            c.unk("enumeration", what, where, "unrecognised enumeration")
            continue
        c.judge("enumeration", what, where, cmp_(mem, h.value, pv, n=6000, known=voc))
        for cond, ps in parts(r.value):
            ms = [members(p, y, inner) for p in ps]
            for i in range(len(ms)):
                for j in range(i):
                    c.judge("enumeration", what + " (no duplicates)", where, cmp_(and_(cond, ms[i], ms[j]), FALSE, pv, n=3000, known=voc))


# ------------------------------------------------------------------------------------------------ G02
NOT_CONCURRENT = ("add_vertex",)          # documented as not thread-safe


def cell_index(lv, field):
    """index term of an element access of the given field, None for the whole field, False if another location"""
    if not isinstance(lv, LV):
        return False
    p = lv.path
    if not p or p[0] != field and p[0] != ("f", field):
        return False
    return p[1] if len(p) > 1 else None


def g02(c):
    P = c.P
    rep = graph_rep(c)
    if rep is None:
        c.unk("representation", "vertex index of Graph", P.need("Graph::Graph", 1).where())
        return
    gw = GW(c, rep, ["a", "b"])
    facts = gw.known("a", "b")
    inv = and_(*gw.inv("a", "b"), *facts)
    methods = [f for f in P.methods("Graph") if f.body and not f.o.get("ctor") and not f.qn.startswith("Graph::Graph") and not f.qn.startswith("Graph::~")
               and f.qn.split("::")[-1] not in NOT_CONCURRENT and "operator" not in f.qn and f.o.get("acc", "public") == "public"]
    runs, flat = {}, {}
    access = {f.qn for f in methods if f.o.get("acc", "public") == "public"} & set("Graph::" + q for q in (
        "add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge", "has_vertex", "has_edge", "is_edge_meridian_crossing",
        "get_neighbors", "get_vertices", "get_polygons"))
    for f in methods:
        args = []
        k = 0
        for i, p in enumerate(f.params()):
            if f.pty(i).noref().rec() == "Coordinate":
                args.append("ab"[k % 2])
                k += 1
            else:
                args.append(p["n"] or "p%d" % i)
        # races: each operation on its own; lock order: with the operations it calls
        gw.w.ev.opaque = set(EQ_COORD) | (access - {f.qn})
        r = gw.w.call(f, gw.g, args)
        gw.w.ev.opaque = set(EQ_COORD)
        r2 = gw.w.call(f, gw.g, args)
        if r.S is None or r2.S is None:
            continue
        flat[f.qn] = (f, r)
        runs[f.qn] = (f, r2)
        c.saw(f)
    need = {"Graph::add_directed_edge", "Graph::remove_directed_edge", "Graph::has_edge", "Graph::is_edge_meridian_crossing", "Graph::get_neighbors"}
    for q in need:
        P.need(q)
    # ---- shared state written by concurrent operations
    shared = {}
    for qn, (f, r) in flat.items():
        for e in r.events("wr"):
            lv = e.a[0]
            if isinstance(lv, LV) and lv.root == gw.g.root and lv.path:
                fld = lv.path[0][1] if isinstance(lv.path[0], tuple) else lv.path[0]
                shared.setdefault(fld, []).append((f, e))
    if not shared:
        c.unk("shared state", "fields written by concurrent operations", None, "none found")
        return
    for fld in sorted(shared, key=str):
        c.ok("shared state", "field written by concurrent operations: %s" % fld, shared[fld][0][0].where())
    acc = []
    for qn, (f, r) in flat.items():
        for e in r.events("rd", "wr"):
            lv = e.a[0]
            if not (isinstance(lv, LV) and lv.root == gw.g.root and lv.path):
                continue
            fld = lv.path[0][1] if isinstance(lv.path[0], tuple) else lv.path[0]
            if fld not in shared:
                continue
            idx = None
            if len(lv.path) > 1:
                q = lv.path[1]
                idx = q[1] if isinstance(q, tuple) else q
                if not isinstance(idx, tm.T):
                    idx = None
            if idx is None and e.kind == "rd":
                continue                      # size/handle of the container, which concurrent operations do not change
            acc.append((f, r, e, fld, idx))
    writes = [x for x in acc if x[2].kind == "wr"]
    cls = {}
    for x in acc:
        cls[id(x)] = lock_classes(gw, x, facts, inv)
    done = set()
    for x in writes:
        for y in acc:
            if x[3] != y[3]:
                continue
            key = (x[2].line, y[2].line, x[0].qn, y[0].qn, y[2].kind)
            if key in done or (y[2].kind == "wr" and (y[2].line, x[2].line, y[0].qn, x[0].qn, "wr") in done):
                continue
            done.add(key)
            cx, cy = cls[id(x)], cls[id(y)]
            what = "%s of %s in %s against %s in %s" % ("write", x[3], x[0].qn, {"wr": "write", "rd": "read"}[y[2].kind], y[0].qn)
            ok = any(k in cy and ("x" in (m, cy[k])) for k, m in cx.items())
            if ok:
                c.ok("common lock", what, y[2].where())
            elif x[1].undetermined() or y[1].undetermined() or "?" in cx or "?" in cy:
                c.unk("common lock", what, y[2].where(), "locks held could not be resolved")
            else:
                c.bad("common lock", what, y[2].where(), "held there: %s; here: %s: no common lock held exclusively by one side" % (
                    cx or "none", cy or "none"))
    # ---- lock order
    orders = {}
    for qn, (f, r) in runs.items():
        n = 0
        for e in r.events("acquire"):
            n += 1
            if e.extra == "atomic":
                continue
            i2 = lock_index(gw, e.a[0])
            for m, mode, cond in e.held:
                what = "%s acquires a second lock while holding one" % qn
                i1 = lock_index(gw, m)
                if i1 is None or i2 is None:
                    c.unk("lock order", what, e.where(), "lock not indexed by vertex")
                    continue
                g = and_(e.guard(), cond)
                up = same(gw.norm(or_(not_(g), tm.lt(i1, i2)), facts), TRUE, inv, n=1500, known=VOC)
                dn = same(gw.norm(or_(not_(g), tm.lt(i2, i1)), facts), TRUE, inv, n=1500, known=VOC)
                if up[0] == "yes" and dn[0] == "yes":
                    c.ok("lock order", what + " (unreachable)", e.where())
                elif up[0] == "yes":
                    orders.setdefault("ascending", []).append((what, e))
                elif dn[0] == "yes":
                    orders.setdefault("descending", []).append((what, e))
                elif up[0] == "no" and dn[0] == "no" and not r.undetermined():
                    c.bad("lock order", what, e.where(), "the order of the two locks depends on the order of the arguments: %s then %s" % (i1, i2))
                else:
                    c.unk("lock order", what, e.where())
        if r.S is not None and r.undetermined() == [] or True:
            left = [k for k, v in r.S.env.items() if isinstance(k, tuple) and k[0] == "held" and v[1] is not FALSE]
            c.judge("release", "%s releases every lock it takes (%d acquisitions)" % (qn, n), f.where(),
                    ("yes", None) if not left else ("no" if all(r.S.env[k][1] is TRUE for k in left) and not r.undetermined() else "unknown", "held at return: %s" % left[:2]))
    if len(orders) > 1:
        less = min(orders, key=lambda k: len(orders[k]))
        for what, e in orders.pop(less):
            c.bad("lock order", what, e.where(), "locks are taken in %s order here and in the opposite order elsewhere" % less)
    for k, xs in orders.items():
        for what, e in xs:
            c.ok("lock order", what + " (%s)" % k, e.where())
    # ---- a lock taken twice by one thread
    for qn, (f, r) in runs.items():
        for e in r.events("acquire"):
            for m, mode, cond in e.held:
                i1, i2 = lock_index(gw, m), lock_index(gw, e.a[0])
                if i1 is None or i2 is None:
                    continue
                g = and_(e.guard(), cond)
                c.judge("no self-deadlock", "%s never takes a lock it holds" % qn, e.where(),
                        same(gw.norm(or_(not_(g), not_(tm.eqt(i1, i2))), facts), TRUE, inv, n=1500, known=VOC))


def lock_index(gw, m):
    """vertex index of the mutex m = locks[index]"""
    while m.op in ("deref", "lvh", "ptr"):
        m = m.a[0]
    if m.op == "at" and m.a[0].op == "fld" and m.a[0].a[0] is gw.gs:
        return m.a[1]
    return None


def lock_classes(gw, x, facts, inv):
    """which locks are certainly held at an access of cell idx: of the row vertex, of the column vertex, or a fixed one"""
    f, r, e, fld, idx = x
    out = {}
    held = []
    for m, mode, cond in e.held:
        i = lock_index(gw, m)
        if i is not None:
            held.append((i, mode, cond))
        elif not any(z.op == "sym" and z.a[0] in ("a", "b") for z in tm.walk(m)) and not tm.is_opaque(m):
            if same(gw.norm(or_(not_(e.guard()), cond), facts), TRUE, inv, n=400, known=VOC)[0] == "yes":
                out[str(m)] = mode
        else:
            out["?"] = mode
    if idx is None or not held:
        return out
    asm = and_(inv, gw.norm(e.guard(), facts), tm.lt(tm.const(0), gw.n))
    for L, n in zip(e.loops, trips(e.loops)):
        if L.k is not None and n is not None:
            asm = and_(asm, tm.le(tm.const(0), L.k), tm.lt(L.k, gw.norm(n, facts)))
    for name, at_ in ((("row",), tm.idiv(idx, gw.n)), (("column",), tm.irem(idx, gw.n))):
        for mode in "xs":
            hit = or_(*[and_(tm.eqt(i, at_), cond) for i, m, cond in held if m == "x" or mode == "s"])
            if hit is FALSE:
                continue
            got = same(gw.norm(hit, facts), TRUE, asm, n=3000, known=VOC)[0]
            if got == "yes":
                out[name] = mode
                break
            if got != "no":
                out["?"] = mode
    return out
