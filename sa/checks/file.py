"""C01-C03, C05, C06 and the descriptor part of C04: saving and loading a graph.

Both functions are summarised once: the writer as the ordered list of its file effects and of the bytes it stores (index, value, condition and
loop bounds in closed form), the reader as the polygons, edges and flags it builds and the places it reads, as terms over the file's contents.
The summaries are compared by interpreting them over a common model: a graph, an earlier content of the file, and which file operations fail.
Nothing is compiled or run, and no file layout is assumed: the reader's terms are interpreted over what the writer's terms store.
"""
import random
import re

from .. import terms as tm
from ..evalcpp import LVALS
from ..interp import constants, vocab, Interp, Unknown, Universe, SEED, same_s
from ..loops import trips
from ..par import pmap
from ..terms import and_, const
from ..world import World
from .order import nodes

OPS = ("has_edge", "is_edge_meridian_crossing", "get_polygons", "get_vertices", "add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge",
       "has_vertex", "add_vertex", "get_neighbors", "Graph")
OPAQUE = {"Graph::" + x for x in OPS}
SAVE, LOAD = "GraphSerializer::serialize_to_file", "GraphSerializer::deserialize_from_file"
O_TRUNC = 0o1000
STALE = "stale"


class Model:
    """one graph: polygons of (lon, lat) vertices, edges and flags between coordinates"""

    def __init__(self, polys, E, F):
        self.polys, self.E, self.F = polys, E, F
        self.verts = [v for p in polys for v in p]

    def size(self):
        return "%d polygons, %d vertices, %d edges, %d over the meridian" % (len(self.polys), len(self.verts), len(self.E), len(self.F))


def canon(vs):
    """a vertex list as Polygon's constructor leaves it (E07)"""
    n = len(vs)
    out = []
    for i in range(n):
        a, b, d = vs[i - 1], vs[i], vs[(i + 1) % n]
        u, w = (b[0] - a[0], b[1] - a[1]), (d[0] - b[0], d[1] - b[1])
        if u[0] * w[1] - u[1] * w[0] != 0 or u[0] * w[0] + u[1] * w[1] < 0:
            out.append(b)
    n = len(out)
    area = sum(out[i - 1][0] * out[i][1] - out[i][0] * out[i - 1][1] for i in range(n))
    return out[::-1] if n > 2 and area < 0 else out


def sample(r, sizes, density=0.4, span=None):
    polys = []
    pool = []
    for n in sizes:
        for _ in range(50):
            vs = []
            for _ in range(n):
                if pool and r.random() < 0.03:
                    vs.append(r.choice(pool))
                elif r.random() < 0.1:
                    vs.append((r.choice((-180000000, 180000000, 0, -1, 1)), r.choice((-90000000, 90000000, 0, -1, 1))))
                else:
                    vs.append((r.randint(-180000000, 180000000), r.randint(-90000000, 90000000)))
            if n >= 3:
                vs = canon(vs)
            if len(vs) == n:
                break
        if n == 0:
            vs = []
        pool += vs
        polys.append(vs)
    return graph(r, polys, density)


def graph(r, polys, density):
    vs = sorted(set(v for p in polys for v in p))
    E, F = set(), set()
    for i, a in enumerate(vs):
        for b in vs[:i]:
            if r.random() < density:
                k = frozenset((a, b))
                E.add(k)
                if r.random() < (0.3 if density < 1 else 1):
                    F.add(k)
    return Model(polys, E, F)


def split(r, n):
    """n vertices in polygons of at least three, sometimes with empty ones"""
    out = []
    while n > 0:
        k = n if n < 6 else r.randint(3, n - 3) if r.random() < 0.6 else n
        out.append(k)
        n -= k
    while r.random() < 0.2:
        out.insert(r.randint(0, len(out)), 0)
    return out


class FI(Interp):
    """interpretation of the summaries: the saved graph, the contents of the mapped file, the failing operations"""
    longest = 100000
    errno = 5

    def __init__(self, S, g=None, content=None, fail=(), U=None):
        super().__init__(U or Universe(SEED), limit=60000000)
        self.S, self.g, self.content, self.fail = S, g, content, fail
        self.bmemo = {}
        self.statics = dict(getattr(S, "statics", {}))

    HEAVY = ("sum", "fold", "exists", "first", "forall", "comp", "catmap", "mfold", "afold")

    def ev(self, t, B=None):
        if B and t.op in self.HEAVY:
            fv = tm.free(t) & B.keys()
            if fv:
                key = (t, tuple(sorted(((v.a[0], B[v]) for v in fv), key=str)))
                r = self.bmemo.get(key)
                if r is None:
                    r = self.bmemo[key] = super().ev(t, B)
                return r
        return super().ev(t, B)

    def coord(self, v):
        if isinstance(v, tuple) and v and v[0] == "rec":
            d = dict(v[2])
            x, y = d.get(self.S.lon), d.get(self.S.lat)
            if isinstance(x, int) and isinstance(y, int):
                return x, y
        raise Unknown("not a coordinate")

    def mkcoord(self, c):
        return ("rec", "Coordinate", tuple(sorted(((self.S.lon, c[0]), (self.S.lat, c[1])), key=lambda x: self.S.order.index(x[0]))))

    def mkpoly(self, p):
        return ("rec", "Polygon", ((self.S.verts, ("box", ("l",) + tuple(self.mkcoord(c) for c in p))),))

    def poly(self, v):
        if isinstance(v, tuple) and v and v[0] == "rec":
            x = dict(v[2]).get(self.S.verts)
            if isinstance(x, tuple) and x and x[0] == "box":
                x = x[1]
                return [self.coord(c) for c in x[1:]]
            if x == ("null",):
                return None
        raise Unknown("not a polygon")

    def o_sym(self, t, B):
        if t not in B and str(t.a[0]).startswith(("exit:", "phi:", "kexit", "trip", "exits", "throws#")):
            raise Unknown("a value carried by a loop is not solved")
        if str(t.a[0]).startswith("static:"):
            n = t.a[0][7:]
            if n not in self.statics:
                raise Unknown("the static variable " + n)
            return self.statics[n]
        return super().o_sym(t, B)

    def o_box(self, t, B):
        return ("box", self.ev(t.a[0], B))

    def o_deref(self, t, B):
        if t.a[0].op == "app" and t.a[0].a[0] == "__errno_location":
            return self.errno
        v = self.ev(t.a[0], B)
        if isinstance(v, tuple) and v and v[0] == "box":
            return v[1]
        return super().uf(t, B)

    def o_app(self, t, B):
        n = t.a[0]
        if n.startswith("Graph::"):
            return self.graphop(n[7:], t, B)
        if n in ("mmap_sink", "mmap_source"):
            if self.content is None:
                raise Unknown("mapped contents")
            off, ln = (self.n(t.a[i], B) if len(t.a) > i else 0 for i in (2, 3))
            if off or ln:
                raise Unknown("part of the file is mapped")
            return self.content
        if n.startswith("os."):
            k = (n[3:],)
            if n == "os.open":
                return -1 if self.failed(t, B) else 3
            if n in ("os.ftruncate", "os.truncate", "os.fsync", "os.fdatasync", "os.posix_fallocate"):
                return -1 if self.failed(t, B) else 0
            if n == "os.close":
                return -1 if self.failed(t, B) else 0
            raise Unknown(n)
        if n == "failed":
            return self.failed(t.a[1], B)
        if n == "errno_of":
            return self.errno if self.failed(t.a[1], B) else 0
        if n != "message" and any(isinstance(x, tm.T) and x.op == "app" and str(x.a[0]).endswith("_error") for x in t.a[1:]):
            raise Unknown(n + " of an error")
        return super().o_app(t, B)

    def failed(self, t, B):
        return t in self.fail

    def graphop(self, n, t, B):
        g = self.g
        if g is None:
            raise Unknown("no graph")
        if n == "get_polygons":
            return ("l",) + tuple(self.mkpoly(p) for p in g.polys)
        if n == "get_vertices":
            return ("l",) + tuple(self.mkcoord(v) for v in g.verts)
        if n in ("has_edge", "is_edge_meridian_crossing"):
            k = frozenset((self.coord(self.ev(t.a[2], B)), self.coord(self.ev(t.a[3], B))))
            return k in (g.E if n == "has_edge" else g.F)
        if n == "has_vertex":
            return self.coord(self.ev(t.a[2], B)) in g.verts
        if n == "get_neighbors":
            a = self.coord(self.ev(t.a[2], B))
            return ("l",) + tuple(self.mkcoord(v) for v in g.verts if frozenset((a, v)) in g.E)
        raise Unknown("Graph::" + n)


def replay(evs, I, fn, depth=0, B=None):
    """calls fn(event, bindings) for every occurrence of the events, in order"""
    B = B or {}
    i = 0
    while i < len(evs):
        e = evs[i]
        if len(e.loops) == depth:
            if all(I.b(p, B) for p in e.pc):
                fn(e, B)
            i += 1
            continue
        L = e.loops[depth]
        j = i
        while j < len(evs) and len(evs[j].loops) > depth and evs[j].loops[depth] is L:
            j += 1
        n = trips(e.loops)[depth]
        if n is None:
            raise Unknown("a loop without a trip count")
        later = {x.k for g in evs[i:j] for x in g.loops[depth:]}
        live = [g for g in evs[i:j] if all(I.b(p, B) for p in g.pc if not (tm.free(p) & later))]
        i = j
        if not live:
            continue
        n = int(I.n(n, B))
        if n > I.longest:
            raise Unknown("long loop")
        for k in range(n):
            replay(live, I, fn, depth + 1, {**B, L.k: k})


class Summ:
    """the two summaries and the names of the fields that carry the values"""

    def __init__(self, c):
        P = self.P = c.P
        for q in (SAVE, LOAD, "Graph::has_edge", "Graph::add_edge", "Graph::is_edge_meridian_crossing", "Graph::get_vertices", "Graph::get_polygons"):
            P.need(q)
        self.bad = None
        self.lon, self.lat = (self.field(P.need("Coordinate::get_%s_microdegrees" % x)) for x in ("longitude", "latitude"))
        self.verts = self.field(P.need("Polygon::get_vertices"))
        self.order = [f["n"] for f in P.records["Coordinate"][1]["fields"]] if "Coordinate" in P.records else []
        for x in (self.lon, self.lat):
            if x not in self.order:
                self.order.append(x)
        self.wf, self.rf = P.need(SAVE), P.need(LOAD)
        self.ww = World(P, opaque=OPAQUE)
        self.w = self.ww.call(self.wf)
        self.rw = World(P, opaque=OPAQUE)
        self.r = self.rw.call(self.rf)
        for wd in (self.ww, self.rw):
            for u in wd.ev.visited:
                g = P.fns.get(u)
                if g is not None:
                    c.saw(g)
        self.made = None
        self.calls = [e for e in self.r.S.ev if e.kind == "call" and str(e.a[0]).startswith("Graph::")] if self.r.S is not None else []
        self.statics = {}
        for x in (self.w, self.r):
            for e in x.events():
                if e.kind == "static" and isinstance(e.a[1], tm.T) and e.a[1].op in ("c", "true", "false"):
                    self.statics[e.a[0].split("@")[0]] = e.a[1].a[0] if e.a[1].op == "c" else e.a[1].op == "true"
        self.stores = [e for e in self.w.events() if e.kind in ("store", "os")]

    def field(self, f):
        w = World(self.P)
        r = w.call(f, w.obj(f.cls, "this"))
        n = [x.a[1] for x in tm.walk(r.value) if x.op == "fld"] if r.value is not None else []
        return n[0] if len(n) == 1 else None

    def final(self):
        v = self.r.value
        if v is not None and v.op == "ptr":
            x = self.r.S.env.get(LVALS[v.a[0]].root)
            if x is not None:
                return x
        return v if v is not None else tm.UNIT

    def constructed(self):
        """the polygons of the one graph the reader constructs"""
        if self.made is None:
            mk = {t for e in self.calls for x in e.a[1:] if isinstance(x, tm.T) for t in tm.walk(x) if t.op == "app" and t.a[0] == "Graph::Graph"}
            mk |= {t for t in tm.walk(self.final()) if t.op == "app" and t.a[0] == "Graph::Graph"}
            if len(mk) != 1:
                raise Unknown("%d graphs are constructed" % len(mk))
            self.made = mk.pop()
        if len(self.made.a) < 2:
            raise Unknown("the graph is constructed without polygons")
        return self.made.a[-1]

    def understood(self):
        if None in (self.lon, self.lat, self.verts):
            return "the accessors of Coordinate or Polygon are not understood"
        for n, x in (("saving", self.w), ("loading", self.r)):
            if x.S is None:
                return n + " never returns"
            if x.undetermined():
                return "%s: %s" % (n, x.undetermined()[:2])
        return None


def summ(c):
    k = getattr(c.P, "_file_summaries", None)
    if k is None:
        k = c.P._file_summaries = Summ(c)
    return k


class Saved:
    pass


def left(S, g):
    """the static variables after saving a graph"""
    I = FI(S, g, None, ())
    out = {}
    for k, v in S.w.S.env.items():
        n = str(k[1]).split("@")[0] if k[0] == "g" else None
        if n in S.statics and isinstance(v, tm.T):
            out[n] = I.ev(v, {})
    return out


def save(S, g, old=(), fail=(), strict=True, statics=None):
    """interprets the writer's summary; the file's content afterwards and what happened to it"""
    I = FI(S, g, None, fail)
    if statics:
        I.statics.update(statics)
    o = Saved()
    o.bytes, o.fd, o.mapped, o.over, o.synced, o.dirty, o.log = list(old), {}, None, None, False, False, []
    o.returns = I.b(S.w.ok(), {})

    def one(e, B):
        if e.kind == "store":
            if e.a[0] is None:
                raise Unknown("a store whose place is not understood")
            i = I.n(e.a[0], B)
            if o.mapped is None:
                raise Unknown("a store without a mapping")
            if not 0 <= i < len(o.bytes):
                if o.over is None:
                    o.over = (e, i, len(o.bytes))
                return
            o.bytes[i] = I.ev(e.a[1], B)
            o.dirty = True
            return
        n = e.a[0]
        o.log.append((n, e))
        if n == "open":
            fl = I.n(e.a[3], B)
            if I.n(e.a[1], B) >= 0 and fl & O_TRUNC:
                o.bytes = []
        elif n == "ftruncate":
            if I.n(e.a[1], B) == 0:
                k = I.n(e.a[3], B)
                if k > 1 << 24:
                    raise Unknown("size")
                o.bytes = o.bytes[:k] + [0] * (k - len(o.bytes))
        elif n == "mmap_sink":
            if not I.failed(tm.app("mmap_sink_error", *e.a[2:]), B):
                o.mapped = True
        elif n == "sync":
            o.synced, o.dirty = True, False
        elif n in ("close", "unmap", "fsync", "fdatasync"):
            pass
        else:
            raise Unknown("file operation %s" % n)
    replay(S.stores, I, one)
    return o


def content(bs):
    return ("l",) + tuple(bs)


class Loaded:
    pass


def load(S, bs):
    """interprets the reader's summary over a file's content"""
    I = FI(S, None, content(bs))
    o = Loaded()
    o.graph = None
    o.E, o.F = set(), set()
    ev = S.calls
    ps = I.seq(S.constructed(), {})
    o.polys = [I.poly(p) for p in ps]
    if None in o.polys:
        raise Unknown("a polygon without vertices")
    I.g = Model(o.polys, set(), set())
    o.returns = I.b(S.r.ok(), {})

    def one(e, B):
        n = e.a[0][7:]
        if n in ("get_vertices", "get_polygons", "has_vertex", "has_edge", "is_edge_meridian_crossing"):
            if n in ("has_edge", "is_edge_meridian_crossing"):
                raise Unknown("the reader asks for edges")
            return
        if n not in ("add_edge", "add_directed_edge") or len(e.a) != 5:
            raise Unknown(e.a[0])
        a, b = I.coord(I.ev(e.a[2], B)), I.coord(I.ev(e.a[3], B))
        if a == b:
            return
        fl = I.b(e.a[4], B)
        for x in ((a, b), (b, a))[:2 if n == "add_edge" else 1]:
            o.E.add(x)
            if fl:
                o.F.add(x)
    replay(ev, I, one)
    return o


def round_trip(S, g):
    try:
        o = save(S, g)
        if o.over:
            return {"returns": "saving %s stores byte %d of a file of %d bytes" % (what(g), o.over[1], o.over[2])}
        if not o.returns or not o.mapped:
            return "saving %s is not understood" % what(g)
        l = load(S, o.bytes)
    except Unknown as e:
        return str(e)
    bad = {}
    if not l.returns:
        bad["returns"] = "loading what was saved for %s raises an error" % what(g)
    if l.polys != g.polys:
        bad["polygons"] = "%s: %s" % (what(g), first_difference(g.polys, l.polys))
        return bad
    E, F = both(g.E), both(g.F)
    if l.E != E:
        m = sorted(E - l.E) or sorted(l.E - E)
        i, j = g.verts.index(m[0][0]), g.verts.index(m[0][1])
        bad["edges"] = "%s: the edge between vertices %d and %d is %s" % (what(g), i, j, "lost" if E - l.E else "made up")
    if l.F - F or (F & l.E) - l.F:
        m = sorted(F ^ l.F)[0]
        bad["flags"] = "%s: flag of the edge between vertices %d and %d" % (what(g), g.verts.index(m[0]), g.verts.index(m[1]))
    return bad


def both(s):
    return {(a, b) for k in s if len(k) == 2 for a in k for b in k if a != b}


def samples(c, deep):
    r = random.Random(SEED * 31 + 7)
    out = []
    for n in list(range(0, 4)) + list(range(4, 28 if not deep else 50)):
        out.append(sample(r, split(r, n), r.choice((0.2, 0.5, 0.5, 1))))
    out.append(sample(r, [0] * 300, 0))
    out.append(sample(r, [0, 5, 0, 0, 4], 0.5))
    for _ in range(2 if not deep else 30):
        # outlines whose repeated vertices hide that others lie on one line
        vs = [(0, 0), (r.randint(1, 9), 0), (20, 10), (20, 10), (30, 0), (30, r.randint(20, 90)), (0, 30)]
        x, y = r.randint(-1000, 1000), r.randint(-1000, 1000)
        out.append(graph(r, [canon([(a + x, b + y) for a, b in vs]), canon([(0, 0), (4, 0), (1, 9)])], 0.6))
    for _ in range(4 if not deep else 40):
        # few longitudes and latitudes
        polys = []
        for _ in range(r.randint(1, 4)):
            vs = canon([(r.choice((0, 180000000, -180000000, 7)), r.choice((0, 90000000, -5, 3))) for _ in range(r.randint(3, 5))])
            if len(vs) >= 3:
                polys.append(vs)
        out.append(graph(r, polys, r.choice((0.4, 0.8))))
    out.append(sample(r, [260], 0.002))
    return out


def what(g):
    return "a graph with " + g.size()


def c01(c):
    S = summ(c)
    W = S.rf.where()
    names = (("polygons", "a loaded graph has the saved polygons in order, every vertex at its microdegree"),
             ("edges", "a loaded graph has exactly the saved edges"), ("flags", "every loaded edge has its saved meridian flag"),
             ("returns", "a saved graph is loaded without an error"))
    why = S.understood()
    bad, done = {}, 0
    if why is None:
        try:
            for r in pmap(lambda g: round_trip(S, g), sorted(samples(c, c.tier != "quick"), key=lambda g: -len(g.verts))):
                if isinstance(r, str):
                    why = why or r
                    continue
                done += 1
                for k, t in r.items():
                    bad.setdefault(k, t)
        except Unknown as e:
            why = str(e)
    c.notes.append("%d graphs interpreted" % done)
    if why is None and not bad:
        c01_width(c, S)
    for k, n in names:
        if k in bad:
            c.bad(k, n, W, bad[k])
        elif why is not None:
            c.unk(k, n, W, why)
        else:
            c.ok(k, n, W)


def axes(c, rule):
    """does a loaded vertex have its axes exchanged?  (anything else is C01's concern)"""
    S = summ(c)
    what = "a saved vertex is loaded with its longitude and latitude in their places"
    why = S.understood()
    if why is not None:
        c.unk(rule, what, S.rf.where(), why)
        return
    try:
        r = round_trip(S, sample(random.Random(SEED + 11), [3, 4], .5))
    except Unknown as e:
        r = str(e)
    if isinstance(r, str):
        c.unk(rule, what, S.rf.where(), r)
        return
    m = re.search(r"is \((-?\d+), (-?\d+)\) for \((-?\d+), (-?\d+)\)", r.get("polygons", ""))
    if m and m.group(1, 2) == m.group(4, 3) and m.group(1) != m.group(2):
        c.bad(rule, what, S.rf.where(), r["polygons"])
    else:
        c.ok(rule, what, S.rf.where())


def grown(S):
    """[(event, the largest values converted for graphs of 8, 16 and 32 vertices)] of the conversions to 16 and 32 bits"""
    out = []
    for nm, s in (("saving", S.w), ("loading", S.r)):
        evs = [e for e in s.events() if e.kind in ("narrow", "xnarrow") and e.a[1] in (16, 32)]
        evs = [e for e in evs if not fits(e)]
        if not evs:
            continue
        used = {x for e in s.events() if e.kind in ("store", "call", "narrow", "xnarrow") for t in e.a if isinstance(t, tm.T) for x in tm.walk(t) if x.op == "bits" and x.a[1] > 0}
        evs = [e for e in evs if not any(x.a[0] is e.a[0] and x.a[1] >= e.a[1] for x in used)]
        top = {id(e): [] for e in evs}
        r = random.Random(SEED + 3)
        for n in (8, 16, 32):
            g = sample(r, [n], 1)
            g.F = set(g.E)
            if nm == "saving":
                I = FI(S, g, None, ())
            else:
                o = save(S, g)
                I = FI(S, None, content(o.bytes))
                I.g = Model(g.polys, set(), set())
            m = {}

            def one(e, B):
                v = I.ev(e.a[0], B)
                if not isinstance(v, int):
                    raise Unknown("a converted value")
                x = m.get(id(e))
                m[id(e)] = [v, v] if x is None else [min(x[0], v), max(x[1], v)]
            replay(evs, I, one)
            for e in evs:
                top[id(e)].append(m.get(id(e)))
        out += [(nm, e, top[id(e)]) for e in evs]
    return out


def fits(e):
    l, h = tm.rng(e.a[0])
    return l is not None and h is not None and l >= -(1 << (e.a[1] - 1)) and h < 1 << e.a[1]


def c01_width(c, S):
    """conversions to 16 bits of values that grow with the graph, to 32 bits of values that grow with its square"""
    n = "no value that grows with the graph is cut to a width that large graphs exceed"
    W = S.wf.where()
    try:
        g = grown(S)
    except Unknown as e:
        c.unk("widths", n, W, str(e))
        return
    for nm, e, t in g:
        if None in t or t[0][0] < 0:
            continue
        a, b = t[1][1] - t[0][1], t[2][1] - t[1][1]
        if t[2][1] > 1 << 14 or not 0 < a < b:
            continue
        if e.a[1] == 16 or b >= 3 * a:
            c.bad("widths", n, e.where(), "%s: a value that is at most %d, %d, %d for graphs of 8, 16, 32 vertices is cut to %d bits" % (nm, t[0][1], t[1][1], t[2][1], e.a[1]))
            return
    c.ok("widths", n, W)


def first_difference(a, b):
    if len(a) != len(b):
        return "%d polygons are loaded for %d" % (len(b), len(a))
    for i, (p, q) in enumerate(zip(a, b)):
        if p != q:
            if len(p) != len(q):
                return "polygon %d has %d vertices for %d" % (i, len(q), len(p))
            j = next(j for j in range(len(p)) if p[j] != q[j])
            return "vertex %d of polygon %d is %s for %s" % (j, i, q[j], p[j])


# ================================================================ C05, C06
def c05(c):
    S = summ(c)
    W = S.wf.where()
    why, bad, done = S.understood(), {}, 0
    n1, n2 = "no byte of an earlier content is left", "the length depends on the graph alone"
    if why is None:
        try:
            for g in samples(c, c.tier != "quick")[:28 if c.tier == "quick" else 80]:
                o = save(S, g, ())
                if not o.returns or o.over:
                    raise Unknown("saving %s is not understood" % what(g))
                for k in (1, 7, len(o.bytes), len(o.bytes) + 13):
                    p = save(S, g, [STALE] * k)
                    done += 1
                    if len(p.bytes) != len(o.bytes):
                        bad.setdefault("length", "%s over a file of %d bytes: %d bytes long instead of %d" % (what(g), k, len(p.bytes), len(o.bytes)))
                    elif p.bytes != o.bytes:
                        i = next(i for i in range(len(p.bytes)) if p.bytes[i] != o.bytes[i])
                        bad.setdefault("bytes", "%s over a file of %d bytes: byte %d is what the file held before" % (what(g), k, i))
        except Unknown as e:
            why = str(e)
    c.notes.append("%d saves interpreted" % done)
    for k, n in (("bytes", n1), ("length", n2)):
        if k in bad:
            c.bad(k, n, W, bad[k])
        elif why is not None:
            c.unk(k, n, W, why)
        else:
            c.ok(k, n, W)
    # what the stored bytes are made of
    if why is None and S.statics:
        v = ("yes", None)
        try:
            gs = samples(c, False)[:24]
            ls = []
            for g in gs[-6:]:
                ls += [x for x in (left(S, g),) if x not in ls]
            for g in gs[:16]:
                b = save(S, g).bytes
                for x in ls:
                    if save(S, g, statics=x).bytes != b:
                        v = ("no", "%s is saved differently after an earlier save (%s)" % (what(g), ", ".join("%s = %s" % y for y in x.items())))
        except Unknown as e:
            v = ("unknown", str(e))
        c.judge("carried", "nothing is carried from one save to the next", W, v)
    if why is None:
        other = set()
        for e in S.stores:
            for t in e.a:
                if isinstance(t, tm.T):
                    other |= {x.a[0] for x in tm.walk(t) if x.op == "app"} | {x.op for x in tm.walk(t) if x.op in ("perm", "keys", "first_key")}
        other = {x for x in other if not x.startswith(("Graph::", "os.")) and x not in ("mmap_sink", "mmap_sink_error", "sync_error", "no_error")}
        src = sorted(other & NONDET)
        if src:
            c.bad("sources", "the stored bytes are made of the graph alone", W, "depends on %s" % src[0])
        elif other:
            c.unk("sources", "the stored bytes are made of the graph alone", W, "uses %s" % sorted(other))
        else:
            c.ok("sources", "the stored bytes are made of the graph alone", W)


NONDET = {"time", "clock", "rand", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "getpid", "random_device", "perm"}


def c06(c):
    S = summ(c)
    W = S.wf.where()
    why, bad, done = S.understood(), None, 0
    if why is None:
        try:
            for g in samples(c, c.tier != "quick"):
                for old in ((), [STALE] * 5):
                    o = save(S, g, old)
                    done += 1
                    if not o.returns:
                        raise Unknown("saving %s is not understood" % what(g))
                    if o.over and bad is None:
                        e, i, n = o.over
                        bad = (e, "%s: byte %d is written to a file of %d bytes" % (what(g), i, n))
        except Unknown as e:
            why = str(e)
    c.notes.append("%d saves interpreted" % done)
    st = {}
    for e in S.stores:
        if e.kind == "store":
            st.setdefault(e.line, e)
    for ln in sorted(st, key=str):
        n = "every byte stored lies within the file's size"
        if bad is not None:
            if bad[0].line == ln:
                c.bad("size", n, bad[0].where(), bad[1])
        elif why is not None:
            c.unk("size", n, st[ln].where(), why)
        else:
            c.ok("size", n, st[ln].where())
    if not st:
        c.unk("size", "every byte stored lies within the file's size", W, why or "no store found")


# ================================================================ C03
def failing(S, evs):
    """(operation, term that says whether it failed, event) for every fallible file operation"""
    out = {}
    for e in evs:
        if e.kind != "os":
            continue
        n = e.a[0]
        if n in ("open", "ftruncate", "truncate", "close", "fsync", "fdatasync", "posix_fallocate", "write", "pwrite", "rename", "unlink"):
            t = e.a[1]
        elif n in ("mmap_sink", "mmap_source"):
            t = tm.app(n + "_error", *e.a[2:])
        elif n == "sync":
            t = tm.app("sync_error", sort="o")
        else:
            continue
        if e.loops:
            raise Unknown("a file operation in a loop")
        out.setdefault((n, t), []).append(e)
    return out


def c03(c):
    S = summ(c)
    why = S.understood()
    r = random.Random(5)
    gs = [sample(r, [], 0), sample(r, [3], 1), sample(r, [4, 5], 0.5)]
    if why is not None:
        c.unk("reported", "a failed step is reported", S.wf.where(), why)
        return
    for nm, s in (("save", S.w), ("load", S.r)):
        evs = [e for e in s.events() if e.kind == "os"]
        try:
            ops = failing(S, evs)
            for (n, t), es in ops.items():
                w = es[0].where()
                txt = "a %s whose %s fails does not return normally" % (nm, n)
                v = ("yes", None)
                hints = constants(s.ok(), *{p for e in es for p in e.pc}) or [0]
                for g, k in [(g, k) for g in gs for k in range(16)]:
                    I = FI(S, g if nm == "save" else None, None, {t}, Universe(SEED + k, mode=2 * (k % 2), hints=hints + [4, 5, 22, 28]) if k else None)
                    I.errno = ([5, 4, 28, 22, 9, 122] + [x for x in hints if 0 < x < 200])[k % (6 + len([x for x in hints if 0 < x < 200]))]
                    if nm == "load":
                        I.content = content(save(S, g).bytes)
                        I.g = g
                    if not any(all(I.b(p, {}) for p in e.pc) for e in es):
                        continue                # not reached in this case
                    if I.b(s.ok(), {}):
                        v = ("no", "returns normally although %s failed" % n)
                c.judge("reported", txt, w, v)
        except Unknown as e:
            c.unk("reported", "every failed step of a %s is reported" % nm, (S.wf if nm == "save" else S.rf).where(), str(e))
    v = ("yes", None)
    try:
        for g in gs:
            o = save(S, g)
            if not o.synced:
                v = ("no", "%s: the mapping is never flushed" % what(g))
            elif o.dirty:
                v = ("no", "%s: bytes are stored after the last flush" % what(g))
    except Unknown as e:
        v = ("unknown", str(e))
    c.judge("flushed", "a save that returns flushed the mapping after the last byte", S.wf.where(), v)


# ================================================================ C02
def damaged(S, deep):
    """damaged files, as byte lists"""
    r = random.Random(SEED + 99)
    base = [save(S, g).bytes for g in (sample(r, [], 0), sample(r, [3], 1), sample(r, [4, 5], 0.6), sample(r, [3, 0, 6], 1))]
    out = [[]]
    for b in base:
        ub = [x & 255 for x in b]
        for k in range(0, len(ub), 1 if deep or len(ub) < 40 else 3):
            out.append(ub[:k])
        for _ in range(30 if not deep else 600):
            x = list(ub)
            for _ in range(r.randint(1, 4)):
                x[r.randrange(len(x))] = r.choice((0, 1, 2, 3, 7, 8, 9, 127, 128, 255, r.randrange(256)))
            out.append(x)
        for p in range(0, len(ub) - 7, 1 if deep else 4 if len(ub) < 90 else 8):
            for v in (0, 1, 2, 3, 8, 9, len(ub) // 8, len(ub), len(ub) + 1, (1 << 32) - 1, 1 << 61, (1 << 63) - 1, (1 << 64) - 1, (1 << 64) - 8):
                x = list(ub)
                x[p:p + 8] = list(v.to_bytes(8, "little"))
                out.append(x)
    for _ in range(100 if not deep else 1500):
        out.append([r.choice((0, 0, 0, 1, 2, 3, r.randrange(256))) for _ in range(r.randint(0, 80))])
    return [[x - 256 if x > 127 else x for x in b] for b in out]


def access(S, ev, b):
    """the accesses that leave their collection when the file b is loaded"""
    I = FI(S, None, content(b))
    I.longest = 300
    out = {}

    def one(e, B):
        i, n = I.n(e.a[1], B), I.n(e.a[2], B)
        if not 0 <= i < n:
            out.setdefault(e.where(), "a file of %d bytes makes it access element %d of %d: %s" % (len(b), i, n, bytes(x & 255 for x in b)[:64].hex()))
    try:
        I.g = lazy(S, I)
        replay(ev, I, one)
    except Unknown as x:
        return "unknown", str(x)
    return "done", sorted(out.items())


def c02(c):
    S = summ(c)
    why = S.understood()
    ev = []
    seen = {}
    for e in S.r.events():
        if e.kind == "index":
            seen.setdefault(e.where(), []).append(e)
            ev.append(e)
    name = "every access lies within the file or the collection accessed"
    bad, done, skipped = {}, 0, 0
    if why is None:
        for e in ev:
            if any(not isinstance(x, tm.T) or tm.is_opaque(x) for x in e.a[1:3]):
                why = "an index that is not understood"
    if why is None:
        files = damaged(S, c.tier != "quick")
        for r in pmap(lambda b: access(S, ev, b), files):
            if r[0] == "unknown":
                skipped += 1
                last = r[1]
                continue
            done += 1
            for w, t in r[1]:
                bad.setdefault(w, t)
        c.notes.append("%d damaged files interpreted, %d beyond the interpreter's limits" % (done, skipped))
        if skipped > done // 3:
            why = last
    for w in sorted(seen):
        if w in bad:
            c.bad("bounds", name, w, bad[w])
        elif why is not None:
            c.unk("bounds", name, w, why)
        else:
            c.ok("bounds", name, w)
    if not seen:
        c.unk("bounds", name, S.rf.where(), why or "no access found")


class lazy:
    """the graph under construction: its polygons are evaluated when they are first asked for"""

    def __init__(self, S, I):
        self.S, self.I = S, I

    def __getattr__(self, n):
        if n not in ("polys", "verts", "E", "F"):
            raise AttributeError(n)
        ps = self.I.seq(self.S.constructed(), {})
        self.polys = [self.I.poly(p) for p in ps]
        if None in self.polys:
            raise Unknown("a polygon without vertices")
        self.verts = [v for p in self.polys for v in p]
        self.E, self.F = set(), set()
        return self.__dict__[n]


# ================================================================ C04
ACQUIRE = {"open": "close", "creat": "close", "dup": "close", "socket": "close", "openat": "close", "mkstemp": "close",
           "fopen": "fclose", "opendir": "closedir", "malloc": "free", "calloc": "free", "realloc": "free", "strdup": "free", "mmap": "munmap", "popen": "pclose"}


def acquirers(P):
    """functions of the library that acquire a descriptor or an unmanaged object themselves"""
    out = {}
    for f in P.fns.values():
        b = f.o.get("body")
        if b is None:
            continue
        for x in nodes(b):
            if x.get("k") == "call" and x.get("qn") in ACQUIRE and not x.get("cls"):
                out.setdefault(f.usr, (f, set()))[1].add(x["qn"])
            elif x.get("k") == "new":
                out.setdefault(f.usr, (f, set()))[1].add("new")
            elif x.get("k") == "del":
                out.setdefault(f.usr, (f, set()))[1].add("delete")
            elif x.get("k") == "call" and x.get("n") == "release" and (x.get("cls") or "").startswith("std::unique_ptr"):
                out.setdefault(f.usr, (f, set()))[1].add("release")
    return out


def outermost(P, f):
    """the function a lambda is written in"""
    n = 0
    while f.kind == "lambda" and n < 20:
        n += 1
        g = next((g for g in P.fns.values() if g.usr != f.usr and g.o.get("body") is not None and
                  any(x.get("k") == "lam" and x.get("usr") == f.usr for x in nodes(g.o["body"]))), None)
        if g is None:
            return f
        f = g
    return f


def callers(P, f):
    out = []
    for g in P.fns.values():
        b = g.o.get("body")
        if b is not None and any(x.get("k") in ("call", "ctor") and x.get("usr") == f.usr for x in nodes(b)):
            out.append(outermost(P, g))
    return out


def c04(c):
    P = c.P
    acq = acquirers(P)
    work = []
    for f, kinds in acq.values():
        f = outermost(P, f)
        if f not in work:
            work.append(f)
    seen = set()
    todo = sorted(work, key=lambda f: f.qn)
    while todo:
        f = todo.pop(0)
        if f.usr in seen or len(seen) > 60:
            continue
        seen.add(f.usr)
        c.saw(f)
        if c04_one(c, P, f):
            todo += [g for g in callers(P, f) if g.usr not in seen]
    if not work:
        c.ok("released", "nothing is acquired without an owner", P.need(SAVE).where())


def c04_one(c, P, f):
    """judges every acquisition of f's summary; True when what is acquired is passed on to the callers"""
    w = World(P, opaque={q for q in OPAQUE | {"Coordinate::to_s2_point"} if q != f.qn})
    r = w.call(f, w.obj(f.cls, "this") if f.cls and not f.o.get("static") else None)
    evs = r.events()
    if r.S is None and not r.throws:
        c.unk("released", "what %s acquires is released exactly once" % f.qn, f.where(), "no summary")
        return False
    passed = False
    exits = ([("the return", r.S, r.value)] if r.S is not None else []) + [("the error raised at line %s" % x.line, x.S, None) for x in r.throws]
    opens = [e for e in evs if e.kind == "os" and e.a[0] in ACQUIRE]
    news = [e for e in evs if e.kind == "new"]
    direct = {x.get("qn") for x in nodes(f.o["body"]) if x.get("k") == "call" and not x.get("cls")} & set(ACQUIRE)
    modelled = {e.a[0] for e in opens}
    if direct - modelled:
        c.unk("released", "what %s acquires is released exactly once" % f.qn, f.where(), "%s is not modelled" % sorted(direct - modelled)[0])
    for e in opens:
        txt = "the descriptor opened is closed exactly once"
        if e.loops or e.a[0] != "open":
            c.unk("released", txt, e.where(), "opened in a loop")
            continue
        if r.undetermined():
            c.unk("released", txt, e.where(), str(r.undetermined()[:2]))
            continue
        if r.value is not None and any(x is e.a[1] for x in tm.walk(r.value)):
            passed = True
            continue
        c.judge("released", txt, e.where(), descriptor(e, exits, evs))
    for e in news:
        txt = "the object created is released exactly once"
        p = e.a[0]
        if r.undetermined():
            c.unk("released", txt, e.where(), str(r.undetermined()[:2]))
            continue
        if any(x.kind == "own" and x.a[0] is p for x in evs):
            c.ok("released", txt, e.where())
            continue
        if any(x.kind == "lib" and any(y is p for z in x.a[2:] if isinstance(z, tm.T) for y in tm.walk(z)) for x in evs):
            c.unk("released", txt, e.where(), "passed to a library function")
            continue
        held = r.value is not None and any(x is p for x in tm.walk(r.value))
        if held or stored(r, p):
            if f.o.get("ret") is not None and f.tu.ty(f.o["ret"]).k == "ptr":
                passed = True
                c.ok("released", "the object created is handed to the caller", e.where())
            else:
                c.unk("released", txt, e.where(), "kept beyond the call") if not smart(f) else c.ok("released", txt, e.where())
            continue
        v = ("yes", None)
        for nm, X, val in exits:
            ds = [d for d in X.ev if d.kind in ("delete", "free") and d.a and d.a[0] is p]
            if any(d.loops != e.loops for d in ds):
                v = ("unknown", "released in another loop")
                break
            tot = const(0)
            for d in ds:
                tot = tm.add(tot, tm.b2i(and_(*d.pc)))
            if not ds and e in X.ev:
                v = ("no", "at %s it is not released" % nm)
                break
            cond = and_(*X.pc, *e.pc)
            q = same_s(tot, const(1), cond, known=vocab(tot) | vocab(cond))
            if q[0] != "yes" and not (q[0] == "unknown" and e not in X.ev):
                v = q if q[0] == "unknown" else ("no", "at %s it is %s" % (nm, "not released" if not ds or q[1] and ": 0 against" in q[1] else "released more than once"))
                break
        c.judge("released", txt, e.where(), v)
    return passed


def smart(f):
    return f.o.get("ret") is not None and any(x in f.tu.ty(f.o["ret"]).s for x in ("unique_ptr", "shared_ptr"))


def stored(r, p):
    """is the pointer still reachable from something older than the call?"""
    for rt, t in (r.S.env.items() if r.S is not None else ()):
        if isinstance(rt, tuple) and rt and rt[0] in ("arg", "this", "d", "g") and isinstance(t, tm.T) and any(x is p for x in tm.walk(t)):
            return True
    return False


def descriptor(e, exits, evs):
    """every combination of failing operations: is the descriptor closed exactly once before the exit taken, and not used afterwards?"""
    fd = e.a[1]
    ops = []
    for x in evs:
        if x.kind == "os":
            n = x.a[0]
            t = tm.app(n + "_error", *x.a[2:]) if n.startswith("mmap_") else tm.app("sync_error", sort="o") if n == "sync" else x.a[1] if isinstance(x.a[1], tm.T) else None
            if t is not None and t is not fd and t not in ops:
                ops.append(t)
    if len(ops) > 7:
        return "unknown", "too many file operations"
    r = random.Random(3)
    g = sample(r, [3, 4], 0.5)

    class NoS:
        lon, lat, verts, order = "_longitude_microdegrees", "_latitude_microdegrees", "_vertices", ["_longitude_microdegrees", "_latitude_microdegrees"]
    hints = constants(*{p for _, X, _ in exits for p in X.pc}, *{p for x in evs for p in x.pc})
    worlds = [Universe(SEED)] + [Universe(SEED * 7919 + k, mode=2 if hints and k % 4 else k % 2, hints=hints or [0]) for k in range(30 + 30 * min(len(hints), 6))]
    gs = [g, sample(r, []), sample(r, [5], 1)]
    todo = [(m, U, gs[i % 3] if i else g, i) for m in range(1 << len(ops)) for i, U in enumerate(worlds)]
    errs = [5, 4, 28, 22, 9, 122] + [x for x in hints if 0 < x < 200]
    for m, U, g, i in todo:
        fail = {t for i, t in enumerate(ops) if m >> i & 1}
        I = FI(NoS, g, None, fail, U)
        I.errno = errs[i % len(errs)]
        taken = None
        for nm, X, _ in exits:
            try:
                if all(I.b(p, {}) for p in X.pc):
                    taken = (nm, X)
                    break
            except Unknown:
                continue
        if taken is None:
            return "unknown", "no exit taken"
        nm, X = taken
        n, used = 0, None
        try:
            if not all(I.b(p, {}) for p in e.pc):
                continue
            for x in X.ev:
                if x.kind == "os" and any(y is fd for y in x.a[2:]) and all(I.b(p, {}) for p in x.pc):
                    if x.loops:
                        return "unknown", "used in a loop"
                    if n and used is None and x.a[0] != "close":
                        used = x
                    n += x.a[0] == "close"
        except Unknown as u:
            return "unknown", str(u)
        names = sorted({t.a[0].replace("os.", "").replace("_error", "") for t in fail})
        ctx = "when %s, at %s" % (" and ".join(names) + " fails" if names else "nothing fails", nm)
        if n == 0:
            return "no", ctx + " it is still open"
        if n > 1:
            return "no", ctx + " it is closed %d times" % n
        if used is not None:
            return "no", ctx + " it is used after it was closed"
    return "yes", None
