"""R01 (native part), R02: generation of visibility graphs."""
from .. import terms as tm
from ..evalcpp import LV, LVALS
from ..interp import same_s as same, valid_s as valid, vocab
from ..loops import replace, trips
from ..terms import TRUE, FALSE, and_, or_, not_, const
from ..world import World

MUT = ("add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge", "add_vertex")
OPAQUE = {"VistreeGenerator::get_visible_vertices", "VistreeGenerator::VistreeGenerator", "make_polygons_periodic", "Graph::Graph"} | {"Graph::" + m for m in MUT}
NONDET = ("random_device", "time", "clock", "rand", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "this_thread", "getpid", "now")
VIS = "VistreeGenerator::get_visible_vertices"


def short(t, n=200):
    s = tm.show(t)
    return s if len(s) <= n else s[:n] + "..."


class Gen:
    """summary of one generation entry point"""

    def __init__(self, c, name, throwing=()):
        self.c = c
        P = self.P = c.P
        self.f = P.need("VisgraphGenerator::" + name)
        P.need(VIS), P.need("make_polygons_periodic"), P.need("Graph::add_edge")
        self.w = World(P, opaque=OPAQUE, throwing=throwing)
        self.r = self.w.call(self.f)
        for u in self.w.ev.visited:
            g = P.fns.get(u)
            if g is not None:
                c.saw(g)
        self.ps = [p["n"] or "arg%d" % i for i, p in enumerate(self.f.params())]
        self.ev = self.r.events()
        self.where = self.f.where()
        self.good = self.r.S is not None and self.r.value is not None
        if not self.good:
            c.unk("summary", "summary of " + name, self.where, "no normal return")
            return
        self.poly = self.w.S.env.get(("arg", self.ps[0])) or next((t for r, t in self.r.S.env.items() if r == ("arg", self.ps[0])), None) or tm.sym(self.ps[0])
        self.spec()

    def spec(self):
        """the input's vertices, polygon after polygon, and what is visible from one of them"""
        P = self.P
        k = tm.fresh("k", "i", (0, 1 << 40))
        pl = tm.at(self.poly, k)
        tm.set_type(pl, "Polygon")
        gv = P.need("Polygon::get_vertices")
        self.w.S.env[("arg", "sa_p")] = pl
        r = self.w.call(gv, LV(("arg", "sa_p"), (), None))
        self.seq = None
        if r.S is None or r.value is None:
            return
        n = tm.ln(self.poly)
        tm.BOUNDS[k] = n
        self.seq = tm.catmap(k, n, r.value)
        self.total = tm.ln(self.seq)

    # what is added to the graph
    def adds(self):
        return [e for e in self.ev if e.kind == "call" and str(e.a[0]).startswith("Graph::") and str(e.a[0])[7:] in MUT]


def base_of(v):
    """(sequence, index) of an element of a sequence"""
    return (v.a[0], v.a[1]) if v.op == "at" else (None, None)


def flat(pc):
    for p in pc:
        if p.op == "and":
            yield from flat(p.a)
        else:
            yield p


def shuffle_rules(c):
    """every split sees the vertices in one order, given by the seed and the input alone"""
    G = Gen(c, "generate_with_shuffled_range")
    if not G.good:
        return
    vs = [e for e in G.ev if e.kind == "call" and e.a[0] == VIS]
    if not vs:
        c.unk("order", "order of the vertices of all splits", G.where, "no vertex is processed in a form understood")
        return
    allowed = {tm.sym(G.ps[0]), tm.sym(G.ps[3], "i")} | {t for t in tm.free(G.poly)}
    for e in vs:
        what = "the order of the vertices depends only on the seed and the input"
        q, i = base_of(e.a[2])
        if q is None:
            c.unk("order", what, e.where(), "not an element of a sequence: " + short(e.a[2]))
            continue
        nd = sorted({str(t.a[0]) for t in tm.walk(q) if t.op in ("app", "sym") and any(str(t.a[0]).split("::")[-1].split("(")[0] == x for x in NONDET)})
        fr = {t for t in tm.free(q)} - allowed
        names = sorted(str(t.a[0]) for t in fr if str(t.a[0]) in G.ps)
        if nd or names:
            c.bad("order", what, e.where(), "it also depends on %s" % ", ".join(nd + names))
        elif tm.is_opaque(q) or fr:
            c.unk("order", what, e.where(), short(q))
        else:
            c.ok("order", what, e.where())
        # a permutation of the input's vertices
        what = "the order is a permutation of all vertices of the input"
        s = q
        while s.op in ("perm", "rev", "sorted"):
            s = s.a[0]
        c.judge("permutation", what, e.where(), same(s, G.seq) if G.seq is not None else ("unknown", "no specification"))
        if i is not None:
            L = e.loops[0] if e.loops else None
            if L is not None:
                lo, hi = tm.sym(G.ps[1], "i"), tm.sym(G.ps[2], "i")
                c.judge("position", "a split processes the positions of its range in that order", e.where(), positions(L, i, lo, hi, e))


def positions(L, i, lo, hi, e):
    """is {i(k) : k < n} = [lo, hi) when lo <= hi?"""
    if not L.exact:
        return "unknown", "loop without a trip count"
    asm = tm.ge(hi, lo)
    n = same(L.n, tm.sub(hi, lo), asm)
    if n[0] != "yes":
        return n
    asm2 = and_(asm, tm.lt(L.k, L.n))
    a = same(i, tm.add(lo, L.k), asm2)
    if a[0] == "yes":
        return a
    b = same(i, tm.sub(tm.sub(hi, const(1)), L.k), asm2)
    return b if b[0] == "yes" else a


def skips_other_kind(e):
    """the kind of edge of a pair that is left out because the pair has an edge of the other kind"""
    p = and_(*e.pc)
    a, b, fl = e.a[2], e.a[3], e.a[4]

    def cell(t):
        if t.op != "at" or t.sort == "o":
            return False
        i = {x.a[1] for x in tm.walk(t.a[1]) if x.op == "mget"}
        return t.a[0].op == "fld" and t.a[0].a[0] is e.a[1] and i == {a, b}

    st = [t for t in tm.walk(p) if cell(t)]
    if not st:
        return None
    distinct = not_(tm.obj_eq(a, b)) if hasattr(tm, "obj_eq") else not_(tm.eq0(tm.sub(tm.fld(a, "_longitude_microdegrees", "i"), tm.fld(b, "_longitude_microdegrees", "i"))))
    for state, over in ((1, TRUE), (2, FALSE)):
        m = {t: const(state) for t in st}
        m[fl] = over
        if valid(or_(not_(replace(p, m)), not_(distinct)))[0] == "yes":
            return "an edge across the meridian" if over is TRUE else "an edge not across the meridian"
    return None


def unconditional(e, base):
    """is the event reached in every iteration of its loops, given that the call gets that far?"""
    asm = and_(*base)
    rng = and_(*[and_(tm.lt(L.k, n), tm.ge(L.k, const(0))) for L, n in zip(e.loops, trips(e.loops))])
    return valid(or_(not_(and_(asm, rng)), and_(*e.pc)))


def r02_one(c, name, ranged):
    G = Gen(c, name)
    if not G.good or G.seq is None:
        c.unk("summary", "summary of " + name, G.where, "no specification of the input's vertices")
        return
    P = c.P
    lo, hi = (tm.sym(G.ps[1], "i"), tm.sym(G.ps[2], "i")) if ranged else (const(0), G.total)
    proper = and_(tm.ge(hi, lo), tm.ge(G.total, hi)) if ranged else TRUE
    some = not_(tm.eq0(tm.ln(G.poly)))
    # improper ranges raise an error, proper ones do not
    ok = G.r.ok()
    if ranged:
        c.judge("range", "%s raises an error exactly for a range outside the vertices" % name, G.where, same(ok, proper, some))
        c.judge("range", "%s accepts the empty range of an empty input" % name, G.where,
                valid(or_(not_(and_(tm.eq0(tm.ln(G.poly)), tm.eq0(lo), tm.eq0(hi))), ok)))
    else:
        c.judge("range", "%s accepts every input" % name, G.where, valid(ok))
    # the returned graph
    val = G.r.value
    adds = G.adds()
    init = None
    g0 = tm.app("Graph::Graph", G.poly)
    roots = set()
    for e in adds:
        t = e.a[1]
        for L in reversed(e.loops):
            if t in L.phis:
                t = L.phis[t][0]
            elif t in L.closed:
                t = tm.subst(L.closed[t], {L.k: const(0)})
        roots.add(t)
    what = "%s returns a graph of exactly the input's polygons" % name
    leaves = [x for _, x in ite_leaves(val)]
    st = []
    for x in leaves:
        if x.op == "ptr":
            st.append(LVALS[x.a[0]])
    objs = {(lv.root, tuple(str(p) for p in lv.path)) for lv in st}
    if len(leaves) != len(st) or not st:
        c.unk("polygons", what, G.where, short(val))
    else:
        bad = [t for t in roots if t.op == "app" and t.a[0] == "Graph::Graph" and tuple(t.a[1:]) != (G.poly,)]
        v = [same(t.a[1], G.poly, known={"make_polygons_periodic"}) if t.op == "app" and t.a[0] == "Graph::Graph" and len(t.a) == 2 else ("unknown", short(t)) for t in roots]
        c.judge("polygons", what, G.where, worst(v) if v else ("unknown", "no edge is ever added"))
        tgt = {(e.extra.root, tuple(str(p) for p in e.extra.path)) for e in adds if e.extra is not None}
        c.judge("target", "%s adds the edges to the graph it returns" % name, G.where, "yes" if tgt <= objs else "unknown" if not tgt else ("no", "edges go to another object"))
    other = [e for e in adds if e.a[0] not in ("Graph::add_edge", "Graph::add_directed_edge")]
    for e in other:
        c.bad("edges", "%s only adds edges" % name, e.where(), "calls " + str(e.a[0]))
    adds = [e for e in adds if e not in other]
    if not adds:
        c.bad("edges", "%s adds the edge to every visible vertex" % name, G.where, "no edge is ever added") if not G.r.undetermined() else \
            c.unk("edges", "%s adds the edge to every visible vertex" % name, G.where, str(G.r.undetermined()[:3]))
        return
    dirs = {}
    base = [ok, proper]
    for e in adds:
        w = e.where()
        if len(e.a) < 5:
            c.unk("edges", "edge added in a form understood", w, str(e.a[0]))
            continue
        a, b, fl = e.a[2], e.a[3], e.a[4]
        if len(e.loops) != 2 or not all(L.exact for L in e.loops):
            c.unk("edges", "%s: edges are added in a form understood" % name, w, "%d loops" % len(e.loops))
            continue
        L1, L2 = e.loops
        # the processed vertex
        vis = next((t for t in tm.walk(tm.app("pair", a, b, fl)) if t.op == "app" and t.a[0] == VIS), None)
        if vis is None:
            c.unk("edges", "%s: edges are added in a form understood" % name, w, "no visible vertices")
            continue
        swap = VIS not in {t.a[0] for t in tm.walk(b) if t.op == "app"} and VIS in {t.a[0] for t in tm.walk(a) if t.op == "app"}
        if swap:
            a, b = b, a
        q, i = base_of(a)
        k2 = L2.k
        n2 = tm.ln(vis)
        genspec = tm.app("VistreeGenerator::VistreeGenerator", tm.app("make_polygons_periodic", G.poly))
        spec_vis = tm.app(VIS, genspec, a, TRUE)
        c.judge("visible", "%s: what is visible is computed from the processed vertex among all periodic copies of the input" % name, w,
                same(vis, spec_vis, known=vocab(a) | {VIS, "VistreeGenerator::VistreeGenerator", "make_polygons_periodic"}))
        vl = trips(e.loops)[1]
        c.judge("complete", "%s: every visible vertex gets an edge" % name, w, same(vl, n2))
        cf, ff = field_of(P, "coord"), field_of(P, "is_visible_across_meridian")
        if cf is None or ff is None:
            c.unk("edge", "%s: edge to a visible vertex" % name, w, "fields of VisibleVertex not found")
        else:
            vv = []
            for idx in (k2, tm.sub(tm.sub(n2, const(1)), k2)):
                x = tm.at(vis, idx)
                tm.set_type(x, "VisibleVertex")
                asm = and_(tm.ge(k2, const(0)), tm.lt(k2, n2))
                vv.append(worst([same(b, typed_fld(x, cf), asm), same(fl, typed_fld(x, ff), asm)]))
            c.judge("edge", "%s: the edge leads to the visible vertex with its meridian flag" % name, w, next((v for v in vv if v[0] == "yes"), vv[0]))
        if q is not None:
            s = q
            while s.op in ("perm", "rev", "sorted"):
                s = s.a[0]
            c.judge("vertices", "%s: the processed vertices are the input's vertices" % name, w, same(s, G.seq))
            c.judge("vertices", "%s: every vertex of the range is processed once" % name, w, positions(L1, i, lo, hi, e) if ranged else positions0(L1, i, G.total))
        else:
            c.unk("vertices", "%s: the processed vertices are the input's vertices" % name, w, short(a))
        v = unconditional(e, base)
        k = skips_other_kind(e) if v[0] == "unknown" else None
        if k:
            v = ("no", k + " is left out where the pair has one of the other kind")
        c.judge("always", "%s: an edge is added for every pair" % name, w, v)
        if e.a[0] == "Graph::add_directed_edge":
            dirs.setdefault("to" if swap else "from", []).append(e)
        else:
            dirs.setdefault("both", []).append(e)
    if "both" not in dirs and len(dirs) == 1:
        e = list(dirs.values())[0][0]
        c.bad("direction", "%s: an edge joins its vertices in both directions" % name, e.where(), "the edge is added in one direction only")
    elif dirs:
        c.ok("direction", "%s: an edge joins its vertices in both directions" % name, G.where)


def positions0(L, i, total):
    n = same(L.n, total)
    if n[0] != "yes":
        return n
    asm = and_(tm.ge(L.k, const(0)), tm.lt(L.k, total))
    a = same(i, L.k, asm)
    if a[0] == "yes":
        return a
    b = same(i, tm.sub(tm.sub(total, const(1)), L.k), asm)
    return b if b[0] == "yes" else a


def worst(vs):
    for k in ("no", "unknown"):
        for v in vs:
            if v[0] == k:
                return v
    return ("yes", None)


def ite_leaves(t, conds=()):
    if t.op == "ite":
        yield from ite_leaves(t.a[1], conds + (t.a[0],))
        yield from ite_leaves(t.a[2], conds + (not_(t.a[0]),))
    else:
        yield conds, t


def field_of(P, n):
    for f, s, *_ in tm.RECORDS.get("VisibleVertex", []):
        if f == n:
            return f, s
    return None


def typed_fld(x, f):
    return tm.fld(x, f[0], f[1])


def r02(c):
    r02_one(c, "generate", False)
    r02_one(c, "generate_with_shuffled_range", True)
