"""Parallel sections (O01, O02), batches (O03), merging (M01)."""
from .. import terms as tm
from ..evalcpp import LV, LVALS, typed
from ..interp import Interp, Universe, Unknown, same_s as same, valid_s as valid, SEED, unsolved, vocab
from ..loops import replace, trips
from ..terms import TRUE, FALSE, and_, or_, not_, eqt, const
from ..world import World
from .path import reach, history, bodies, short, walk

VIS = "VistreeGenerator::get_visible_vertices"
GRAPH_OPS = ("Graph::add_edge", "Graph::add_directed_edge", "Graph::remove_edge", "Graph::remove_directed_edge",
             "Graph::has_edge", "Graph::get_neighbors", "Graph::is_edge_meridian_crossing")
GRAPH_READS = ("Graph::has_edge", "Graph::get_neighbors", "Graph::is_edge_meridian_crossing", "Graph::get_vertices", "Graph::get_polygons", "Graph::has_vertex")
QUERY = "ShortestPathComputer::shortest_path"
BASE_OPAQUE = set(GRAPH_OPS) | set(GRAPH_READS) | {VIS, QUERY, "VistreeGenerator::VistreeGenerator", "make_polygons_periodic", "Graph::Graph", "Graph::add_vertex"}


def omp_regions(P):
    """every function with a parallel section, by its syntax tree"""
    out = {}
    for f in P.fns.values():
        for b in bodies(f):
            for x in walk(b):
                if x.get("s") == "omp" and "parallel" in (x.get("d") or ""):
                    out.setdefault(f.usr, (f, []))[1].append(x)
    return [out[u] for u in sorted(out, key=lambda u: out[u][0].qn)]


def summary(P, f, throwing=()):
    op = {q for q in BASE_OPAQUE if q != f.qn}
    w = World(P, opaque=op, throwing=throwing)
    r = w.call(f, w.obj(f.cls, "this") if f.cls and not f.o.get("static") else None)
    return w, r


# ================================================================ O01
def o01(c):
    P = c.P
    rs = omp_regions(P)
    n = 0
    for f, nodes in rs:
        c.saw(f)
        w, r = summary(P, f, throwing=set(throwers(P, nodes)))
        regs = {}
        for e in r.events():
            for g in e.region or ():
                regs.setdefault(id(g), (g, []))[1].append(e)
        lines = {g.line for g, _ in regs.values()}
        for x in nodes:
            if x.get("l") not in lines:
                c.unk("race", "parallel section of %s" % f.qn, f.where(x.get("l")), "not reached by the summary")
        # one verdict per region of the source
        by = {}
        for g, evs in regs.values():
            if g.fn is not f and g.line not in lines:
                continue
            by.setdefault((g.fn.qn, g.line), []).append((g, evs))
        for (qn, line), lst in sorted(by.items()):
            n += 1
            g, evs = lst[-1]
            race(c, P, f, g, evs)
        und = [u for u in r.undetermined()]
        for u in und[:3]:
            c.unk("race", "parallel section of %s is understood" % f.qn, f.where(u[1]), str(u[0]))
    c.ok("regions", "%d parallel sections in %d functions" % (n, len(rs)), None)
    # what runs in them keeps no state between calls
    fs = set()
    roots = []
    for f, nodes in rs:
        us = set()
        for x in nodes:
            for y in walk(x):
                u = y.get("usr")
                if isinstance(u, str):
                    us.add((u, y.get("virt", False)))
        for u, v in us:
            if u in P.fns:
                roots.append(P.fns[u])
            if v:
                roots += P.overriders.get(u, [])
    if roots:
        history(c, reach(P, roots), rule="hidden state", entry="a parallel section")


def common_lock(a, b):
    for m, k, cnd in a.held:
        for m2, k2, cnd2 in b.held:
            if m is m2 and cnd is TRUE and cnd2 is TRUE and "x" in (k, k2):
                return True
    return False


def guard_one(e):
    """executed by at most one thread of the region"""
    one = tm.app("omp_single", sort="b")
    t0 = eqt(tm.app("omp_get_thread_num", sort="i"), const(0))
    return 2 if any(p is t0 for p in e.pc) else 1 if any(p is one for p in e.pc) else 0


def inner(L, e):
    """the loops of an event inside the parallel one: (loop, trip count)"""
    ls = e.loops
    i = ls.index(L)
    ts = trips(ls)
    return [(x, n) for x, n in list(zip(ls, ts))[i + 1:]]


def separate(L, w, e, ka, kb):
    """are the two places distinct in different iterations of L?  index positions whose values differ whenever the iterations do"""
    a, b = w.a[0], e.a[0]
    pa, pb = a.path, b.path
    sa, sb, asm = {L.k: ka}, {L.k: kb}, [tm.ge(ka, const(0)), tm.ge(kb, const(0))]
    for sub, ev in ((sa, w), (sb, e)):
        for x, n in inner(L, ev):
            sub[x.k] = tm.fresh("in", "i", (0, 1 << 30))
            asm.append(tm.ge(sub[x.k], const(0)))
            if n is not None:
                asm.append(tm.lt(sub[x.k], tm.subst(n, sub)))
        for p in ev.pc:
            if isinstance(p, tm.T) and not tm.is_opaque(p):
                asm.append(tm.subst(p, sub))
    for (k, x, _), (k2, y, _) in zip(pa, pb):
        if k != k2:
            return "yes", None
        if k == "f":
            if x != y:
                return "yes", None
            continue
        if not isinstance(x, tm.T) or not isinstance(y, tm.T):
            continue
        xs, ys = tm.subst(x, sa), tm.subst(y, sb)
        v = valid(or_(eqt(ka, kb), not_(eqt(xs, ys))), and_(*asm))
        if v[0] == "yes":
            return v
    return "no", None


def race(c, P, f, g, evs, rule="race"):
    """accesses of two threads of one region to one place, at least one of them a write, under no common lock"""
    acc = {}
    for e in evs:
        if e.kind not in ("rd", "wr", "push", "pop", "sort", "shuffle") or not isinstance(e.a[0], LV):
            continue
        acc.setdefault(e.a[0].root, []).append(e)
    name = "parallel section at line %s of %s" % (g.line, g.fn.qn)
    nw = 0
    bad = None
    ka, kb = tm.fresh("ia", "i", (0, 1 << 30)), tm.fresh("ib", "i", (0, 1 << 30))
    for root, es in acc.items():
        ws = [e for e in es if e.kind != "rd"]
        if not ws:
            continue
        for w in ws:
            v = w.a[1] if len(w.a) > 1 else None
            if isinstance(v, tm.T) and v.op == "app" and str(v.a[0]).rstrip("'") in GRAPH_OPS:
                continue        # synchronised inside: G02
            nw += 1
            for e in es:
                if e.kind == "rd" and len(e.a[0].path) < len(w.a[0].path):
                    continue    # e.g. the size of the container
                v2 = e.a[1] if len(e.a) > 1 else None
                if isinstance(v2, tm.T) and v2.op == "app" and str(v2.a[0]).rstrip("'") in GRAPH_OPS:
                    continue
                if common_lock(w, e):
                    continue
                g1, g2 = guard_one(w), guard_one(e)
                if g1 == 2 and g2 == 2 or (e is w and g1):
                    continue
                Lw = next((L for L in w.loops if L.par is g), None)
                Le = next((L for L in e.loops if L.par is g), None)
                if Lw is not None and Lw is Le:
                    s = separate(Lw, w, e, ka, kb)
                    if s[0] == "yes":
                        continue
                    if s[0] == "unknown":
                        c.unk(rule, "%s: no unprotected conflict" % name, w.where(), "place %s" % (w.a[0],))
                        bad = bad or "unknown"
                        break
                if tm.is_opaque(and_(*[p for p in w.pc if isinstance(p, tm.T)])):
                    c.unk(rule, "%s: no unprotected conflict" % name, w.where(), "reached under a condition not understood")
                    bad = bad or "unknown"
                    break
                what = "another iteration writes it too" if e is w else "%s at %s" % ("read" if e.kind == "rd" else "written", e.where())
                c.bad(rule, "%s: no unprotected conflict" % name, w.where(), "%s is written by every thread without a lock; %s" % (place(P, g, w.a[0]), what))
                bad = True
                break
            if bad:
                break
        if bad:
            break
    if not bad:
        c.ok(rule, "%s: no unprotected conflict (%d accesses, %d writes to shared places)" % (name, sum(map(len, acc.values())), nw), g.fn.where(g.line))


def place(P, g, lv):
    return str(lv)


# ================================================================ O02
THROW = {"VisgraphGenerator::generate": (VIS,), "VisgraphGenerator::generate_with_shuffled_range": (VIS,),
         "merge_graphs": ("Graph::has_edge", "Graph::add_edge", "Graph::is_edge_meridian_crossing"),
         "ShortestPathComputer::shortest_paths": (QUERY,)}


def throwers(P, nodes):
    """the specified steps of a parallel section that may fail: what it calls of the operations taken as given"""
    out = set()
    todo, seen = list(nodes), set()
    while todo:
        for y in walk(todo.pop()):
            u = y.get("usr")
            if not isinstance(u, str) or u in seen or u not in P.fns:
                continue
            seen.add(u)
            g = P.fns[u]
            if g.qn in BASE_OPAQUE:
                if not g.o.get("noexcept"):
                    out.add(g.qn)
            else:
                todo += list(bodies(g))
    return sorted(out - {"Graph::get_vertices", "Graph::get_polygons"})


def o02(c):
    P = c.P
    for f, nodes in omp_regions(P):
        c.saw(f)
        ts = throwers(P, nodes)
        if not ts:
            c.ok("errors", "%s: nothing in the parallel section can raise an error" % f.qn, f.where())
            continue
        for q in ts:
            w, r = summary(P, f, throwing={q})
            what = "%s: an error of %s" % (f.qn, q)
            regs = [e.a[0] for e in r.events("region")]
            if not regs:
                c.unk("errors", what, f.where(), "parallel section not reached by the summary")
                continue
            evs = r.events()
            called = [e for e in evs if e.kind == "call" and e.a[0] == q and e.region]
            if not called:
                c.unk("errors", what, f.where(), "the call is not met inside the section")
                continue
            esc = [o for g in regs for o in g.escapes]
            for o in esc[:1]:
                c.bad("terminate", "%s never leaves the section as an exception" % what, o.fn.where(o.line) if o.fn else f.where(), "an exception leaving a parallel section terminates the process")
            if not esc:
                c.ok("terminate", "%s never leaves the section as an exception" % what, called[0].where())
            # reported: no normal return when it happened, unless the result tells (O03)
            if f.qn == "ShortestPathComputer::shortest_paths":
                continue
            happened = cond_of(P, called, q)
            if happened is None:
                c.unk("reported", "%s makes the call fail" % what, called[0].where(), "condition not in closed form")
                continue
            ok = r.ok()
            c.judge("reported", "%s makes the call fail" % what, called[0].where(), valid(or_(not_(happened), not_(ok))))
    batch(c, "reported")


def cond_of(P, called, q):
    """some iteration raises it"""
    out = FALSE
    skip = 0 if all(f.o.get("const") or f.o.get("static") or not f.cls for f in P.by_qn.get(q, [])) else 1
    for e in called:
        if any(not L.exact for L in e.loops):
            return None
        t = and_(*[p for p in e.pc], tm.app("throws:" + q, *e.a[1 + skip:], sort="b"))
        for L, n in reversed(list(zip(e.loops, trips(e.loops)))):
            t = tm.bind("exists", L.k, n, t)
        if any(isinstance(x.a[0], str) and x.op == "sym" and x.a[0].startswith(("phi:", "exit:")) for x in tm.free(t)):
            return None
        out = or_(out, t)
    return out


# ================================================================ O03
def batch(c, rule):
    P = c.P
    f = P.need("ShortestPathComputer::shortest_paths")
    q = P.need(QUERY, 5)
    c.saw(f)
    w, r = summary(P, f, throwing={QUERY})
    W = f.where()
    if r.S is None or r.value is None:
        c.unk(rule, "summary of a batch", W, "no normal return")
        return
    ps = [p["n"] or "arg%d" % i for i, p in enumerate(f.params())]
    src = next((t for rt, t in r.S.env.items() if rt == ("arg", ps[0])), tm.sym(ps[0]))
    n = tm.ln(src)
    v = r.value
    call = next((e for e in r.events("call") if e.a[0] == QUERY), None)
    if call is None:
        c.unk(rule, "a batch runs the single query", W, "no call of the single query found")
        return
    c.judge(rule, "a batch returns one result per query", W, same(tm.ln(v), n))
    c.judge(rule, "a batch never fails as a whole", W, valid(r.ok()))
    i = tm.fresh("i", "i", (0, 1 << 20))
    tm.BOUNDS[i] = n
    el = tm.at(v, i)
    tm.set_type(el, "BatchInterpolateResult")
    pr = tm.at(src, i)
    args = [tm.sym("this"), tm.fld(pr, "first"), tm.fld(pr, "second")]
    for p, name in zip(f.params()[1:], ps[1:]):
        args.append(next((t for rt, t in r.S.env.items() if rt == ("arg", name)), tm.sym(name, "b" if "bool" in f.tu.ty(p["t"]).s else "r")))
    fail = tm.app("throws:" + QUERY, *args, sort="b")
    res = typed(tm.app(QUERY, *args), q.ret())
    flds = {x[0]: x[1] for x in tm.RECORDS.get("BatchInterpolateResult", [])}
    if set(flds) < {"path", "error_msg"}:
        c.unk(rule, "result of a query in a batch", W, "fields of the result not found")
        return
    path, msg = tm.fld(el, "path", flds["path"]), tm.fld(el, "error_msg", flds["error_msg"])
    asm = and_(tm.ge(i, const(0)), tm.lt(i, n))
    c.judge(rule, "a succeeding query has a path, a failing one has none", W, same(tm.has_value(path), not_(fail), asm))
    c.judge(rule, "a failing query has a message, a succeeding one has none", W, same(tm.has_value(msg), fail, asm))
    c.judge(rule, "the path is that of the query at the same position with the batch's options", W, same(tm.opt_value(path), res, and_(asm, not_(fail))))
    exc = tm.app("message", tm.app("exception", tm.app("exception:" + QUERY, *args), tm.sconst("std::exception")))
    what = "the message is that of the error of the query at the same position"
    got = tm.opt_value(msg)
    if not unsolved(got) and not tm.is_opaque(got) and not any(x.op == "app" and str(x.a[0]).startswith(("exception", "message")) for x in tm.walk(tm.subst(got, {}))):
        c.bad(rule, what, W, "the message is %s" % short(got))
        return
    c.judge(rule, what, W, same(tm.opt_value(msg), exc, and_(asm, fail), known={"message", "exception", "exception:" + QUERY}))


def o03(c):
    batch(c, "batch")
    P = c.P
    f = P.need("ShortestPathComputer::shortest_paths")
    w, r = summary(P, f, throwing={QUERY})
    for g, evs in regions(r):
        race(c, P, f, g, evs, "slots")


def regions(r):
    regs = {}
    for e in r.events():
        for g in e.region or ():
            regs.setdefault(id(g), (g, []))[1].append(e)
    by = {}
    for g, evs in regs.values():
        by[(g.fn.qn, g.line)] = (g, evs)
    return [by[k] for k in sorted(by)]


# ================================================================ M01
MERGED = [          # polygons of the inputs of a merge
    (("abc", "def"), ("abc", "def")), (("abc", "def"), ("def", "pqr"), ("pqr",)), (("abc",), ("def",), ("pqr",)), (("abc", "def"), ("def", "abc"), ("abc",)),
    (("abdf",), ("pqr", "abdf")), ((), ("abc",)), (("abc", "def"), ("def",), ("abc", "pqr", "def")),
]


def given_merges(c):
    """constant propagation through merges of given graphs, next to the union of their edges"""
    import random
    from ..evalcpp import lvh
    from .graph import Given
    f = c.P.need("merge_graphs")
    rule, what = "given graphs", "merging given graphs yields the union of their edges and polygons"
    n = 28 if c.tier == "thorough" else 7
    try:
        for k in range(n):
            rnd = random.Random(900 + k)
            tm.KEY_ORDER = -1 if k % 2 else 1
            ins, last = [], None
            for j, which in enumerate(MERGED[k % len(MERGED)]):
                G = Given(c, which, beside=last, at="in%d" % j)
                if not G.ok or G.S is None:
                    c.unk(rule, what, f.where(), "a graph of given polygons is not followed")
                    return
                vs = sorted(G.vs)
                for _ in range(5 if vs else 0):
                    o = ("add_edge", rnd.choice(vs), rnd.choice(vs), rnd.randrange(2) == 1)
                    if not G.step(*o):
                        c.unk(rule, what, f.where(), "add_edge is not followed")
                        return
                ins.append(G)
                last = G
            ptrs = [tm.mk("ptr", lvh(LV(("arg", G.at), (), None))) for G in ins]
            r = last.w.call(f, args=(tm.lst(*ptrs),), S=last.S)
            if r.value is None and r.throws and not r.undetermined() and all(not x.S.pc for x in r.throws):
                c.bad(rule, what, f.where(), "the merge of %s throws" % "; ".join(", ".join(G.text) for G in ins))
                return
            if r.S is None or r.value is None or r.throws or r.undetermined():
                c.unk(rule, what, f.where(), "merging is not followed")
                return
            v = r.value
            M = ins[0]
            M.S = r.S.copy()
            if v.op == "ptr":
                M.at = None
                place = LVALS[v.a[0]]
                M.S.env[("arg", "merged")] = last.w.ev.load(M.S, place)
            elif v.op == "box":
                M.S.env[("arg", "merged")] = v.a[0]
            else:
                c.unk(rule, what, f.where(), "merging is not followed")
                return
            want = {}
            for G in ins:
                for e, m in G.edges.items():
                    want[e] = m and want.get(e, True)
            text = "; ".join(", ".join(G.text) for G in ins)
            M.which = tuple({o: 1 for G in ins for o in G.which})
            v, why, g = M.ask(on=("Graph", "merged"), edges=want, vs=set("".join(M.which)))
            if v == "no":
                c.bad(rule, what, f.where(), "in the merge of %s, %s" % (text, why))
                return
            q, g = M.call("get_polygons", on=("Graph", "merged"))
            gv = c.P.need("Polygon::get_vertices", 0)
            if v == "unknown" or q.value is None or q.value.op != "list":
                c.unk(rule, what, f.where(), why or "the polygons are not constant")
                return
            outs = []
            for p in q.value.a:
                x = M.w.call(gv, M.w.place("p", p, S=M.S), S=M.S)
                outs.append("".join(M.read(value_at(M.w, x)) or ["?"]))
            if any("?" in o for o in outs):
                c.unk(rule, what, f.where(), "the polygons are not constant")
                return
            if sorted(outs) != sorted(M.which):
                c.bad(rule, what, f.where(), "in the merge of %s, the polygons are %s" % (text, ", ".join(outs)))
                return
            for G, j in zip(ins, range(len(ins))):
                G.S = M.S
                v, why, g = G.ask(on=("Graph", "in%d" % j))
                if j and v == "no":
                    c.bad(rule, "the input graphs are not changed", f.where(), "after the merge of %s, in input %d %s" % (text, j, why))
                    return
        c.ok(rule, what + " (%d merges)" % n, f.where())
    finally:
        tm.KEY_ORDER = None


def value_at(w, r):
    from .geom import value_of
    return value_of(w, r)


def m01(c):
    P = c.P
    f = P.need("merge_graphs")
    given_merges(c)
    for q in ("Graph::add_edge", "Graph::has_edge", "Graph::is_edge_meridian_crossing", "Graph::get_vertices", "Graph::get_polygons"):
        P.need(q)
    c.saw(f)
    w, r = summary(P, f)
    W = f.where()
    if r.S is None or r.value is None:
        c.unk("merge", "summary of merging", W, "no normal return")
        return
    ps = [p["n"] or "arg%d" % i for i, p in enumerate(f.params())]
    gs = next((t for rt, t in r.S.env.items() if rt == ("arg", ps[0])), tm.sym(ps[0]))
    c.judge("total", "merging accepts every list of graphs", W, valid(r.ok()))
    adds = [e for e in r.events() if e.kind == "call" and str(e.a[0]).startswith("Graph::") and str(e.a[0]).split("::")[1] in
            ("add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge", "add_vertex")]
    # the inputs are not changed
    val = r.value
    own = {(LVALS[val.a[0]].root, LVALS[val.a[0]].path)} if val.op == "ptr" else None
    ins = [e for e in r.events() if e.kind in ("wr", "push", "pop", "sort") and isinstance(e.a[0], LV) and
           (e.a[0].root[0] == "arg" or e.a[0].root[0] == "d" and tm.free(e.a[0].root[1]) & ({gs} | tm.free(gs)))]
    if ins:
        c.bad("inputs", "the input graphs are not changed", ins[0].where(), "writes %s" % (ins[0].a[0],))
    else:
        c.ok("inputs", "the input graphs are not changed", W)
    # polygons
    mg = None
    for e in adds:
        t = e.a[1]
        for L in reversed(e.loops):
            if t in L.phis:
                t = L.phis[t][0]
            elif t in L.closed:
                t = tm.subst(L.closed[t], {L.k: const(0)})
        if t.op == "app" and t.a[0] == "Graph::Graph":
            mg = t
    if mg is None:
        S0 = r.S.env.get(LVALS[val.a[0]].root) if val.op == "ptr" else None
        for x in tm.walk(S0) if S0 is not None else ():
            if x.op == "app" and x.a[0] == "Graph::Graph":
                mg = x
    k = tm.fresh("k", "i", (0, 1 << 20))
    g = tm.mk("deref", tm.at(gs, k))
    gp = tm.app("Graph::get_polygons", g)
    # the type of its elements, as the sources have it
    for x in tm.walk(mg.a[1]) if mg is not None and len(mg.a) == 2 else ():
        if x.op == "app" and x.a[0] == gp.a[0] and tm.elem_type(x):
            tm.ELEM_TYPE[gp] = tm.elem_type(x)
    seq = tm.catmap(k, tm.ln(gs), gp)
    v = tm.fresh("j", "i", (0, 1 << 20))
    spec = tm.keys(tm.bind("mfold", v, tm.ln(seq), TRUE, tm.at(seq, v), tm.UNIT, tm.mempty()))
    if mg is None or len(mg.a) != 2:
        c.unk("polygons", "the merged graph has exactly the distinct polygons of the inputs", W, "construction not found")
    else:
        c.judge("polygons", "the merged graph has exactly the distinct polygons of the inputs", W, same_set(mg.a[1], spec, seq))
    # edges
    if not adds:
        if r.undetermined():
            c.unk("edges", "the merged graph has exactly the edges of the inputs", W, str(r.undetermined()[:2]))
        else:
            c.bad("edges", "the merged graph has exactly the edges of the inputs", W, "no edge is ever added")
        return
    for e in adds:
        if e.a[0] not in ("Graph::add_edge", "Graph::add_directed_edge"):
            c.bad("edges", "only edges are added", e.where(), "calls %s" % e.a[0])
            return
        if own is not None and isinstance(e.extra, LV) and (e.extra.root, e.extra.path) not in own:
            c.bad("edges", "edges are added to the graph returned", e.where(), "added to %s" % (e.extra,))
            return
    c.judge("edges", "the merged graph has exactly the edges of the inputs, with their flags", adds[0].where(), edges(c, gs, adds))


def same_set(a, spec, seq):
    """do two lists hold the same elements?"""
    v = same(a, spec)
    if v[0] == "yes":
        return v
    if tm.is_opaque(a):
        return "unknown", "not understood"
    bad = None
    done = 0
    for i in range(300):
        I = Interp(Universe(SEED * 7919 + i, mode=i % 2))
        try:
            x, y = I.ev(a), I.ev(seq)
            x, y = list(x), list(y)
        except (Unknown, TypeError) as e:
            return "unknown", str(e)
        done += 1
        if set(map(str, x)) != set(map(str, y)) and {n for n in vocab(a) - vocab(seq) if not str(n).startswith("Graph::")} - {"keys", "perm", "sorted"}:
            return "unknown", "uses %s" % sorted(vocab(a) - vocab(seq))
        if set(map(str, x)) != set(map(str, y)):
            return "no", "polygons %s of the inputs' %s" % (str(x)[:150], str(y)[:150])
        if len(set(map(str, x))) != len(x):
            bad = "a polygon shared by two inputs occurs twice"
    if bad:
        return "no", bad
    return ("yes", None) if done > 50 else ("unknown", "no model")


REW = ("Graph::has_edge", "Graph::is_edge_meridian_crossing", "Graph::get_neighbors")


def symmetric(t, memo):
    """the graphs are undirected, and agree on the flag of an edge"""
    if t in memo:
        return memo[t]
    r = t
    for _ in range(50):
        m = [x for x in tm.walk(r) if x.op == "app" and x.a[0] in REW]
        m = [x for x in m if not any(y in m for z in x.a[1:] if isinstance(z, tm.T) for y in tm.walk(z))]
        if not m:
            break
        sb = {}
        for x in m:
            a = x.a
            if a[0] == "Graph::has_edge":
                sb[x] = and_(not_(eqt(a[2], a[3])), or_(tm.app("E", a[1], a[2], a[3], sort="b"), tm.app("E", a[1], a[3], a[2], sort="b")))
            elif a[0] == "Graph::is_edge_meridian_crossing":
                sb[x] = or_(tm.app("F", a[2], a[3], sort="b"), tm.app("F", a[3], a[2], sort="b"))
            else:
                v = tm.fresh("j", "i", (0, 1 << 20))
                vs = tm.app("Graph::get_vertices", a[1])
                u = tm.at(vs, v)
                sb[x] = tm.comp(v, tm.ln(vs), and_(not_(eqt(a[2], u)), or_(tm.app("E", a[1], a[2], u, sort="b"), tm.app("E", a[1], u, a[2], sort="b"))), u)
        r = replace(r, sb)
    memo[t] = r
    return r


def enum(e, I, rew, fn):
    """calls fn for every iteration in which the event happens"""
    ns = trips(e.loops)
    pc = rew(and_(*e.pc))

    def go(i, m):
        if i == len(e.loops):
            if I.ev(tm.subst(pc, m)):
                fn(m)
            return
        n = I.ev(tm.subst(rew(ns[i]), m))
        for k in range(int(n)):
            go(i + 1, {**m, e.loops[i].k: const(k)})
    go(0, {})


def edges(c, gs, adds):
    done = 0
    for e in adds:
        if any(not L.exact for L in e.loops):
            return "unknown", "a loop without a trip count"
        if len(e.a) != 5:
            return "unknown", "arguments of %s" % e.a[0]
        if any(tm.is_opaque(x) for x in e.a[2:]) or tm.is_opaque(and_(*e.pc)):
            return "unknown", "not understood"
        for x in list(e.a[2:]) + list(e.pc):
            for y in tm.free(x):
                if y.op == "sym" and str(y.a[0]).startswith(("phi:", "exit:", "kexit", "trip")):
                    return "unknown", "not in closed form"
    ka, kb, kc = (tm.fresh(x, "i", (0, 1 << 20)) for x in ("ga", "va", "vb"))
    g = tm.mk("deref", tm.at(gs, ka))
    vs = tm.app("Graph::get_vertices", g)
    a, b = tm.at(vs, kb), tm.at(vs, kc)
    memo = {}
    rew = lambda t: symmetric(t, memo)
    he, fl = rew(tm.app("Graph::has_edge", g, a, b, sort="b")), rew(tm.app("Graph::is_edge_meridian_crossing", g, a, b, sort="b"))
    for i in range(120 if c.tier == "quick" else 1500):
        I = Interp(Universe(SEED * 104729 + i, mode=0), limit=2000000)
        want, got, dirs = {}, {}, {}
        try:
            for k in range(int(I.ev(tm.ln(gs)))):
                n = int(I.ev(tm.subst(tm.ln(vs), {ka: const(k)})))
                for p in range(n):
                    for q in range(n):
                        m = {ka: const(k), kb: const(p), kc: const(q)}
                        if I.ev(tm.subst(he, m)):
                            want[frozenset((str(I.ev(tm.subst(a, m))), str(I.ev(tm.subst(b, m)))))] = bool(I.ev(tm.subst(fl, m)))
            for e in adds:
                def one(m):
                    x, y, z = (I.ev(tm.subst(rew(t), m)) for t in e.a[2:5])
                    got.setdefault(frozenset((str(x), str(y))), set()).add(bool(z))
                    d = dirs.setdefault(frozenset((str(x), str(y))), set())
                    d.add((str(x), str(y)))
                    if e.a[0] == "Graph::add_edge":
                        d.add((str(y), str(x)))
                enum(e, I, rew, one)
        except Unknown as ex:
            return "unknown", str(ex)
        done += 1
        miss = [x for x in want if x not in got]
        extra = [x for x in got if x not in want]
        if miss:
            return "no", "an edge of an input is missing in the merged graph (%d inputs)" % int(I.ev(tm.ln(gs)))
        if extra:
            return "no", "an edge is added that no input has"
        for x, d in dirs.items():
            if len(x) == 2 and len(d) < 2:
                return "no", "an edge is added in one direction only"
        for x, fs in got.items():
            if fs != {want[x]}:
                return "no", "the meridian flag differs from the inputs'"
    return ("yes", None) if done else ("unknown", "no model")
