"""Orderings: strict weak orders, the order of the scan, the order of the search queue, distances."""
import json

from .. import terms as tm
from ..evalcpp import LV
from ..interp import same, valid
from ..loops import replace
from ..terms import TRUE, FALSE, and_, or_, not_, eqt, ite, const, app
from ..world import World, under
from .geom import Geo, small, value_of2

SORTS = ("sort", "stable_sort", "partial_sort", "nth_element", "min_element", "max_element", "lower_bound", "upper_bound", "make_heap", "inplace_merge")


def order_sites(P):
    """functions whose body sorts something or builds an ordered queue"""
    out = []
    for f in P.fns.values():
        if f.kind == "lambda":
            continue
        b = f.o.get("body")
        if b is None:
            continue
        n = sum(1 for x in nodes(b) if x.get("k") == "call" and x.get("n") in SORTS and not x.get("cls"))
        if n or "std::priority_queue" in {(f.tu.ty(x["t"]).noref().rec() or "") for x in nodes(b) if x.get("k") == "ctor" and x.get("t") is not None}:
            out.append((f, n))
    return out


def nodes(o):
    if isinstance(o, dict):
        yield o
        for v in o.values():
            yield from nodes(v)
    elif isinstance(o, list):
        for v in o:
            yield from nodes(v)


def comparisons(c, f):
    """(comparison term, its two bound symbols, event) of every ordering in f"""
    P = c.P
    w = World(P)
    cls = f.cls
    r = w.call(f, w.obj(cls, "this") if cls in P.records and not f.o.get("static") else None)
    if r.S is None:
        return []
    out, seen = [], set()
    for e in r.S.ev:
        if e.kind not in ("sort", "order"):
            continue
        t = e.a[-1]
        k = (e.node if isinstance(getattr(e, "node", None), int) else e.where(), t)
        if k in seen:
            continue
        seen.add(k)
        out.append((t, e))
    return out


def bound_pair(t, ety):
    from ..models import canon_pair
    return canon_pair(ety)


def numeric(t):
    """comparisons of values of foreign types become comparisons of numbers"""
    m = {}
    for x in tm.walk(t):
        if x.op == "app" and len(x.a) == 3 and str(x.a[0]) in ("operator<", "operator>", "operator<=", "operator>="):
            k = [app("key", y, sort="r") if isinstance(y, tm.T) and y.sort not in "ir" else y for y in x.a[1:]]
            m[x] = {"operator<": lambda a, b: tm.lt(a, b), "operator>": lambda a, b: tm.lt(b, a), "operator<=": lambda a, b: tm.le(a, b),
                    "operator>=": lambda a, b: tm.le(b, a)}[x.a[0]](*k)
    return replace(t, m) if m else t


def shrink(t, keep=()):
    """every integer symbol below the terms drawn from a small range: ties and collinear points become likely"""
    return t


def swo(c, what, where, t, a, b, cases, assume=TRUE):
    """t(a, b) is a strict weak order"""
    x, y, z = (tm.sym("ord:" + k, a.sort) for k in "xyz")
    ty = tm.type_of(a)
    if ty:
        for s in (x, y, z):
            tm.set_type(s, ty)

    def lt(p, q):
        return tm.subst(t, {a: p, b: q})
    laws = [("irreflexive", not_(lt(x, x))),
            ("asymmetric", not_(and_(lt(x, y), lt(y, x)))),
            ("transitive", or_(not_(and_(lt(x, y), lt(y, z))), lt(x, z)))]
    tie = lambda p, q: and_(not_(lt(p, q)), not_(lt(q, p)))
    laws.append(("incomparability is transitive", or_(not_(and_(tie(x, y), tie(y, z))), tie(x, z))))
    for nm, law in laws:
        worst = None
        for cn, m in cases(x, y, z):
            l = replace(law, m) if m else law
            s = valid(l, assume, n=1500, known=KNOWN)
            if s[0] == "no":
                worst = ("no", "%s: %s" % (cn, s[1]))
                break
            if s[0] == "unknown" and worst is None:
                worst = s
        c.judge("strict weak order", "%s is %s" % (what, nm), where, worst or ("yes", None))


KNOWN = {"atan2", "key", "round", "floor", "ceil", "trunc"}


def coord_cases(g, centre=None):
    def cases(x, y, z):
        pts = [x, y, z]
        base = {}
        if centre is not None:
            base.update({g.x(centre): small("ox", -2, 2), g.y(centre): small("oy", -2, 2)})
        ox, oy = (base.get(g.x(centre)), base.get(g.y(centre))) if centre is not None else (const(0), const(0))
        m = dict(base)
        for i, p in enumerate(pts):
            m[g.x(p)], m[g.y(p)] = tm.add(ox, small("ex%d" % i, -3, 3)), tm.add(oy, small("ey%d" % i, -3, 3))
        out = [("any points", m)]
        m = dict(base)
        dx, dy = small("edx", -2, 2), small("edy", -2, 2)
        for i, p in enumerate(pts):
            k = small("ek%d" % i, -2, 3)
            m[g.x(p)], m[g.y(p)] = tm.add(ox, tm.mul(k, dx)), tm.add(oy, tm.mul(k, dy))
        out.append(("points on a line", m))
        for n, (vx, vy) in ((1000, (1, 2)), (30000000, (3, -1)), (500000000, (1, 0)), (80000000, (-2, 1))):
            m2 = dict(base)
            for i, p in enumerate(pts):
                k = tm.add(const(n), small("en%d" % i, 0, 3))
                m2[g.x(p)], m2[g.y(p)] = tm.add(ox, tm.mul(k, const(vx))), tm.add(oy, tm.mul(k, const(vy)))
            out.append(("points in one direction at nearly the same distance", m2))
        for n, turned in ((1000, 0), (30000, 1), (100000, 0), (1000000, 1), (20000000, 0)):
            m2 = dict(base)
            for i, p in enumerate(pts):
                far, near = tm.add(const(n), small("en%d" % i, 0, 20)), const(n if n > 10000000 else 1)
                m2[g.x(p)], m2[g.y(p)] = (tm.add(ox, near), tm.add(oy, far)) if turned else (tm.add(ox, far), tm.add(oy, near))
            out.append(("points in nearly the same direction", m2))
        for i in range(3):
            m2 = dict(m)
            m2[g.x(pts[i])], m2[g.y(pts[i])] = ox, oy
            m2[g.x(pts[i - 1])], m2[g.y(pts[i - 1])] = tm.add(ox, small("ex%d" % i, -3, 3)), tm.add(oy, small("ey%d" % i, -3, 3))
            out.append(("one of them the observer", m2))
        return out
    return cases


def e04(c):
    P = c.P
    g = Geo(c)
    P.need("AngleSorter::sort_counter_clockwise_around_observer", 2)
    if not g.ready(c):
        return
    sites = order_sites(P)
    if not sites:
        c.unk("coverage", "orderings", None, "no ordering found")
    for f, n in sites:
        c.saw(f)
        try:
            cs = comparisons(c, f)
        except RecursionError:
            cs = []
        here = [(t, e) for t, e in cs if e.fn is f or (e.fn is not None and e.fn.qn == f.qn)]
        lines = {e.where() for t, e in here}
        if len(lines) < max(1, n):
            c.unk("coverage", "every ordering in %s" % f.qn, f.where(), "%d of %d interpreted" % (len(lines), max(1, n)))
        else:
            c.ok("coverage", "every ordering in %s" % f.qn, f.where())
        for t, e in here:
            ety = e.extra[1] if e.extra else None
            a, b = bound_pair(t, ety)
            t = numeric(t)
            KNOWN.update(x.a[0] for x in tm.walk(t) if x.op == "app" and any(y.op == "app" and y.a[0] == "key" and x in tm.walk(y) for y in tm.walk(t)))
            if any(x.op == "opaque" for x in tm.walk(t)):
                c.unk("strict weak order", "comparison in %s" % f.qn, e.where(), "not interpreted")
                continue
            ty = tm.type_of(a)
            if ty == "Coordinate":
                others = [x for x in tm.walk(t) if x.op == "sym" and x not in (a, b) and x.sort == "o"]
                centre = others[0] if others else None
                cases = coord_cases(g, centre)
            else:
                cases = lambda x, y, z: [("any values", {})]
            swo(c, "comparison in %s" % f.qn, e.where(), t, a, b, cases)


# ------------------------------------------------------------------ the order of the scan
def e10(c):
    P = c.P
    g = Geo(c)
    f = P.need("AngleSorter::sort_counter_clockwise_around_observer", 2)
    if not g.ready(c):
        return
    c.saw(f)
    w = World(P)
    o, vs = f.params()[0]["n"] or "arg0", f.params()[1]["n"] or "arg1"
    r = w.call(f)
    what = "the vertices are put into counter-clockwise order around the observer"
    if r.S is None:
        c.unk("order", what, f.where(), "no normal return")
        return
    got = r.S.env.get(("arg", vs))
    srt = [e for e in r.S.ev if e.kind == "sort"]
    V = tm.sym(vs)
    if got is None or len({e.a[-1] for e in srt}) != 1:
        c.unk("order", what, f.where(), "%d sorts" % len(srt))
        return
    e = srt[0]
    t = e.a[-1]
    nonempty = not_(tm.eq0(tm.ln(V)))
    got2 = under(got, [nonempty])
    if got2.op == "sorted" and got2.a[0] is V:
        c.ok("order", "exactly the given vertices are sorted, all of them", e.where())
    elif got2.op == "sorted" and tm.free(got2.a[0]) <= {V, tm.sym(o)} and not any(x.op == "opaque" for x in tm.walk(got2.a[0])):
        c.judge("order", "exactly the given vertices are sorted, all of them", e.where(), same(got2.a[0], V))
    elif got2.op == "cat" and len([x for x in got2.a if x.op == "sorted"]) == 1 and all(tm.free(x) <= {V} for x in got2.a if x.op != "sorted"):
        # some of them stay where they are
        rest = const(0)
        for x in got2.a:
            if x.op != "sorted":
                rest = tm.add(rest, tm.ln(x))
        c.judge("order", "exactly the given vertices are sorted, all of them", e.where(), same(tm.eq0(rest), TRUE, tm.le(const(2), tm.ln(V))))
    else:
        c.unk("order", "exactly the given vertices are sorted, all of them", e.where(), got2.op)
    a, b = bound_pair(t, e.extra[1])
    O = tm.sym(o)
    u, v = g.minus(a, O), g.minus(b, O)
    z = const(0)
    up = lambda p: or_(tm.lt(z, g.y(p)), and_(tm.eq0(g.y(p)), tm.lt(z, g.x(p))))
    cr = g.cross(u, v)
    spec = ite(g.eq(a, O), not_(g.eq(b, O)), and_(not_(g.eq(b, O)), or_(and_(up(u), not_(up(v))), and_(eqt(up(u), up(v)), or_(
        tm.lt(z, cr), and_(tm.eq0(cr), tm.lt(g.dot(u, u), g.dot(v, v))))))))
    for nm, m in coord_cases(g, O)(a, b, tm.sym("ord:z")):
        m = {k: x for k, x in m.items()}
        for p in (a, b, O):
            pass
        c.judge("order", "observer first, then by angle from the positive horizontal, nearer ones first (%s)" % nm, e.where(),
                same(replace(t, m), replace(spec, m), n=3000, known=KNOWN))


# ------------------------------------------------------------------ distances and the queue
def p07(c):
    P = c.P
    g = Geo(c)
    fs = P.need("ShortestPathComputer::shortest_path", 5)
    if not g.ready(c):
        return
    a, b = g.coord("a"), g.coord("b")

    def length(u, v, dx=0):
        d = tm.sub(g.x(u), g.x(v))
        D = lambda t: tm.mul(const(__import__("fractions").Fraction(1, 1000000), "r"), tm.i2r(t))
        x, y = D(tm.add(d, const(dx))), D(tm.sub(g.y(u), g.y(v)))
        return tm.mk("sqrt", tm.add(tm.mul(x, x), tm.mul(y, y)), sort="r")
    PER = 360000001
    mn = lambda *xs: tm.mint(*xs)
    plain = length(a, b)
    across = mn(length(a, b, PER), length(a, b, -PER))
    m = tm.sym("m", "b")
    fd = P.fn("ShortestPathComputer::distance_measurement", 3)
    fh = P.fn("ShortestPathComputer::heuristic_distance_measurement", 2)

    def measure(f, what, args, spec):
        if f is None:
            c.unk("distance", what, fs.where(), "no function of that name")
            return
        c.saw(f)
        w = World(P)
        r = w.call(f, None, args)
        if r.value is None:
            c.unk("distance", what, f.where(), "no value")
            return
        c.judge("distance", what, f.where(), same(r.value, spec, known={"round"}))
        sm = {g.x(a): small("x0"), g.y(a): small("y0"), g.x(b): small("x1"), g.y(b): small("y1")}
        c.judge("distance", what + " (small coordinates)", f.where(), same(tm.subst(r.value, sm), tm.subst(spec, sm), known={"round"}))
    measure(fd, "length of a step", (a, b, m), ite(m, across, plain))
    measure(fh, "estimate of the distance of two vertices", (a, b), mn(plain, across))
    # the queue and what is put into it
    w = World(P, opaque=("ShortestPathComputer::distance_measurement", "ShortestPathComputer::heuristic_distance_measurement",
                         "ShortestPathComputer::handle_land_collisions", "ShortestPathComputer::create_modified_graph"))
    r = w.call(fs, w.obj("ShortestPathComputer", "this"))
    c.saw(fs)
    if r.S is None:
        c.unk("queue", "order of the queue", fs.where(), "no normal return")
        return
    orders = [e for e in r.S.ev if e.kind == "order"]
    if len({e.a[-1] for e in orders}) != 1:
        c.unk("queue", "order of the queue", fs.where(), "%d queues" % len(orders))
        return
    queue(c, g, P, fs, r, orders[0])
    from . import path
    q = path.Search(c)
    if q.good:
        path.queue_elements(c, q)


def queue(c, g, P, fs, r, e):
    t = e.a[-1]
    ety = e.extra[1]
    a, b = bound_pair(t, ety)
    rn = ety.rec() if ety is not None else None
    names = [f for f, s, *_ in tm.RECORDS.get(rn, ())]
    dist = [f for f, s, *_ in tm.RECORDS.get(rn, ()) if s == "r"]
    if len(dist) != 2:
        c.unk("queue", "order of the queue", e.where(), "elements of an unknown form")
        return
    wname = fs.params()[4]["n"]
    wt = tm.sym(wname, "r")
    # which of the two fields is the distance so far: the one that is zero for the source
    pushes = [x for x in r.S.ev if x.kind == "push"]
    first = next((x.a[1] for x in pushes if not x.loops and x.a[1].op == "rec"), None)
    D = None
    if first is not None:
        d = dict(first.a[1])
        z = [f for f in dist if d[f].op == "c" and d[f].a[0] == 0]
        if len(z) == 1:
            D = z[0]
    if D is None:
        c.unk("queue", "first element of the queue", e.where(), "no field is zero")
        return
    H = next(f for f in dist if f != D)
    cost = lambda x: tm.add(tm.fld(x, D, "r"), tm.mul(wt, tm.fld(x, H, "r")))
    c.judge("queue", "the element of smallest distance so far plus weight times estimate comes first", e.where(),
            same(t, tm.lt(cost(b), cost(a))))
