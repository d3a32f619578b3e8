"""P06, R01, Y01, Y02, B01: the Python layer and the names it binds to native code."""
import math
import os
import random

from .. import bindings, pyast, terms as tm
from ..build import AnalysisBroken
from ..interp import same, unsolved
from ..pyast import Fault, K, MObj, Model, Op, Unk
from ..world import World

IMP = "capi.src.implementation."


class Py:
    """drivers over the repository's Python names, compared with their specification in random interpretations"""

    def __init__(self, c):
        self.c = c
        self.P = pyast.PyProgram()

    def run(self, src, params, opaque=()):
        ev = pyast.Eval(self.P, opaque=opaque)
        f = pyast.driver(self.P, src)
        try:
            return ev.summary(f, [("sym", p) for p in params])
        finally:
            self.c.saw(*["%s:%s" % (g.mod.rel, (g.cls.n + "." if g.cls else "") + g.n) for g in ev.seen if g.mod.name != pyast.DRIVER])

    def agree(self, rule, what, where, src, params, model, spec, n=None, view=None, opaque=()):
        """model(rng) -> Model; spec(model) -> expected; view(model, outcome) -> actual (default: kind and value)"""
        c = self.c
        n = n or (250 if c.tier == "quick" else 2500)
        try:
            paths = self.run(src, params, opaque)
        except Unk as e:
            c.unk(rule, what, where, str(e))
            return
        except RecursionError:
            c.unk(rule, what, where, "recursion")
            return
        for k in range(n):
            m = model(random.Random("%s/%d" % (what, k)))
            try:
                out = m.outcome(paths)
                got = view(m, out) if view else out[:2]
            except Unk as e:
                c.unk(rule, what, where, str(e))
                return
            want = spec(m)
            if isinstance(got, Unknown) or isinstance(want, Unknown):
                c.unk(rule, what, where, str(got))
                return
            if got != want and getattr(c, "explain", None) and not c.explain(got, want):
                continue            # another property's concern
            if got != want:
                c.bad(rule, what, where, "for %s: expected %s, the code gives %s" % (
                    str({k: v for k, v in m.syms.items()})[:260], str(want)[:260], str(got)[:260]))
                return
        c.ok(rule, what, where)


class Unknown(str):
    pass


def where(P, mod, qual):
    """file:line of a class member"""
    v = P.need(mod, qual.split(".")[0])
    if "." in qual and isinstance(v, pyast.Cls):
        f = pyast.Eval(P).find(v, qual.split(".")[1])
        if isinstance(f, pyast.Fun):
            return f.where()
        raise AnalysisBroken("anchor not found: %s.%s" % (mod, qual))
    return "%s (%s)" % (v.mod.rel, qual)


def num(r):
    if r.random() < .06:
        return r.choice([0, 180, -180, 90, -90])
    if r.random() < .12:
        return r.choice([180.5, -200, 359.25, 12.34567891, -0.1234567, 1 / 3, -179.99999999, 1e-7])
    return r.randint(-18000, 18000) / 100


def coord(r):
    return MObj("Coordinate", latitude=num(r), longitude=num(r))


def vg(c):
    return Op("call", "native.VisGraphCoord", (c.f["longitude"], c.f["latitude"]), ())


# ---------------------------------------------------------------- calls of the native module, in one canonical form
class Natives:
    def __init__(self, c):
        self.cls, self.fn, self.init = bindings.table(c.P)

    def names(self, name):
        """parameter names and defaults of a bound function ('.method' searches the classes)"""
        es = []
        if name.startswith("."):
            for k, (nat, m) in self.cls.items():
                es += m.get(name[1:], [])
        else:
            es = self.fn.get(name, [])
        return es[0].args if len(es) == 1 else []

    def canon(self, name, args, kw, skip=0):
        """positional argument list with keywords and defaults filled in"""
        spec = self.names(name)
        a = list(args)
        if not spec:
            return (a, dict(kw)) if kw else a
        given = a[skip:]
        out = []
        kw = dict(kw)
        for j, (n, d) in enumerate(spec):
            if j < len(given):
                out.append(given[j])
            elif n in kw:
                out.append(kw.pop(n))
            elif d is not None and d[0] == "const":
                v = d[1]
                out.append(math.inf if v == "inf" else v)
            else:
                out.append(Op("missing", n))
        if kw or len(given) > len(spec):
            out.append(Op("extra", str(kw)))
        return a[:skip] + out


FS = ("os.mkdir", "os.makedirs", ".mkdir", "native.save_graph_to_file", "native.load_graph_from_file", "open", "os.remove",
      "os.rmdir", "os.rename", "os.replace", "shutil.rmtree", "os.unlink", "shutil.copy", "shutil.move", ".unlink", ".rmdir",
      ".write_text", ".write_bytes", "os.chdir", "os.truncate", "shutil.copytree", "shutil.copyfile")
NOISE = ("close", "warnings.warn", "logging.warning", "logging.info", "logging.debug", "logging.getLogger", "time.time", "os.path.exists",
         "os.path.isdir", "os.path.isfile", "os.listdir", "sys.stdout.write", "sys.stdout.flush", ".info", ".debug", ".warning", "os.getcwd", "os.cpu_count",
         "time.perf_counter", "time.monotonic", "gc.collect")


def fs_trace(tr):
    """the file effects, with creating a folder in one form; unknown effects give Unknown"""
    out = []
    for name, args, kw, line in tr:
        if name in ("os.mkdir", ".mkdir"):
            out.append(("mkdir", str(args[0]) if isinstance(args[0], str) else args[0], bool(kw.get("exist_ok")), bool(kw.get("parents"))))
        elif name == "os.makedirs":
            out.append(("mkdir", args[0], bool(kw.get("exist_ok", args[2] if len(args) > 2 else False)), True))
        elif name in FS:
            out.append((name, tuple(args), tuple(sorted(kw.items()))))
        elif name.startswith("native.") or name in NOISE or name.startswith("Opaque"):
            continue
        else:
            out.append((name, tuple(args), tuple(sorted(kw.items()))))
    return out


# ================================================================ P06
D_INTERP = '''
from capi.src.implementation.path_interpolator import PathInterpolator
def d(folder, a, b, lim, corr, w):
    return [(p.latitude, p.longitude) for p in PathInterpolator(folder).interpolate(%s)]
'''
D_BATCH = '''
from capi.src.implementation.path_interpolator import PathInterpolator
def d(folder, pairs, lim, corr, w):
    return [None if r is None else [(p.latitude, p.longitude) for p in r] for r in PathInterpolator(folder).batch_interpolate(%s)]
'''
SIG = (("search_distance_from_source_limit", math.inf), ("correct_vertices_on_land", False), ("a_star_greediness_weighting", 1.0))


def p06(c):
    py = Py(c)
    P = py.P
    nat = Natives(c)
    mod = IMP + "path_interpolator"
    w1, w2 = where(P, mod, "PathInterpolator.interpolate"), where(P, mod, "PathInterpolator.batch_interpolate")

    def points(r):
        ps = [MObj("VisGraphCoord", latitude=num(r), longitude=num(r)) for _ in range(r.randint(0, 4))]
        if ps and r.random() < .15:
            j = r.randrange(len(ps))
            ps.insert(j, MObj("VisGraphCoord", **ps[j].f))
        return ps

    def ends(r):
        a = coord(r)
        return a, MObj("Coordinate", **a.f) if r.random() < .15 else coord(r)

    def model(batch):
        def mk(r):
            a, b = ends(r)
            syms = {"folder": "/data/g%d" % r.randint(0, 9), "a": a, "b": b, "lim": r.choice([math.inf, num(r), 0, abs(num(r))]),
                    "corr": r.random() < .5, "w": r.choice([abs(num(r)), 0, 1.0])}
            m = Model(r, syms)
            if batch:
                syms["pairs"] = [ends(r) for _ in range(r.randint(0, 4))]
                m.results = []
                for _ in syms["pairs"]:
                    if r.random() < .4:
                        m.results.append(MObj("R", error_msg=r.choice(["no path", "", "on land"]), path=None))
                    else:
                        m.results.append(MObj("R", error_msg=None, path=points(r)))
                m.calls[".shortest_paths"] = lambda *a, **k: m.results
                m.calls[".shortest_path"] = lambda *a, **k: points(random.Random(repr((a, k))))
            else:
                m.path = points(r)
                m.calls[".shortest_path"] = lambda *a, **k: m.path
            return m
        return mk

    def computer(m):
        return Op("call", "native.VisGraphShortestPathComputer", (Op("call", "native.load_graph_from_file", (m.syms["folder"] + "/default",), ()),), ())

    def view(kind):
        def v(m, out):
            q = [(n, nat.canon(n, a, k, 1)) for n, a, k, l in out[2] if n in (".shortest_path", ".shortest_paths")]
            if kind == "args":
                return (out[0] if out[0] != "ok" else "ok", q)
            return out[:2]
        return v

    variants = [
        ("positional options", "a, b, lim, corr, w", "pairs, lim, corr, w", lambda s: (s["lim"], s["corr"], s["w"])),
        ("named options", "coord_1=a, coord_2=b, search_distance_from_source_limit=lim, correct_vertices_on_land=corr, a_star_greediness_weighting=w",
         "coord_pairs=pairs, search_distance_from_source_limit=lim, correct_vertices_on_land=corr, a_star_greediness_weighting=w",
         lambda s: (s["lim"], s["corr"], s["w"])),
        ("default options", "a, b", "pairs", lambda s: (math.inf, False, 1.0)),
        ("only the limit", "a, b, search_distance_from_source_limit=lim", "pairs, search_distance_from_source_limit=lim", lambda s: (s["lim"], False, 1.0)),
        ("only the correction", "a, b, correct_vertices_on_land=corr", "pairs, correct_vertices_on_land=corr", lambda s: (math.inf, s["corr"], 1.0)),
        ("only the weight", "a, b, a_star_greediness_weighting=w", "pairs, a_star_greediness_weighting=w", lambda s: (math.inf, False, s["w"])),
    ]
    for name, one, many, opts in variants:
        py.agree("arguments", "interpolate with %s hands source, destination and options to the native search" % name, w1, D_INTERP % one,
                 ["folder", "a", "b", "lim", "corr", "w"], model(False),
                 lambda m: ("ok", [(".shortest_path", [computer(m), vg(m.syms["a"]), vg(m.syms["b"])] + list(opts(m.syms)))]), view=view("args"))
        py.agree("arguments", "batch_interpolate with %s hands all pairs, in order, and options to the native search" % name, w2, D_BATCH % many,
                 ["folder", "pairs", "lim", "corr", "w"], model(True),
                 lambda m: ("ok", [(".shortest_paths", [computer(m), [(vg(x), vg(y)) for x, y in m.syms["pairs"]]] + list(opts(m.syms)))]), view=view("args"))
    py.agree("result", "interpolate returns the native path in its order, latitudes and longitudes in place", w1, D_INTERP % variants[0][1],
             ["folder", "a", "b", "lim", "corr", "w"], model(False),
             lambda m: ("ok", [(p.f["latitude"], p.f["longitude"]) for p in m.path]), view=view("value"))
    py.agree("result", "batch_interpolate returns one path per pair in order, None for a failed one", w2, D_BATCH % variants[0][2],
             ["folder", "pairs", "lim", "corr", "w"], model(True),
             lambda m: ("ok", [None if x.f["error_msg"] is not None else [(p.f["latitude"], p.f["longitude"]) for p in x.f["path"]] for x in m.results]),
             view=view("value"))
    # the documented interface
    for cls, md in (("IPathInterpolator", "capi.src.interfaces.path_interpolator"), ("PathInterpolator", mod)):
        k = P.need(md, cls)
        for meth, lead in (("interpolate", ["coord_1", "coord_2"]), ("batch_interpolate", ["coord_pairs"])):
            f = pyast.Eval(P).find(k, meth)
            if not isinstance(f, pyast.Fun):
                raise AnalysisBroken("anchor not found: %s.%s" % (cls, meth))
            a = f.node.args
            ns = [x.arg for x in a.posonlyargs + a.args][1:]
            ds = [pyast.Eval(P).expr_in(f.mod, d) for d in a.defaults]
            ds = {n: d for n, d in zip(reversed(ns), reversed(ds))}
            want = lead + [n for n, _ in SIG]
            what = "%s.%s takes the options in the documented order with the documented defaults" % (cls, meth)
            if ns[:len(want)] != want:
                c.bad("signature", what, f.where(), "parameters %s" % ns)
            elif any(not pyast.isk(ds.get(n, ())) for n, _ in SIG if n in ds) or any(n not in ds for n, _ in SIG):
                c.bad("signature", what, f.where(), "defaults %s" % ds) if any(n not in ds for n, _ in SIG) else c.unk("signature", what, f.where(), "default not constant")
            elif any(ds[n][1] != v for n, v in SIG):
                c.bad("signature", what, f.where(), "defaults %s" % ds)
            else:
                c.ok("signature", what, f.where())
    # bindings and native declarations
    native_query(c, nat)


NSIG = ["maximum_distance_to_search_from_source", "correct_vertices_on_land", "a_star_greediness_weighting"]
NDEF = {"maximum_distance_to_search_from_source": "inf", "correct_vertices_on_land": False, "a_star_greediness_weighting": 1}


def native_query(c, nat):
    P = c.P
    if "VisGraphShortestPathComputer" not in nat.cls:
        raise AnalysisBroken("anchor not found: VisGraphShortestPathComputer")
    m = nat.cls["VisGraphShortestPathComputer"][1]
    for py, qn, lead in (("shortest_path", "ShortestPathComputer::shortest_path", ["source", "destination"]),
                         ("shortest_paths", "ShortestPathComputer::shortest_paths", ["source_dest_pairs"])):
        fn = P.need(qn)
        c.saw(fn)
        for f in [fn] + [d for d in P.decls.values() if d.qn == qn]:
            ps = f.params()
            what = "%s takes limit, correction and weight in this order, by default infinite, off and 1" % qn
            if [p["n"] for p in ps] != lead + NSIG:
                tys = [f.tu.ty(p["t"]).sort() for p in ps[-3:]]
                if tys != ["r", "b", "r"]:
                    c.bad("native signature", what, f.where(), "parameters %s" % [p["n"] for p in ps])
                    continue
            ds = [p.get("def") for p in ps[-3:]]
            if any(d is None for d in ds):
                if f is not fn:
                    c.bad("native signature", what, f.where(), "a default is missing")
                continue
            bad = None
            for (n, want), d in zip(NDEF.items(), ds):
                d = bindings.strip(d)
                if d.get("k") != "const":
                    bad = "unknown"
                elif d.get("vs", d.get("v")) != want:
                    bad = "%s defaults to %s" % (n, d.get("vs", d.get("v")))
                    break
            (c.ok("native signature", what, f.where()) if bad is None else
             c.unk("native signature", what, f.where(), "default not constant") if bad == "unknown" else c.bad("native signature", what, f.where(), bad))
        es = m.get(py, [])
        what = "Python's %s has the documented names and defaults and forwards them in place" % py
        if len(es) != 1:
            c.unk("binding", what, nat.init.where(), "%d bindings" % len(es))
            continue
        e = es[0]
        wh = nat.init.where(e.line)
        if e.args:
            bad = None
            if [a for a, _ in e.args] != lead + NSIG:
                bad = "names %s" % [a for a, _ in e.args]
            for n, d in e.args:
                if n in NDEF:
                    if d is None or d[0] == "?":
                        bad = bad or ("%s has no constant default" % n)
                    elif d[1] != NDEF[n]:
                        bad = "%s defaults to %s" % (n, d[1])
            (c.bad("binding", what, wh, bad) if bad else c.ok("binding", what, wh))
        else:
            c.unk("binding", what, wh, "no named arguments")
        what = "the binding of %s calls %s with its own arguments in place" % (py, qn)
        forwards(c, "binding", what, wh, e, qn, P)


def forwards(c, rule, what, wh, e, qn, P):
    """the bound entity is the function qn, or a lambda equal to calling it with the lambda's parameters in order"""
    if e.kind == "fn":
        if e.qn == qn:
            c.ok(rule, what, wh)
        else:
            c.bad(rule, what, wh, "bound to %s" % e.qn)
        return
    if e.kind != "lambda" or e.fn is None:
        c.unk(rule, what, wh, "bound to %s" % e)
        return
    W = World(P, opaque={qn})
    r = W.call(e.fn)
    c.saw(e.fn)
    t = r.value
    ps = [p["n"] for p in e.fn.params()]
    if t is None or t.op != "app" or t.a[0] != qn or len(t.a) - 1 != len(ps):
        if t is not None and t.op == "app" and t.a[0] != qn and P.fn(t.a[0]) is not None:
            c.bad(rule, what, wh, "calls %s" % t.a[0])
        else:
            v = inlined(P, e.fn, qn)
            if v[0] == "unknown":
                c.unk(rule, what, wh, "result %s" % str(t)[:100])
            else:
                c.judge(rule, what, wh, v)
        return
    for p, a in zip(ps, t.a[1:]):
        want = W.S.env.get(("arg", p))
        s = same(a, tm.sym(p) if want is None else want) if not (a.op == "sym" and a.a and a.a[0] == p) else ("yes", None)
        if s[0] != "yes":
            if not tm_syms(a) and not tm.is_opaque(a) and a.op not in ("app", "at"):
                s = ("no", "passes the constant %s for %s" % (a, p))
            elif a.op == "sym" and a.a[0] in ps:
                s = ("no", "passes %s where %s belongs" % (a.a[0], p))
            c.judge(rule, what, wh, s)
            return
    c.ok(rule, what, wh)


# ================================================================ B01
def inlined(P, lam, qn):
    """do the values of a lambda and of a native function agree for all arguments?"""
    f = P.fn(qn)
    if f is None:
        return "unknown", None
    out = []
    for g in (lam, f):
        w = World(P)
        r = w.call(g, w.obj(g.cls, "this") if g.kind == "method" and not g.o.get("static") and g is not lam else None)
        if r.value is None or r.S is None or r.undetermined() or r.throws or tm.is_opaque(r.value) or unsolved(r.value):
            return "unknown", None
        if any(e.kind in ("wr", "push", "pop", "os", "store", "lib") for e in r.events()):
            return "unknown", None
        ps = [p["n"] for p in g.params()]
        if g is f and g.kind == "method" and not g.o.get("static"):
            ps = ["this"] + ps
        out.append((r.value, [r.S.env.get(("arg", p), tm.sym(p)) for p in ps]))
    (a, pa), (b, pb) = out
    if len(pa) != len(pb):
        return "unknown", None
    sub = {}
    for x, y in zip(pa, pb):
        if y.op != "sym" and y is not x:
            return "unknown", None
        sub[y] = x
    return same(a, tm.subst(b, sub))


def b01(c):
    P = c.P
    nat = Natives(c)
    spec = {
        "VisGraphCoord": {"latitude": "Coordinate::get_latitude", "longitude": "Coordinate::get_longitude", "__repr__": "Coordinate::to_string_representation",
                          "dot_product": "Coordinate::dot_product", "cross_product_magnitude": "Coordinate::cross_product_magnitude",
                          "magnitude_squared": "Coordinate::magnitude_squared", "magnitude": "Coordinate::magnitude"},
        "VisGraphPolygon": {"vertices": "Polygon::get_vertices", "__repr__": "Polygon::to_string_representation"},
        "VisGraph": {"has_edge": "Graph::has_edge", "has_vertex": "Graph::has_vertex", "add_edge": "Graph::add_edge", "vertices": "Graph::get_vertices",
                     "polygons": "Graph::get_polygons", "get_neighbors": "Graph::get_neighbors", "__repr__": "Graph::to_string_representation"},
        "VisGraphShortestPathComputer": {"shortest_path": "ShortestPathComputer::shortest_path", "shortest_paths": "ShortestPathComputer::shortest_paths"},
        "VistreeGenerator": {"get_visible_vertices": "VistreeGenerator::get_visible_vertices"},
    }
    fields = {"VisGraphBatchInterpolateResult": ["path", "error_msg"], "VisGraphVisibleVertex": ["coord", "is_visible_across_meridian"]}
    funcs = {"generate_visgraph": "VisgraphGenerator::generate", "generate_visgraph_with_shuffled_range": "VisgraphGenerator::generate_with_shuffled_range",
             "load_graph_from_file": "GraphSerializer::deserialize_from_file", "save_graph_to_file": "GraphSerializer::serialize_to_file", "merge_graphs": "merge_graphs"}
    natcls = {"VisGraphCoord": "Coordinate", "VisGraphPolygon": "Polygon", "VisGraph": "Graph", "VisGraphShortestPathComputer": "ShortestPathComputer",
              "VisGraphBatchInterpolateResult": "BatchInterpolateResult", "VistreeGenerator": "VistreeGenerator", "VisGraphVisibleVertex": "VisibleVertex"}
    ops = {"VisGraphCoord": ["op==2", "op!=2", "op-1", "op-2", "op+2", "op*2", "op/2"], "VisGraphPolygon": ["op==2", "op!=2"], "VisGraph": ["op==2", "op!=2"]}
    inits = {"VisGraphCoord": "dd", "VisGraphPolygon": "vector>#$@S@Coordinate#", "VisGraph": "vector>#$@S@Polygon#"}
    c.saw(nat.init)
    for k, want in natcls.items():
        if k not in nat.cls:
            raise AnalysisBroken("anchor not found: Python class " + k)
        got = nat.cls[k][0]
        what = "%s is the native class %s" % (k, want)
        (c.ok if got == want else c.unk if got is None else lambda r, a, b, d: c.bad(r, a, b, "it is " + str(got)))("class", what, nat.init.where(), *([] if got == want else [""]))
    for k, ms in spec.items():
        for n, qn in ms.items():
            es = nat.cls[k][1].get(n, [])
            what = "%s.%s is %s" % (k, n, qn)
            if not es:
                c.bad("member", what, nat.init.where(), "the name is not exported")
                continue
            # the last definition of a name wins for properties, methods with the same signature are tried in order
            e = es[0]
            forwards(c, "member", what, nat.init.where(e.line), e, qn, P)
    for k, fs in fields.items():
        for n in fs:
            es = nat.cls[k][1].get(n, [])
            what = "%s.%s is the field %s" % (k, n, n)
            if not es:
                c.bad("member", what, nat.init.where(), "the name is not exported")
            elif es[0].kind == "field":
                (c.ok("member", what, nat.init.where(es[0].line)) if es[0].field == n else
                 c.bad("member", what, nat.init.where(es[0].line), "bound to the field %s" % es[0].field))
            else:
                c.unk("member", what, nat.init.where(es[0].line), "bound to %s" % es[0])
    for n, qn in funcs.items():
        es = nat.fn.get(n, [])
        what = "%s is %s" % (n, qn)
        if not es:
            c.bad("function", what, nat.init.where(), "the name is not exported")
        else:
            forwards(c, "function", what, nat.init.where(es[0].line), es[0], qn, P)
    for k, os_ in ops.items():
        for o in os_:
            es = nat.cls[k][1].get(o, [])
            what = "%s has the operator %s on %s operand%s" % (k, o[2:-1], o[-1], "" if o[-1] == "1" else "s")
            if not es:
                c.bad("operator", what, nat.init.where(), "not exported")
            else:
                e = es[0]
                if o in ("op*2", "op/2"):
                    good = e.operands[0] == ("ref", "self") and e.operands[1] != ("ref", "self")
                else:
                    good = all(x == ("ref", "self") for x in e.operands)
                c.ok("operator", what, nat.init.where(e.line)) if good else c.bad("operator", what, nat.init.where(e.line), "operands %s" % e.operands)
    for k, frag in inits.items():
        es = nat.cls[k][1].get("__init__", [])
        what = "%s is constructed like the native class" % k
        if not es:
            c.bad("constructor", what, nat.init.where(), "no constructor exported")
        elif any(e.kind == "init" and frag in e.usr for e in es):
            c.ok("constructor", what, nat.init.where(es[0].line))
        else:
            c.unk("constructor", what, nat.init.where(es[0].line), "%s" % es)
    # the package exports every name under its own name
    P2 = pyast.PyProgram()
    m = P2.module("capi.src.implementation.visibility_graphs")
    if m is None:
        raise AnalysisBroken("anchor not found: capi.src.implementation.visibility_graphs")
    c.saw(m.rel)
    for n in list(natcls) + list(funcs):
        v = P2.lookup(m, n)
        what = "the package exports %s as the native %s" % (n, n)
        if isinstance(v, pyast.Ext) and v.name == "native." + n:
            c.ok("export", what, m.rel)
        elif isinstance(v, pyast.Ext):
            c.bad("export", what, m.rel, "it is %s" % v.name)
        elif v is None:
            raise AnalysisBroken("anchor not found: %s in %s" % (n, m.rel))
        else:
            c.unk("export", what, m.rel, "%r" % v)
    # constructor of a coordinate: longitude first
    W = World(P)
    ctor = [f for f in P.fns.values() if f.cls == "Coordinate" and f.kind == "ctor" and len(f.params()) == 2 and all(f.pty(i).is_float() for i in (0, 1))]
    if not ctor:
        raise AnalysisBroken("anchor not found: Coordinate(double, double)")
    for g, j in (("get_longitude", 0), ("get_latitude", 1)):
        what = "Coordinate(longitude, latitude).%s() depends on its own argument only" % g
        v = coord_value(P, ctor[0], g)
        if v is None:
            c.unk("constructor", what, ctor[0].where(), "not interpreted")
            continue
        sy = {x.a[0] for x in tm_syms(v)} & {"lon", "lat"}
        c.judge("constructor", what, ctor[0].where(), "yes" if sy == {("lon", "lat")[j]} else "no" if sy else "unknown", "depends on %s" % sorted(sy))


def tm_syms(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if not isinstance(x, tm.T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "sym":
            out.append(x)
        st.extend(x.a)
    return out


def coord_value(P, ctor, g):
    try:
        W = World(P)
        lon, lat = tm.sym("lon", "r"), tm.sym("lat", "r")
        th = W.obj("Coordinate", "k")
        r = W.call(ctor, this=th, args=[lon, lat])
        W.S = r.S
        r2 = W.call("Coordinate::" + g, this=th, args=[])
        return r2.value
    except Exception:
        return None


# ================================================================ R01
D_RANGE = '''
from capi.src.implementation.graph_generator import GraphGenerator
def d(reader, shp, out, cur, n, seed):
    return GraphGenerator(reader).generate_for_vertex_range(shp, out, cur, n, seed)
'''
D_GEN = '''
from capi.src.implementation.graph_generator import GraphGenerator
def d(reader, shp, out):
    return GraphGenerator(reader).generate(shp, out)
'''
D_GEN0 = '''
from capi.src.implementation.graph_generator import GraphGenerator
def d(shp, out):
    return GraphGenerator().generate(shp, out)
'''


def gen_model(r):
    polys = [MObj("Polygon", vertices=[coord(r) for _ in range(r.randint(3, 6))]) for _ in range(r.randint(0, 4))]
    if polys and r.random() < .2:
        polys.append(MObj("Polygon", vertices=[MObj("Coordinate", **v.f) for v in r.choice(polys).f["vertices"]]))
    n = r.randint(1, 9)
    syms = {"reader": MObj("Reader"), "shp": "/in/s%d.shp" % r.randint(0, 99), "out": "/out/g%d" % r.randint(0, 99), "cur": r.choice([0, n - 1, r.randint(0, n - 1)]),
            "n": n, "seed": r.choice([0, r.randint(0, 10 ** 6), r.randint(0, 10 ** 6), r.randint(0, 10 ** 6)])}
    m = Model(r, syms)
    m.polys = polys
    m.calls[".read"] = lambda this, path: polys
    m.calls["native.VisGraphPolygon"] = lambda vs: MObj("VisGraphPolygon", vertices=[Op("kept", j, x) for j, x in enumerate(vs)][:max(3, len(vs) - len(repr(vs)) % 3)], given=vs)
    return m


def given(m):
    return [MObj("VisGraphPolygon", vertices=[Op("kept", j, x) for j, x in enumerate(vs)][:max(3, len(vs) - len(repr(vs)) % 3)], given=vs)
            for vs in [[vg(v) for v in p.f["vertices"]] for p in m.polys]]


def r01(c):
    py = Py(c)
    nat = Natives(c)
    w = where(py.P, IMP + "graph_generator", "GraphGenerator.generate_for_vertex_range")

    def calls(m, out):
        if out[0] != "ok":
            return out[0], str(out[1])
        q = [nat.canon(n[7:], a, k) for n, a, k, l in out[2] if n == "native.generate_visgraph_with_shuffled_range"]
        return "ok", q

    def total(m):
        return sum(len(p.f["vertices"]) for p in given(m))

    def spec(m):
        N, n, k = total(m), m.syms["n"], m.syms["cur"]
        lo = (N // n) * k
        return lo, (N // n) * (k + 1) if k < n - 1 else N

    # the ranges of all splits partition the vertices: contiguous, disjoint, from 0 to the number of vertices
    try:
        paths = py.run(D_RANGE, ["reader", "shp", "out", "cur", "n", "seed"])
    except Unk as e:
        c.unk("ranges", "the ranges of all splits partition the vertices", w, str(e))
        paths = None
    if paths is not None:
        bad = unk = None
        for k in range(120 if c.tier == "quick" else 1200):
            m = gen_model(random.Random("r01/%d" % k))
            seen = []
            try:
                for j in range(m.syms["n"]):
                    m.syms["cur"] = j
                    o = calls(m, m.outcome(paths))
                    if o[0] != "ok" or len(o[1]) != 1 or not isinstance(o[1][0], list) or len(o[1][0]) != 4:
                        bad = "split %d of %d: %s" % (j, m.syms["n"], str(o)[:200])
                        break
                    a = o[1][0]
                    if not (isinstance(a[1], int) and isinstance(a[2], int)):
                        unk = "range %s, %s" % (a[1], a[2])
                        break
                    if a[1] < 0 or a[2] > total(m) or a[1] > a[2]:
                        bad = "split %d of %d gets the improper range [%d, %d) of %d vertices" % (j, m.syms["n"], a[1], a[2], total(m))
                        break
                    seen += list(range(a[1], a[2]))
            except Unk as e:
                unk = str(e)
            if bad or unk:
                break
            if sorted(seen) != list(range(total(m))):
                d = [x for x in set(seen) if seen.count(x) > 1]
                mi = [x for x in range(total(m)) if x not in seen]
                bad = "%d vertices in %d splits: processed twice %s, never %s" % (total(m), m.syms["n"], d[:5], mi[:5])
                break
        what = "the ranges of all splits partition the native vertices"
        c.unk("ranges", what, w, unk) if unk else c.bad("ranges", what, w, bad) if bad else c.ok("ranges", what, w)
    py.agree("arguments", "every split passes the same polygons and the given seed", w, D_RANGE, ["reader", "shp", "out", "cur", "n", "seed"], gen_model,
             lambda m: ("ok", [(given(m), m.syms["seed"])]),
             view=lambda m, o: (lambda x: (x[0], [(a[0], a[3]) for a in x[1]] if x[0] == "ok" and all(isinstance(a, list) and len(a) == 4 for a in x[1]) else x[1]))(calls(m, o)))
    from . import gen
    gen.shuffle_rules(c)


# ================================================================ Y01
D_MERGE = '''
from capi.src.implementation.graph_merger import GraphMerger
def d(ins, out):
    return GraphMerger().merge(ins, out)
'''
D_OPEN = '''
from capi.src.implementation.path_interpolator import PathInterpolator
def d(folder, a, b):
    p = PathInterpolator(folder)
    return p.interpolate(a, b)
'''


def y01(c):
    py = Py(c)
    nat = Natives(c)
    wg, wr = [where(py.P, IMP + "graph_generator", "GraphGenerator." + x) for x in ("generate", "generate_for_vertex_range")]
    wm = where(py.P, IMP + "graph_merger", "GraphMerger.merge")
    wp = where(py.P, IMP + "path_interpolator", "PathInterpolator.interpolate")

    def view_save(produce):
        def v(m, out):
            if out[0] != "ok":
                return out[0], str(out[1])
            fs = fs_trace(out[2])
            reads = [t for t in fs if t[0] == ".read" or t[0] == "shapefile.Reader"]
            other = [t for t in fs if t not in reads]
            unknown = [t for t in other if t[0] not in FS and t[0] not in ("mkdir",) and not t[0].startswith("shapefile")
                       and not (t[0].startswith(".") and t[0] not in FS)]
            if unknown:
                return Unknown("effect %s" % str(unknown[0])[:100])
            other = [(t[0], t[1], t[2]) if t[0] == "mkdir" else t for t in other if t[0] in FS or t[0] == "mkdir"]
            mk = [j for j, t in enumerate(other) if t[0] == "mkdir"]
            sv = [j for j, t in enumerate(other) if t[0] == "native.save_graph_to_file"]
            order = bool(mk and sv and mk[0] < sv[0])
            return ("ok", sorted(set(map(repr, reads))), sorted(map(repr, other)), order)
        return v

    def expect(reads, graph, out, extra=()):
        return ("ok", sorted(set(map(repr, reads))),
                sorted(map(repr, [("mkdir", out, False), ("native.save_graph_to_file", (graph, out + "/default"), ())] + list(extra))), True)

    py.agree("generate", "generate creates the output folder, which must be new, and saves the graph of the shapefile's polygons to its default file", wg,
             D_GEN, ["reader", "shp", "out"], gen_model,
             lambda m: expect([(".read", (m.syms["reader"], m.syms["shp"]), ())], Op("call", "native.generate_visgraph", (given(m),), ()), m.syms["out"]),
             view=view_save("g"))

    py.agree("generate", "generate_for_vertex_range creates the output folder, which must be new, and saves the graph of its range to its default file", wr,
             D_RANGE, ["reader", "shp", "out", "cur", "n", "seed"], gen_model,
             lambda m: expect([(".read", (m.syms["reader"], m.syms["shp"]), ())], Op("graph"), m.syms["out"]),
             view=lambda m, o: view_save("r")(m, (o[0], o[1], [(n, [Op("graph") if isinstance(x, Op) and x.a[:2] == ("call", "native.generate_visgraph_with_shuffled_range")
                                                                   else x for x in a], k, l) for n, a, k, l in o[2]])))

    def open_model(r):
        m = gen_model(r)
        m.calls["shapefile.Reader"] = lambda *a, **k: MObj("SR", shapes_=[])
        m.calls[".shapes"] = lambda this: []
        m.calls[".iterShapes"] = lambda this: []
        m.calls[".shapeRecords"] = lambda this: []
        m.calls[".iterShapeRecords"] = lambda this: []
        return m
    py.agree("generate", "without a reader of its own the generator opens the given shapefile and no other", wg, D_GEN0, ["shp", "out"], open_model,
             lambda m: expect([("shapefile.Reader", (m.syms["shp"],), ())], Op("call", "native.generate_visgraph", ([],), ()), m.syms["out"]), view=view_save("g"))

    def merge_model(r):
        return Model(r, {"ins": ["/in/g%d" % r.randint(0, 50) for _ in range(r.randint(0, 4))], "out": "/out/m%d" % r.randint(0, 9)})

    def view_merge(m, out):
        if out[0] != "ok":
            return out[0], str(out[1])
        fs = [(t[0], t[1], t[2]) if t[0] == "mkdir" else t for t in fs_trace(out[2])]
        mk = [j for j, t in enumerate(fs) if t[0] == "mkdir"]
        sv = [j for j, t in enumerate(fs) if t[0] == "native.save_graph_to_file"]
        loads = sorted(repr(t[1]) for t in fs if t[0] == "native.load_graph_from_file")
        saved = [t for t in fs if t[0] == "native.save_graph_to_file"]
        rest = [t for t in fs if t[0] not in ("mkdir", "native.save_graph_to_file", "native.load_graph_from_file")]
        if any(t[0] not in FS for t in rest):
            return Unknown("effect %s" % str(rest[0])[:100])
        inputs = None
        if len(saved) == 1 and isinstance(saved[0][1][0], Op) and saved[0][1][0].a[:2] == ("call", "native.merge_graphs"):
            g = saved[0][1][0].a[2][0]
            inputs = sorted(map(repr, g)) if isinstance(g, list) else repr(g)
        return ("ok", loads, [t[1] for t in fs if t[0] == "mkdir"], [t[2] for t in fs if t[0] == "mkdir"], [t[1][1] for t in saved], inputs, list(map(repr, rest)),
                bool(mk and sv and mk[0] < sv[0]))

    def want_merge(m):
        ps = [f + "/default" for f in m.syms["ins"]]
        return ("ok", sorted(repr((p,)) for p in ps), [m.syms["out"]], [False], [m.syms["out"] + "/default"],
                sorted(repr(Op("call", "native.load_graph_from_file", (p,), ())) for p in ps), [], True)
    py.agree("merge", "merge loads the default file of every given folder, once each, and saves their merged graph to a new folder", wm, D_MERGE, ["ins", "out"],
             merge_model, want_merge, view=view_merge)

    # folders that exist already, folders that are missing
    def exists(make, missing=None):
        def mk(r):
            m = make(r)
            gone = missing(m) if missing else ()

            def raises(t):
                if isinstance(t, tuple) and t[0] == "match":
                    return t[1] is None or any(x in t[1] for x in ("FileExistsError", "OSError", "IOError", "EnvironmentError"))
                if not missing and isinstance(t, Op) and t.a[0] == "call" and t.a[1] in ("os.mkdir", ".mkdir", "os.makedirs") and m.syms["out"] in repr(t.a[2]):
                    return not dict(t.a[3]).get("exist_ok")
                return False
            m.raises, m.strict = raises, True
            there = lambda p, *a: m.syms["out"] == str(p) if not missing else not any(str(p) == g or str(p).startswith(g + "/") for g in gone)
            for n in ("os.path.exists", "os.path.isdir", "os.path.isfile", "os.path.lexists"):
                m.calls[n] = there
            m.gone = gone
            return m
        return mk

    def refused(m, out):
        saves = [a for n, a, k, l in out[2] if n == "native.save_graph_to_file"]
        return "error" if out[0] != "ok" else "no error" if saves else Unknown("nothing is saved")

    def failed(m, out):
        loads = [str(a[0]) for n, a, k, l in out[2] if n == "native.load_graph_from_file"]
        if not m.gone or out[0] != "ok" or all(any(l.startswith(g + "/") for l in loads) for g in m.gone):
            return "error"
        return "no error, loads %s" % loads

    for wh, n, d, ps, mk in ((wg, "generate", D_GEN, ["reader", "shp", "out"], gen_model), (wr, "generate_for_vertex_range", D_RANGE, ["reader", "shp", "out", "cur", "n", "seed"], gen_model),
                             (wm, "merge", D_MERGE, ["ins", "out"], merge_model)):
        py.agree("new folder", "%s is refused for an output folder that exists" % n, wh, d, ps, exists(mk), lambda m: "error", view=refused, n=60)
    py.agree("missing folder", "merge loads every given folder, the missing ones too", wm, D_MERGE, ["ins", "out"],
             exists(merge_model, lambda m: set(m.rng.sample(m.syms["ins"], min(1, len(m.syms["ins"]))))), lambda m: "error", view=failed, n=120)

    def path_model(r):
        m = Model(r, {"folder": "/data/g%d" % r.randint(0, 9), "a": coord(r), "b": coord(r)})
        m.calls[".shortest_path"] = lambda *a, **k: []
        return m
    py.agree("query", "a path query uses the graph of the given folder's default file and touches no other file", wp, D_OPEN, ["folder", "a", "b"], path_model,
             lambda m: ("ok", [("native.load_graph_from_file", (m.syms["folder"] + "/default",), ())],
                        [Op("call", "native.VisGraphShortestPathComputer", (Op("call", "native.load_graph_from_file", (m.syms["folder"] + "/default",), ()),), ())]),
             view=lambda m, o: (o[0], [t for t in fs_trace(o[2]) if not t[0].startswith(".shortest")], [a[0] for n, a, k, l in o[2] if n == ".shortest_path"]))
    # the folder layout
    src = '''
from capi.src.implementation.datastructures.graph_file_paths import GraphFilePaths
def d(folder):
    g = GraphFilePaths(folder)
    return (g.default_graph_path, g.folder_path)
'''
    py.agree("layout", "a graph folder keeps its graph in the file 'default'", where(py.P, IMP + "datastructures.graph_file_paths", "GraphFilePaths.default_graph_path"),
             src, ["folder"], lambda r: Model(r, {"folder": "/x/%d" % r.randint(0, 99)}), lambda m: ("ok", (m.syms["folder"] + "/default", m.syms["folder"])))


# ================================================================ Y02
D_READ = '''
from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader
def d(path):
    return [[(v.longitude, v.latitude) for v in p.vertices] for p in ShapefileReader().read(path)]
'''
D_NATIVE = '''
from capi.src.implementation.graph_generator import GraphGenerator
def d(reader, shp, out):
    GraphGenerator(reader).generate(shp, out)
'''
D_POLY = '''
from capi.src.implementation.datastructures.polygon import Polygon
def d(vs, ws, other):
    p = Polygon(vs)
    return ([(v.longitude, v.latitude) for v in p.vertices], p == Polygon(ws), p == Polygon(vs), p == other)
'''
TYPES = {"NULL": 0, "POINT": 1, "POLYLINE": 3, "POLYGON": 5, "MULTIPOINT": 8, "POINTZ": 11, "POLYLINEZ": 13, "POLYGONZ": 15, "POLYGONM": 25}


def y02(c):
    py = Py(c)
    w = where(py.P, IMP + "shapefiles.shapefile_reader", "ShapefileReader.read")

    def model(r):
        shapes = []
        for _ in range(r.randint(0, 4)):
            ty = r.choice(["POLYGON", "POLYGON", "POLYGON"] + list(TYPES))
            pts, parts = [], []
            if ty != "NULL":
                for _ in range(r.randint(1, 3)):
                    parts.append(len(pts))
                    k = r.randint(1, 6)
                    ring = []
                    while len(ring) < k:
                        p = (num(r), num(r))
                        if p not in ring:
                            ring.append(p)
                    if k > 3 and r.random() < .3:
                        # an outline that touches itself in a vertex
                        ring.insert(r.randint(2, k - 1), r.choice([ring[0], ring[0], ring[-1]]))
                    pts += ring + [ring[0]]
            shapes.append(MObj("Shape", shapeTypeName=ty, shapeType=TYPES[ty], points=pts, parts=parts, bbox=[0, 0, 0, 0], oid=len(shapes)))
        sr = MObj("SR")
        m = Model(r, {"path": "/in/s%d.shp" % r.randint(0, 99)}, exts={"shapefile." + k: v for k, v in TYPES.items()})
        m.shapes = shapes

        def opened(p, **k):
            return sr if p == m.syms["path"] else MObj("SR-other")
        m.calls["shapefile.Reader"] = opened
        for n in (".shapes", ".iterShapes"):
            m.calls[n] = lambda this: shapes if this is sr else [MObj("Shape", shapeTypeName="POLYGON", shapeType=5, points=[], parts=[])]
        for n in (".shapeRecords", ".iterShapeRecords"):
            m.calls[n] = lambda this: [MObj("ShapeRecord", shape=s, record=[]) for s in shapes]
        m.calls[".shape"] = lambda this, j: shapes[j]
        m.attrs["numRecords"] = lambda this: len(shapes)
        m.syms["shapes"] = shapes
        return m

    def ring0(ps):
        """an outline is a ring: whichever vertex it starts with"""
        ps = list(ps)
        return min((ps[k:] + ps[:k] for k in range(len(ps))), default=ps)

    def rings(m, o):
        if o[0] != "ok" or not isinstance(o[1], (list, tuple)):
            return o[:2]
        try:
            return "ok", [ring0(p) for p in o[1]]
        except TypeError:
            return o[:2]

    def spec(m):
        out = []
        for s in m.shapes:
            if s.f["shapeTypeName"] != "POLYGON":
                continue
            ps = s.f["parts"] + [len(s.f["points"])]
            ring = s.f["points"][:ps[1]] if len(ps) > 1 else s.f["points"]
            if len(ring) > 3:
                out.append(ring0([tuple(p) for p in ring[:-1]]))
        return "ok", out
    py.agree("outlines", "every polygon shape of three or more distinct vertices gives its first ring without the closing vertex, in order, (longitude, latitude) = (x, y)",
             w, D_READ, ["path"], model, spec, n=400 if c.tier == "quick" else 6000, view=rings)

    wg = where(py.P, IMP + "graph_generator", "GraphGenerator.generate")
    py.agree("native", "every polygon read becomes one native polygon with all its vertices, in order and on the right axes", wg, D_NATIVE, ["reader", "shp", "out"], gen_model,
             lambda m: ("ok", [[given(m)]]), view=lambda m, o: (o[0], [a for n, a, k, l in o[2] if n == "native.generate_visgraph"]))

    def pmodel(r):
        n = r.randint(0, 5)
        vs = [coord(r) for _ in range(n)]
        j = r.randrange(n) if n else 0
        ws = [coord(r) if k == j else v for k, v in enumerate(vs)] if r.random() < .3 else vs[:-1] if r.random() < .1 else list(vs) if r.random() < .4 else [MObj("Coordinate", **v.f) for v in vs] if r.random() < .5 else vs[1:] + vs[:1] if r.random() < .5 else [coord(r) for _ in range(max(n, 3))]
        return Model(r, {"vs": vs, "ws": ws, "other": r.choice([7, "x", None])})

    def pspec(m):
        if len(m.syms["vs"]) < 3 or len(m.syms["ws"]) < 3:
            return "raise"
        vs, ws = m.syms["vs"], m.syms["ws"]
        return ("ok", ([(v.f["longitude"], v.f["latitude"]) for v in vs], vs == ws, True, False))
    py.agree("polygon", "a polygon keeps its vertices in order, refuses fewer than three, and equals exactly the polygons of the same vertices",
             where(py.P, IMP + "datastructures.polygon", "Polygon.vertices"), D_POLY, ["vs", "ws", "other"], pmodel, pspec,
             view=lambda m, o: "raise" if o[0] == "raise" else o[:2])
