"""The table of names the Python module exports and the native entity each stands for, read from the bindings."""
import json

from .build import AnalysisBroken


class Entry:
    def __init__(self, name, kind, line, **kw):
        self.name, self.kind, self.line = name, kind, line
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.name, {k: v for k, v in self.__dict__.items() if k not in ("name", "kind", "line", "fn")})


def strip(n):
    while isinstance(n, dict) and n.get("k") in ("bind", "cast", "paren", "mat") and "e" in n:
        n = n["e"]
    return n


def argspec(n):
    n = strip(n)
    if n.get("k") == "ctor" and n.get("cls") == "pybind11::arg":
        return (n["a"][0].get("v"), None)
    if n.get("k") == "call" and n.get("op") == "=" and n.get("cls") == "pybind11::arg":
        o = strip(n["o"])
        d = strip(n["a"][0])
        v = ("?",)
        if d.get("k") == "const":
            v = ("const", d.get("vs", d.get("v")))
        return (o["a"][0].get("v") if o.get("a") else None, v)
    return None


def target(P, n):
    n = strip(n)
    if n.get("k") == "un" and n.get("op") == "&":
        e = strip(n["e"])
        if e.get("k") == "fref":
            return "fn", {"qn": e["qn"], "usr": e["usr"]}
        if e.get("k") in ("ref", "mem"):
            return "field", {"field": e.get("n") or e.get("f")}
    if n.get("k") == "fref":
        return "fn", {"qn": n["qn"], "usr": n["usr"]}
    if n.get("k") == "lam":
        f = P.fns.get(n["usr"])
        return "lambda", {"fn": f}
    if n.get("k") == "ref":
        return "var", {"var": n.get("n")}
    return "?", {"node": json.dumps(n)[:200]}


def table(P):
    """{class name: (native class, {member: [Entry]})}, {function: [Entry]}"""
    init = [f for f in P.fns.values() if f.qn == "pybind11_init__vis_graph"]
    if not init:
        raise AnalysisBroken("anchor not found: the Python module _vis_graph")
    classes, functions = {}, {}
    var = {}

    def base(n):
        """follow a call chain down: returns the calls, innermost first, and the root node"""
        calls = []
        n = strip(n)
        while isinstance(n, dict) and n.get("k") == "call" and "o" in n and (n.get("cls") or "").startswith("pybind11::"):
            calls.append(n)
            n = strip(n["o"])
        return list(reversed(calls)), n

    def handle(n):
        calls, root = base(n)
        cur = None
        if root.get("k") == "ctor" and root.get("cls") == "pybind11::class_":
            nm = [a.get("v") for a in root["a"] if isinstance(a, dict) and a.get("k") == "str"]
            ty = root["usr"]
            nat = [c for c in P.records if "class_>#$@S@%s#" % c in ty]
            cur = classes.setdefault(nm[0] if nm else "?", (nat[0] if nat else None, {}))
        elif root.get("k") == "ref" and root.get("id") in var:
            cur = var[root["id"]]
        for c in calls:
            a = c["a"]
            if c["cls"] == "pybind11::class_" and cur is not None:
                m = cur[1]
                if a and strip(a[0]).get("k") == "str":
                    kind, info = target(P, a[1])
                    e = Entry(a[0]["v"], kind, c.get("l"), how=c["n"], args=[x for x in map(argspec, a[2:]) if x], **info)
                    m.setdefault(e.name, []).append(e)
                elif a and strip(a[0]).get("k") == "call" and strip(a[0]).get("n") == "init":
                    m.setdefault("__init__", []).append(Entry("__init__", "init", c.get("l"), usr=strip(a[0])["usr"], how="def",
                                                             args=[x for x in map(argspec, a[1:]) if x]))
                elif a and strip(a[0]).get("op"):
                    x = strip(a[0])
                    m.setdefault("op" + x["op"] + str(len(x["a"])), []).append(
                        Entry("op" + x["op"] + str(len(x["a"])), "op", c.get("l"), how="def", args=[], operands=[
                            (y.get("k"), y.get("n")) for y in map(strip, x["a"])]))
            elif c["cls"] == "pybind11::module_" and a and strip(a[0]).get("k") == "str":
                kind, info = target(P, a[1])
                functions.setdefault(a[0]["v"], []).append(
                    Entry(a[0]["v"], kind, c.get("l"), how=c["n"], args=[x for x in map(argspec, a[2:]) if x], **info))
        return cur

    def walk(s):
        if isinstance(s, list):
            for x in s:
                walk(x)
        elif isinstance(s, dict):
            if s.get("s") == "decl" or "v" in s and isinstance(s.get("v"), list):
                for d in s.get("v") or s.get("d") or []:
                    if isinstance(d, dict) and d.get("init") is not None:
                        cur = handle(d["init"])
                        if cur is not None:
                            var[d.get("id")] = cur
            elif s.get("s") == "expr":
                handle(s["e"])
            else:
                for v in s.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
    walk(init[0].body["b"] if isinstance(init[0].body, dict) and "b" in init[0].body else init[0].body)
    return classes, functions, init[0]
