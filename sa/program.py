"""The resolved program: functions, records and globals of all translation units."""
import os

from . import build
from . import terms as tm


class Ty:
    """A type of one translation unit (canonical)."""
    __slots__ = ("tu", "o", "idx")

    def __init__(self, tu, idx):
        self.tu, self.idx = tu, idx
        self.o = tu.types[idx]

    @property
    def k(self):
        return self.o["k"]

    @property
    def s(self):
        return self.o["s"]

    @property
    def const(self):
        return self.o.get("const", False)

    def pointee(self):
        return Ty(self.tu, self.o["pt"]) if "pt" in self.o else None

    def noref(self):
        return self.pointee() if self.k == "ref" else self

    def rec(self):
        return self.o.get("rec")

    def targ(self, i):
        ta = self.o.get("ta") or []
        if i < len(ta) and ta[i] is not None and ta[i] >= 0:
            return Ty(self.tu, ta[i])
        return None

    def is_float(self):
        return self.k == "float"

    def is_int(self):
        return self.k in ("int", "enum")

    def width(self):
        return self.o.get("w", 64)

    def signed(self):
        return self.o.get("sg", True)

    def sort(self):
        k = self.k
        return {"int": "i", "enum": "i", "bool": "b", "float": "r"}.get(k, "o")

    def range(self):
        if self.k in ("int", "enum"):
            w = self.width()
            en = self.o.get("en") if self.k == "enum" else None
            if en:  # an object of enumeration type holds one of its enumerators (or a value between them)
                return min(e["v"] for e in en), max(e["v"] for e in en)
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if self.signed() else (0, (1 << w) - 1)
        return None


class TU:
    def __init__(self, path, data):
        self.path = path
        self.types = data["types"]
        self.data = data

    def ty(self, i):
        return Ty(self, i) if i is not None and i >= 0 else None


class Fn:
    def __init__(self, tu, o):
        self.tu, self.o = tu, o
        self.usr, self.qn, self.n = o["usr"], o["qn"], o["n"]
        self.file, self.line = o["file"], o["line"]
        self.kind = o["kind"]

    @property
    def cls(self):
        return self.o.get("cls")

    @property
    def body(self):
        return self.o.get("body")

    def where(self, line=None):
        return "%s:%s (%s)" % (relpath(self.file), line or self.line, self.qn)

    def ret(self):
        return self.tu.ty(self.o["ret"])

    def params(self):
        return self.o["params"]

    def pty(self, i):
        return self.tu.ty(self.o["params"][i]["t"])

    def __repr__(self):
        return "<Fn %s>" % self.qn


def relpath(f):
    return os.path.relpath(f, build.REPO) if f.startswith(build.REPO) else f


LON_LAT_BOUND = 540000001   # a periodic copy of a coordinate stays within +-(180e6 + one period)


class Program:
    def __init__(self, data=None):
        data = build.extract() if data is None else data
        self.tus = [TU(p, d) for p, d in sorted(data.items())]
        self.fns = {}
        self.decls = {}
        self.records = {}
        self.globals = {}
        self.by_qn = {}
        for tu in self.tus:
            for o in tu.data["functions"]:
                f = Fn(tu, o)
                if o["decl"]:
                    self.decls.setdefault(f.usr, f)
                elif f.usr not in self.fns:
                    self.fns[f.usr] = f
                    self.by_qn.setdefault(f.qn, []).append(f)
            for r in tu.data["records"]:
                self.records.setdefault(r["qn"], (tu, r))
            for g in tu.data["globals"]:
                k = g["qn"] if not g.get("local") else "%s@%s:%s" % (g["qn"], g["file"], g["line"])
                old = self.globals.get(k)
                if old is None or ("init" in g and "init" not in old[1]):
                    self.globals[k] = (tu, g)
        self.overriders = {}
        for f in self.fns.values():
            for b in f.o.get("over", []):
                self.overriders.setdefault(b, []).append(f)
        tm.RECORDS.clear()
        for qn, (tu, r) in self.records.items():
            fs = []
            for f in r["fields"]:
                t = tu.ty(f["t"]).noref()
                rg = t.range()
                if qn == "Coordinate" and t.is_int() and t.width() == 32:
                    rg = (-LON_LAT_BOUND, LON_LAT_BOUND)
                fs.append((f["n"], t.sort(), rg, t.rec() if t.k == "rec" else None))
            tm.RECORDS[qn] = fs
        self.lambdas_of = {}

    def fn(self, qn, nparams=None, pred=None):
        c = [f for f in self.by_qn.get(qn, []) if (nparams is None or len(f.params()) == nparams) and (pred is None or pred(f))]
        return c[0] if c else None

    def need(self, qn, nparams=None, pred=None):
        f = self.fn(qn, nparams, pred)
        if f is None:
            raise build.AnalysisBroken("anchor not found: %s" % qn)
        return f

    def methods(self, cls):
        return [f for f in self.fns.values() if f.cls == cls]

    def calls_in(self, node):
        """all call / ctor nodes below an IR node"""
        st = [node]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get("k") in ("call", "ctor", "icall"):
                    yield x
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
