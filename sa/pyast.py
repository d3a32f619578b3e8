"""Abstract evaluation of the Python layer over its syntax tree.

A function is summarised path by path into terms over its symbolic inputs: every loop body is analysed once at a
symbolic index and the loop is replaced by a closed form (comprehension, sum, first index at which it stops); what has
no closed form raises Unk and leaves the obligation undetermined. Nothing of the repository is imported or run."""
import ast
import math
import os
import random
from fractions import Fraction

from . import build

EXTCONST = {"math.inf": math.inf, "math.nan": math.nan, "os.sep": "/", "sys.maxsize": 2 ** 63 - 1}
NATIVE = "capi.src.implementation.visibility_graphs._vis_graph"


class Unk(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- non-term values
class Mod:
    def __init__(self, name):
        self.name = name


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.n = mod, node, node.name


class Fun:
    def __init__(self, mod, node, env=None, cls=None):
        self.mod, self.node, self.env, self.cls = mod, node, env, cls

    @property
    def n(self):
        return getattr(self.node, "name", "<lambda>")

    def where(self):
        return "%s:%d (%s%s)" % (self.mod.rel, self.node.lineno, self.cls.n + "." if self.cls else "", self.n)


class Bound:
    def __init__(self, fun, this):
        self.fun, self.this = fun, this


class Method:
    """method of a built-in or opaque value"""
    def __init__(self, this, n):
        self.this, self.n = this, n


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.rel = os.path.relpath(path, build.REPO)
        self.tree = ast.parse(open(path).read())
        self.binds = {}
        self._scan(self.tree.body)
        self.vals = {}

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.binds[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.binds[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (s.level - 1)]
                    base = ".".join(pk + ([s.module] if s.module else []))
                for a in s.names:
                    self.binds[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.binds[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.binds[s.target.id] = s.value
            elif isinstance(s, ast.If):
                t = ast.unparse(s.test)
                if "__name__" in t:
                    continue
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)


class PyProgram:
    def __init__(self):
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            p = os.path.join(build.REPO, *name.split("."))
            m = None
            for q in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.isfile(q):
                    m = Module(name, q)
                    break
            self.mods[name] = m
        return self.mods[name]

    def need(self, mod, name):
        m = self.module(mod)
        v = self.lookup(m, name) if m else None
        if v is None:
            raise build.AnalysisBroken("anchor not found: %s.%s" % (mod, name))
        return v

    def lookup(self, m, name):
        if name in m.vals:
            return m.vals[name]
        b = m.binds.get(name)
        if b is None:
            return None
        if isinstance(b, ast.FunctionDef):
            v = Fun(m, b)
        elif isinstance(b, ast.ClassDef):
            v = Cls(m, b)
        elif isinstance(b, tuple) and b[0] == "mod":
            v = Mod(b[1])
        elif isinstance(b, tuple):
            v = self.member(b[1], b[2])
        else:
            v = Eval(self).expr_in(m, b)
        m.vals[name] = v
        return v

    def member(self, mod, name):
        m = self.module(mod)
        if m is not None:
            v = self.lookup(m, name)
            if v is not None:
                return v
            if self.module(mod + "." + name) is not None:
                return Mod(mod + "." + name)
        if mod == NATIVE:
            return Ext("native." + name)
        if mod + "." + name in EXTCONST:
            return K(EXTCONST[mod + "." + name])
        if mod == "capi.src.implementation.visibility_graphs" and name == "_vis_graph":
            return Mod(NATIVE)
        return Ext(mod + "." + name)


# ---------------------------------------------------------------- terms
def K(v):
    return ("k", v)


TRUE, FALSE, NONE = K(True), K(False), K(None)


def isk(t):
    return isinstance(t, tuple) and t[0] == "k"


def subst(t, m):
    if isinstance(t, tuple):
        try:
            if t in m:
                return m[t]
        except TypeError:
            pass
        r = tuple(subst(x, m) for x in t)
        return t if r == t else r
    return t


def mentions(t, xs):
    if isinstance(t, tuple):
        if t in xs:
            return True
        return any(mentions(x, xs) for x in t)
    return False


def not_(c):
    if isk(c):
        return K(not c[1])
    if c[0] == "not":
        return c[1]
    return ("not", c)


def and_(cs):
    out = []
    for c in cs:
        if c == FALSE:
            return FALSE
        if c != TRUE and c not in out:
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else ("and",) + tuple(out)


def or_(cs):
    out = []
    for c in cs:
        if c == TRUE:
            return TRUE
        if c != FALSE and c not in out:
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else ("or",) + tuple(out)


def ite(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    return ("ite", c, a, b)


PYOP = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b,
    "/": lambda a, b: a / b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b, "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
    "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Div: "/", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
SEQOPS = ("list", "comp", "cat", "slice", "range", "enum", "zip", "rev", "tup")


def op(o, a, b):
    if isk(a) and isk(b) and o in PYOP:
        try:
            return K(PYOP[o](a[1], b[1]))
        except Exception:
            pass
    if o == "+" and b == K(0):
        return a
    if o == "+" and a == K(0):
        return b
    if o == "-" and b == K(0):
        return a
    if o == "*" and (b == K(1)):
        return a
    if o == "*" and (a == K(1)):
        return b
    if o == "is" and a[0] in SEQOPS + ("obj", "op", "len") and b == NONE:
        return FALSE
    if o == "isnot":
        return not_(op("is", a, b))
    if o == "notin":
        return not_(op("in", a, b))
    if o == "is" and isk(a) and isk(b):
        return K(a[1] is b[1] if a[1] in (None, True, False) or b[1] in (None, True, False) else a[1] == b[1])
    return ("op", o, a, b)


def length(s):
    if s[0] in ("list", "tup"):
        return K(len(s) - 1)
    if s[0] == "enum":
        return length(s[1])
    if s[0] == "rev":
        return length(s[1])
    if s[0] == "range" and s[1] == K(0) and s[3] == K(1) and s[2][0] == "len":
        return s[2]
    if s[0] == "comp" and len(s[3]) == 1 and s[3][0][0] == TRUE and s[3][0][1][0] == "list" and len(s[3][0][1]) == 2:
        return s[1]
    if s[0] == "cat":
        r = K(0)
        for x in s[1:]:
            r = op("+", r, length(x))
        return r
    if s[0] == "k" and isinstance(s[1], (str, tuple)):
        return K(len(s[1]))
    return ("len", s)


def item(s, i):
    if s[0] in ("list", "tup") and isk(i) and isinstance(i[1], int):
        if -(len(s) - 1) <= i[1] < len(s) - 1:
            return s[1:][i[1]]
    if s[0] == "ite":
        return ite(s[1], item(s[2], i), item(s[3], i))
    if isk(i) and isinstance(i[1], int) and i[1] < 0:
        return ("item", s, i)
    if s[0] == "enum":
        return ("tup", op("+", i, s[2]), item(s[1], i))
    if s[0] == "zip":
        return ("tup",) + tuple(item(x, i) for x in s[1:])
    if s[0] == "range":
        return op("+", s[1], op("*", i, s[3]))
    if s[0] == "comp" and len(s[3]) == 1 and s[3][0][0] == TRUE and s[3][0][1][0] == "list" and len(s[3][0][1]) == 2:
        return subst(s[3][0][1][1], {s[2]: i})
    return ("item", s, i)


def cat(a, b):
    if a == ("list",):
        return b
    if b == ("list",):
        return a
    if a[0] == "list" and b[0] == "list":
        return a + b[1:]
    x = a[1:] if a[0] == "cat" else (a,)
    y = b[1:] if b[0] == "cat" else (b,)
    if x[-1][0] == "list" and y[0][0] == "list":
        return ("cat",) + x[:-1] + (x[-1] + y[0][1:],) + y[1:]
    return ("cat",) + x + y


PURE = {"float", "int", "str", "repr", "bool", "abs", "min", "max", "round", "os.path.join", "os.path.abspath",
        "os.fspath", "os.path.normpath", "native.VisGraphCoord", "native.VisGraphPolygon", "math.floor", "math.ceil",
        "pathlib.Path", "pathlib.PurePath", "isinstance", "divmod", "sorted", "set", "frozenset", "dict", "hash", "type",
        "math.isinf", "math.isnan", "math.isclose", "copy.copy", "copy.deepcopy", "ValueError", "RuntimeError", "TypeError",
        "Exception", "FileExistsError", "FileNotFoundError", "OSError"}
IDENTITY = {"typing.cast": 1, "copy.copy": 0, "copy.deepcopy": 0}
BUILTINS = {"len", "range", "enumerate", "zip", "map", "filter", "list", "tuple", "sum", "any", "all", "reversed", "str",
            "float", "int", "repr", "bool", "abs", "min", "max", "round", "isinstance", "divmod", "sorted", "set", "frozenset",
            "dict", "hash", "type", "print", "open", "iter", "next", "getattr", "super", "property", "staticmethod", "object",
            "ValueError", "RuntimeError", "TypeError", "Exception", "FileExistsError", "FileNotFoundError", "OSError",
            "IndexError", "KeyError", "NotImplementedError", "BaseException", "StopIteration", "UserWarning", "Warning",
            "classmethod", "dict", "bytes", "bytearray", "slice", "id", "callable", "hasattr", "vars", "issubclass"}


class Eval:
    def __init__(self, P, opaque=()):
        self.P = P
        self.opaque = set(opaque)
        self.frame = {}
        self.heap = {}
        self.eff = []
        self.pc = []
        self.dec, self.pos = [], 0
        self.nid = 0
        self.depth = 0
        self.trydepth = 0
        self.steps = 0
        self.seen = []

    # ------------------------------------------------ state
    def snap(self):
        return (dict(self.frame), {k: (c[0], c[1], dict(c[2]) if c[0] == "inst" else c[2]) for k, c in self.heap.items()},
                list(self.eff))

    def restore(self, s):
        self.frame = dict(s[0])
        self.heap = {k: (c[0], c[1], dict(c[2]) if c[0] == "inst" else c[2]) for k, c in s[1].items()}
        self.eff = list(s[2])

    def new(self, cell):
        self.nid += 1
        self.heap[self.nid] = cell
        return ("ref", self.nid)

    def branch(self, c):
        c = self.simp(c)
        if isk(c):
            return bool(c[1])
        if c in self.pc:
            return True
        if not_(c) in self.pc:
            return False
        if self.pos < len(self.dec):
            b = self.dec[self.pos]
        else:
            b = True
            self.dec.append(b)
        self.pos += 1
        self.pc = self.pc + [c if b else not_(c)]
        return b

    def explore(self, fn):
        """all paths of fn from the current state: [(path condition, outcome, value, state)]"""
        base = self.snap()
        saved = (self.dec, self.pos, self.pc)
        frame_obj = self.frame
        out = []
        work = [[]]
        n = 0
        while work:
            n += 1
            if n > 3000:
                raise Unk("too many paths")
            d = work.pop()
            self.restore(base)
            self.dec, self.pos, self.pc = list(d), 0, list(saved[2])
            try:
                r = ("ok", fn())
            except Ret as e:
                r = ("ret", e.v)
            except Brk:
                r = ("brk", None)
            except Cont:
                r = ("ok", None)
            except PyRaise as e:
                r = ("raise", e.v)
            for k in range(len(d), len(self.dec)):
                work.append(self.dec[:k] + [not self.dec[k]])
            out.append((list(self.dec), self.pc[len(saved[2]):], r[0], r[1], self.snap()))
        self.dec, self.pos, self.pc = saved
        self.restore(base)
        out.sort(key=lambda x: [not b for b in x[0]])
        return [x[1:] for x in out]

    # ------------------------------------------------ helpers on values
    def resolve(self, v, keep=None):
        """value as a pure term: references replaced by the content they have now (those for which keep(id) is true stay)"""
        if isinstance(v, tuple):
            if v and v[0] == "ref":
                if keep and keep(v[1]):
                    return v
                c = self.heap[v[1]]
                if c[0] == "list":
                    return self.resolve(c[2], keep)
                d = {k: self.resolve(x, keep) for k, x in c[2].items()}
                for n, f in self.props(c[1]).items():
                    if n in d:
                        continue
                    saved = (list(self.dec), self.pos, list(self.pc), self.snap())
                    try:
                        x = self.invoke(f, [v], {})
                        if self.pc == saved[2] and isinstance(x, tuple):
                            d[n] = self.resolve(x, keep)
                    except (Unk, PyRaise):
                        pass
                    if self.pc != saved[2]:
                        self.dec, self.pos, self.pc = saved[:3]
                    self.restore(saved[3])
                return ("obj", c[1].n, tuple(sorted(d.items())))
            if v and v[0] == "k":
                return v
            return tuple(self.resolve(x, keep) if isinstance(x, tuple) else x for x in v)
        if isinstance(v, Ext):
            return ("ext", v.name)
        if isinstance(v, Cls):
            return ("ext", v.n)
        if isinstance(v, Mod):
            return ("ext", v.name)
        raise Unk("value %r as data" % (v,))

    def seq(self, v):
        """iterable as a sequence term"""
        if isinstance(v, tuple):
            if v[0] == "ref":
                c = self.heap[v[1]]
                if c[0] == "list":
                    return c[2]
                raise Unk("iteration over an object")
            if v[0] == "obj":
                raise Unk("iteration over an object")
            return v
        raise Unk("iteration over %r" % (v,))

    def simp(self, c):
        return c

    def truth(self, v):
        if isinstance(v, tuple):
            if v[0] == "ref":
                c = self.heap[v[1]]
                if c[0] == "list":
                    return op("!=", length(c[2]), K(0))
                if self.find(c[1], "__bool__") or self.find(c[1], "__len__"):
                    raise Unk("truth of an object")
                return TRUE
            if v[0] == "k":
                return K(bool(v[1]))
            if v[0] in ("not", "and", "or", "raises", "excmatch"):
                return v
            if v[0] == "op" and v[1] in ("==", "!=", "<", "<=", ">", ">=", "is", "in", "isinstance"):
                return v
            if v[0] in SEQOPS:
                return op("!=", length(v), K(0))
            if v[0] == "obj":
                return TRUE
            return ("truth", v)
        return TRUE

    # ------------------------------------------------ classes
    def bases(self, c):
        for b in c.node.bases:
            v = self.expr_in(c.mod, b)
            if isinstance(v, Cls):
                yield v

    def find(self, c, name):
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return Fun(c.mod, s, None, c)
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return self.expr_in(c.mod, s.value)
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                return self.expr_in(c.mod, s.value)
        for b in self.bases(c):
            v = self.find(b, name)
            if v is not None:
                return v
        return None

    def props(self, c):
        out = {}
        for b in self.bases(c):
            out.update(self.props(b))
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef) and any(ast.unparse(d).split(".")[-1] in ("property", "cached_property") for d in s.decorator_list):
                out[s.name] = Fun(c.mod, s, None, c)
        return out

    @staticmethod
    def decos(fn):
        return [ast.unparse(d).split("(")[0].split(".")[-1] for d in fn.node.decorator_list]

    def is_dataclass(self, c):
        return any(ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass" for d in c.node.decorator_list)

    def construct(self, c, args, kw):
        r = self.new(("inst", c, {}))
        if self.is_dataclass(c):
            fs = []
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    fs.append((s.target.id, s.value))
            if len(args) > len(fs):
                raise Unk("dataclass arguments")
            d = self.heap[r[1]][2]
            for (n, _), v in zip(fs, args):
                d[n] = v
            for n, v in kw.items():
                d[n] = v
            for n, dv in fs:
                if n not in d:
                    if dv is None:
                        raise PyRaise(("exc", "TypeError"))
                    d[n] = self.expr_in(c.mod, dv)
            if self.find(c, "__post_init__"):
                self.invoke(self.find(c, "__post_init__"), [r], {})
            return r
        init = self.find(c, "__init__")
        if init is not None:
            self.invoke(init, [r] + list(args), kw)
        return r

    # ------------------------------------------------ calls
    def invoke(self, fn, args, kw):
        """run a repository function on this path; its exceptions propagate"""
        if self.depth > 30:
            raise Unk("recursion")
        if any(d not in ("staticmethod", "classmethod", "property", "abstractmethod", "override") for d in
               (self.decos(fn) if isinstance(fn.node, ast.FunctionDef) else [])):
            raise Unk("decorated function " + fn.n)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = list(args)
        for n in names:
            if rest:
                env[n] = rest.pop(0)
        if rest:
            if not a.vararg:
                raise PyRaise(("exc", "TypeError"))
            env[a.vararg.arg] = ("tup",) + tuple(rest)
        elif a.vararg:
            env[a.vararg.arg] = ("tup",)
        kwn = [x.arg for x in a.kwonlyargs]
        for n, v in kw.items():
            if n not in names and n not in kwn:
                raise Unk("keyword " + n)
            env[n] = v
        for n, d in zip(reversed(names), reversed(a.defaults)):
            if n not in env:
                env[n] = self.expr_in(fn.mod, d)
        for n, d in zip(kwn, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.expr_in(fn.mod, d)
        for n in names + kwn:
            if n not in env:
                raise PyRaise(("exc", "TypeError"))
        saved = self.frame
        self.frame = dict(env)
        self.frame["$mod"] = fn.mod
        self.frame["$cls"] = fn.cls
        self.frame["$up"] = fn.env
        self.depth += 1
        self.seen.append(fn)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.expr(fn.node.body)
            for x in ast.walk(fn.node):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                    return self.generator(fn)
            self.block(fn.node.body)
            return NONE
        except Ret as e:
            return e.v
        finally:
            self.depth -= 1
            self.frame = saved

    def generator(self, fn):
        acc = self.new(("list", None, ("list",)))
        self.frame["$yield"] = acc
        try:
            self.block(fn.node.body)
        except Ret:
            pass
        return self.heap[acc[1]][2]

    def call(self, f, args, kw, line=0):
        if isinstance(f, Fun):
            if isinstance(f.node, ast.FunctionDef) and "classmethod" in self.decos(f):
                return self.invoke(f, [f.cls] + list(args), kw)
            q = (f.cls.n + "." if f.cls else "") + f.n
            if q in self.opaque:
                return self.ext(q, args, kw, line)
            return self.invoke(f, args, kw)
        if isinstance(f, Bound):
            q = (f.fun.cls.n + "." if f.fun.cls else "") + f.fun.n
            if q in self.opaque:
                return self.ext(q, args, kw, line)
            return self.invoke(f.fun, [f.this] + list(args), kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, Ext):
            return self.builtin(f.name, args, kw, line)
        if isinstance(f, Method):
            return self.method(f.this, f.n, args, kw, line)
        if isinstance(f, tuple):
            return self.ext("()", [f] + list(args), kw, line)
        raise Unk("call of %r" % (f,))

    def ext(self, name, args, kw, line):
        t = ("call", name, tuple(self.resolve(a) for a in args), tuple(sorted((k, self.resolve(v)) for k, v in kw.items())))
        if name not in PURE:
            self.eff.append((t, line))
            if self.trydepth and self.branch(("raises", t)):
                raise PyRaise(("exc", t))
        return t

    def loop_over(self, seq, body):
        """apply body(element) over a sequence (body may use the state)"""
        if seq[0] in ("list", "tup"):
            for x in seq[1:]:
                body(x)
            return
        self.loop(seq, lambda i: body(item(seq, i)))

    def builtin(self, name, args, kw, line):
        short = name.split(".")[-1]
        if name in ("typing.cast", "cast") and len(args) == 2:
            return args[1]
        if name == "len" and len(args) == 1:
            v = args[0]
            if isinstance(v, tuple) and v[0] == "ref" and self.heap[v[1]][0] == "inst":
                m = self.find(self.heap[v[1]][1], "__len__")
                if m:
                    return self.invoke(m, [v], {})
                raise Unk("len of an object")
            return length(self.seq(v))
        if name == "range":
            a = [self.resolve(x) for x in args]
            a = [K(0)] + a if len(a) == 1 else a
            return ("range", a[0], a[1], a[2] if len(a) > 2 else K(1))
        if name == "enumerate":
            st = args[1] if len(args) > 1 else kw.get("start", K(0))
            return ("enum", self.seq(args[0]), st)
        if name == "zip":
            return ("zip",) + tuple(self.seq(x) for x in args)
        if name in ("list", "tuple"):
            s = self.seq(args[0]) if args else ("list",)
            if name == "tuple":
                return s
            return self.new(("list", None, ("list",) + s[1:] if s[0] == "tup" else s))
        if name == "iter":
            return self.seq(args[0])
        if name == "reversed":
            return ("rev", self.seq(args[0]))
        if name == "map":
            acc = self.new(("list", None, ("list",)))
            seqs = [self.seq(x) for x in args[1:]]
            s = seqs[0] if len(seqs) == 1 else ("zip",) + tuple(seqs)

            def body(x):
                self.append(acc, self.call(args[0], [x] if len(seqs) == 1 else [item(x, K(j)) for j in range(len(seqs))], {}, line))
            self.loop_over(s, body)
            return self.heap[acc[1]][2]
        if name == "filter":
            acc = self.new(("list", None, ("list",)))

            def body(x):
                c = self.truth(x) if args[0] == NONE else self.truth(self.call(args[0], [x], {}, line))
                if self.branch(c):
                    self.append(acc, x)
            self.loop_over(self.seq(args[1]), body)
            return self.heap[acc[1]][2]
        if name == "itertools.chain":
            r = ("list",)
            for a in args:
                r = cat(r, self.seq(a))
            return r
        if name == "itertools.chain.from_iterable":
            acc = self.new(("list", None, ("list",)))
            self.loop_over(self.seq(args[0]), lambda x: self.extend(acc, self.seq(x)))
            return self.heap[acc[1]][2]
        if name == "itertools.islice":
            b = [NONE] + list(args[1:]) if len(args) == 2 else list(args[1:])
            return ("slice", self.seq(args[0]), b[0], b[1], NONE)
        if name in ("sum", "functools.reduce", "any", "all", "math.fsum"):
            key = "$acc%d" % self.depth
            old = self.frame.get(key)
            if name in ("sum", "math.fsum"):
                s, init, f = self.seq(args[0]), (args[1] if len(args) > 1 else kw.get("start", K(0))), lambda a, x: op("+", a, self.resolve(x))
            elif name == "functools.reduce":
                if len(args) < 3:
                    raise Unk("reduce without initial value")
                s, init, f = self.seq(args[1]), args[2], lambda a, x: self.call(args[0], [a, x], {}, line)
            else:
                s = self.seq(args[0])
                init = K(name == "all")

                def f(a, x):
                    b = self.branch(self.truth(x))
                    return K(name == "any") if b == (name == "any") else a
            self.frame[key] = init

            def body(x):
                self.frame[key] = f(self.frame[key], x)
            self.loop_over(s, body)
            v = self.frame[key]
            if old is None:
                del self.frame[key]
            else:
                self.frame[key] = old
            return v
        if name == "isinstance":
            v, t = args
            tn = t.n if isinstance(t, Cls) else t.name if isinstance(t, Ext) else None
            if isinstance(v, tuple) and v[0] == "ref" and self.heap[v[1]][0] == "inst" and isinstance(t, Cls):
                return K(self.subclass(self.heap[v[1]][1], t))
            if tn is None:
                raise Unk("isinstance")
            return ("op", "isinstance", self.resolve(v), K(tn))
        if name == "float" and len(args) == 1 and isk(args[0]) and isinstance(args[0][1], (str, int, float)):
            try:
                return K(float(args[0][1]))
            except ValueError:
                pass
        if name in ("bool",):
            return self.truth(args[0])
        if name in ("str", "os.fspath", "os.fsdecode", "pathlib.Path", "pathlib.PurePath") and len(args) == 1 and isinstance(args[0], tuple):
            return ("call", "str", (self.resolve(args[0]),), ())
        if name == "getattr" and len(args) == 2 and isk(args[1]):
            return self.getattr(args[0], args[1][1])
        if name == "super" and not args:
            this = self.frame.get("self")
            return ("super", this, self.frame.get("$cls"))
        if name in ("print", "logging.info", "logging.debug"):
            return NONE
        if name == "operator.add":
            return self.binop("+", args[0], args[1])
        if name == "object.__init__":
            return NONE
        return self.ext(name, args, kw, line)

    def subclass(self, c, t):
        return c.node is t.node or any(self.subclass(b, t) for b in self.bases(c))

    def append(self, ref, v):
        c = self.heap[ref[1]]
        if c[0] != "list":
            raise Unk("append to an object")
        if isinstance(v, tuple) is False:
            v = self.resolve(v)
        self.heap[ref[1]] = ("list", None, cat(c[2], ("list", v)))

    def extend(self, ref, s):
        c = self.heap[ref[1]]
        if s[0] == "tup":
            s = ("list",) + s[1:]
        self.heap[ref[1]] = ("list", None, cat(c[2], s))

    def method(self, this, n, args, kw, line):
        if isinstance(this, tuple) and this[0] == "ref" and self.heap[this[1]][0] == "list":
            c = self.heap[this[1]]
            if n == "append":
                self.append(this, args[0])
                return NONE
            if n == "extend":
                self.extend(this, self.seq(args[0]))
                return NONE
            if n == "copy":
                return self.new(("list", None, c[2]))
            if n == "insert" and args[0] == K(0):
                self.heap[this[1]] = ("list", None, cat(("list", args[1]), c[2]))
                return NONE
            if n == "clear":
                self.heap[this[1]] = ("list", None, ("list",))
                return NONE
            if n == "reverse":
                self.heap[this[1]] = ("list", None, ("rev", c[2]))
                return NONE
            if n == "pop" and (not args or args[0] == K(-1)):
                self.heap[this[1]] = ("list", None, ("slice", c[2], NONE, K(-1), NONE))
                return item(c[2], K(-1))
            if n == "pop" and args[0] == K(0):
                self.heap[this[1]] = ("list", None, ("slice", c[2], K(1), NONE, NONE))
                return item(c[2], K(0))
            raise Unk("list." + n)
        if isinstance(this, tuple) and this[0] == "super":
            if n == "__init__":
                for b in self.bases(this[2]):
                    m = self.find(b, n)
                    if m:
                        return self.invoke(m, [this[1]] + list(args), kw)
                return NONE
            for b in self.bases(this[2]):
                m = self.find(b, n)
                if m:
                    return self.invoke(m, [this[1]] + list(args), kw)
            raise Unk("super." + n)
        if isinstance(this, tuple):
            return self.ext("." + n, [this] + list(args), kw, line)
        raise Unk("method %s" % n)

    # ------------------------------------------------ loops
    def loop(self, seq, body, cond=None):
        """for every index of seq: body(index); cond: for while loops"""
        self.nid += 1
        i = ("idx", self.nid)
        base = self.snap()
        paths = self.explore(lambda: body(i))
        skip = ("$mod", "$cls", "$up")
        changed = set()
        for pc, out, v, st in paths:
            for k, x in st[0].items():
                if k not in skip and (k not in base[0] or base[0][k] is not x and base[0][k] != x):
                    changed.add(("v", k))
            for k, c in st[1].items():
                if k in base[1] and base[1][k] != c:
                    if c[0] == "inst":
                        for f, x in c[2].items():
                            if base[1][k][2].get(f) != x:
                                changed.add(("f", k, f))
                    else:
                        changed.add(("h", k))
        n = length(seq)
        self.restore(base)
        phis = {}
        for c in sorted(changed, key=str):
            if c[0] == "v" and c[1] not in base[0]:
                continue
            phis[c] = ("phi", self.nid, str(c))
        for c, p in phis.items():
            self.put(c, p)
        paths = self.explore(lambda: body(i))
        self.restore(base)
        first_new = min([k for _, _, _, st in paths for k in st[1] if k not in base[1]] or [10 ** 9])

        def get(st, c):
            if c[0] == "v":
                return st[0].get(c[1])
            if c[0] == "h":
                return st[1][c[1]][2]
            return st[1][c[1]][2].get(c[2])
        init = {c: get(base, c) for c in phis}
        allp = set(phis.values())
        P = []
        for pc, out, v, st in paths:
            cur = self.snap()
            self.restore(st)
            keep = lambda k: k in base[1]
            vals = {}
            for c in phis:
                x = get(st, c)
                vals[c] = self.resolve(x, keep) if isinstance(x, tuple) else x
            effs = st[2][len(base[2]):]
            if isinstance(v, tuple):
                v = self.resolve(v, keep)
            self.restore(cur)
            P.append([pc, out, v, vals, effs])
        # local results of an iteration that did not exist before
        fresh = {c: [get(st, c) for _, o, _, st in paths if o == "ok"] for c in changed if c not in phis}
        go = [p for p in P if p[1] == "ok"]
        ex = [p for p in P if p[1] != "ok"]
        # counters
        m = {}
        for c, p in phis.items():
            vs = {repr(x[3][c]) for x in go}
            if len(vs) == 1 and go:
                x = go[0][3][c]
                if isinstance(x, tuple) and x[:2] == ("op", "+") and x[2] == p and isk(x[3]) and isinstance(x[3][1], int):
                    m[p] = op("+", init[c], op("*", x[3], i))
                elif x == p:
                    m[p] = init[c]
        for p in P:
            p[0] = [subst(c, m) for c in p[0]]
            p[2] = subst(p[2], m) if isinstance(p[2], tuple) else p[2]
            p[3] = {c: (subst(v, m) if isinstance(v, tuple) and phis[c] not in m else v) for c, v in p[3].items()}
            p[4] = [(subst(t, m), l) for t, l in p[4]]
        rest = allp - set(m)
        for p in P:
            if mentions(tuple(p[0]), rest):
                raise Unk("a branch of the loop depends on what earlier iterations accumulated")
        cut = or_([and_(p[0]) for p in ex])
        H = ("first", i, n, cut) if ex else n

        def summ(c, H):
            p = phis[c]
            if p in m:
                return subst(m[p], {i: H})
            vs = [(and_(x[0]), x[3][c]) for x in go]
            if not vs:
                return init[c]
            if c[0] == "h":
                parts = []
                for g, v in vs:
                    if v == p:
                        continue
                    if isinstance(v, tuple) and v[0] == "cat" and v[1] == p and not mentions(v[2:], rest):
                        x = v[2] if len(v) == 3 else ("cat",) + v[2:]
                        parts.append((g, x))
                    else:
                        raise Unk("no closed form for the list built in the loop")
                if len(parts) == len(vs) and len({repr(x) for _, x in parts}) == 1:
                    parts = [(TRUE, parts[0][1])]
                return cat(init[c], ("comp", H, i, tuple(parts)))
            # constant assignment under a condition
            setk = [(g, v) for g, v in vs if v != p]
            if all(isinstance(v, tuple) and not mentions(v, rest | {i}) for _, v in setk) and len({repr(v) for _, v in setk}) == 1:
                g = or_([g for g, _ in setk])
                j = ("idx", str(i[1]) + "e")
                return ite(("op", "<", ("first", j, H, subst(g, {i: j})), H), setk[0][1], init[c])
            if len(setk) == len(vs) and all(isinstance(v, tuple) and not mentions(v, rest) for _, v in setk):
                last = op("-", H, K(1))
                v = setk[-1][1]
                for g, x in reversed(setk[:-1]):
                    v = ite(g, x, v)
                return ite(op(">", H, K(0)), subst(v, {i: last}), init[c])
            s = None
            for g, v in vs:
                if v == p:
                    e = K(0)
                elif isinstance(v, tuple) and v[:2] == ("op", "+") and v[2] == p and not mentions(v[3], rest):
                    e = v[3]
                elif isinstance(v, tuple) and v[:2] == ("op", "+") and v[3] == p and not mentions(v[2], rest):
                    e = v[2]
                else:
                    raise Unk("no closed form for a variable of the loop")
                s = e if s is None else ite(g, e, s)
            return op("+", init[c], ("sum", H, i, s))

        # effects
        eparts = []
        for p in go + [x for x in ex if x[4]]:
            if p[4]:
                if mentions(tuple(t for t, _ in p[4]), rest):
                    raise Unk("an effect of the loop depends on what earlier iterations accumulated")
                eparts.append((and_(p[0]), tuple(p[4])))
        broken = None
        if ex:
            broken = self.branch(("op", "<", H, n)) if any(p[1] in ("ret", "raise") for p in ex) or any(
                p[3][c] != phis[c] and phis[c] not in m for p in ex for c in phis) else None
        Hs = H
        if broken is False:
            Hs = n
        if eparts:
            lim = op("+", H, K(1)) if (ex and any(p[4] for p in ex) and broken) else Hs
            if ex and any(p[4] for p in ex) and broken is None:
                lim = ("min", op("+", H, K(1)), n)
            self.eff.append((("loop", lim, i, tuple(eparts)), 0))
        after = {}
        for c in phis:
            try:
                after[c] = summ(c, Hs)
            except Unk as e:
                after[c] = e
        if broken:
            pick = None
            for p in ex[:-1]:
                if self.branch(subst(and_(p[0]), {i: H})):
                    pick = p
                    break
            pick = pick or ex[-1]
            if any(isinstance(after[c], Unk) for c in phis if pick[3][c] is not None and mentions(pick[3][c], {phis[c]})):
                raise next(v for v in after.values() if isinstance(v, Unk))
            mm = {i: H}
            mm.update({phis[c]: after[c] for c in phis if not isinstance(after[c], Unk)})
            for c in phis:
                v = pick[3][c]
                after[c] = subst(v, mm) if isinstance(v, tuple) else v
            self.commit(after)
            v = subst(pick[2], mm) if isinstance(pick[2], tuple) else pick[2]
            if pick[1] == "ret":
                raise Ret(v)
            if pick[1] == "raise":
                raise PyRaise(v)
            return True
        self.commit(after)
        for c, vs in fresh.items():
            if c[0] == "v":
                vs = [x for x in vs]
                if len(vs) == 1 and isinstance(vs[0], tuple) and not mentions(vs[0], rest) and vs[0][0] != "ref":
                    self.frame[c[1]] = subst(subst(vs[0], m), {i: op("-", Hs, K(1))})
                else:
                    self.frame.pop(c[1], None)
        return ("op", "<", H, n) if ex else FALSE

    def commit(self, after):
        for c, v in after.items():
            if isinstance(v, Unk):
                if c[0] == "v":
                    self.frame[c[1]] = v
                    continue
                raise v
            self.put(c, v)

    def put(self, c, v):
        if c[0] == "v":
            self.frame[c[1]] = v
        elif c[0] == "h":
            self.heap[c[1]] = ("list", None, v)
        else:
            self.heap[c[1]][2][c[2]] = v

    # ------------------------------------------------ statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > 300000:
            raise Unk("budget")
        if isinstance(s, ast.Expr):
            self.expr(s.value)
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value)
            for t in s.targets:
                self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value))
        elif isinstance(s, ast.AugAssign):
            cur = self.expr(s.target)
            v = self.expr(s.value)
            if isinstance(cur, tuple) and cur[0] == "ref" and isinstance(s.op, ast.Add):
                self.extend(cur, self.seq(v))
            else:
                self.assign(s.target, self.binop(BIN.get(type(s.op), "?"), cur, v))
        elif isinstance(s, ast.Return):
            raise Ret(self.expr(s.value) if s.value is not None else NONE)
        elif isinstance(s, ast.If):
            if self.branch(self.truth(self.expr(s.test))):
                self.block(s.body)
            else:
                self.block(s.orelse)
        elif isinstance(s, ast.For):
            seq = self.seq(self.expr(s.iter))
            if seq[0] in ("list", "tup"):
                try:
                    for x in seq[1:]:
                        try:
                            self.assign(s.target, x)
                            self.block(s.body)
                        except Cont:
                            pass
                    self.block(s.orelse)
                except Brk:
                    pass
                return

            def body(i):
                self.assign(s.target, item(seq, i))
                self.block(s.body)
            broke = self.loop(seq, body)
            if s.orelse:
                if broke is True:
                    return
                if not self.branch(broke):
                    self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.whileloop(s)
        elif isinstance(s, ast.With):
            opened = []
            for it in s.items:
                v = self.expr(it.context_expr)
                if isinstance(v, tuple) and v[0] == "ref":
                    raise Unk("with a repository object")
                opened.append(v)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
            try:
                self.block(s.body)
            finally:
                for v in reversed(opened):
                    self.eff.append((("call", "close", (v,), ()), s.lineno))
        elif isinstance(s, ast.Raise):
            if s.exc is None:
                raise PyRaise(self.frame.get("$exc", ("exc", "?")))
            raise PyRaise(("exc", ast.unparse(s.exc).split("(")[0]))
        elif isinstance(s, ast.Try):
            self.trystmt(s)
        elif isinstance(s, ast.Assert):
            if not self.branch(self.truth(self.expr(s.test))):
                raise PyRaise(("exc", "AssertionError"))
        elif isinstance(s, ast.FunctionDef):
            self.frame[s.name] = Fun(self.frame["$mod"], s, self.frame, None)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            tmp = Module.__new__(Module)
            tmp.binds, tmp.vals, tmp.name, tmp.path = {}, {}, self.frame["$mod"].name, self.frame["$mod"].path
            Module._scan(tmp, [s])
            for n in tmp.binds:
                self.frame[n] = self.P.lookup(tmp, n)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.Delete) and all(isinstance(t, ast.Name) for t in s.targets):
            for t in s.targets:
                self.frame.pop(t.id, None)
        elif isinstance(s, ast.Delete) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
            t = s.targets[0]
            r = self.expr(t.value)
            if isinstance(r, tuple) and r[0] == "ref" and isinstance(t.slice, ast.UnaryOp) and self.expr(t.slice) == K(-1):
                self.method(r, "pop", [], {}, s.lineno)
            else:
                raise Unk("del")
        else:
            raise Unk("statement %s at line %d" % (type(s).__name__, s.lineno))

    def trystmt(self, s):
        self.trydepth += 1
        try:
            try:
                self.block(s.body)
                ok = True
            finally:
                self.trydepth -= 1
        except PyRaise as e:
            ok = False
            for h in s.handlers:
                tn = ast.unparse(h.type) if h.type is not None else None
                hit = tn in (None, "Exception", "BaseException") or (isinstance(e.v[1], str) and e.v[1] == tn)
                if not hit and not isinstance(e.v[1], str):
                    hit = self.branch(("excmatch", e.v, tn))
                if hit:
                    old = self.frame.get("$exc")
                    self.frame["$exc"] = e.v
                    if h.name:
                        self.frame[h.name] = e.v
                    self.block(h.body)
                    self.frame["$exc"] = old
                    if old is None:
                        self.frame.pop("$exc")
                    break
            else:
                self.block(s.finalbody)
                raise
        except (Ret, Brk, Cont):
            self.block(s.finalbody)
            raise
        if ok:
            self.block(s.orelse)
        self.block(s.finalbody)

    def whileloop(self, s):
        """while i < bound with a counter stepping by one"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.NotEq))):
            raise Unk("while loop at line %d" % s.lineno)
        v = t.left.id
        start = self.frame.get(v)
        bound = self.resolve(self.expr(t.comparators[0]))
        steps = [x for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v]
        if not (isinstance(start, tuple) and len(steps) == 1 and steps[0] in s.body and isinstance(steps[0].op, ast.Add)
                and isinstance(steps[0].value, ast.Constant) and steps[0].value.value == 1):
            raise Unk("while loop at line %d" % s.lineno)
        if any(isinstance(x, ast.Continue) for x in ast.walk(s)) and steps[0] is not s.body[0]:
            raise Unk("while loop with continue")
        seq = ("range", start, bound, K(1))

        def body(i):
            self.block(s.body)
        self.loop(seq, body)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.seq(v)
            if s[0] in ("list", "tup") and len(s) - 1 != len(t.elts):
                raise Unk("unpacking")
            for j, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    raise Unk("starred")
                self.assign(x, item(s, K(j)))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            if not (isinstance(o, tuple) and o[0] == "ref" and self.heap[o[1]][0] == "inst"):
                raise Unk("attribute of an opaque object set")
            self.heap[o[1]][2][t.attr] = v
        else:
            raise Unk("assignment target")

    # ------------------------------------------------ expressions
    def expr_in(self, m, e):
        saved = self.frame
        self.frame = {"$mod": m, "$cls": None, "$up": None}
        try:
            return self.expr(e)
        finally:
            self.frame = saved

    def name(self, n):
        f = self.frame
        while f is not None:
            if n in f and not n.startswith("$"):
                v = f[n]
                if isinstance(v, Unk):
                    raise v
                return v
            f = f.get("$up")
        v = self.P.lookup(self.frame["$mod"], n)
        if v is not None:
            return v
        if n in BUILTINS:
            return Ext(n)
        raise Unk("name " + n)

    def getattr(self, o, a):
        if isinstance(o, Mod):
            r = self.P.member(o.name, a)
            return r
        if isinstance(o, Ext):
            k = o.name + "." + a
            return K(EXTCONST[k]) if k in EXTCONST else Ext(k)
        if isinstance(o, Cls):
            if a in ("__name__", "__qualname__"):
                return K(o.n)
            v = self.find(o, a)
            if v is None:
                raise Unk("attribute %s.%s" % (o.n, a))
            return v
        if isinstance(o, tuple) and o[0] == "ref" and self.heap[o[1]][0] == "inst":
            c = self.heap[o[1]]
            if a == "__class__":
                return c[1]
            if a in c[2]:
                return c[2][a]
            v = self.find(c[1], a)
            if isinstance(v, Fun):
                d = self.decos(v)
                if "property" in d or "cached_property" in d:
                    return self.invoke(v, [o], {})
                if "staticmethod" in d:
                    return v
                return Bound(v, o)
            if v is None:
                raise Unk("attribute %s.%s" % (c[1].n, a))
            return v
        if isinstance(o, tuple) and o[0] == "obj":
            for k, v in o[2]:
                if k == a:
                    return v
            for nm, mod in list(self.P.mods.items()):
                if mod and isinstance(mod.binds.get(o[1]), ast.ClassDef):
                    c = Cls(mod, mod.binds[o[1]])
                    f = self.find(c, a)
                    if isinstance(f, Fun):
                        r = self.new(("inst", c, dict(o[2])))
                        return self.getattr(r, a)
            raise Unk("attribute %s" % a)
        if isinstance(o, tuple) and o[0] == "ite":
            x, y = self.getattr(o[2], a), self.getattr(o[3], a)
            if isinstance(x, tuple) and isinstance(y, tuple):
                return ite(o[1], x, y)
            raise Unk("attribute of a conditional")
        if isinstance(o, tuple):
            if o[0] == "call" and o[1] == "native.VisGraphCoord" and len(o[2]) == 2 and a in ("longitude", "latitude") and False:
                return o[2][0 if a == "longitude" else 1]
            return ("attr", o, a)
        raise Unk("attribute %s of %r" % (a, o))

    def binop(self, o, a, b):
        if o == "+":
            sa = isinstance(a, tuple) and (a[0] == "ref" or a[0] in SEQOPS)
            sb = isinstance(b, tuple) and (b[0] == "ref" or b[0] in SEQOPS)
            if sa or sb:
                x, y = self.seq(a), self.seq(b)
                return self.new(("list", None, cat(x, y)))
        if o == "/" and isinstance(a, tuple) and a[0] == "call" and a[1] == "str":
            return ("call", "os.path.join", (a, self.resolve(b)), ())
        if o == "?":
            raise Unk("operator")
        return op(o, self.resolve(a), self.resolve(b))

    def expr(self, e):
        self.steps += 1
        if isinstance(e, ast.Constant):
            return K(e.value)
        if isinstance(e, ast.Name):
            return self.name(e.id)
        if isinstance(e, ast.Attribute):
            o = self.expr(e.value)
            if isinstance(o, tuple) and o[0] == "ref" and self.heap[o[1]][0] == "list":
                return Method(o, e.attr)
            if isinstance(o, tuple) and o[0] in ("super",):
                return Method(o, e.attr)
            return self.getattr(o, e.attr)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                o = self.expr(e.func.value)
                opq = isinstance(o, tuple) and (o[0] not in ("ref", "obj", "super") or (o[0] == "ref" and self.heap[o[1]][0] == "list")) or (
                    isinstance(o, tuple) and o[0] == "super")
                f = Method(o, e.func.attr) if opq else self.getattr(o, e.func.attr)
                if isinstance(f, tuple):
                    pass
            else:
                f = self.expr(e.func)
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    s = self.seq(self.expr(a.value))
                    if s[0] not in ("list", "tup"):
                        raise Unk("starred argument")
                    args.extend(s[1:])
                else:
                    args.append(self.expr(a))
            kw = {}
            for k in e.keywords:
                if k.arg is None:
                    raise Unk("** argument")
                kw[k.arg] = self.expr(k.value)
            return self.call(f, args, kw, e.lineno)
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left), self.expr(e.right)
            return self.binop(BIN.get(type(e.op), "?"), a, b)
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand)
            if isinstance(e.op, ast.Not):
                return not_(self.truth(v))
            if isinstance(e.op, ast.USub):
                return K(-v[1]) if isk(v) else op("-", K(0), self.resolve(v))
            if isinstance(e.op, ast.UAdd):
                return v
            raise Unk("~")
        if isinstance(e, ast.Compare):
            left = self.expr(e.left)
            r = None
            for o, x in zip(e.ops, e.comparators):
                right = self.expr(x)
                c = self.compare(CMP[type(o)], left, right)
                r = c if r is None else and_([r, c])
                left = right
            return r
        if isinstance(e, ast.BoolOp):
            v = None
            for j, x in enumerate(e.values):
                v = self.expr(x)
                if j == len(e.values) - 1:
                    return v
                if self.branch(self.truth(v)) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.IfExp):
            return self.expr(e.body) if self.branch(self.truth(self.expr(e.test))) else self.expr(e.orelse)
        if isinstance(e, ast.List):
            els = []
            r = ("list",)
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    s = self.seq(self.expr(x.value))
                    r = cat(r, ("list",) + s[1:] if s[0] == "tup" else s)
                else:
                    v = self.expr(x)
                    r = cat(r, ("list", v if isinstance(v, tuple) else self.resolve(v)))
            return self.new(("list", None, r))
        if isinstance(e, ast.Tuple):
            vs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    raise Unk("starred")
                v = self.expr(x)
                vs.append(v if isinstance(v, tuple) else self.resolve(v))
            return ("tup",) + tuple(vs)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(e)
        if isinstance(e, ast.Lambda):
            return Fun(self.frame["$mod"], e, self.frame, self.frame.get("$cls"))
        if isinstance(e, ast.Subscript):
            o = self.expr(e.value)
            if isinstance(o, (Ext, Mod, Cls)):
                return Ext("generic")
            s = self.seq(o)
            if isinstance(e.slice, ast.Slice):
                b = [self.resolve(self.expr(x)) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                if b == [NONE, NONE, NONE]:
                    r = s
                else:
                    r = ("slice", s, b[0], b[1], b[2])
                return self.new(("list", None, r)) if isinstance(o, tuple) and o[0] == "ref" else r
            return item(s, self.resolve(self.expr(e.slice)))
        if isinstance(e, ast.JoinedStr):
            parts = []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    parts.append(K(x.value))
                else:
                    v = self.expr(x.value)
                    parts.append(("call", "str", (self.resolve(v),), ()))
            return ("fmt",) + tuple(parts)
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value)
            self.assign(e.target, v)
            return v
        if isinstance(e, ast.Yield):
            f = self.frame
            while f is not None and "$yield" not in f:
                f = f.get("$up")
            if f is None:
                raise Unk("yield")
            self.append(f["$yield"], self.expr(e.value))
            return NONE
        if isinstance(e, ast.YieldFrom):
            self.extend(self.frame["$yield"], self.seq(self.expr(e.value)))
            return NONE
        raise Unk("expression %s" % type(e).__name__)

    def compare(self, o, a, b):
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == "ref" and self.heap[x[1]][0] == "inst" and o in ("==", "!=") :
                c = self.heap[x[1]][1]
                m = self.find(c, "__eq__")
                if m is not None:
                    r = self.truth(self.invoke(m, [a, b] if x is a else [b, a], {}))
                    return r if o == "==" else not_(r)
        if o in ("is", "isnot") and isinstance(a, tuple) and a[0] == "ref" and b == NONE:
            return K(o == "isnot")
        return op(o, self.resolve(a), self.resolve(b))

    def comp(self, e):
        acc = self.new(("list", None, ("list",)))
        saved = dict(self.frame)

        def gen(k):
            if k == len(e.generators):
                v = self.expr(e.elt)
                self.append(acc, v)
                return
            g = e.generators[k]
            s = self.seq(self.expr(g.iter))

            def body(x):
                self.assign(g.target, x)
                for c in g.ifs:
                    if not self.branch(self.truth(self.expr(c))):
                        return
                gen(k + 1)
            self.loop_over(s, body)
        gen(0)
        for n in list(self.frame):
            if n not in saved and not n.startswith("$"):
                del self.frame[n]
        for n, v in saved.items():
            self.frame[n] = v
        return acc if isinstance(e, ast.ListComp) else self.heap[acc[1]][2]

    # ------------------------------------------------ entry
    def summary(self, fn, args=(), kw=None, this=None):
        """[(path condition, outcome, value, effects)] of a repository function"""
        res = []

        def go():
            f = fn
            a = list(args)
            if this is not None:
                a = [this] + a
            v = self.invoke(f, a, kw or {})
            return self.resolve(v) if isinstance(v, tuple) else v
        n0 = len(self.eff)
        for pc, out, v, st in self.explore(go):
            cur = self.snap()
            self.restore(st)
            if isinstance(v, tuple) and v and v[0] != "exc":
                v = self.resolve(v)
            self.restore(cur)
            res.append((pc, out, v, [(t, l) for t, l in st[2][n0:]], st))
        return res


# ---------------------------------------------------------------- random interpretation of terms
class MObj:
    """a record of the model"""
    def __init__(self, kind, **f):
        self.kind, self.f = kind, f

    def __repr__(self):
        return "%s%s" % (self.kind, self.f)

    def __eq__(self, o):
        return self is o or (isinstance(o, MObj) and self.kind == o.kind and self.f == o.f)

    def __hash__(self):
        return hash(self.kind)


class Op:
    """an uninterpreted value"""
    def __init__(self, *a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Op) and self.a == o.a

    def __hash__(self):
        return hash(repr(self.a))

    def __repr__(self):
        return "%s%r" % (self.a[0], tuple(self.a[1:]))


class Fault(Exception):
    """an operation that fails (raises) in the model"""


class Model:
    strict = False          # do effects outside a try statement raise too?

    def __init__(self, rng, syms, calls=None, attrs=None, raises=None, exts=None):
        self.exts = exts or {}
        self.rng, self.syms, self.calls, self.attrs = rng, syms, calls or {}, attrs or {}
        self.raises = raises or (lambda t: False)

    def ev(self, t, env=None):
        try:
            return self.ev_(t, env)
        except (TypeError, IndexError, KeyError, AttributeError, ZeroDivisionError) as e:
            raise Fault("%s: %s" % (type(e).__name__, e))

    def ev_(self, t, env=None):
        env = env or {}
        k = t[0]
        if k == "k":
            return t[1]
        if k == "sym":
            return self.syms[t[1]]
        if k == "idx":
            return env[t]
        if k == "attr":
            return self.attr(self.ev(t[1], env), t[2])
        if k == "op":
            if t[1] == "isinstance":
                v = self.ev(t[2], env)
                return self.isinst(v, t[3][1])
            a, b = self.ev(t[2], env), self.ev(t[3], env)
            if t[1] == "is":
                return a is b or (type(a) is type(b) and not isinstance(a, (MObj, Op, list)) and a == b)
            if t[1] == "in":
                return a in b
            if isinstance(a, Op) or isinstance(b, Op):
                if t[1] == "==":
                    return a == b
                if t[1] == "!=":
                    return a != b
                return Op("op" + t[1], a, b)
            try:
                return PYOP[t[1]](a, b)
            except Exception as e:
                raise Fault(str(e))
        if k == "not":
            return not self.ev(t[1], env)
        if k == "and":
            return all(self.ev(x, env) for x in t[1:])
        if k == "or":
            return any(self.ev(x, env) for x in t[1:])
        if k == "ite":
            return self.ev(t[2] if self.ev(t[1], env) else t[3], env)
        if k == "truth":
            v = self.ev(t[1], env)
            return bool(v) if not isinstance(v, (Op, MObj)) else True
        if k in ("list",):
            return [self.ev(x, env) for x in t[1:]]
        if k == "tup":
            return tuple(self.ev(x, env) for x in t[1:])
        if k == "obj":
            return MObj(t[1], **{n: self.ev(v, env) for n, v in t[2]})
        if k == "len":
            return len(self.ev(t[1], env))
        if k == "item":
            s, i = self.ev(t[1], env), self.ev(t[2], env)
            if isinstance(s, Op):
                return Op("item", s, i)
            try:
                return s[i]
            except Exception as e:
                raise Fault(str(e))
        if k == "slice":
            s = self.ev(t[1], env)
            a, b, c = [self.ev(x, env) for x in t[2:5]]
            if isinstance(s, Op):
                return Op("slice", s, a, b, c)
            return list(s[a:b:c]) if isinstance(s, list) else s[a:b:c]
        if k == "cat":
            r = []
            for x in t[1:]:
                r.extend(self.ev(x, env))
            return r
        if k == "range":
            return list(range(*[self.ev(x, env) for x in t[1:]]))
        if k == "enum":
            return [(j, x) for j, x in enumerate(self.ev(t[1], env), self.ev(t[2], env))]
        if k == "zip":
            return list(zip(*[self.ev(x, env) for x in t[1:]]))
        if k == "rev":
            return list(reversed(self.ev(t[1], env)))
        if k == "min":
            return min(self.ev(t[1], env), self.ev(t[2], env))
        if k == "first":
            n = self.ev(t[2], env)
            e2 = dict(env)
            for j in range(n):
                e2[t[1]] = j
                if self.ev(t[3], e2):
                    return j
            return n
        if k == "comp":
            n = self.ev(t[1], env)
            out = []
            e2 = dict(env)
            for j in range(n):
                e2[t[2]] = j
                for g, x in t[3]:
                    if self.ev(g, e2):
                        out.extend(self.ev(x, e2))
                        break
            return out
        if k == "sum":
            n = self.ev(t[1], env)
            e2 = dict(env)
            r = 0
            for j in range(n):
                e2[t[2]] = j
                r += self.ev(t[3], e2)
            return r
        if k == "fmt":
            return "".join(str(self.ev(x, env)) for x in t[1:])
        if k == "raises":
            return self.raises(self.ev(t[1], env))
        if k == "excmatch":
            return self.raises(("match", t[2], repr(self.ev(t[1][1], env))))
        if k == "ext":
            return self.exts[t[1]] if t[1] in self.exts else Op("ext", t[1])
        if k == "exc":
            return Op("exc", self.ev(t[1], env) if isinstance(t[1], tuple) else t[1])
        if k == "call":
            return self.callv(t[1], [self.ev(x, env) for x in t[2]], {n: self.ev(v, env) for n, v in t[3]})
        raise Unk("term " + str(k))

    def isinst(self, v, tn):
        if isinstance(v, MObj):
            return v.kind == tn or tn in v.f.get("$is", ())
        return False

    def attr(self, v, n):
        if isinstance(v, MObj):
            if n in v.f:
                return v.f[n]
            raise Fault("attribute " + n)
        h = self.attrs.get(n)
        if h is not None:
            r = h(v)
            if r is not NotImplemented:
                return r
        return Op("attr", v, n)

    def callv(self, name, args, kw):
        if name in self.calls:
            r = self.calls[name](*args, **kw)
            if r is not NotImplemented:
                return r
        if name == "os.path.join":
            return os.path.join(*args)
        if name == "str" and isinstance(args[0], (str, int)):
            return str(args[0])
        if name in ("round", "math.floor", "math.ceil", "math.trunc", "pow", "sum") and args and not kw and all(isinstance(x, (int, float, Fraction)) or (name == "sum" and isinstance(x, (list, tuple))) for x in args):
            try:
                return {"round": round, "math.floor": math.floor, "math.ceil": math.ceil, "math.trunc": math.trunc, "pow": pow, "sum": sum}[name](*args)
            except (TypeError, OverflowError):
                pass
        if name in ("min", "max", "abs", "int", "float", "divmod", "sorted"):
            try:
                a = [x for x in args]
                if any(isinstance(x, (Op, MObj)) for x in a):
                    return Op("call", name, tuple(a), tuple(sorted(kw.items())))
                if name == "float":
                    return a[0]
                return {"min": min, "max": max, "abs": abs, "int": int, "divmod": divmod, "sorted": sorted}[name](*a, **kw)
            except TypeError:
                pass
        return Op("call", name, tuple(args), tuple(sorted(kw.items())))

    def trace(self, effs, env=None):
        """the effects of a path, in order"""
        out = []
        for t, line in effs:
            if t[0] == "loop":
                n = self.ev(t[1], env)
                e2 = dict(env or {})
                for j in range(n):
                    e2[t[2]] = j
                    for g, es in t[3]:
                        if self.ev(g, e2):
                            out.extend(self.trace(es, e2))
                            break
            else:
                out.append((t[1], [self.ev(x, env) for x in t[2]], {n: self.ev(v, env) for n, v in t[3]}, line))
        return out

    def fails(self, pc, effs):
        """the index of the first effect that raises outside every try statement"""
        tried = {c[1] for c in pc if c[0] == "raises"} | {c[1][1] for c in pc if c[0] == "not" and c[1][0] == "raises"}
        for j, (t, line) in enumerate(effs):
            if t[0] == "call" and t not in tried and self.raises(self.ev(t)):
                return j
        return None

    def outcome(self, paths):
        """the outcome of a summary in this model: (kind, value, trace)"""
        for pc, out, v, effs, _ in paths:
            ok = True
            for c in pc:
                try:
                    if not self.ev(c):
                        ok = False
                        break
                except Fault as e:
                    return "raise", Op("exc", "Fault"), []
            if not ok:
                continue
            try:
                if self.strict:
                    j = self.fails(pc, effs)
                    if j is not None:
                        return "raise", Op("exc", "Fault"), self.trace(effs[:j])
                val = self.ev(v) if isinstance(v, tuple) else v
                return out, val, self.trace(effs)
            except Fault as e:
                return "raise", Op("exc", "Fault"), []
        raise Unk("no path applies")


DRIVER = "$driver"


def driver(P, src):
    """a function of analysis code over the repository's public names, summarised like repository code"""
    m = Module.__new__(Module)
    m.name, m.path, m.rel = DRIVER, DRIVER, DRIVER
    m.tree = ast.parse(src)
    m.binds, m.vals = {}, {}
    m._scan(m.tree.body)
    f = [b for b in m.tree.body if isinstance(b, ast.FunctionDef)][-1]
    return Fun(m, f)
