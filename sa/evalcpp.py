"""Gated value-flow evaluation of the resolved C++ program over the term domain.

One abstract state per program point (branches are merged with gated values at joins, loops are
summarised by solving their recurrences), calls to repository functions are followed
interprocedurally, library calls are modelled in models.py.  Side effects, synchronisation,
resource and library operations are recorded as events with operands, guard, loop nest and location.
"""
import struct
from fractions import Fraction

from . import terms as tm
from .program import Ty, relpath
from .terms import TRUE, FALSE, T, const, mk, and_, or_, not_, ite


class Dead(Exception):
    """control does not continue past the current expression"""


class Unsupported(Exception):
    pass


class LV:
    __slots__ = ("root", "path", "ty")

    def __init__(self, root, path=(), ty=None):
        self.root, self.path, self.ty = root, path, ty

    def key(self):
        return (self.root, tuple((k, x) for k, x, _ in self.path))

    def ext(self, kind, key, ty):
        return LV(self.root, self.path + ((kind, key, ty),), ty)

    def __repr__(self):
        return "LV(%s%s)" % (self.root, "".join("." + str(x) if k == "f" else "[%s]" % (x,) for k, x, _ in self.path))


class St:
    __slots__ = ("env", "pc", "ev")

    def __init__(self, env=None, pc=(), ev=None):
        self.env, self.pc, self.ev = env if env is not None else {}, pc, ev if ev is not None else []

    def copy(self):
        return St(dict(self.env), self.pc, list(self.ev))

    def become(self, o):
        self.env, self.pc, self.ev = o.env, o.pc, o.ev


class Out:
    __slots__ = ("kind", "S", "val", "info", "line", "fn")

    def __init__(self, kind, S, val=None, info=None, line=None, fn=None):
        self.kind, self.S, self.val, self.info, self.line, self.fn = kind, S, val, info, line, fn


class Ev:
    __slots__ = ("kind", "a", "pc", "loops", "line", "fn", "held", "region", "extra")

    def __init__(self, kind, a, pc, loops, line, fn, held, region, extra=None):
        self.kind, self.a, self.pc, self.loops, self.line, self.fn = kind, a, pc, loops, line, fn
        self.held, self.region, self.extra = held, region, extra

    def where(self):
        return "%s:%s (%s)" % (relpath(self.fn.file), self.line, self.fn.qn) if self.fn else "?"

    def guard(self):
        return and_(*self.pc)

    def subst(self, s):
        f = lambda x: tm.subst(x, s) if isinstance(x, T) else tuple(f(y) for y in x) if isinstance(x, tuple) else \
            subst_lv(x, s) if isinstance(x, LV) else x
        return Ev(self.kind, tuple(f(x) for x in self.a), f(self.pc), self.loops, self.line, self.fn,
                  tuple((tm.subst(m, s), k, tm.subst(c, s)) for m, k, c in self.held), self.region, self.extra)

    def __repr__(self):
        return "<%s %s @%s:%s>" % (self.kind, ", ".join(map(str, self.a)), self.fn.qn if self.fn else "", self.line)


def subst_lv(lv, s):
    r = lv.root
    if isinstance(r, tuple) and r[0] == "d":
        r = ("d", tm.subst(r[1], s))
    return LV(r, tuple((k, tm.subst(x, s) if isinstance(x, T) else x, t) for k, x, t in lv.path), lv.ty)


class Loop:
    """summary of one loop"""
    __slots__ = ("id", "k", "n", "line", "fn", "phis", "cond", "kind", "par", "over", "unsolved", "exits", "exact", "exitsym", "closed", "breaks")

    def __init__(self, i):
        self.id = i
        self.phis = {}      # root -> (phi term, init term, step term)
        self.unsolved = set()
        self.exits = []
        self.breaks = []
        self.par = None
        self.over = None
        self.exact = True
        self.exitsym = {}
        self.closed = {}


class Frame:
    __slots__ = ("fid", "fn", "tu", "this", "vars", "caps", "depth", "ret_ty", "locals")

    def __init__(self, fid, fn, this, depth):
        self.fid, self.fn, self.tu, self.this, self.depth = fid, fn, fn.tu, this, depth
        self.vars, self.caps = {}, {}


ATOMS = ("at", "mget", "val", "deref", "app", "fld", "sym", "opaque")
LVALS = {}        # id -> LV  (iterators, pointers)
_lvn = [0]


def lvh(lv):
    k = ("lv",) + lv.key()
    t = mk("lvh", k)
    LVALS[t] = lv
    return t


def ptr(lv):
    return mk("ptr", lvh(lv))


def typed(t, ty):
    if ty is None:
        return t
    if t.op == "ite":
        a, b = typed(t.a[1], ty), typed(t.a[2], ty)
        return t if a is t.a[1] and b is t.a[2] else ite(t.a[0], a, b)
    if t.op not in ATOMS:
        return t
    ty = ty.noref()
    k = ty.k
    s = ty.sort()
    if t.sort != s:
        old = t
        t = mk(t.op, *t.a, sort=s)
        if old in tm.ELEM_TYPE and t not in tm.ELEM_TYPE:
            tm.ELEM_TYPE[t] = tm.ELEM_TYPE[old]
    if k in ("int", "enum") and t not in tm.SYM_RANGE and t.op != "opaque":
        tm.SYM_RANGE[t] = ty.range()
        t._rng = None
    if k == "rec":
        tm.set_type(t, ty.rec())
        n = ty.rec()
        if n in SEQS and t not in tm.ELEM_TYPE:
            e = ty.targ(0)
            if e is not None:
                tm.ELEM_TYPE[t] = (e.sort(), e.rec() if e.k == "rec" else None, e.range() if e.is_int() else None)
    return t


SEQS = ("std::vector", "std::array", "std::initializer_list", "std::deque", "std::list", "std::basic_string", "std::span")
MAPS = ("std::unordered_map", "std::map")
SETS = ("std::unordered_set", "std::set")
MULTI = ("std::multimap", "std::unordered_multimap", "std::multiset")
SMART = ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr_access", "std::__shared_ptr", "std::weak_ptr")
LOCKS = {"std::unique_lock": "x", "std::shared_lock": "s", "std::lock_guard": "x", "std::scoped_lock": "x"}


class Eval:
    MAXD = 24

    def __init__(self, prog, opaque=(), exact=False, dispatch=None, inline_virtual=True, throwing=(), inplace=()):
        self.P = prog
        self.inplace = dict(inplace)       # of the uninterpreted ones, those whose effect on an argument is given
        self.throwing = set(throwing)      # of those, the ones that may throw
        self.opaque = set(opaque)          # qualified names treated as uninterpreted functions
        self.exact = exact                 # float arithmetic stays uninterpreted
        self.dispatch = dispatch or {}
        self.sink = [[]]
        self.loops = []
        self.regions = []
        self.frames = []
        self.nfid = 0
        self.sinks = set()
        self.nheap = 0
        self.birth = {}
        self.clock = 0
        self.nloop = 0
        self.unk = []                      # constructs that were not interpreted
        self.dry = 0
        self.loopinfo = []
        self.visited = set()
        self.active = []
        self.closures = {}
        self.dyn = {}                      # heap root -> dynamic class
        self.catch = []
        from . import models
        self.M = models
        self.steps = 0

    # ------------------------------------------------------------- helpers
    @property
    def fr(self):
        return self.frames[-1]

    def ty(self, i):
        return self.fr.tu.ty(i)

    def note(self, why, node=None):
        self.unk.append((why, node.get("l") if isinstance(node, dict) else None, self.fr.fn.qn if self.frames else None))

    def opq(self, why, S=None, sort="o", node=None):
        self.note(why, node)
        return tm.opaque(why, sort)

    def event(self, S, kind, *a, node=None, extra=None):
        held = tuple((r[1], v[0], v[1]) for r, v in S.env.items() if isinstance(r, tuple) and r[0] == "held" and v[1] is not FALSE)
        e = Ev(kind, a, S.pc, tuple(self.loops), node.get("l") if isinstance(node, dict) else node, self.fr.fn if self.frames else None,
               held, tuple(self.regions), extra)
        S.ev.append(e)
        return e

    def heap(self, S, v, ty=None, tag="h"):
        self.nheap += 1
        r = (tag, self.nheap)
        self.clock += 1
        self.birth[r] = self.clock
        S.env[r] = v
        return LV(r, (), ty)

    def assume(self, S, c):
        c = self.simp(S, c)
        if c is FALSE:
            return False
        if c is not TRUE:
            S.pc = S.pc + ((c.a) if c.op == "and" else (c,))
        return True

    def simp(self, S, c):
        """simplify a condition under the path condition"""
        if c is TRUE or c is FALSE:
            return c
        pcs = set(S.pc)
        if c in pcs:
            return TRUE
        n = not_(c)
        if n in pcs:
            return FALSE
        if not S.pc:
            return c
        fc = tm.free(c)
        rel = [p for p in S.pc if (tm.free(p) & fc) or p.op in ("or",)][-12:]
        if not rel:
            return c
        if and_(*rel, c) is FALSE:
            return FALSE
        if and_(*rel, n) is FALSE:
            return TRUE
        return c

    # ------------------------------------------------------------- memory
    def load0(self, S, root, ty=None):
        v = S.env.get(root)
        if v is not None:
            return v
        k = root[0]
        if k == "d":
            v = mk("deref", root[1])
            b = root[1]
            if b.op == "box":
                return b.a[0]
            if b.op == "ite":
                # one of two known objects
                x, y = (self.pointee(S, p, ty) for p in b.a[1:])
                if isinstance(x, T) and isinstance(y, T):
                    return ite(b.a[0], x, y)
            if ty is not None:
                v = typed(v, ty)
            return v
        if k == "g":
            return self.global_value(S, root, ty)
        return self.opq("uninitialised %s" % (root,), sort=ty.sort() if ty else "o")

    def pointee(self, S, p, ty):
        if p.op == "ptr":
            lv = LVALS[p.a[0]]
            return self.load(S, LV(lv.root, lv.path, lv.ty or ty))
        if p.op in ("ite", "box", "sym", "fld"):
            return self.load0(S, ("d", p), ty)
        return None

    def global_value(self, S, root, ty):
        g = self.P.globals.get(root[1])
        if g is None or not g[1].get("const") or "init" not in g[1]:
            s = tm.sym("global:%s" % root[1])
            return typed(s, ty) if ty else s
        tu, o = g
        fr = Frame(-1, self.fr.fn, None, 0)
        fr.tu = tu
        self.frames.append(fr)
        try:
            v = self.rv(o["init"], S)
        finally:
            self.frames.pop()
        return v

    def rootty(self, lv):
        return lv.ty if not lv.path else None

    def load(self, S, lv):
        t = self.load0(S, lv.root, lv.ty if not lv.path else getattr(lv, "rt", None))
        if isinstance(t, LV):
            return self.load(S, t)
        for k, x, ty in lv.path:
            t = self.proj(t, k, x, ty)
        if not lv.path and lv.ty is not None:
            t = typed(t, lv.ty)
        if self.regions or (lv.path and lv.root[0] != "v"):
            self.access(S, "rd", lv)
        return t

    def proj(self, t, k, x, ty):
        s = ty.sort() if ty is not None else "o"
        if k == "f":
            r = tm.fld(t, x, s)
        elif k == "i":
            r = tm.at(t, x, s)
        elif k == "m":
            r = tm.mget(t, x, s)
        elif k == "v":
            r = tm.opt_value(t, s)
        else:
            raise Unsupported(k)
        return typed(r, ty)

    def put(self, S, lv, v):
        root = lv.root
        if root not in self.birth:
            self.clock += 1
            self.birth[root] = self.clock if root[0] in ("v", "h", "t") else 0
        S.env[root] = self._put(self.load0(S, root) if lv.path else None, lv.path, 0, v)
        if root in self.sinks and lv.path:
            self.event(S, "store", lv.path[0][1] if len(lv.path) == 1 and lv.path[0][0] == "i" else None, v, node=self.cur)
        self.access(S, "wr", lv, v)

    def _put(self, t, path, i, v):
        if i == len(path):
            return v
        k, x, ty = path[i]
        if i + 1 < len(path):
            inner = self._put(self.proj(t, k, x, ty), path, i + 1, v)
        else:
            inner = v
        if k == "f":
            return tm.with_fld(t, x, inner)
        if k == "i":
            return tm.upd(t, x, inner)
        if k == "m":
            return tm.mput(t, x, inner)
        if k == "v":
            return tm.some(inner)
        raise Unsupported(k)

    def access(self, S, kind, lv, v=None):
        r = lv.root
        if r[0] == "held":
            return
        if self.regions:
            if self.birth.get(r, 0) > self.regions[-1].birth:
                return
        elif r[0] in ("v", "t") or (r[0] == "h" and kind == "rd"):
            return
        self.event(S, kind, lv, *(() if v is None else (v,)), node=self.cur)

    cur = None

    def deref(self, S, p, ty=None):
        """lvalue a pointer value points to"""
        if p.op == "ptr":
            lv = LVALS[p.a[0]]
            return LV(lv.root, lv.path, lv.ty or ty)
        if p.op == "ite":
            c = self.simp(S, p.a[0])
            if c is TRUE:
                return self.deref(S, p.a[1], ty)
            if c is FALSE:
                return self.deref(S, p.a[2], ty)
            # dereferencing null or a past-the-end position is undefined: only the other value can be meant
            if p.a[1].op in ("null", "mend"):
                return self.deref(S, p.a[2], ty)
            if p.a[2].op in ("null", "mend"):
                return self.deref(S, p.a[1], ty)
        if p.op in ("iter", "riter", "mit", "mend"):
            return self.M.iter_deref(self, S, p, ty)
        if p.op == "box":
            if ("d", p) not in S.env:
                S.env[("d", p)] = p.a[0]
            return LV(("d", p), (), ty)
        lv = LV(("d", p), (), ty)
        if ty is not None and ("d", p) not in S.env and p.op != "ite":
            S.env[("d", p)] = typed(mk("deref", p), ty)
        return lv

    # ------------------------------------------------------------- merging
    def merge(self, c, A, B, base):
        """A under c, B otherwise"""
        if A is None:
            return B
        if B is None:
            return A
        env = {}
        ea, eb = A.env, B.env
        for k in ea.keys() | eb.keys():
            a, b = ea.get(k), eb.get(k)
            if a is b:
                env[k] = a
            elif a is None or b is None:
                if isinstance(k, tuple) and k[0] == "held":
                    x = a or b
                    env[k] = (x[0], and_(c, x[1]) if b is None else and_(not_(c), x[1]))
                elif isinstance(k, tuple) and k[0] in ("d",):
                    dv = mk("deref", k[1])
                    x = a if a is not None else b
                    if isinstance(x, T):
                        dv = self._like(dv, x)
                        env[k] = ite(c, a if a is not None else dv, b if b is not None else dv)
                    else:
                        env[k] = x
                else:
                    env[k] = a if a is not None else b
            elif isinstance(k, tuple) and k[0] == "held":
                env[k] = (a[0], ite(c, a[1], b[1]))
            else:
                env[k] = ite(c, a, b)
        # events: common prefix, then both suffixes
        n = 0
        la, lb = A.ev, B.ev
        m = min(len(la), len(lb))
        while n < m and la[n] is lb[n]:
            n += 1
        ev = la + lb[n:]
        ca, cb = and_(*A.pc[len(base):]), and_(*B.pc[len(base):])
        x = or_(ca, cb)
        pc = base if x is TRUE else base + (x.a if x.op == "and" else (x,))
        return St(env, pc, ev)

    def _like(self, t, x):
        if x in tm.TYPE_OF:
            tm.set_type(t, tm.TYPE_OF[x])
        elif x.op == "rec":
            tm.set_type(t, x.a[0])
        return t

    def merge_all(self, items, base):
        """items: [(state, value)], mutually exclusive; returns (state, value)"""
        if not items:
            return None, None
        S, v = items[-1]
        for s2, v2 in reversed(items[:-1]):
            c = and_(*s2.pc[len(base):])
            if c is TRUE:
                S, v = s2, v2
                continue
            if v is not None and v2 is not None:
                if isinstance(v, LV) or isinstance(v2, LV):
                    if isinstance(v, LV) and isinstance(v2, LV) and v.key() == v2.key():
                        nv = v
                    else:
                        a = self.load(s2, v2) if isinstance(v2, LV) else v2
                        b = self.load(S, v) if isinstance(v, LV) else v
                        nv = ("mixed", ite(c, a, b), v.ty if isinstance(v, LV) else v2.ty)
                elif isinstance(v, tuple) or isinstance(v2, tuple):
                    a = v2[1] if isinstance(v2, tuple) else self.load(s2, v2) if isinstance(v2, LV) else v2
                    b = v[1] if isinstance(v, tuple) else self.load(S, v) if isinstance(v, LV) else v
                    nv = ("mixed", ite(c, a, b), None)
                else:
                    nv = ite(c, v2, v)
            else:
                nv = v
            S = self.merge(c, s2, S, base)
            v = nv
        if isinstance(v, tuple):
            v = self.heap(S, v[1], v[2], "t")
        return S, v

    # ------------------------------------------------------------- running functions
    def run(self, fn, args=None, this=None, S=None, names=None):
        """evaluate a function on symbolic arguments; returns Result"""
        S = S or St()
        self.sink = [[]]
        base = S.pc
        if args is None:
            args = self.symargs(fn, S, names)
        if this is None and fn.kind in ("method", "dtor") and not fn.o.get("static"):
            this = self.symthis(fn, S)
        fake = Frame(-2, fn, None, 0)
        self.frames.append(fake)
        if this is None and fn.kind == "ctor":
            this = LV(("arg", "this"), (), None)
            self.birth[this.root] = 0
            S.env[this.root] = tm.rec(fn.cls, [])
        v = None
        try:
            try:
                v = self.call_fn(fn, args, this, S, None)
            except Dead:
                S = None
        finally:
            self.frames.pop()
        return Result(self, fn, S, v, list(self.sink[0]), base)

    def symargs(self, fn, S, names=None):
        args = []
        for i, p in enumerate(fn.params()):
            ty = fn.tu.ty(p["t"])
            n = (names[i] if names else None) or p["n"] or "arg%d" % i
            args.append(self.symval(S, n, ty))
        return args

    def symval(self, S, name, ty):
        """a symbolic argument: value, or an lvalue for references"""
        if ty.k == "ref":
            pt = ty.pointee()
            r = ("arg", name)
            self.birth[r] = 0
            S.env[r] = typed(tm.sym(name), pt)
            return LV(r, (), pt)
        return typed(tm.sym(name), ty)

    def symthis(self, fn, S, name="this"):
        r = ("arg", name)
        self.birth[r] = 0
        t = tm.sym(name)
        tm.set_type(t, fn.cls)
        if r not in S.env:
            S.env[r] = t
        return LV(r, (), None)

    def call_fn(self, fn, args, this, S, node):
        """inline a repository function; args are LVs (for reference parameters) or values"""
        if len(self.frames) > self.MAXD or sum(1 for f in self.frames if f.fn is fn) > 3:
            return self.opaque_call(fn, args, this, S, node)
        self.visited.add(fn.usr)
        self.nfid += 1
        fr = Frame(self.nfid, fn, this, len(self.frames))
        base = S.pc
        base_env = S.env
        self.frames.append(fr)
        nsink = len(self.sink[-1])
        outs = []
        try:
            params = fn.params()
            for i, p in enumerate(params):
                pty = fn.tu.ty(p["t"])
                a = args[i] if i < len(args) else None
                if a is None:
                    if p.get("def") is not None:
                        a = self.rv_or_lv(p["def"], S, pty)
                    else:
                        a = self.opq("missing argument", node=node)
                self.bind_param(fr, p, pty, a, S)
            if fn.kind == "ctor":
                self.run_inits(fn, this, S)
            R = self.exec(fn.body, S, outs) if fn.body else S
            items = [(o.S, o.val) for o in outs if o.kind == "ret"]
            if R is not None:
                items.append((R, tm.UNIT))
            if not items:
                raise Dead()
            # parameters passed by value are destroyed here
            S2, v = self.merge_all(items, base)
            S.become(S2)
            rty = fn.ret()
            if isinstance(v, LV) and rty.k != "ref":
                v = self.load(S, v)
            return v
        finally:
            self.frames.pop()

    def bind_param(self, fr, p, pty, a, S):
        if pty.k == "ref":
            if isinstance(a, LV):
                fr.vars[p["id"]] = LV(a.root, a.path, a.ty or pty.pointee())
            else:
                fr.vars[p["id"]] = self.heap(S, a, pty.pointee(), "t")
        else:
            if isinstance(a, LV):
                a = self.load(S, a)
            r = ("v", fr.fid, p["id"])
            self.clock += 1
            self.birth[r] = self.clock
            S.env[r] = a
            fr.vars[p["id"]] = LV(r, (), pty)

    def run_inits(self, fn, this, S):
        rec = self.P.records.get(fn.cls)
        inits = fn.o.get("inits") or []
        deleg = [i for i in inits if i.get("deleg")]
        if deleg:
            v = self.rv(deleg[0]["e"], S)
            self.put(S, this, v)
            return
        if rec is None:
            return
        tu, r = rec
        given = {i["f"]: i["e"] for i in inits if "f" in i}
        fields = []
        cur = tm.rec(fn.cls, [(f["n"], tm.opaque("uninitialised field " + f["n"], tu.ty(f["t"]).sort())) for f in r["fields"]])
        S.env[this.root] = self._put(S.env.get(this.root), this.path, 0, cur) if this.path else cur
        for f in r["fields"]:
            fty = tu.ty(f["t"])
            if f["n"] in given:
                e = given[f["n"]]
                v = self.rv_or_lv(e, S, fty)
                if isinstance(v, LV):
                    v = mk("refto", lvh(v))
            elif f.get("init") is not None:
                fr2 = Frame(self.fr.fid, fn, this, 0)
                fr2.tu = tu
                self.frames.append(fr2)
                v = self.rv(f["init"], S)
                self.frames.pop()
            else:
                v = self.default_value(fty, S, uninit=True)
            S.env[this.root] = self._put(S.env[this.root], this.path + (("f", f["n"], fty),), 0, v)

    def default_value(self, ty, S, uninit=False):
        k = ty.k
        if k in ("int", "enum"):
            return tm.opaque("uninitialised", "i") if uninit else const(0)
        if k == "bool":
            return tm.opaque("uninitialised", "b") if uninit else FALSE
        if k == "float":
            return tm.opaque("uninitialised", "r") if uninit else const(0, "r")
        if k == "ptr":
            return tm.NULL
        if k == "arr":
            return tm.opaque("array")
        if k == "rec":
            n = ty.rec()
            m = self.M.default_ctor(self, n, ty)
            if m is not None:
                return m
            if n in self.P.records:
                tu, r = self.P.records[n]
                ctors = [f for f in self.P.methods(n) if f.kind == "ctor" and not f.params()]
                if ctors:
                    lv = self.heap(S, tm.rec(n, []), ty)
                    self.call_fn(ctors[0], [], lv, S, None)
                    return S.env.pop(lv.root)
                return self.record_default(n, S, uninit)
        return tm.app("default:" + ty.s)

    def record_default(self, n, S, uninit=False):
        tu, r = self.P.records[n]
        out = []
        for f in r["fields"]:
            if f.get("init") is not None:
                fr2 = Frame(-3, self.fr.fn, None, 0)
                fr2.tu = tu
                self.frames.append(fr2)
                v = self.rv(f["init"], S)
                self.frames.pop()
            else:
                v = self.default_value(tu.ty(f["t"]), S, uninit)
            out.append((f["n"], v))
        return tm.rec(n, out)

    def fresh_app(self, S, name, node):
        """a value no input determines"""
        self.clock += 1
        r = tm.app(name, const(self.clock), sort="i")
        tm.SYM_RANGE[r] = (0, (1 << 32) - 1)
        return r

    def argval(self, a, S):
        return self.load(S, a) if isinstance(a, LV) else a

    def opaque_call(self, fn, args, this, S, node):
        qn = fn.qn
        vals = []
        muts = []
        if fn.n in ("operator==", "operator!=") and this is not None and len(args) == 1:
            eq = tm.eqt(self.load(S, this), self.argval(args[0], S))
            return eq if fn.n == "operator==" else not_(eq)
        for i, a in enumerate(args):
            vals.append(self.argval(a, S))
            if isinstance(a, LV) and i < len(fn.params()):
                pty = fn.pty(i)
                if pty.k == "ref" and not pty.pointee().const:
                    muts.append(a)
        tv = []
        if this is not None and fn.kind not in ("ctor",):
            tv = [self.load(S, this)]
        rty = fn.ret()
        self.event(S, "call", qn, *tv, *vals, node=node, extra=this)
        if qn in self.throwing:
            # whether an update fails is taken not to depend on earlier updates
            tv2 = tv if fn.o.get("const") else []
            self.throw_if(S, tm.app("throws:" + qn, *tv2, *vals, sort="b"), "std::exception", tm.app("exception:" + qn, *tv, *vals), node)
        r = tm.app(qn, *tv, *vals, sort=rty.noref().sort())
        r = typed(r, rty)
        if this is not None and not fn.o.get("const") and not fn.o.get("static"):
            nv = tm.app(qn + "'", *tv, *vals)
            if fn.cls:
                tm.set_type(nv, fn.cls)
            self.put(S, this, nv)
        for j, m in enumerate(muts):
            nv = self.inplace[qn](self.load(S, m)) if qn in self.inplace else None
            self.put(S, m, nv if nv is not None else typed(tm.app("%s'%d" % (qn, j), *tv, *vals), m.ty))
        if rty.k == "ref":
            return self.heap(S, r, rty.pointee(), "t")
        return r

    # ------------------------------------------------------------- statements
    def exec(self, s, S, outs):
        """returns the state after s, or None"""
        if s is None:
            return S
        self.steps += 1
        k = s["s"]
        self.cur = s
        try:
            m = getattr(self, "s_" + k, None)
            if m is None:
                self.note("statement " + k, s)
                return S
            return m(s, S, outs)
        except Dead:
            return None

    def s_block(self, s, S, outs):
        nd = len(outs)
        ns = len(self.sink[-1])
        sink = self.sink[-1]
        decls = []
        R = S
        for x in s["b"]:
            if x is None:
                continue
            if x["s"] == "decl":
                for v in x["v"]:
                    decls.append(v)
            R = self.exec(x, R, outs)
            if R is None:
                break
        if decls:
            drop = [(v, self.ty(v["t"])) for v in reversed(decls)]
            drop = [(v, t) for v, t in drop if self.has_dtor(t)]
            if drop:
                for o in outs[nd:] + sink[ns:]:
                    self.destroy(o.S, drop, s)
                if R is not None:
                    self.destroy(R, drop, s)
        return R

    def has_dtor(self, t):
        if t.k != "rec":
            return False
        n = t.rec()
        if n in LOCKS or n in ("std::unique_ptr",):
            return True
        return self.user_dtor(n) is not None

    def user_dtor(self, n):
        r = self.P.records.get(n)
        if r and r[1].get("dtor"):
            return self.P.fns.get(r[1]["dtor"])
        return None

    def destroy(self, S, drop, node):
        for v, t in drop:
            r = ("v", self.fr.fid, v["id"])
            if r in S.env:
                self.destroy_value(S, LV(r, (), t), t, node)
                S.env.pop(r, None)

    def destroy_value(self, S, lv, t, node):
        n = t.rec()
        if n in LOCKS:
            self.M.lock_release(self, S, lv, node)
        elif n == "std::unique_ptr":
            self.event(S, "free", self.load(S, lv), node=node)
        else:
            d = self.user_dtor(n)
            if d is not None:
                try:
                    self.call_fn(d, [], lv, S, node)
                except Dead:
                    pass

    def s_decl(self, s, S, outs):
        for v in s["v"]:
            self.declare(v, S)
        return S

    def declare(self, v, S, value=None):
        fr = self.fr
        ty = self.ty(v["t"])
        if v.get("static"):
            root = ("g", "%s@%s:%s" % (v["n"], fr.fn.file, v["l"]))
            if root not in S.env:
                val = self.rv(v["init"], S) if v.get("init") is not None else self.default_value(ty, S)
                S.env[root] = val if ty.const else typed(tm.sym("static:" + v["n"]), ty)
                self.birth[root] = 0
                self.event(S, "static", root[1], val if isinstance(val, tm.T) else None, node=v)
            fr.vars[v["id"]] = LV(root, (), ty)
            return
        if ty.k == "ref":
            x = value if value is not None else self.lv_or_rv(v["init"], S)
            if isinstance(x, LV):
                fr.vars[v["id"]] = LV(x.root, x.path, x.ty or ty.pointee())
            else:
                fr.vars[v["id"]] = self.heap(S, x, ty.pointee(), "t")
        else:
            if value is not None:
                val = self.argval(value, S)
            elif v.get("init") is not None:
                val = self.rv_t(v["init"], S, ty)
            else:
                val = self.default_value(ty, S, uninit=True)
            root = ("v", fr.fid, v["id"])
            self.clock += 1
            self.birth[root] = self.clock
            S.env[root] = val
            fr.vars[v["id"]] = LV(root, (), ty)
            self.owner_locks(S, root, val)
        for i, b in enumerate(v.get("bind", [])):
            base = fr.vars[v["id"]]
            fr.vars[b["id"]] = self.binding(base, i, b, S)

    def binding(self, base, i, b, S):
        t = base.ty.noref() if base.ty else None
        n = t.rec() if t is not None and t.k == "rec" else None
        if n == "std::pair":
            ety = t.targ(i)
            return base.ext("f", ("first", "second")[i], ety)
        if n in self.P.records:
            tu, r = self.P.records[n]
            f = r["fields"][i]
            return base.ext("f", f["n"], tu.ty(f["t"]))
        ety = t.targ(i) if t is not None and n == "std::tuple" else None
        return base.ext("f", "_%d" % i, ety)

    def owner_locks(self, S, root, val):
        pass

    def s_expr(self, s, S, outs):
        self.rv(s["e"], S, void=True)
        return S

    def s_null(self, s, S, outs):
        return S

    def s_case(self, s, S, outs):
        return self.exec(s["b"], S, outs)

    s_default = s_case

    def s_ret(self, s, S, outs):
        rty = self.fr.fn.ret() if self.fr.fn.kind != "ctor" else None
        v = tm.UNIT
        if s.get("e") is not None:
            if rty is not None and rty.k == "ref":
                v = self.lv_or_rv(s["e"], S)
            elif rty is not None and rty.k == "void":
                self.rv(s["e"], S)
            else:
                v = self.rv_t(s["e"], S, rty)
        outs.append(Out("ret", S, v, line=s["l"], fn=self.fr.fn))
        return None

    def s_brk(self, s, S, outs):
        outs.append(Out("brk", S, line=s["l"]))
        return None

    def s_cont(self, s, S, outs):
        outs.append(Out("cont", S, line=s["l"]))
        return None

    def s_if(self, s, S, outs):
        if s.get("init"):
            S = self.exec(s["init"], S, outs)
            if S is None:
                return None
        if s.get("cv"):
            self.declare(s["cv"], S)
        c = tm.tobool(self.rv(s["c"], S))
        c = self.simp(S, c)
        if c is TRUE:
            return self.exec(s["a"], S, outs)
        if c is FALSE:
            return self.exec(s.get("b"), S, outs)
        base = S.pc
        B = S.copy()
        A = S
        A = self.exec(s["a"], A, outs) if self.assume(A, c) else None
        B = self.exec(s.get("b"), B, outs) if self.assume(B, not_(c)) else None
        return self.merge(c, A, B, base)

    def s_switch(self, s, S, outs):
        if s.get("init"):
            S = self.exec(s["init"], S, outs)
        if s.get("cv"):
            self.declare(s["cv"], S)
        v = self.rv(s["c"], S)
        # flatten the body into labelled statements
        items = []

        def flat(x):
            if x is None:
                return
            if x["s"] in ("case", "default"):
                items.append(("lab", x))
                flat(x["b"])
            else:
                items.append(("st", x))
        body = s["b"]
        for x in (body["b"] if body["s"] == "block" else [body]):
            flat(x)
        base = S.pc
        labs = [x for k, x in items if k == "lab"]
        others = [tm.eqt(v, self.rv(x["v"], S)) for x in labs if x["s"] == "case"]
        cur = None
        inner = []
        rem = S.copy()
        ends = []
        for k, x in items:
            if k == "lab":
                c = tm.eqt(v, self.rv(x["v"], S)) if x["s"] == "case" else and_(*[not_(o) for o in others])
                E = S.copy()
                if not self.assume(E, c):
                    continue
                cur = E if cur is None else self.merge(c, E, cur, base)
            elif cur is not None:
                cur = self.exec(x, cur, inner)
        if not any(x["s"] == "default" for x in labs):
            E = S.copy()
            if self.assume(E, and_(*[not_(o) for o in others])):
                ends.append((E, None))
        if cur is not None:
            ends.append((cur, None))
        for o in inner:
            if o.kind == "brk":
                ends.append((o.S, None))
            else:
                outs.append(o)
        R, _ = self.merge_all(ends, base)
        return R

    def s_try(self, s, S, outs):
        base = S.pc
        self.sink.append([])
        self.catch.append(s["h"])
        try:
            R = self.exec(s["b"], S, outs)
        finally:
            thrown = self.sink.pop()
            self.catch.pop()
        ends = [(R, None)] if R is not None else []
        for o in thrown:
            h = self.handler_for(s["h"], o.info)
            if h is None:
                self.sink[-1].append(o)
                continue
            if h.get("v"):
                ex = tm.app("exception", o.val if isinstance(o.val, T) else tm.UNIT, tm.sconst(str(o.info)))
                lv = self.heap(o.S, ex, None, "t")
                self.fr.vars[h["v"]["id"]] = lv
            self.event(o.S, "caught", o.info, node=h, extra=h)
            X = self.exec(h["b"], o.S, outs)
            if X is not None:
                ends.append((X, None))
        R, _ = self.merge_all(ends, base)
        return R

    def handler_for(self, hs, et):
        for h in hs:
            if h.get("t") is None:
                return h
            t = self.ty(h["t"]).noref()
            n = (t.rec() or t.s).replace("const ", "")
            if exc_isa(et, n):
                return h
        return None

    def throw(self, S, et, val, node):
        self.sink[-1].append(Out("throw", S.copy(), val, et, node.get("l") if isinstance(node, dict) else node, self.fr.fn))

    def throw_if(self, S, c, et, val, node):
        """throw when c; the state continues under !c"""
        c = self.simp(S, c)
        if c is FALSE:
            return
        X = S.copy()
        if self.assume(X, c):
            self.throw(X, et, val, node)
        if not self.assume(S, not_(c)):
            raise Dead()

    def s_omp(self, s, S, outs):
        d = s["d"]
        if "parallel" in d:
            self.clock += 1
            reg = Region(s, self.clock, d, self.fr.fn)
            self.event(S, "region", reg, node=s)
            self.regions.append(reg)
            ns = len(self.sink[-1])
            saved = self.privatise(s, S)
            try:
                if "for" in d:
                    R = self.exec_worksharing(s, S, outs, reg)
                else:
                    R = self.exec(s["b"], S, outs)
            finally:
                self.regions.pop()
            reg.escapes = list(self.sink[-1][ns:])
            if R is not None:
                self.deprivatise(saved, R)
                self.event(R, "endregion", reg, node=s)
            return R
        if d in ("for", "for simd"):
            saved = self.privatise(s, S)
            R = self.exec_worksharing(s, S, outs, self.regions[-1] if self.regions else None)
            if R is not None:
                self.deprivatise(saved, R)
            return R
        if d in ("critical", "atomic", "ordered"):
            key = ("held", mk("str", "omp " + d + (" " + s["cn"] if s.get("cn") else "")))
            had = S.env.get(key)
            S.env[key] = ("x", TRUE)
            R = self.exec(s["b"], S, outs)
            if R is not None and had is None:
                R.env.pop(key, None)
            return R
        if d in ("single", "master", "masked"):
            # executed by one thread only
            A = S.copy()
            A.pc = A.pc + (tm.app("omp_single", sort="b"),)
            R = self.exec(s["b"], A, outs)
            if R is not None:
                R.pc = S.pc
            return R
        if s.get("b"):
            return self.exec(s["b"], S, outs)
        return S

    def privatise(self, s, S):
        """the variables named in private clauses are the thread's own"""
        saved = []
        for c in s.get("cl", []):
            if c["n"] not in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                continue
            for v in c.get("v", []):
                lv = self.fr.vars.get(v.get("id"))
                if not isinstance(lv, LV) or lv.path:
                    continue
                self.clock += 1
                saved.append((lv.root, c["n"], S.env.get(lv.root), self.birth.get(lv.root, 0)))
                self.birth[lv.root] = self.clock
                if c["n"] == "private":
                    S.env[lv.root] = typed(tm.opaque("uninitialised"), lv.ty) if lv.ty is not None else tm.opaque("uninitialised")
        return saved

    def deprivatise(self, saved, R):
        for r, n, v, b in saved:
            self.birth[r] = b
            if n in ("private", "firstprivate") and v is not None:
                R.env[r] = v

    def exec_worksharing(self, s, S, outs, reg):
        b = s["b"]
        if b and b["s"] in ("for", "rfor"):
            return self.exec_loop(b, S, outs, par=reg)
        return self.exec(b, S, outs)

    def s_for(self, s, S, outs):
        return self.exec_loop(s, S, outs)

    def s_py(self, s, S, outs):
        return s["f"](S, outs)

    s_while = s_do = s_rfor = s_for

    def s_unk(self, s, S, outs):
        self.note("statement " + s.get("c", "?"), s)
        return S

    def exec_loop(self, s, S, outs, par=None):
        from . import loops
        return loops.exec_loop(self, s, S, outs, par)

    # ------------------------------------------------------------- expressions
    def rv_t(self, e, S, ty):
        """value of e initialising an object of type ty"""
        v = self.rv(e, S)
        return self.conv(v, ty)

    def conv(self, v, ty):
        if ty is None or not isinstance(v, T):
            return v
        if ty.k == "bool":
            return tm.tobool(v)
        if ty.k == "float" and v.sort in "ib":
            return self.single(tm.i2r(v), ty)
        if ty.k in ("int", "enum") and v.sort == "b":
            return tm.b2i(v)
        return v

    def rv_or_lv(self, e, S, ty):
        if ty is not None and ty.k == "ref":
            return self.lv_or_rv(e, S)
        return self.rv_t(e, S, ty)

    def lv_or_rv(self, e, S):
        """lvalue when e designates an object, else its value"""
        k = e["k"]
        if k in ("ref", "mem", "idx"):
            return self.lv(e, S)
        if k == "un" and e["op"] in ("*", "++", "--", "+=") and not (e["op"] != "*" and e.get("post")):
            return self.lv(e, S)
        if k == "asg":
            return self.lv(e, S)
        if k == "call":
            return self.call(e, S)
        if k == "icall":
            return self.icall(e, S)
        if k == "cond":
            return self.e_cond(e, S, lvalue=True)
        if k == "cast" and e["ck"] in ("ConstCast", "NoOp", "LValueBitCast"):
            if e["ck"] == "ConstCast":
                self.event(S, "constcast", node=e)
            return self.lv_or_rv(e["e"], S)
        if k == "bind":
            return self.lv_or_rv(e["e"], S)
        if k == "bin" and e["op"] == ",":
            self.rv(e["a"], S)
            return self.lv_or_rv(e["b"], S)
        return self.rv(e, S)

    def lv(self, e, S):
        k = e["k"]
        if k == "ref":
            return self.var_lv(e, S)
        if k == "mem":
            fty = self.ty(e["t"])
            if e["arrow"]:
                base = self.arrow_base(e["b"], S)
            else:
                base = self.lv_or_rv(e["b"], S)
                if not isinstance(base, LV):
                    base = self.heap(S, base, self.ty(e["b"]["t"]) if "t" in e["b"] else None, "t")
            lv = base.ext("f", e["f"], fty)
            return self.follow_ref(S, lv, e)
        if k == "idx":
            i = self.rv(e["b"], S)
            b = self.lv_or_rv(e["a"], S)
            if isinstance(b, LV):
                bt = self.load(S, b)
                if bt.op in ("ptr",) or (b.ty is not None and b.ty.k == "ptr"):
                    return self.deref(S, bt, self.ty(e["t"])).ext("i", i, self.ty(e["t"]))
                return b.ext("i", i, self.ty(e["t"]))
            if b.op == "ptr":
                return self.deref(S, b).ext("i", i, self.ty(e["t"]))
            return self.heap(S, b, None, "t").ext("i", i, self.ty(e["t"]))
        if k == "un":
            if e["op"] == "*":
                if e["e"]["k"] == "this":
                    return self.this_lv()
                p = self.rv(e["e"], S)
                return self.deref_any(S, p, self.ty(e["t"]), e)
            if e["op"] in ("++", "--"):
                lv = self.as_lv(self.lv_or_rv(e["e"], S), S, e)
                self.incdec(lv, e, S)
                return lv
        if k == "asg":
            lv = self.as_lv(self.lv_or_rv(e["a"], S), S, e)
            self.assign(lv, e, S)
            return lv
        x = self.lv_or_rv(e, S)
        return self.as_lv(x, S, e)

    def as_lv(self, x, S, e=None):
        if isinstance(x, LV):
            return x
        return self.heap(S, x, self.ty(e["t"]) if e is not None and "t" in e else None, "t")

    def follow_ref(self, S, lv, e):
        """members of reference type alias what they were bound to"""
        rec = self.P.records.get(e.get("rec"))
        if rec:
            for f in rec[1]["fields"]:
                if f["n"] == e["f"] and rec[0].ty(f["t"]).k == "ref":
                    t = self.load(S, lv)
                    if t.op == "refto":
                        return LVALS[t.a[0]]
        return lv

    def deref_any(self, S, p, ty, node=None):
        if p.op in ("iter", "mit", "mend"):
            return self.M.iter_deref(self, S, p, ty)
        return self.deref(S, p, ty.noref() if ty is not None else None)

    def this_lv(self):
        for f in reversed(self.frames):
            if f.this is not None or f.fn.kind not in ("lambda",):
                if f.this is None:
                    raise Unsupported("this")
                return f.this
        raise Unsupported("this")

    def arrow_base(self, b, S):
        if b["k"] == "this":
            return self.this_lv()
        if b["k"] == "call" and b.get("op") == "->":
            o = self.lv_or_rv(b["o"], S) if b["o"]["k"] != "this" else self.this_lv()
            return self.M.arrow(self, S, o, b)
        p = self.rv(b, S)
        ty = self.ty(b["t"]) if "t" in b else None
        return self.deref_any(S, p, ty.pointee() if ty is not None and ty.k == "ptr" else None, b)

    def var_lv(self, e, S):
        i = e["id"]
        dk = e["dk"]
        if dk in ("global",):
            root = ("g", e.get("qn") or e["n"])
            self.birth.setdefault(root, 0)
            ty = self.ty(e["t"])
            if not ty.const:
                self.event(S, "global", root[1], node=e)
            return LV(root, (), ty)
        for f in reversed(self.frames):
            if i in f.vars:
                return f.vars[i]
            if i in f.caps:
                return f.caps[i]
            if f.fn.kind != "lambda":
                break
        # closures inlined from another frame
        for f in reversed(self.frames):
            if i in f.vars and f.tu is self.fr.tu:
                return f.vars[i]
        self.note("unbound variable " + e["n"], e)
        lv = LV(("v", self.fr.fid, i), (), self.ty(e["t"]))
        if lv.root not in S.env:
            S.env[lv.root] = typed(tm.opaque("unbound " + e["n"]), self.ty(e["t"]))
        return lv

    def rv(self, e, S, void=False):
        if e is None:
            return tm.UNIT
        old = self.cur
        if e.get("l"):
            self.cur = e
        try:
            m = getattr(self, "e_" + e["k"], None)
            if m is None:
                return self.opq("expression " + e["k"], S, self.sort_of(e), e)
            v = m(e, S)
            if isinstance(v, LV):
                v = tm.UNIT if void else self.load(S, v)
            return v
        finally:
            self.cur = old

    def sort_of(self, e):
        return self.ty(e["t"]).noref().sort() if "t" in e and e["t"] is not None else "o"

    def e_const(self, e, S):
        ty = self.ty(e["t"])
        if "vs" in e:
            if e.get("fl"):
                return const(float(e["vs"]))
            return const(int(e["vs"]))
        v = e["v"]
        if ty.k == "bool":
            return const(bool(v))
        if ty.k == "float":
            from fractions import Fraction
            return const(Fraction(repr(float(v))) if isinstance(v, float) else Fraction(v), "r")
        return const(int(v))

    def e_str(self, e, S):
        return tm.sconst(e["v"])

    def e_null(self, e, S):
        return tm.NULL

    def e_fref(self, e, S):
        return mk("fn", e["usr"], e["qn"])

    def e_ref(self, e, S):
        return self.load(S, self.var_lv(e, S))

    def e_this(self, e, S):
        return ptr(self.this_lv())

    def e_mem(self, e, S):
        return self.load(S, self.lv(e, S))

    e_idx = e_mem

    def e_mref(self, e, S):
        return self.opq("member reference", S, self.sort_of(e), e)

    def e_bind(self, e, S):
        return self.lv_or_rv(e["e"], S)

    def e_vinit(self, e, S):
        return self.default_value(self.ty(e["t"]), S)

    def e_asg(self, e, S):
        return self.lv(e, S)

    def e_un(self, e, S):
        op = e["op"]
        if op in ("++", "--"):
            if e.get("post"):
                lv = self.as_lv(self.lv_or_rv(e["e"], S), S, e)
                old = self.load(S, lv)
                self.incdec(lv, e, S)
                return old
            return self.lv(e, S)
        if op == "*":
            return self.lv(e, S)
        if op == "&":
            x = self.lv_or_rv(e["e"], S)
            if isinstance(x, LV):
                return ptr(x)
            return x if x.op == "fn" else self.opq("address", S, "o", e)
        v = self.rv(e["e"], S)
        if op == "!":
            return not_(tm.tobool(v))
        if op == "-":
            if v.sort == "r" and self.exact and v.op != "c":
                return tm.neg(v)
            return self.wrap(tm.neg(v), e, S)
        if op == "+":
            return v
        if op == "~":
            return self.wrap(tm.sub(tm.neg(v), const(1)), e, S)
        return self.opq("unary " + op, S, self.sort_of(e), e)

    def incdec(self, lv, e, S):
        v = self.load(S, lv)
        d = const(1 if e["op"] == "++" else -1)
        if v.op == "iter":
            self.put(S, lv, mk("iter", v.a[0], tm.add(v.a[1], d)))
            return
        if v.op == "mit" and d.a[0] == 1:
            self.put(S, lv, mk("mafter", *v.a))
            return
        if v.op in ("opaque", "mit", "mend", "mafter", "mgap"):
            self.put(S, lv, self.opq("iterator step", S, "o", e))
            return
        self.put(S, lv, tm.add(v, d))

    def wrap(self, t, e, S):
        ty = self.ty(e["t"])
        if ty.k in ("int", "enum") and t.sort == "i":
            w = ty.width()
            if ty.signed():
                l, h = tm.rng(t)
                if (l is not None and l < -(1 << (w - 1))) or (h is not None and h > (1 << (w - 1)) - 1):
                    self.event(S, "ovf", t, w, node=e)
            elif w < 64:
                return tm.trunc(w, False, t)
        return self.single(t, ty)

    def single(self, t, ty):
        """a value held in single precision"""
        if ty is not None and ty.k == "float" and t.op == "c" and t.sort in "ri" and Fraction(t.a[0]).denominator == 1 and abs(t.a[0]) >= 1 << 24:
            # a whole number known here: as the type rounds it
            p = {32: 24, 64: 53}.get(ty.o.get("w", 64))
            if p and abs(t.a[0]) < 1 << 100:
                n = int(t.a[0])
                u = 1 << max(0, abs(n).bit_length() - p)
                return const(round(Fraction(n, u)) * u, "r")
        if ty is None or ty.k != "float" or ty.o.get("w", 64) != 32 or t.sort not in "ri":
            return t
        if t.op == "app" and t.a[0] == "f32":
            return t
        if t.op == "c":
            try:
                if Fraction(struct.unpack("f", struct.pack("f", t.a[0]))[0]) == t.a[0]:
                    return tm.i2r(t)
            except (OverflowError, struct.error):
                pass
        return tm.app("f32", t, sort="r")

    def arith(self, op, a, b, e, S):
        if op in ("+", "-") and (a.op in ("iter", "ptr") or b.op in ("iter", "ptr")):
            return self.M.iter_arith(self, op, a, b, S)
        isf = "r" in (a.sort, b.sort)
        if isf:
            a, b = tm.i2r(a) if a.sort != "o" else a, tm.i2r(b) if b.sort != "o" else b
            if self.exact and op in "+-*/" and a.op != "c" and b.op != "c":
                return tm.app("f" + op, *((a, b) if op in "-/" else sorted((a, b))), sort="r")
        if "o" in (a.sort, b.sort):
            return self.opq("arithmetic " + op, S, self.sort_of(e), e)
        if op == "+":
            return tm.add(a, b)
        if op == "-":
            return tm.sub(a, b)
        if op == "*":
            return tm.mul(a, b)
        if op == "/":
            return tm.rdiv(a, b) if isf else tm.idiv(a, b)
        if op == "%":
            return tm.irem(a, b)
        if op == "<<":
            return tm.shl(a, b)
        if op == ">>":
            return tm.shr(a, b, 64)
        if a.sort == "b" and b.sort == "b":
            if op == "|":
                return tm.b2i(or_(a, b))
            if op == "&":
                return tm.b2i(and_(a, b))
            if op == "^":
                return tm.b2i(not_(tm.eqt(a, b)))
        if op == "|":
            return tm.bor(a, b)
        if op == "&":
            return tm.band(a, b)
        if op == "^":
            return tm.bxor(a, b)
        return self.opq("operator " + op, S, self.sort_of(e), e)

    def compare(self, op, a, b, S=None, e=None):
        if op == "==":
            return tm.eqt(a, b)
        if op == "!=":
            return not_(tm.eqt(a, b))
        if a.op == "iter" and b.op == "iter":
            a, b = a.a[1], b.a[1]
        if "o" in (a.sort, b.sort):
            if op == ">":
                return tm.app("<", b, a, sort="b")
            if op == "<":
                return tm.app("<", a, b, sort="b")
            if op == "<=":
                return not_(tm.app("<", b, a, sort="b"))
            return not_(tm.app("<", a, b, sort="b"))
        if op == "<":
            return tm.lt(a, b)
        if op == ">":
            return tm.lt(b, a)
        if op == "<=":
            return tm.ge(b, a)
        return tm.ge(a, b)

    def e_bin(self, e, S):
        op = e["op"]
        if op == ",":
            self.rv(e["a"], S, void=True)
            return self.lv_or_rv(e["b"], S)
        if op in ("&&", "||"):
            return self.shortcut(op == "&&", lambda S: tm.tobool(self.rv(e["a"], S)), lambda S: tm.tobool(self.rv(e["b"], S)), S)
        a = self.rv(e["a"], S)
        b = self.rv(e["b"], S)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b, S, e)
        if op in (".*", "->*"):
            return self.opq("member pointer", S, self.sort_of(e), e)
        return self.wrap(self.arith(op, a, b, e, S), e, S)

    def shortcut(self, conj, fa, fb, S):
        a = self.simp(S, fa(S))
        if a is (FALSE if conj else TRUE):
            return a
        if a is (TRUE if conj else FALSE):
            return fb(S)
        base = S.pc
        A = S.copy()
        go = a if conj else not_(a)
        if not self.assume(A, go):
            return a
        try:
            b = fb(A)
        except Dead:
            self.assume(S, not_(go))
            return FALSE if conj else TRUE
        B = S.copy()
        self.assume(B, not_(go))
        R = self.merge(go, A, B, base)
        S.become(R)
        return and_(a, b) if conj else or_(a, b)

    def e_cond(self, e, S, lvalue=False):
        c = self.simp(S, tm.tobool(self.rv(e["c"], S)))
        f = self.lv_or_rv if lvalue else self.rv
        if c is TRUE:
            return f(e["a"], S)
        if c is FALSE:
            return f(e["b"], S)
        base = S.pc
        A, B = S.copy(), S.copy()
        items = []
        for X, cc, br in ((A, c, e["a"]), (B, not_(c), e["b"])):
            if not self.assume(X, cc):
                continue
            try:
                v = f(br, X)
                items.append((X, v))
            except Dead:
                pass
        if not items:
            raise Dead()
        R, v = self.merge_all(items, base)
        S.become(R)
        return v

    def e_cast(self, e, S):
        ck = e["ck"]
        ty = self.ty(e["t"])
        if ck in ("ToVoid",):
            self.rv(e["e"], S, void=True)
            return tm.UNIT
        if ck == "ConstCast":
            self.event(S, "constcast", node=e)
            return self.rv(e["e"], S)
        if ck in ("LValueBitCast", "BitCast", "Dynamic"):
            v = self.rv(e["e"], S)
            if ck == "LValueBitCast":
                return self.opq("reinterpret", S, ty.sort(), e)
            return v
        v = self.rv(e["e"], S)
        if ck == "IntegralCast":
            if ty.k == "bool":
                return tm.tobool(v)
            v = tm.num(v)
            if v.sort != "i":
                return self.opq("cast", S, "i", e)
            r = tm.trunc(ty.width(), ty.signed(), v)
            if r is not v:
                self.event(S, "narrow" if e.get("exp") is False else "xnarrow", v, ty.width(), ty.signed(), node=e)
            return r
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return tm.tobool(v)
        if ck in ("IntegralToFloating", "BooleanToFloating"):
            return self.single(tm.i2r(v), ty)
        if ck == "FloatingToIntegral":
            return self.f2i(v, ty)
        if ck in ("BooleanToSignedIntegral",):
            return tm.b2i(v)
        if ck == "NullToPointer":
            return tm.NULL
        if ck in ("FloatingCast", "FloatingComplexCast", "Dependent", "NoOp"):
            return self.single(v, ty) if ck == "FloatingCast" else v
        return v

    def f2i(self, v, ty):
        if v.sort == "i":
            return v
        if v.op == "c":
            x = v.a[0]
            return const(int(x))
        if v.op == "poly":
            # an integer-valued polynomial over integer atoms
            if all(getattr(c, "denominator", 1) == 1 for m, c in v.a[0]) and all(a.sort == "i" for m, c in v.a[0] for a, _ in m):
                return tm.from_poly({m: int(c) for m, c in v.a[0]}, "i")
        r = mk("f2i", v, sort="i")
        if r not in tm.SYM_RANGE:
            tm.SYM_RANGE[r] = ty.range()
        return r

    def e_lam(self, e, S):
        fn = self.P.fns.get(e["usr"])
        caps = {}
        for c in e.get("caps", []):
            if c.get("this"):
                continue
            if c.get("init") is not None:
                x = self.lv_or_rv(c["init"], S)
                caps[c["id"]] = x if isinstance(x, LV) and c["ref"] else self.heap(S, self.argval(x, S), None, "t")
                continue
            lv = self.var_lv({"id": c["id"], "n": c["n"], "dk": "var", "t": None} if False else
                             {"id": c["id"], "n": c["n"], "dk": "var", "t": e["t"]}, S)
            if c.get("ref"):
                caps[c["id"]] = lv
            else:
                caps[c["id"]] = self.heap(S, self.load(S, lv), lv.ty, "t")
        this = None
        try:
            this = self.this_lv()
        except Unsupported:
            pass
        self.nheap += 1
        t = mk("closure", e["usr"], self.nheap)
        self.closures[t] = (fn, caps, this)
        return t

    def e_init(self, e, S):
        ty = self.ty(e["t"])
        if ty.k == "rec":
            n = ty.rec()
            fs = e.get("f") or []
            rec = self.P.records.get(n)
            if fs or rec:
                out = []
                for i, f in enumerate(fs):
                    fty = None
                    if rec:
                        fty = next((rec[0].ty(x["t"]) for x in rec[1]["fields"] if x["n"] == f), None)
                    if i < len(e["a"]):
                        out.append((f, self.argval(self.rv_t(e["a"][i], S, fty), S)))
                return tm.rec(n or ty.s, out)
        return tm.lst(*[self.rv(x, S) for x in e["a"]])

    def e_new(self, e, S):
        aty = self.ty(e["at"])
        v = self.rv(e["e"], S) if e.get("e") else self.default_value(aty, S, True)
        lv = self.heap(S, v, aty)
        p = ptr(lv)
        self.event(S, "new", p, node=e)
        return p

    def e_del(self, e, S):
        p = self.rv(e["e"], S)
        self.event(S, "delete", p, node=e)
        return tm.UNIT

    def e_throw(self, e, S):
        if e.get("e") is None:
            et, v = "rethrow", tm.UNIT
        else:
            ty = self.ty(e["xt"]) if e.get("xt") is not None else self.ty(e["e"]["t"])
            et = (ty.noref().rec() or ty.s)
            v = self.rv(e["e"], S)
        self.throw(S, et, v, e)
        raise Dead()

    def e_unk(self, e, S):
        return self.opq("expression " + e.get("c", "?"), S, self.sort_of(e), e)

    # ------------------------------------------------------------- assignment
    def assign(self, lv, e, S):
        op = e["op"]
        ty = self.ty(e["t"]).noref() if e.get("t") is not None else lv.ty
        if op == "=":
            v = self.rv_t(e["b"], S, ty)
            self.put(S, lv, v)
            return
        b = self.rv(e["b"], S)
        a = self.load(S, lv)
        ct = self.ty(e["ct"]) if e.get("ct") is not None else ty
        v = self.arith(op[:-1], self.conv(a, ct) if ct.k == "float" else a, b, e, S)
        if v.sort == "r" and ty.k in ("int", "enum"):
            v = self.f2i(v, ty)
        if v.sort == "i" and ty.k in ("int", "enum"):
            if ty.width() < 64:
                if ty.signed():
                    v = self.wrap(v, e, S)
                else:
                    v = tm.trunc(ty.width(), False, v)
        self.put(S, lv, self.single(self.conv(v, ty), ty))

    # ------------------------------------------------------------- calls
    def e_call(self, e, S):
        return self.call(e, S)

    def e_icall(self, e, S):
        return self.icall(e, S)

    def icall(self, e, S):
        f = self.rv(e["f"], S)
        args = [self.lv_or_rv(a, S) for a in e["a"]]
        return self.call_value(f, args, S, e)

    def call_value(self, f, args, S, e):
        if f.op == "closure":
            fn, caps, this = self.closures[f]
            if fn is not None:
                return self.call_lambda(fn, caps, this, args, S, e)
        if f.op == "fn":
            fn = self.P.fns.get(f.a[0])
            if fn is not None and not fn.cls:
                return self.call_fn(fn, args, None, S, e)
            if fn is not None and fn.kind == "method" and fn.o.get("static"):
                return self.call_fn(fn, args, None, S, e)
            if fn is not None:
                return self.call_fn(fn, args[1:], self.as_lv(args[0], S), S, e)
        tn = f.a[0] if f.op == "rec" else tm.type_of(f)
        if tn in self.P.records:
            fn = next((x for x in self.P.fns.values() if x.cls == tn and x.n == "operator()" and len(x.params()) == len(args)), None)
            if fn is not None:
                return self.call_fn(fn, args, self.heap(S, f, None, "t"), S, e)
        vals = [self.argval(a, S) for a in args]
        self.note("indirect call", e if isinstance(e, dict) else None)
        return tm.opaque("indirect call", "o")

    def call_lambda(self, fn, caps, this, args, S, e):
        if sum(1 for f in self.frames if f.fn is fn) > 2:
            return self.opq("recursive lambda", S, "o", e)
        self.visited.add(fn.usr)
        self.nfid += 1
        fr = Frame(self.nfid, fn, this, len(self.frames))
        fr.caps = caps
        base = S.pc
        outs = []
        self.frames.append(fr)
        try:
            for i, p in enumerate(fn.params()):
                a = args[i] if i < len(args) else self.rv(p["def"], S)
                self.bind_param(fr, p, fn.tu.ty(p["t"]), a, S)
            R = self.exec(fn.body, S, outs)
            items = [(o.S, o.val) for o in outs if o.kind == "ret"]
            if R is not None:
                items.append((R, tm.UNIT))
            if not items:
                raise Dead()
            S2, v = self.merge_all(items, base)
            S.become(S2)
            if isinstance(v, LV) and fn.ret().k != "ref":
                v = self.load(S, v)
            return v
        finally:
            self.frames.pop()

    def call(self, e, S):
        qn = e["qn"]
        fn = self.P.fns.get(e["usr"]) if e.get("usr") else None
        obj = None
        if e.get("o") is not None:
            if e["o"]["k"] == "this":
                obj = self.this_lv()
            elif e.get("arrow"):
                obj = self.arrow_base(e["o"], S)
            else:
                obj = self.lv_or_rv(e["o"], S)
        # lambda call operator
        if e.get("lam") and obj is not None:
            f = self.argval(obj, S)
            args = [self.lv_or_rv(a, S) for a in e["a"]]
            return self.call_value(f, args, S, e)
        if fn is not None or (e.get("virt") and self.repo_class(e.get("cls"))):
            args = self.eval_args(e, S)
            this = self.as_lv(obj, S, e["o"]) if obj is not None else None
            if e.get("virt") and this is not None:
                fn = self.resolve_virtual(e, this, S, fn)
                if fn is None:
                    return self.virtual_app(e, this, args, S)
            if fn is None:
                return self.opq("call " + qn, S, self.sort_of(e), e)
            if self.is_opaque(fn):
                return self.opaque_call(fn, args, this, S, e)
            return self.call_fn(fn, args, this, S, e)
        return self.M.call(self, e, obj, S)

    def is_opaque(self, fn):
        return fn.qn in self.opaque or (fn.n == "operator()" and fn.cls and fn.cls.startswith("std::hash") and fn.cls in self.opaque)

    def eval_args(self, e, S):
        pts = e.get("pt") or []
        out = []
        for i, a in enumerate(e["a"]):
            pt = self.ty(pts[i]) if i < len(pts) else None
            out.append(self.rv_or_lv(a, S, pt))
        return out

    def repo_class(self, c):
        return c in self.P.records

    def dynamic_class(self, this, S):
        t = S.env.get(this.root)
        if this.path == () and isinstance(t, T):
            n = tm.type_of(t)
            if n in self.P.records and this.root[0] in ("h", "t", "v"):
                return n
            if t.op == "rec" and t.a[0] in self.P.records:
                return t.a[0]
        if this.path:
            t = self.load(S, this)
            if t.op == "rec":
                return t.a[0]
        return None

    def resolve_virtual(self, e, this, S, fn):
        c = self.dynamic_class(this, S) or self.dispatch.get(e["cls"])
        static = e.get("cls")
        if c is None:
            # a class without overriders of this method
            u = e["usr"]
            if fn is not None and not self.P.overriders.get(u) and self.P.fns.get(u) is fn:
                return fn
            return None
        return self.find_override(e["usr"], c) or fn

    def find_override(self, usr, cls):
        for f in self.P.fns.values():
            if f.cls == cls and (f.usr == usr or usr in self.all_over(f)):
                return f
        return None

    def all_over(self, f):
        seen = set()
        st = list(f.o.get("over", []))
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            g = self.P.fns.get(u) or self.P.decls.get(u)
            if g is not None:
                st += g.o.get("over", [])
        return seen

    def virtual_app(self, e, this, args, S):
        name = "virtual:%s" % e["n"]
        vals = [self.argval(a, S) for a in args]
        g = self.load(S, this)
        rty = self.ty(e["t"])
        self.event(S, "vcall", e["n"], g, *vals, node=e, extra=(this, bool(e.get("const"))))
        r = typed(tm.app(name, g, *vals, sort=rty.noref().sort()), rty)
        if not e.get("const"):
            nv = tm.app(name + "'", g, *vals)
            self.put(S, this, nv)
        return r

    def e_ctor(self, e, S):
        cls = e["cls"]
        if (e.get("copy") or e.get("move")) and len(e["a"]) >= 1 and not e.get("def"):
            x = self.lv_or_rv(e["a"][0], S)
            if e.get("move") and isinstance(x, LV) and cls in LOCKS:
                v = self.load(S, x)
                self.M.lock_moved(self, S, x, v)
                return v
            return self.argval(x, S)
        fn = self.P.fns.get(e["usr"])
        ty = self.ty(e["t"])
        if fn is not None and fn.kind == "ctor":
            args = []
            for i, a in enumerate(e["a"]):
                pt = fn.pty(i) if i < len(fn.params()) else None
                args.append(self.rv_or_lv(a, S, pt))
            if self.is_opaque(fn):
                vals = [self.argval(a, S) for a in args]
                t = tm.app(fn.qn, *vals)
                return typed(t, ty)
            lv = self.heap(S, tm.rec(cls, []), ty)
            self.call_fn(fn, args, lv, S, e)
            return S.env.pop(lv.root)
        if cls in self.P.records:
            if not e["a"]:
                return self.record_default(cls, S, uninit=not e.get("list"))
        return self.M.ctor(self, e, S)


class Region:
    def __init__(self, node, birth, d, fn):
        self.node, self.birth, self.d, self.fn = node, birth, d, fn
        self.escapes = []
        self.line = node["l"]
        self.clauses = node.get("cl", [])


EXC = {
    "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
    "std::system_error": "std::runtime_error", "std::bad_optional_access": "std::exception", "std::bad_alloc": "std::exception",
    "std::ios_base::failure": "std::system_error", "std::filesystem::filesystem_error": "std::system_error",
}
PROG = [None]


def exc_isa(t, n):
    t = str(t)
    for _ in range(8):
        if t == n:
            return True
        if t in EXC:
            t = EXC[t]
        elif PROG[0] is not None and t in PROG[0].records and PROG[0].records[t][1]["bases"]:
            t = PROG[0].records[t][1]["bases"][0]
        else:
            return t == "rethrow"
    return False


class Result:
    def __init__(self, ev, fn, S, val, throws, base):
        self.ev, self.fn, self.S, self.throws, self.base = ev, fn, S, throws, base
        self.val = val

    @property
    def value(self):
        if self.S is None:
            return None
        return self.ev.load(self.S, self.val) if isinstance(self.val, LV) else self.val

    def events(self, *kinds):
        seen = set()
        out = []
        for st in ([self.S] if self.S is not None else []) + [o.S for o in self.throws]:
            for e in st.ev:
                if id(e) not in seen and (not kinds or e.kind in kinds):
                    seen.add(id(e))
                    out.append(e)
        return out

    def ok(self):
        """condition under which the call returns"""
        return and_(*self.S.pc[len(self.base):]) if self.S is not None else FALSE

    def undetermined(self):
        return self.ev.unk


def _declare_lv(self, v, lv, S):
    from . import loops
    loops.declare_lv(self, v, lv, S)


Eval.declare_lv = _declare_lv
