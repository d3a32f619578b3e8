"""Meaning of the library operations the repository uses, over the term domain."""
import itertools
import re
from . import terms as tm
from .terms import TRUE, FALSE, T, const, mk, and_, or_, not_, ite
from .evalcpp import LV, LVALS, lvh, ptr, typed, Dead, Out, SEQS, MAPS, SETS, MULTI, SMART, LOCKS, Unsupported

PURE = {}          # names of library functions known to be deterministic functions of their arguments


def base_class(n):
    if n is None:
        return None
    i = n.find("operator<")
    if i < 0:
        i = n.find("operator>")
    if i >= 0 and (i == 0 or n[i - 1] == ":"):
        return base_class(n[:i]) + n[i:]
    d = 0
    out = ""
    for c in n:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out += c
    return out


def obj_rec(ev, e):
    o = e.get("o")
    ty = ev.ty(o["t"]) if o is not None and o.get("t") is not None else None
    if ty is not None:
        ty = ty.noref()
        if e.get("arrow") and ty.k == "ptr":
            ty = ty.pointee()
    return ty


def arg_lv(ev, a, S):
    return ev.lv_or_rv(a, S)


def argvals(ev, e, S):
    return [ev.rv(a, S) for a in e["a"]]


def lvof(ev, x, S, ty=None):
    return x if isinstance(x, LV) else ev.heap(S, x, ty, "t")


def seq_elem_ty(ty):
    if ty is None:
        return None
    if ty.k == "rec" and ty.rec() in SEQS:
        return ty.targ(0)
    return None


# ------------------------------------------------------------------ construction
def construct(ev, ty, args, S, e):
    """object of type ty from evaluated arguments (LVs or values)"""
    if ty is None:
        return ev.argval(args[0], S) if args else tm.UNIT
    if ty.k != "rec":
        if not args:
            return ev.default_value(ty, S)
        return ev.conv(ev.argval(args[0], S), ty)
    n = ty.rec()
    if len(args) == 1:
        v = args[0]
        vt = v.ty if isinstance(v, LV) else None
        t = ev.argval(v, S) if not isinstance(v, LV) else None
        n2 = vt.noref().rec() if vt is not None and vt.noref().k == "rec" else (tm.type_of(t) if t is not None else None)
        if n2 == n:
            return ev.argval(v, S)
    if n in ev.P.records:
        cands = []
        for f in ev.P.methods(n):
            if f.kind != "ctor":
                continue
            ps = f.params()
            need = sum(1 for p in ps if p.get("def") is None)
            if need <= len(args) <= len(ps):
                score = 0
                ok = True
                for i, a in enumerate(args):
                    pt = f.pty(i).noref()
                    at_ = a.ty.noref() if isinstance(a, LV) and a.ty is not None else None
                    if at_ is not None:
                        if at_.k != pt.k:
                            ok = ok and at_.k in ("int", "bool", "float", "enum") and pt.k in ("int", "bool", "float", "enum")
                        elif at_.k == "rec":
                            if at_.rec() == pt.rec():
                                score += 2
                            elif at_.rec() in SMART and pt.rec() in SMART or at_.rec() in SEQS and pt.rec() in SEQS:
                                score += 1
                            else:
                                ok = ok and at_.rec() in SMART
                        else:
                            score += 2 if at_.s == pt.s else 1
                    else:
                        v = ev.argval(a, S)
                        tn = tm.type_of(v)
                        if tn and pt.k == "rec":
                            if tn == pt.rec():
                                score += 2
                            else:
                                ok = False
                        elif v.sort in "irb" and pt.k == "rec":
                            ok = False
                        elif v.sort in "irb" and v.sort == pt.sort():
                            score += 1
                if ok:
                    cands.append((score, f))
        if cands:
            f = max(cands, key=lambda x: x[0])[1]
            if ev.is_opaque(f):
                t = tm.app(f.qn, *[ev.argval(a, S) for a in args])
                tm.set_type(t, n)
                return t
            lv = ev.heap(S, tm.rec(n, []), ty)
            ev.call_fn(f, args, lv, S, e)
            return S.env.pop(lv.root)
        if not args:
            return ev.record_default(n, S)
        r = ev.P.records[n]
        vals = [ev.argval(a, S) for a in args]
        return tm.rec(n, [(f["n"], v) for f, v in zip(r[1]["fields"], vals)])
    vals = args
    r = build_std(ev, n, ty, vals, S, e)
    if r is not None:
        return r
    return typed(tm.app(n, *[ev.argval(a, S) for a in vals]), ty)


def default_ctor(ev, n, ty):
    if n in SEQS or n in ("std::basic_stringstream", "std::basic_ostringstream", "std::stack", "std::queue"):
        if n == "std::array":
            cnt = re.search(r",\s*(\d+)>?$", ty.s.rstrip())
            return tm.opaque("array")
        return tm.EMPTY
    if n in MAPS or n in SETS or n in MULTI:
        return tm.mempty()
    if n in ("std::optional", EXCPTR):
        return tm.NONE
    if n in SMART or n == "std::unique_ptr":
        return tm.NULL
    if n == "std::error_code":
        return tm.app("no_error")
    if n == "std::priority_queue":
        return tm.EMPTY
    if n == "std::atomic":
        return const(0)
    if n in ("std::mutex", "std::shared_mutex", "std::recursive_mutex"):
        return tm.app("mutex")
    if n == "std::function":
        return tm.NULL
    if n == "std::pair":
        return None
    return None


def etyp(t, ty):
    """remember the element type of a sequence value"""
    return typed(t, ty)


def build_std(ev, n, ty, args, S, e):
    """std class n from evaluated args; None when not modelled"""
    V = lambda i: ev.argval(args[i], S)
    k = len(args)
    if k and isinstance(args[-1], LV) and args[-1].ty is not None and args[-1].ty.noref().k == "rec" and args[-1].ty.noref().rec() == "std::allocator":
        k -= 1
    elif k and not isinstance(args[-1], LV) and args[-1].op == "app" and args[-1].a[0].startswith(("default:std::allocator", "std::allocator")):
        k -= 1
    if n == "std::priority_queue":
        pq_order(ev, ty, V(0) if k else None, S, e)
        return tm.EMPTY if k < 2 else None
    if n == "std::random_device":
        return tm.app("random_device")
    if k == 0:
        return default_ctor(ev, n, ty)
    if n in ("std::vector", "std::deque", "std::list"):
        a = V(0)
        if k == 1:
            if a.sort == "i":
                el = ev.default_value(ty.targ(0), S) if ty.targ(0) is not None else tm.UNIT
                return tm.comp(tm.fresh("j", "i", (0, 1 << 31)), a, TRUE, el)
            return a
        b = V(1)
        if a.sort == "i":
            return tm.comp(tm.fresh("j", "i", (0, 1 << 31)), a, TRUE, b)
        if a.op == "iter" and b.op == "iter":
            return it_range(ev, a, b, S)
        if a.op == "mbegin" and b.op == "mend":
            return map_elems(ev, S, LVALS[b.a[1]])
        if a.op in ("mit", "mend", "miter") and b.op == "mend":
            h = b.a[-1]
            m = b.a[0] if b.op == "mend" else a.a[0]
            return etyp(tm.keys(m), ty)
        return None
    if n == "std::basic_string":
        a = V(0)
        return a if k == 1 or a.op == "str" else None
    if n == "std::optional":
        a = V(0)
        if a.op == "app" and a.a[0] == "std::nullopt_t" or a.op == "sym" and "nullopt" in str(a.a[0]):
            return tm.NONE
        if a.op in ("none", "some"):
            return a
        t = tm.type_of(a)
        ety = ty.targ(0)
        if isinstance(args[0], LV) and args[0].ty is not None and args[0].ty.noref().rec() == "std::optional":
            return a
        return tm.some(ev.conv(a, ety) if ety is not None else a)
    if n == EXCPTR:
        return tm.NONE if not k or V(0) is tm.NULL else V(0)
    if n in SMART or n == "std::unique_ptr":
        v = V(0)
        if n in SMART and v.op == "ptr" and k == 1 and args[0] is v:
            ev.event(S, "own", v, node=e)
        return v
    if n == "std::pair":
        if k == 2:
            return tm.rec("std::pair", [("first", V(0)), ("second", V(1))])
        return V(0)
    if n == "std::tuple":
        return tm.rec("std::tuple", [("_%d" % i, V(i)) for i in range(k)])
    if n in LOCKS:
        return make_lock(ev, n, args, k, S, e)
    if n == "std::atomic":
        return V(0)
    if n == "std::priority_queue":
        return tm.EMPTY
    if n == "__gnu_cxx::__normal_iterator" or n.endswith("_iterator"):
        return V(0)
    if n == "std::mersenne_twister_engine":
        return tm.app("mt19937", V(0))
    if n in ("std::basic_stringstream", "std::basic_ostringstream"):
        return tm.EMPTY
    if n in SETS or n in MAPS:
        a = V(0)
        if k >= 2 and a.op == "iter":
            b = V(1)
            if b.op == "iter" and n in SETS:
                s = it_range(ev, a, b, S)
                if s is not None:
                    return set_of(s)
        if k == 1 and a.op == "list" and n in SETS:
            m = tm.mempty()
            for x in a.a:
                m = tm.mput(m, x, tm.UNIT)
            return m
        return a if k == 1 else None
    if n == "std::function":
        return V(0)
    return None


def set_of(s):
    if s.op == "list":
        m = tm.mempty()
        for x in s.a:
            m = tm.mput(m, x, tm.UNIT)
        return m
    v = tm.fresh("j", "i", (0, 1 << 31))
    return tm.bind("mfold", v, tm.ln(s), TRUE, tm.at(s, v), tm.UNIT, tm.mempty())


EXCPTR = "std::__exception_ptr::exception_ptr"


def ctor(ev, e, S):
    ty = ev.ty(e["t"])
    n = base_class(e["cls"])
    args = []
    pts = e.get("pt") or []
    for i, a in enumerate(e["a"]):
        args.append(ev.lv_or_rv(a, S))
    r = build_std(ev, n, ty, args, S, e)
    if r is not None:
        return typed(r, ty) if r.op in ("sym", "app", "deref") else r
    if n.startswith("std::") and n not in KNOWN_CTOR and not exc_class(n):
        ev.note("constructor " + n, e)
        return typed(tm.opaque("ctor " + n), ty)
    t = tm.app(n, *[ev.argval(a, S) for a in args])
    return typed(t, ty)


KNOWN_CTOR = {"std::runtime_error", "std::allocator", "std::error_code", "std::basic_string"}


def exc_class(n):
    from .evalcpp import EXC
    return n in EXC


# ------------------------------------------------------------------ locks
def mutex_id(ev, lv):
    if lv.root[0] == "d" and not lv.path:
        return lv.root[1]
    return lvh(lv)


def make_lock(ev, n, args, k, S, e):
    kind = LOCKS[n]
    a = args[0]
    lv = lvof(ev, a, S)
    m = mutex_id(ev, lv)
    if k >= 2:
        tag = ev.ty(e["a"][1]["t"]).noref().rec() if isinstance(e, dict) and len(e.get("a", [])) > 1 else None
        if tag == "std::defer_lock_t":
            return mk("lock", m, kind, FALSE)
        if tag == "std::adopt_lock_t":
            return mk("lock", m, kind, TRUE)
        if n == "std::scoped_lock":
            ms = [mutex_id(ev, lvof(ev, x, S)) for x in args[:k]]
            for x in ms:
                acquire(ev, S, x, kind, e, "atomic")
            return mk("lock", tuple(ms), kind, TRUE)
    acquire(ev, S, m, kind, e)
    return mk("lock", m, kind, TRUE)


def acquire(ev, S, m, kind, node, extra=None):
    ev.event(S, "acquire", m, kind, node=node, extra=extra)
    key = ("held", m)
    S.env[key] = (kind, TRUE)


def release(ev, S, m, node):
    ev.event(S, "release", m, node=node)
    S.env.pop(("held", m), None)


def lock_release(ev, S, lv, node):
    t = ev.load(S, lv)
    lock_drop(ev, S, t, node)


def lock_drop(ev, S, t, node):
    if t.op == "lock":
        if t.a[2] is FALSE:
            return
        for m in (t.a[0] if isinstance(t.a[0], tuple) else (t.a[0],)):
            if t.a[2] is TRUE:
                release(ev, S, m, node)
            else:
                h = S.env.get(("held", m))
                if h is not None:
                    c = and_(h[1], not_(t.a[2]))
                    if c is FALSE:
                        S.env.pop(("held", m), None)
                    else:
                        S.env[("held", m)] = (h[0], c)
    elif t.op == "ite":
        a, b = t.a[1], t.a[2]
        la, lb = a, b
        for x in (a, b):
            if x.op == "lock":
                m = x.a[0]
                for q in (m if isinstance(m, tuple) else (m,)):
                    # held exactly under the conditions recorded; dropping ends the holding
                    ev.event(S, "release", q, node=node)
                    S.env.pop(("held", q), None)
            else:
                lock_drop(ev, S, x, node)


def lock_moved(ev, S, x, v):
    if v.op == "lock":
        ev.put(S, x, mk("lock", v.a[0], v.a[1], FALSE))


def lock_method(ev, e, obj, S):
    n = e["n"]
    lv = lvof(ev, obj, S)
    t = ev.load(S, lv)
    if n in ("lock", "unlock", "owns_lock", "operator bool", "release", "try_lock"):
        if t.op == "lock":
            ms = t.a[0] if isinstance(t.a[0], tuple) else (t.a[0],)
            if n == "lock":
                for m in ms:
                    acquire(ev, S, m, t.a[1], e)
                ev.put(S, lv, mk("lock", t.a[0], t.a[1], TRUE))
                return tm.UNIT
            if n == "unlock":
                for m in ms:
                    release(ev, S, m, e)
                ev.put(S, lv, mk("lock", t.a[0], t.a[1], FALSE))
                return tm.UNIT
            if n in ("owns_lock", "operator bool"):
                return t.a[2]
        return ev.opq("lock operation " + n, S, "b", e)
    return None


def mutex_method(ev, e, obj, S):
    n = e["n"]
    m = mutex_id(ev, lvof(ev, obj, S))
    if n in ("lock", "lock_shared"):
        acquire(ev, S, m, "x" if n == "lock" else "s", e)
        return tm.UNIT
    if n in ("unlock", "unlock_shared"):
        release(ev, S, m, e)
        return tm.UNIT
    return None


# ------------------------------------------------------------------ iterators
def it_range(ev, a, b, S):
    """sequence between two iterators of one container"""
    if a.op == "riter" and b.op == "riter":
        x = it_range(ev, mk("iter", b.a[0], b.a[1]), mk("iter", a.a[0], a.a[1]), S)
        return mk("rev", x) if x is not None else None
    if a.op != "iter" or b.op != "iter" or a.a[0] is not b.a[0]:
        return None
    c = ev.load(S, LVALS[a.a[0]])
    return tm.sub_seq(c, a.a[1], b.a[1])


def like_elems(t, old):
    """the elements of t are of the type of those of old"""
    if tm.elem_type(old):
        tm.ELEM_TYPE[t] = tm.elem_type(old)
    return t


def whole(ev, a, b, S):
    """(container LV, value) when [a, b) is a whole container"""
    if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
        lv = LVALS[a.a[0]]
        c = ev.load(S, lv)
        if a.a[1] is const(0) and tm.eqt(b.a[1], tm.ln(c)) is TRUE:
            return lv, c
    return None


def iter_deref(ev, S, p, ty):
    if p.op == "iter":
        lv = LVALS[p.a[0]]
        ety = seq_elem_ty(lv.ty.noref()) if lv.ty is not None else None
        return lv.ext("i", p.a[1], ety or (ty.noref() if ty is not None else None))
    if p.op == "riter":
        lv = LVALS[p.a[0]]
        ety = seq_elem_ty(lv.ty.noref()) if lv.ty is not None else None
        return lv.ext("i", tm.sub(p.a[1], const(1)), ety or (ty.noref() if ty is not None else None))
    if p.op == "mit":
        m, k, h = p.a
        lv = LVALS[h]
        cty = lv.ty.noref() if lv.ty is not None else None
        if cty is not None and cty.rec() in SETS:
            return ev.heap(S, k, cty.targ(0), "t")
        vty = cty.targ(1) if cty is not None else None
        v = ev.load(S, lv.ext("m", k, vty))
        r = ev.heap(S, tm.rec("std::pair", [("first", k), ("second", v)]), None, "t")
        return MapRef(r, lv, k, vty)
    return ev.heap(S, ev.opq("dereference of end iterator", S), ty, "t")


class MapSeq(LV):
    """the elements of a map as a sequence: its keys, each standing for the pair behind its iterator"""
    __slots__ = ("h", "m")

    def __init__(self, keys, h, m):
        LV.__init__(self, keys.root, keys.path, keys.ty)
        self.h, self.m = h, m


class RevSeq(LV):
    """the elements of a sequence before position top, last first"""
    __slots__ = ("top",)

    def __init__(self, lv, top):
        LV.__init__(self, lv.root, lv.path, lv.ty)
        self.top = top

    def ext(self, kind, key, ty):
        if kind == "i":
            key = tm.sub(tm.sub(self.top, key), const(1))
        return LV.ext(self, kind, key, ty)


class MapRef(LV):
    """pair lvalue of a map iterator; .second designates the mapped object"""
    __slots__ = ("m", "k", "vty")

    def __init__(self, lv, m, k, vty):
        LV.__init__(self, lv.root, lv.path, lv.ty)
        self.m, self.k, self.vty = m, k, vty

    def ext(self, kind, key, ty):
        if kind == "f" and key == "second":
            return self.m.ext("m", self.k, self.vty or ty)
        return LV.ext(self, kind, key, ty)


def iter_arith(ev, op, a, b, S):
    if a.op == "iter":
        if op in ("+", "-") and b.sort == "i":
            return mk("iter", a.a[0], tm.add(a.a[1], b) if op == "+" else tm.sub(a.a[1], b))
        if op == "-" and b.op == "iter" and a.a[0] is b.a[0]:
            return tm.sub(a.a[1], b.a[1])
    if a.op == "riter" and op in ("+", "-") and b.sort == "i":
        return mk("riter", a.a[0], tm.sub(a.a[1], b) if op == "+" else tm.add(a.a[1], b))
    if a.op == "mit":
        return mk("mafter", *a.a) if op == "+" and b is const(1) else mk("mitn", a, b)
    if a.op == "ite" and b.sort == "i":
        return ite(a.a[0], iter_arith(ev, op, a.a[1], b, S), iter_arith(ev, op, a.a[2], b, S))
    return tm.opaque("iterator arithmetic", "o")


ITER_OPS = ("iter", "riter", "mit", "mend", "mafter", "mgap")


def is_iter(t):
    return t.op in ITER_OPS or t.op == "ite" and (is_iter(t.a[1]) or is_iter(t.a[2]))


def arrow(ev, S, o, b):
    """object behind operator->"""
    oty = obj_rec(ev, b)
    v = ev.argval(o, S)
    n = oty.rec() if oty is not None and oty.k == "rec" else None
    if v.op == "mbegin":
        return mbegin_deref(ev, S, v)
    if v.op in ITER_OPS:
        return iter_deref(ev, S, v, None)
    if n == "std::optional":
        ev.event(S, "optderef", v, node=b)
        if isinstance(o, LV):
            return o.ext("v", tm.UNIT, oty.targ(0))
        return ev.heap(S, tm.opt_value(v), oty.targ(0), "t")
    pty = None
    if b.get("t") is not None:
        rt = ev.ty(b["t"])
        if rt.k == "ptr":
            pty = rt.pointee()
    return ev.deref(S, v, pty)


# ------------------------------------------------------------------ algorithm loops
def algo_loop(ev, S, e, lv, a, b, body, ety=None):
    """iterate over elements [a,b) of container lv; body(X, elemLV, k, outs) -> X"""
    from . import loops
    H = loops.Head()
    n = tm.maxt(const(0), tm.sub(b, a)) if a is not const(0) else b
    H.n = n
    cur = {}

    def bnd(X, k):
        cur["k"] = k
    H.bind = bnd

    class Body(dict):
        pass

    def run(X, outs):
        el = lv.ext("i", tm.add(a, cur["k"]), ety)
        if isinstance(lv, MapSeq):
            el = iter_deref(ev, X, mk("mit", lv.m, ev.load(X, el), lvh(lv.h)), None)
        return body(X, el, cur["k"], outs)
    s = {"s": "py", "l": e.get("l"), "b": {"s": "py", "f": run, "l": e.get("l")}}
    outs = []
    r = loops.try_unroll(ev, s, S, outs, H, s["b"])
    if r is False:
        r = loops.summarize(ev, s, S, outs, H, s["b"], None)
    if r is None:
        raise Dead()
    if r is not S:
        S.become(r)


def range_args(ev, e, S, i=0):
    """(lv, from, to, element type) of iterator arguments i, i+1, or None"""
    a, b = ev.rv(e["a"][i], S), ev.rv(e["a"][i + 1], S)
    if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
        lv = LVALS[a.a[0]]
        ety = seq_elem_ty(lv.ty.noref()) if lv.ty is not None else None
        return lv, a.a[1], b.a[1], ety
    if a.op == "riter" and b.op == "riter" and a.a[0] is b.a[0]:
        lv = LVALS[a.a[0]]
        ety = seq_elem_ty(lv.ty.noref()) if lv.ty is not None else None
        return RevSeq(lv, a.a[1]), const(0), tm.sub(a.a[1], b.a[1]), ety
    return None


def _acc(ev, S, v, ty=None):
    return ev.heap(S, v, ty, "h")


def map_range(ev, e, S):
    """an algorithm's range when it is a whole map or set"""
    a, b = ev.rv(e["a"][0], S), ev.rv(e["a"][1], S)
    if b.op == "mend" and a.op == "mbegin":
        h = LVALS[b.a[1]]
        cty = h.ty.noref() if h.ty is not None else None
        keys = map_elems(ev, S, h)
        if cty is None or cty.rec() in SETS:
            elems = ev.heap(S, keys, None, "t")
            return elems, const(0), tm.ln(ev.load(S, elems)), None
        m = ev.load(S, h)
        keys = tm.keys(m)
        kt = cty.targ(0)
        if kt is not None and keys is not tm.EMPTY:
            tm.ELEM_TYPE[keys] = (kt.sort(), kt.rec() if kt.k == "rec" else None, kt.range() if kt.is_int() else None)
        seq = MapSeq(ev.heap(S, keys, None, "t"), h, m)
        return seq, const(0), tm.ln(keys), None
    return None


def algorithm(ev, e, S, n):
    al = e["a"]
    if n in ("sort", "stable_sort"):
        w = whole(ev, ev.rv(al[0], S), ev.rv(al[1], S), S)
        if w is None:
            b, t = ev.rv(al[0], S), ev.rv(al[1], S)
            lv = LVALS[b.a[0]] if b.op == t.op == "iter" and b.a[0] is t.a[0] else None
            if lv is None:
                return ev.opq("sort of a partial range", S, "o", e)
            v0 = ev.load(S, lv)
            c = like_elems(tm.sub_seq(v0, b.a[1], t.a[1]), v0)
        else:
            lv, c = w
        ety = seq_elem_ty(lv.ty.noref()) if lv.ty is not None else None
        cmp_, cl = natural_less(ev, S, ety, e) if len(al) < 3 else comparator(ev, ev.rv(al[2], S), ety, S, e)
        ev.event(S, "sort", lv, c, cmp_, node=e, extra=(cl, ety))
        v = given_order(c, cmp_, ety) if tm.FOLD_SORTS else None
        if v is None:
            v = mk("sorted", c, cmp_)
        if tm.elem_type(c):
            tm.ELEM_TYPE[v] = tm.elem_type(c)
        if w is None:
            v = like_elems(tm.cat(tm.sub_seq(v0, const(0), b.a[1]), v, tm.sub_seq(v0, t.a[1], tm.ln(v0))), v0)
        ev.put(S, lv, v)
        return tm.UNIT
    if n == "reverse":
        w = whole(ev, ev.rv(al[0], S), ev.rv(al[1], S), S)
        if w is None:
            b, t = ev.rv(al[0], S), ev.rv(al[1], S)
            lv = LVALS[b.a[0]] if b.op == t.op == "iter" and b.a[0] is t.a[0] else None
            if lv is None:
                return ev.opq("reverse of a partial range", S, "o", e)
            v0 = ev.load(S, lv)
            ev.put(S, lv, like_elems(tm.cat(tm.sub_seq(v0, const(0), b.a[1]), tm.rev(tm.sub_seq(v0, b.a[1], t.a[1])), tm.sub_seq(v0, t.a[1], tm.ln(v0))), v0))
            return tm.UNIT
        ev.put(S, w[0], tm.rev(w[1]))
        return tm.UNIT
    if n == "shuffle":
        w = whole(ev, ev.rv(al[0], S), ev.rv(al[1], S), S)
        g = ev.lv_or_rv(al[2], S)
        gt = ev.argval(g, S)
        if w is None:
            b, t = ev.rv(al[0], S), ev.rv(al[1], S)
            if b.op == t.op == "iter" and b.a[0] is t.a[0]:
                lv = LVALS[b.a[0]]
                if lv is not None:
                    v0 = ev.load(S, lv)
                    ev.event(S, "shuffle", lv, gt, node=e)
                    ev.put(S, lv, like_elems(tm.cat(tm.sub_seq(v0, const(0), b.a[1]), mk("perm", tm.sub_seq(v0, b.a[1], t.a[1]), gt), tm.sub_seq(v0, t.a[1], tm.ln(v0))), v0))
                    return tm.UNIT
            return ev.opq("shuffle of a partial range", S, "o", e)
        ev.event(S, "shuffle", w[0], gt, node=e)
        v = mk("perm", w[1], gt)
        if tm.elem_type(w[1]):
            tm.ELEM_TYPE[v] = tm.elem_type(w[1])
        ev.put(S, w[0], v)
        if isinstance(g, LV):
            ev.put(S, g, tm.app("advanced", gt, tm.ln(w[1])))
        return tm.UNIT
    if n in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "for_each", "count_if", "find", "count", "accumulate", "partition_point"):
        r = range_args(ev, e, S)
        if r is None and n in ("any_of", "all_of", "none_of", "for_each", "count_if", "accumulate"):
            r = map_range(ev, e, S)
        if r is None or isinstance(r[0], RevSeq) and n in ("find", "find_if", "find_if_not", "partition_point"):
            return ev.opq("algorithm " + n, S, "o", e)
        lv, a, b, ety = r
        f = ev.lv_or_rv(al[2], S) if len(al) > 2 else None
        fv = ev.argval(f, S) if f is not None else None
        if n in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "find"):
            acc = _acc(ev, S, FALSE)
            pos = _acc(ev, S, b)

            def body(X, el, k, outs):
                if n == "find":
                    c = equal(ev, X, ev.load(X, el), fv, ety, e)
                else:
                    c = tm.tobool(ev.call_value(fv, [el], X, e))
                if n in ("all_of", "find_if_not"):
                    c = not_(c)
                c = ev.simp(X, c)
                B = X.copy()
                if ev.assume(B, c):
                    ev.put(B, acc, TRUE)
                    ev.put(B, pos, tm.add(a, k))
                    outs.append(Out("brk", B))
                return X if ev.assume(X, not_(c)) else None
            algo_loop(ev, S, e, lv, a, b, body, ety)
            hit = S.env.pop(acc.root)
            p = S.env.pop(pos.root)
            if n == "any_of":
                return hit
            if n in ("all_of", "none_of"):
                return not_(hit)
            return mk("iter", lvh(lv), p)
        if n == "for_each":
            def body(X, el, k, outs):
                ev.call_value(fv, [el], X, e)
                return X
            algo_loop(ev, S, e, lv, a, b, body, ety)
            return tm.UNIT
        if n in ("count_if", "count"):
            acc = _acc(ev, S, const(0))

            def body(X, el, k, outs):
                c = tm.tobool(ev.call_value(fv, [el], X, e)) if n == "count_if" else equal(ev, X, ev.load(X, el), fv, ety, e)
                ev.put(X, acc, tm.add(ev.load(X, acc), tm.b2i(c)))
                return X
            algo_loop(ev, S, e, lv, a, b, body, ety)
            return S.env.pop(acc.root)
        if n == "accumulate":
            rty = ev.ty(e["t"])
            acc = _acc(ev, S, ev.conv(fv, rty), rty)
            op = ev.rv(al[3], S) if len(al) > 3 else None

            def body(X, el, k, outs):
                cur = ev.load(X, acc)
                v = ev.call_value(op, [cur, el], X, e) if op is not None else tm.add(cur, ev.load(X, el))
                ev.put(X, acc, ev.conv(ev.argval(v, X), rty))
                return X
            algo_loop(ev, S, e, lv, a, b, body, ety)
            return S.env.pop(acc.root)
    if n in ("transform", "copy", "copy_if", "remove_copy_if"):
        r = range_args(ev, e, S) or map_range(ev, e, S)
        if r is None:
            return ev.opq("algorithm " + n, S, "o", e)
        lv, a, b, ety = r
        out = ev.rv(al[2], S)
        f = ev.rv(al[3], S) if len(al) > 3 else None
        if out.op not in ("backins", "iter", "setins"):
            return ev.opq("algorithm " + n, S, "o", e)
        dst = LVALS[out.a[0]]

        def body(X, el, k, outs):
            v = None
            if n == "transform":
                v = ev.argval(ev.call_value(f, [el], X, e), X)
            else:
                v = ev.load(X, el)
            if out.op == "backins":
                c = TRUE
                if n in ("copy_if", "remove_copy_if"):
                    c = tm.tobool(ev.call_value(f, [el], X, e))
                    c = not_(c) if n == "remove_copy_if" else c
                s = ev.load(X, dst)
                ev.put(X, dst, ite(c, tm.cat(s, tm.lst(v)), s))
            elif out.op == "setins":
                s = ev.load(X, dst)
                ev.put(X, dst, tm.mput(s, v, tm.UNIT))
            else:
                ev.put(X, dst.ext("i", tm.add(out.a[1], k), None), v)
            return X
        if n in ("copy_if", "remove_copy_if") and out.op in ("iter", "setins"):
            return ev.opq("algorithm " + n, S, "o", e)
        algo_loop(ev, S, e, lv, a, b, body, ety)
        if out.op == "iter":
            return mk("iter", out.a[0], tm.add(out.a[1], tm.sub(b, a)))
        return out
    if n in ("remove", "remove_if", "unique"):
        a, b = ev.rv(al[0], S), ev.rv(al[1], S)
        w = whole(ev, a, b, S)
        if w is None:
            return ev.opq("algorithm " + n, S, "o", e)
        lv, c = w
        ety = seq_elem_ty(lv.ty.noref()) if lv.ty is not None else None
        fv = ev.rv(al[2], S) if len(al) > 2 else None
        if n == "unique":
            kept = tm.app("unique", c)
        else:
            out = _acc(ev, S, tm.EMPTY)

            def body(X, el, k, outs):
                v = ev.load(X, el)
                cc = equal(ev, X, v, fv, ety, e) if n == "remove" else tm.tobool(ev.call_value(fv, [el], X, e))
                s = ev.load(X, out)
                ev.put(X, out, ite(cc, s, tm.cat(s, tm.lst(v))))
                return X
            algo_loop(ev, S, e, lv, a.a[1], b.a[1], body, ety)
            kept = S.env.pop(out.root)
        junk = tm.opaque("removed tail")
        ev.put(S, lv, tm.cat(kept, junk))
        return mk("iter", a.a[0], tm.ln(kept))
    if n == "iota":
        r = range_args(ev, e, S)
        v0 = ev.rv(al[2], S)
        if r is None:
            return ev.opq("iota", S, "o", e)
        lv, a, b, ety = r

        def body(X, el, k, outs):
            ev.put(X, el, tm.add(v0, k))
            return X
        algo_loop(ev, S, e, lv, a, b, body, ety)
        return tm.UNIT
    if n == "fill":
        r = range_args(ev, e, S)
        v0 = ev.rv(al[2], S)
        if r is None:
            return ev.opq("fill", S, "o", e)
        lv, a, b, ety = r

        def body(X, el, k, outs):
            ev.put(X, el, v0)
            return X
        algo_loop(ev, S, e, lv, a, b, body, ety)
        return tm.UNIT
    if n == "equal":
        r = range_args(ev, e, S)
        o = ev.rv(al[2], S)
        if r is None or o.op != "iter" or len(al) > 5 or isinstance(r[0], RevSeq):
            return ev.opq("equal", S, "b", e)
        lv, a, b, ety = r
        more = [ev.argval(ev.lv_or_rv(x, S), S) for x in al[3:]]
        end = more.pop(0).a[1] if more and isinstance(more[0], tm.T) and more[0].op == "iter" else None
        if len(more) > 1:
            return ev.opq("equal", S, "b", e)
        l2 = LVALS[o.a[0]]
        fits = TRUE if end is None else tm.eqt(tm.sub(b, a), tm.sub(end, o.a[1]))
        if not more:
            s1 = it_range(ev, mk("iter", lvh(lv), a), mk("iter", lvh(lv), b), S)
            s2 = tm.sub_seq(ev.load(S, l2), o.a[1], end if end is not None else tm.add(o.a[1], tm.sub(b, a)))
            return seq_equal(ev, S, s1, s2, ety, e)
        e2 = seq_elem_ty(l2.ty.noref()) if l2.ty is not None else None
        acc = _acc(ev, S, TRUE)

        def body(X, el, k, outs):
            other = l2.ext("i", tm.add(o.a[1], k), e2)
            c = ev.simp(X, tm.tobool(ev.call_value(more[0], [el, other], X, e)))
            B = X.copy()
            if ev.assume(B, not_(c)):
                ev.put(B, acc, FALSE)
                outs.append(Out("brk", B))
            return X if ev.assume(X, c) else None
        if fits is FALSE:
            S.env.pop(acc.root)
            return FALSE
        algo_loop(ev, S, e, lv, a, b, body, ety)
        return and_(fits, S.env.pop(acc.root))
    if n == "is_permutation" and len(al) <= 4:
        r = range_args(ev, e, S)
        o = ev.rv(al[2], S)
        if r is None or o.op != "iter" or isinstance(r[0], RevSeq):
            return ev.opq("is_permutation", S, "b", e)
        lv, a, b, ety = r
        s1 = it_range(ev, mk("iter", lvh(lv), a), mk("iter", lvh(lv), b), S)
        end = ev.rv(al[3], S).a[1] if len(al) > 3 else tm.add(o.a[1], tm.ln(s1))
        s2 = tm.sub_seq(ev.load(S, LVALS[o.a[0]]), o.a[1], end)
        k1, k2 = tm.ln(s1), tm.ln(s2)
        if k1.op != "c" or k2.op != "c" or k1.a[0] > 4:
            return ev.opq("is_permutation", S, "b", e)
        if k1 is not k2:
            return FALSE
        out = FALSE
        for pm in itertools.permutations(range(int(k1.a[0]))):
            c = TRUE
            for x, y in enumerate(pm):
                c = tm.and_(c, equal(ev, S, tm.at(s1, const(x)), tm.at(s2, const(y)), ety, e))
            out = tm.or_(out, c)
        return out
    if n in ("min_element", "max_element"):
        return ev.opq("algorithm " + n, S, "o", e)
    return None


def map_elems(ev, S, h):
    m = ev.load(S, h)
    cty = h.ty.noref() if h.ty is not None else None
    keys = tm.keys(m)
    if cty is not None and cty.rec() in SETS:
        k = cty.targ(0)
        if k is not None and keys is not tm.EMPTY:
            tm.ELEM_TYPE[keys] = (k.sort(), k.rec() if k.k == "rec" else None, k.range() if k.is_int() else None)
        return keys
    return tm.opaque("map elements")


def comparator(ev, f, ety, S, e):
    """canonical term of a comparison function (value on two fixed symbols)"""
    a, b = canon_pair(ety)
    X = S.copy()
    X.pc = ()
    n = len(ev.sink[-1])
    nev = len(X.ev)
    try:
        r = ev.call_value(f, [ev.heap(X, a, ety, "t"), ev.heap(X, b, ety, "t")], X, e)
        r = ev.argval(r, X)
    except Dead:
        r = tm.opaque("comparator", "b")
    del ev.sink[-1][n:]
    return tm.tobool(r), f


def given_order(c, cmp_, ety):
    """the sorted list of given elements; None unless the comparisons decide one order"""
    if c.op != "list" or len(c.a) > 40:
        return None
    a, b = canon_pair(ety)
    out = []
    for x in c.a:
        k = len(out)
        while k and (p := tm.subst(cmp_, {a: x, b: out[k - 1]})) is TRUE:
            k -= 1
        if k and p is not FALSE:
            return None
        out.insert(k, x)
    for x, y in zip(out, out[1:]):
        if x is not y and tm.subst(cmp_, {a: x, b: y}) is not TRUE:
            return None
    return tm.lst(*out)


def natural_less(ev, S, ety, e):
    a, b = canon_pair(ety)
    X = S.copy()
    X.pc = ()
    return less(ev, X, a, b, ety, e), None


def canon_pair(ety):
    s = ety.sort() if ety is not None else "o"
    nm = ety.s if ety is not None else "?"
    a, b = tm.sym("cmp:a:" + nm, s), tm.sym("cmp:b:" + nm, s)
    if ety is not None:
        a, b = typed(a, ety), typed(b, ety)
    return a, b


def less(ev, S, a, b, ety, e):
    if a.sort in "ir":
        return tm.lt(a, b)
    tn = tm.type_of(a)
    if tn in ev.P.records:
        f = user_op(ev, "operator<", tn)
        if f is not None:
            return tm.tobool(call_op(ev, f, a, b, ety, S, e))
    return tm.app("less", a, b, sort="b")


def user_op(ev, name, tn):
    for f in ev.P.fns.values():
        if f.n == name:
            if f.cls == tn and len(f.params()) == 1:
                return f
            if not f.cls and len(f.params()) == 2 and f.pty(0).noref().rec() == tn:
                return f
    return None


def call_op(ev, f, a, b, ety, S, e):
    la, lb = ev.heap(S, a, ety, "t"), ev.heap(S, b, ety, "t")
    r = ev.call_fn(f, [lb], la, S, e) if f.cls else ev.call_fn(f, [la, lb], None, S, e)
    return ev.argval(r, S)


USER_EQ = True


def equal(ev, S, a, b, ety, e, elem=None):
    """operator== of two values, through a user-defined operator when there is one"""
    tn = tm.type_of(a) or tm.type_of(b) or (ety.rec() if ety is not None and ety.k == "rec" else None)
    if tn in ev.P.records and USER_EQ:
        f = user_op(ev, "operator==", tn)
        if f is not None:
            if ev.is_opaque(f):
                return tm.eqt(a, b)
            X = S
            return tm.tobool(call_op(ev, f, a, b, ety, X, e))
    return tm.eqt(a, b)


# ------------------------------------------------------------------ containers
def container_method(ev, e, obj, S, cty):
    n = e["n"]
    rec = cty.rec()
    al = e["a"]
    lv = lvof(ev, obj, S, cty)
    if lv.ty is None:
        lv = LV(lv.root, lv.path, cty)
    ety = cty.targ(0)
    if rec in SEQS or rec in ("std::stack", "std::queue"):
        if n in ("size", "length"):
            return tm.ln(ev.load(S, lv))
        if n == "empty":
            return tm.eq0(tm.ln(ev.load(S, lv)))
        if n in ("operator[]", "at"):
            i = ev.rv(al[0], S)
            if n == "at":
                L = tm.ln(ev.load(S, lv))
                ev.throw_if(S, not_(and_(tm.ge0(i), tm.lt(i, L))), "std::out_of_range", tm.UNIT, e)
            else:
                ev.event(S, "index", lv, i, tm.ln(ev.load(S, lv)), node=e)
            return lv.ext("i", i, ety)
        if n in ("front",):
            ev.event(S, "index", lv, const(0), tm.ln(ev.load(S, lv)), node=e)
            return lv.ext("i", const(0), ety)
        if n in ("back", "top") and rec != "std::queue":
            L = tm.ln(ev.load(S, lv))
            ev.event(S, "index", lv, tm.sub(L, const(1)), L, node=e)
            return lv.ext("i", tm.sub(L, const(1)), ety)
        if n in ("begin", "cbegin"):
            return mk("iter", lvh(lv), const(0))
        if n in ("end", "cend"):
            return mk("iter", lvh(lv), tm.ln(ev.load(S, lv)))
        if n in ("rbegin", "crbegin"):
            return mk("riter", lvh(lv), tm.ln(ev.load(S, lv)))
        if n in ("rend", "crend"):
            return mk("riter", lvh(lv), const(0))
        if n in ("reserve", "shrink_to_fit", "capacity"):
            ev_args = argvals(ev, e, S)
            if n == "reserve":
                ev.event(S, "alloc", ev_args[0], node=e)
            return tm.UNIT if n != "capacity" else ev.opq("capacity", S, "i", e)
        if n in ("push_back", "push", "emplace_back", "emplace"):
            if n.startswith("emplace") and (rec in ("std::stack", "std::queue") or n == "emplace_back"):
                v = construct(ev, ety, [ev.lv_or_rv(a, S) for a in al], S, e)
            elif n == "emplace":
                return None
            else:
                v = ev.rv_t(al[0], S, ety)
            s = ev.load(S, lv)
            ev.put(S, lv, keep_et(tm.cat(s, tm.lst(v)), s))
            if n == "emplace_back":
                return lv.ext("i", tm.ln(s), ety)
            return tm.UNIT
        if n in ("pop_back", "pop") and rec != "std::queue":
            s = ev.load(S, lv)
            ev.put(S, lv, tm.sub_seq(s, const(0), tm.sub(tm.ln(s), const(1))))
            return tm.UNIT
        if n == "clear":
            ev.put(S, lv, tm.EMPTY)
            return tm.UNIT
        if n == "resize":
            s = ev.load(S, lv)
            c = ev.rv(al[0], S)
            d = ev.rv(al[1], S) if len(al) > 1 else ev.default_value(ety, S) if ety is not None else tm.UNIT
            ev.event(S, "alloc", c, node=e)
            L = tm.ln(s)
            grow = tm.cat(s, tm.comp(tm.fresh("j", "i", (0, 1 << 31)), tm.maxt(const(0), tm.sub(c, L)), TRUE, d))
            ev.put(S, lv, keep_et(ite(tm.ge(c, L), grow, tm.sub_seq(s, const(0), c)), s))
            return tm.UNIT
        if n == "assign":
            a = [ev.rv(x, S) for x in al]
            if len(a) == 2 and a[0].sort == "i":
                ev.event(S, "alloc", a[0], node=e)
                ev.put(S, lv, tm.comp(tm.fresh("j", "i", (0, 1 << 31)), a[0], TRUE, a[1]))
                return tm.UNIT
            if len(a) == 2:
                r = it_range(ev, a[0], a[1], S)
                if r is not None:
                    ev.put(S, lv, r)
                    return tm.UNIT
            return None
        if n == "insert":
            s = ev.load(S, lv)
            p = ev.rv(al[0], S)
            if p.op != "iter" or p.a[0] is not lvh(lv):
                return None
            if len(al) == 3:
                a, b = ev.rv(al[1], S), ev.rv(al[2], S)
                if a.sort == "i":
                    x = tm.comp(tm.fresh("j", "i", (0, 1 << 31)), a, TRUE, b)
                elif a.op in ("mbegin",) and b.op == "mend":
                    x = map_elems(ev, S, LVALS[b.a[1]])
                else:
                    x = it_range(ev, a, b, S)
            elif len(al) == 2:
                v = ev.rv(al[1], S)
                x = tm.lst(v)
            else:
                return None
            if x is None:
                return None
            ev.put(S, lv, keep_et(tm.cat(tm.sub_seq(s, const(0), p.a[1]), x, tm.sub_seq(s, p.a[1], tm.ln(s))), s))
            return p
        if n == "erase":
            s = ev.load(S, lv)
            a = ev.rv(al[0], S)
            if a.op != "iter" or a.a[0] is not lvh(lv):
                return None
            if len(al) == 2:
                b = ev.rv(al[1], S)
                if b.op != "iter":
                    return None
                bi = b.a[1]
            else:
                bi = tm.add(a.a[1], const(1))
            ev.put(S, lv, keep_et(tm.cat(tm.sub_seq(s, const(0), a.a[1]), tm.sub_seq(s, bi, tm.ln(s))), s))
            return a
        if n == "data":
            return ptr(lv.ext("i", const(0), ety))
        if n in ("c_str", "str"):
            return ev.load(S, lv)
        if n == "swap":
            o = lvof(ev, ev.lv_or_rv(al[0], S), S)
            x, y = ev.load(S, lv), ev.load(S, o)
            ev.put(S, lv, y)
            ev.put(S, o, x)
            return tm.UNIT
        if n in ("operator+=", "append") and rec == "std::basic_string":
            s = ev.load(S, lv)
            ev.put(S, lv, tm.app("strcat", s, ev.rv(al[0], S)))
            return lv
        return None
    isset = rec in SETS
    if rec in MAPS or isset:
        vty = None if isset else cty.targ(1)
        m = lambda: ev.load(S, lv)
        if n == "size":
            return map_size(m())
        if n == "empty":
            return tm.eq0(map_size(m()))
        if n in ("count", "contains"):
            k = ev.rv(al[0], S)
            h = tm.mhas(m(), k)
            return h if n == "contains" else tm.b2i(h)
        if n == "find":
            k = ev.rv(al[0], S)
            mm = m()
            h = tm.mhas(mm, k)
            return ite(h, mk("mit", mm, k, lvh(lv)), mk("mend", mm, lvh(lv)))
        if n in ("end", "cend"):
            return mk("mend", m(), lvh(lv))
        if n in ("begin", "cbegin"):
            mm = m()
            return mk("mbegin", mm, lvh(lv))
        if n == "equal_range":
            k = ev.rv(al[0], S)
            mm = m()
            h = ev.simp(S, tm.mhas(mm, k))
            gap = mk("mgap", mm, k, lvh(lv))
            return tm.rec("std::pair", [("first", ite(h, mk("mit", mm, k, lvh(lv)), gap)), ("second", ite(h, mk("mafter", mm, k, lvh(lv)), gap))])
        if n in ("rbegin", "crbegin") and rec in ("std::map", "std::set"):
            k = edge_key(m(), max, cty)
            return mk("mit", m(), k, lvh(lv)) if k is not None else None
        if n in ("at",):
            k = ev.rv(al[0], S)
            ev.throw_if(S, not_(tm.mhas(m(), k)), "std::out_of_range", tm.UNIT, e)
            return lv.ext("m", k, vty)
        if n == "operator[]":
            k = ev.rv(al[0], S)
            mm = m()
            d = ev.default_value(vty, S) if vty is not None else tm.UNIT
            h = ev.simp(S, tm.mhas(mm, k))
            if h is not TRUE:
                cur = tm.mget(mm, k, vty.sort() if vty else "o")
                ev.put(S, lv, ite(h, mm, tm.mput(mm, k, d)))
            return lv.ext("m", k, vty)
        if n in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            mm = m()
            if isset:
                if len(al) == 2:
                    a, b = ev.rv(al[0], S), ev.rv(al[1], S)
                    s = it_range(ev, a, b, S)
                    if s is None:
                        return None
                    if s.op == "list":
                        for x in s.a:
                            mm = tm.mput(mm, x, tm.UNIT)
                    else:
                        v = tm.fresh("j", "i", (0, 1 << 31))
                        mm = tm.bind("mfold", v, tm.ln(s), TRUE, tm.at(s, v), tm.UNIT, mm)
                    ev.put(S, lv, mm)
                    return tm.UNIT
                k = construct(ev, ety, [ev.lv_or_rv(a, S) for a in al], S, e)
                h = tm.mhas(mm, k)
                ev.put(S, lv, tm.mput(mm, k, tm.UNIT))
                return tm.rec("std::pair", [("first", mk("mit", mm, k, lvh(lv))), ("second", not_(h))])
            if n in ("insert",) and len(al) == 1:
                p = ev.rv(al[0], S)
                k, v = tm.fld(p, "first", ety.sort()), tm.fld(p, "second", vty.sort())
            elif len(al) >= 2:
                k = ev.rv_t(al[0], S, ety)
                v = construct(ev, vty, [ev.lv_or_rv(a, S) for a in al[1:]], S, e)
            else:
                return None
            h = ev.simp(S, tm.mhas(mm, k))
            put = tm.mput(mm, k, v)
            ev.put(S, lv, put if n == "insert_or_assign" else ite(h, mm, put))
            return tm.rec("std::pair", [("first", mk("mit", mm, k, lvh(lv))), ("second", not_(h))])
        if n == "erase":
            mm = m()
            k = ev.rv(al[0], S)
            if k.op == "mbegin" and rec in ("std::map", "std::set"):
                k = edge_key(k.a[0], min, cty) or k
            if k.op == "mit":
                k = k.a[1]
            elif k.op == "mbegin":
                return None
            elif k.op == "ite" and is_iter(k) or k.op in ITER_OPS:
                return None
            ev.put(S, lv, tm.mdel(mm, k))
            return tm.b2i(tm.mhas(mm, k))
        if n == "clear":
            ev.put(S, lv, tm.mempty())
            return tm.UNIT
        if n == "reserve":
            return tm.UNIT
        return None
    return None


def map_size(m):
    if m.op == "mempty":
        return const(0)
    if m.op == "ite":
        return ite(m.a[0], map_size(m.a[1]), map_size(m.a[2]))
    if m.op == "mput":
        return tm.add(map_size(m.a[0]), tm.b2i(not_(tm.mhas(m.a[0], m.a[1]))))
    return tm.ln(tm.keys(m))


def edge_key(m, pick, cty):
    """the least or greatest key of a map whose keys are known numbers"""
    order = cty.targ(2 if cty.rec() == "std::map" else 1)
    order = order.rec() if order is not None and order.k == "rec" else None
    if order in ("std::greater",):
        pick = min if pick is max else max
    elif order not in ("std::less", None):
        return None
    ks = []
    while m.op == "mput":
        if m.a[1].op != "c":
            return None
        ks.append(m.a[1].a[0])
        m = m.a[0]
    return const(pick(ks)) if m.op == "mempty" and ks else None


def keep_et(v, s):
    et = tm.elem_type(s)
    if et and v not in tm.ELEM_TYPE:
        tm.ELEM_TYPE[v] = et
    return v


def optional_method(ev, e, obj, S, cty):
    n = e["n"]
    lv = lvof(ev, obj, S, cty)
    t = ev.load(S, lv)
    ety = cty.targ(0)
    if n in ("has_value", "operator bool"):
        return tm.has_value(t)
    if n == "value":
        ev.throw_if(S, not_(tm.has_value(t)), "std::bad_optional_access", tm.UNIT, e)
        return lv.ext("v", tm.UNIT, ety)
    if n == "operator*":
        ev.event(S, "optderef", t, node=e)
        return lv.ext("v", tm.UNIT, ety)
    if n == "value_or":
        d = ev.rv_t(e["a"][0], S, ety)
        h = tm.has_value(t)
        return ite(h, typed(tm.opt_value(t, ety.sort()), ety), d)
    if n == "reset":
        ev.put(S, lv, tm.NONE)
        return tm.UNIT
    if n == "emplace":
        v = construct(ev, ety, [ev.lv_or_rv(a, S) for a in e["a"]], S, e)
        ev.put(S, lv, tm.some(v))
        return lv.ext("v", tm.UNIT, ety)
    if n == "operator=":
        v = ev.rv(e["a"][0], S)
        at_ = ev.ty(e["a"][0]["t"]).noref()
        if at_.rec() == "std::nullopt_t":
            v = tm.NONE
        elif at_.rec() != "std::optional":
            v = tm.some(ev.conv(v, ety))
        ev.put(S, lv, v)
        return lv
    return None


def smart_method(ev, e, obj, S, cty):
    n = e["n"]
    v = ev.argval(obj, S)
    if n == "get":
        return v
    if n in ("operator*", "operator->"):
        rt = ev.ty(e["t"])
        pty = rt.noref() if n == "operator*" else rt.pointee()
        lv = ev.deref(S, v, pty)
        return lv
    if n == "operator bool":
        return not_(tm.eqt(v, tm.NULL))
    if n == "operator[]":
        return ev.deref(S, v, None).ext("i", ev.rv(e["a"][0], S), ev.ty(e["t"]).noref())
    if n == "operator=":
        x = ev.rv(e["a"][0], S)
        ev.put(S, lvof(ev, obj, S), x)
        return obj
    if n == "reset":
        lv = lvof(ev, obj, S)
        x = ev.rv(e["a"][0], S) if e["a"] else tm.NULL
        if cty.rec() == "std::unique_ptr":
            ev.event(S, "free", v, node=e)
        ev.put(S, lv, x)
        return tm.UNIT
    if n == "release":
        lv = lvof(ev, obj, S)
        ev.put(S, lv, tm.NULL)
        return v
    if n == "use_count":
        return ev.opq("use_count", S, "i", e)
    return None


def atomic_method(ev, e, obj, S):
    n = e["n"]
    lv = lvof(ev, obj, S)
    a = [ev.rv(x, S) for x in e["a"]]
    ev.event(S, "atomic", n, lv, node=e)
    inpar = bool(ev.regions) and ev.birth.get(lv.root, 0) <= ev.regions[-1].birth
    old = ev.load0(S, lv.root) if not lv.path else tm.opaque("atomic", "i")

    def setv(v):
        if inpar or lv.path:
            S.env[lv.root] = tm.opaque("atomic updated concurrently", "i") if not lv.path else S.env.get(lv.root)
        else:
            S.env[lv.root] = v
    if inpar:
        old = tm.opaque("atomic", "i")
    if n in ("operator++", "operator--"):
        d = const(1 if n.endswith("++") else -1)
        setv(tm.add(old, d))
        return old if e["a"] else tm.add(old, d)
    if n in ("fetch_add", "operator+="):
        setv(tm.add(old, a[0]))
        return old
    if n in ("load",) or n.startswith("operator ") or n.startswith("conversion"):
        return old
    if n in ("store", "operator="):
        setv(a[0])
        return tm.UNIT
    return ev.opq("atomic " + n, S, "o", e)


# ------------------------------------------------------------------ free functions
def call(ev, e, obj, S):
    n = e["n"]
    qn = base_class(e["qn"])
    cls = base_class(e.get("cls"))
    cty = obj_rec(ev, e) if obj is not None else None
    crec = cty.rec() if cty is not None and cty.k == "rec" else None
    if cty is not None and cty.k == "ptr" and crec is None:
        p = cty.pointee()
        crec = p.rec() if p is not None and p.k == "rec" else None
        cty = p
    # ---- iterator operators
    if obj is not None and e.get("op") in ("*", "++", "--", "+", "-", "+=", "-=", "[]", "->"):
        if crec and (crec.endswith("iterator") or crec.endswith("_Iterator") or "iterator" in crec):
            r = iter_op(ev, e, obj, S)
            if r is not None:
                return r
    if e.get("op") in ("==", "!=", "<", ">", "<=", ">=", "-", "+") and obj is None and len(e["a"]) == 2:
        return binary_free(ev, e, S)
    if e.get("op") in ("==", "!=") and obj is not None and len(e["a"]) == 1:
        a = ev.argval(obj, S)
        b = ev.rv(e["a"][0], S)
        r = equal(ev, S, a, b, cty, e)
        return r if e["op"] == "==" else not_(r)
    if e.get("op") == "=" and obj is not None and cls not in ("std::optional",) and crec not in ("std::optional", "std::atomic") \
            and crec not in SMART and crec != "std::unique_ptr" and not (cls or "").startswith("pybind11"):
        v = ev.rv(e["a"][0], S)
        lv = lvof(ev, obj, S)
        if crec in LOCKS:
            lock_drop(ev, S, ev.load(S, lv), e)
        ev.put(S, lv, v)
        return lv
    # ---- classes
    if obj is not None and crec is not None:
        r = None
        if crec in SEQS or crec in MAPS or crec in SETS or crec in ("std::stack", "std::queue"):
            r = container_method(ev, e, obj, S, cty)
        elif crec == "std::optional":
            r = optional_method(ev, e, obj, S, cty)
        elif crec in SMART or crec == "std::unique_ptr":
            r = smart_method(ev, e, obj, S, cty)
        elif crec in LOCKS:
            r = lock_method(ev, e, obj, S)
        elif crec in ("std::mutex", "std::shared_mutex", "std::recursive_mutex"):
            r = mutex_method(ev, e, obj, S)
        elif crec == "std::random_device":
            return ev.fresh_app(S, "random_device", e)
        elif crec == EXCPTR and n == "operator bool":
            return tm.has_value(ev.argval(obj, S))
        elif crec in ("std::atomic", "std::__atomic_base"):
            r = atomic_method(ev, e, obj, S)
        elif crec == "std::priority_queue":
            r = pq_method(ev, e, obj, S, cty)
        elif crec in ("std::basic_stringstream", "std::basic_ostringstream"):
            if n == "str" and not e["a"]:
                return tm.app("str", ev.argval(obj, S))
            if e.get("op") == "<<":
                return stream_out(ev, obj, ev.rv(e["a"][0], S), S, e)
        elif crec in ("std::basic_ostream",) and e.get("op") == "<<":
            return stream_out(ev, obj, ev.rv(e["a"][0], S), S, e)
        elif crec == "std::function" and e.get("op") == "()":
            return ev.call_value(ev.argval(obj, S), [ev.lv_or_rv(a, S) for a in e["a"]], S, e)
        elif crec in ("std::hash",):
            x = ev.rv(e["a"][0], S)
            return hash_of(ev, x, S, e)
        elif crec.startswith("mio::"):
            r = mmap_method(ev, e, obj, S, cty)
        elif crec.startswith("indicators::"):
            for a in e["a"]:
                ev.lv_or_rv(a, S)
            return tm.UNIT
        if r is not None:
            return r
        if crec in SEQS + MAPS + SETS + SMART or crec.startswith("std::") and crec not in LIBCLASSES:
            for a in e["a"]:
                ev.lv_or_rv(a, S)
            if isinstance(obj, LV) and not e.get("const"):
                ev.put(S, obj, typed(tm.opaque("%s::%s" % (crec, n)), cty))
            ev.note("library method %s::%s" % (crec, n), e)
            return typed(tm.opaque("%s::%s" % (crec, n), ev.sort_of(e)), ev.ty(e["t"]) if e.get("t") is not None else None)
    r = free_fn(ev, e, obj, S, n, qn)
    if r is not None:
        return r
    return uninterpreted(ev, e, obj, S, qn, cty)


LIBCLASSES = ("std::error_code", "std::exception", "std::runtime_error", "std::basic_ostream")


def uninterpreted(ev, e, obj, S, qn, cty):
    """library function treated as an uninterpreted function of its operands"""
    args = []
    muts = []
    pts = e.get("pt") or []
    for i, a in enumerate(e["a"]):
        pt = ev.ty(pts[i]) if i < len(pts) else None
        x = ev.lv_or_rv(a, S)
        if isinstance(x, LV) and pt is not None and pt.k == "ref" and not pt.pointee().const and not e.get("ctor"):
            if pt.o.get("rv") or pt.s.endswith("&&"):
                pass
            else:
                muts.append((i, x))
        v = ev.argval(x, S)
        if v.op == "ptr" and pt is not None and pt.k == "ptr" and not pt.pointee().const and v.a[0] in LVALS:
            muts.append((i, LVALS[v.a[0]]))
            cur = ev.load(S, LVALS[v.a[0]]) if pt.pointee().sort() == "o" else None
            # an object already built is an operand too; a plain variable is only a place for a result
            v = cur if cur is not None and cur.op == "app" else tm.app("out%d" % i)
        if v.op == "closure":
            ev.note("closure passed to " + qn, e)
        args.append(v)
    if qn.startswith("std::"):
        ev.note("library call " + qn, e)
    ov = []
    if obj is not None:
        ov = [ev.argval(obj, S)]
    ev.event(S, "lib", qn, *ov, *args, node=e)
    rty = ev.ty(e["t"]) if e.get("t") is not None else None
    srt = rty.noref().sort() if rty is not None else "o"
    if qn.startswith("std::"):
        r = tm.opaque(qn, srt)
    else:
        r = tm.app(qn, *ov, *args, sort=srt)
    r = typed(r, rty) if rty is not None else r
    if obj is not None and isinstance(obj, LV) and e.get("const") is False and (cty is None or not cty.const):
        if rty is None or rty.k == "void" or rty.k == "ref":
            ev.put(S, obj, typed(tm.app(qn + "'", *ov, *args), cty) if cty is not None else tm.app(qn + "'", *ov, *args))
    for i, x in muts:
        ev.put(S, x, typed(tm.app("%s'%d" % (qn, i), *ov, *args, sort=x.ty.sort()), x.ty) if x.ty is not None else tm.app("%s'%d" % (qn, i), *ov, *args))
    if rty is not None and rty.k == "ref":
        return ev.heap(S, r, rty.pointee(), "t")
    return r


def iter_op(ev, e, obj, S):
    op = e["op"]
    t = ev.argval(obj, S)
    if op in ("*", "->"):
        if t.op == "mbegin":
            return mbegin_deref(ev, S, t)
        if t.op in ITER_OPS:
            return iter_deref(ev, S, t, ev.ty(e["t"]))
        if t.op == "ite":
            # dereference of a merged iterator: value only
            v = deref_value(ev, S, t, ev.ty(e["t"]))
            if v is not None:
                return ev.heap(S, v, None, "t")
        return None
    if op == "[]":
        i = ev.rv(e["a"][0], S)
        return iter_deref(ev, S, iter_arith(ev, "+", t, i, S), ev.ty(e["t"]))
    if op in ("++", "--"):
        if t.op in ("backins", "setins"):
            return obj
        if not is_iter(t):
            return None
        lv = lvof(ev, obj, S)
        ev.put(S, lv, iter_arith(ev, "+" if op == "++" else "-", t, const(1), S))
        return t if e["a"] else lv
    if op in ("+=", "-="):
        i = ev.rv(e["a"][0], S)
        lv = lvof(ev, obj, S)
        ev.put(S, lv, iter_arith(ev, op[0], t, i, S))
        return lv
    if op in ("+", "-"):
        return iter_arith(ev, op, t, ev.rv(e["a"][0], S), S)
    return None


def mbegin_deref(ev, S, t):
    lv = LVALS[t.a[1]]
    cty = lv.ty.noref() if lv.ty is not None else None
    kty = cty.targ(0) if cty is not None else None
    k = edge_key(t.a[0], min, cty) if cty is not None and cty.rec() in ("std::map", "std::set") else None
    if k is None:
        k = tm.app("first_key", t.a[0], sort=kty.sort() if kty is not None else "o")
    if kty is not None:
        k = typed(k, kty)
    return iter_deref(ev, S, mk("mit", t.a[0], k, t.a[1]), None)


def deref_value(ev, S, t, ty):
    if t.op == "ite":
        a, b = deref_value(ev, S, t.a[1], ty), deref_value(ev, S, t.a[2], ty)
        if a is None:
            return b
        if b is None:
            return a
        return ite(t.a[0], a, b)
    if t.op in ("mend", "mafter", "mgap"):
        return None
    if t.op in ITER_OPS:
        lv = iter_deref(ev, S, t, ty)
        return ev.load(S, lv)
    return None


def binary_free(ev, e, S):
    op = e["op"]
    x, y = ev.lv_or_rv(e["a"][0], S), ev.lv_or_rv(e["a"][1], S)
    a, b = ev.argval(x, S), ev.argval(y, S)
    aty = ev.ty(e["a"][0]["t"]).noref() if e["a"][0].get("t") is not None else None
    bty = ev.ty(e["a"][1]["t"]).noref() if e["a"][1].get("t") is not None else None
    rec_ = aty.rec() if aty is not None and aty.k == "rec" else None
    if op in ("==", "!="):
        if a.op == "mbegin" or b.op == "mbegin":
            m = a if a.op == "mbegin" else b
            o = b if a.op == "mbegin" else a
            if o.op == "mend":
                r = tm.eq0(map_size(m.a[0]))
                return r if op == "==" else not_(r)
        if rec_ == "std::optional" or (bty is not None and bty.k == "rec" and bty.rec() == "std::optional"):
            brec = bty.rec() if bty is not None and bty.k == "rec" else None
            if brec == "std::nullopt_t":
                b = tm.NONE
            elif brec != "std::optional":
                b = tm.some(b)
            if rec_ != "std::optional":
                a = tm.some(a)
            ety = (aty if rec_ == "std::optional" else bty).targ(0)
            ha, hb = tm.has_value(a), tm.has_value(b)
            s = ety.sort() if ety is not None else "o"
            if ha is FALSE or hb is FALSE:
                r = and_(not_(ha), not_(hb))
            else:
                r = or_(and_(not_(ha), not_(hb)),
                        and_(ha, hb, equal(ev, S, typed(tm.opt_value(a, s), ety), typed(tm.opt_value(b, s), ety), ety, e)))
            return r if op == "==" else not_(r)
        if rec_ in SMART or rec_ == "std::unique_ptr":
            r = tm.eqt(a, b)
            if a is not b and a.op == "box" and b.op == "box":
                # equal pointers have equal contents
                r = and_(r, tm.eqt(a.a[0], b.a[0]))
        elif rec_ in SEQS and a.op != "iter":
            ety = aty.targ(0)
            r = seq_equal(ev, S, a, b, ety, e)
        else:
            r = equal(ev, S, a, b, aty, e)
        return r if op == "==" else not_(r)
    if is_iter(a) and is_iter(b) and op in ("<", ">", "<=", ">=", "-"):
        if a.op == b.op == "iter" and a.a[0] is b.a[0]:
            if op == "-":
                return tm.sub(a.a[1], b.a[1])
            return ev.compare(op, a.a[1], b.a[1], S, e)
    if is_iter(a) and op in ("+", "-"):
        return iter_arith(ev, op, a, b, S)
    if rec_ == "std::basic_string" or (bty is not None and bty.rec() == "std::basic_string"):
        if op == "+":
            return tm.app("strcat", a, b)
    if op in ("<", ">", "<=", ">=") and rec_ == "std::pair":
        f = lambda t, n: tm.fld(t, n, aty.targ(0 if n == "first" else 1).sort())
        a1, a2, b1, b2 = f(a, "first"), f(a, "second"), f(b, "first"), f(b, "second")
        lt = lambda p, q, r_, s_: or_(tm.lt(p, q), and_(tm.eqt(p, q), tm.lt(r_, s_)))
        if a1.sort in "ir" and a2.sort in "ir":
            return {"<": lt(a1, b1, a2, b2), ">": lt(b1, a1, b2, a2), "<=": not_(lt(b1, a1, b2, a2)), ">=": not_(lt(a1, b1, a2, b2))}[op]
    if op in ("<", ">", "<=", ">=") and rec_ == "std::tuple" and a.op == "rec" and b.op == "rec":
        r = FALSE
        x1, y1 = (a, b) if op in ("<", ">=") else (b, a)
        for (f, u), (_, v) in reversed(list(zip(x1.a[1], y1.a[1]))):
            if u.sort not in "irb":
                return ev.opq("tuple comparison", S, "b", e)
            r = or_(tm.lt(u, v), and_(tm.eqt(u, v), r))
        return r if op in ("<", ">") else not_(r)
    return uninterpreted(ev, e, None, S, base_class(e["qn"]), None)


def seq_equal(ev, S, a, b, ety, e):
    if a is b:
        return TRUE
    if a.op == "str" and b.op == "str":
        return TRUE if a is b else FALSE
    if ety is not None and ety.k == "rec" and ety.rec() in ev.P.records or a.op == "list" and b.op == "list":
        la, lb = tm.ln(a), tm.ln(b)
        v = tm.fresh("j", "i", (0, 1 << 31))
        el = equal(ev, S, typed(tm.at(a, v, ety.sort()), ety), typed(tm.at(b, v, ety.sort()), ety), ety, e)
        return and_(tm.eqt(la, lb), tm.bind("forall", v, la, el))
    return tm.eqt(a, b)


def hash_of(ev, x, S, e):
    tn = tm.type_of(x)
    if x.op == "const":
        pass
    if x.sort in "ib":
        return x if x.sort == "i" and (tm.rng(x)[0] or -1) >= 0 else tm.trunc(64, False, tm.b2i(x) if x.sort == "b" else x)
    return tm.app("hash", x, sort="i")


def stream_out(ev, obj, v, S, e):
    lv = lvof(ev, obj, S)
    if lv.root[0] == "g" and lv.root[1] in ("std::cout", "std::cerr", "std::clog"):
        ev.event(S, "print", v, node=e)
        return lv
    s = ev.load(S, lv)
    if v.sort == "b":
        v = tm.b2i(v)
    ev.put(S, lv, tm.cat(s, tm.lst(v)))
    return lv


def pq_order(ev, ty, f, S, e):
    """the comparison a priority queue is built with"""
    ety, ct = ty.targ(0), ty.targ(2)
    cn = ct.noref().rec() if ct is not None and ct.noref().k == "rec" else None
    if f is None and cn in ev.P.records:
        f = tm.rec(cn, ())
    if f is not None:
        c, cl = comparator(ev, f, ety, S, e)
    elif cn in ("std::less", "std::greater"):
        c, cl = natural_less(ev, S, ety, e)
        if cn == "std::greater":
            a, b = canon_pair(ety)
            t = tm.fresh("swap", a.sort)
            c = tm.subst(tm.subst(tm.subst(c, {a: t}), {b: a}), {t: b})
    else:
        c, cl = tm.opaque("comparator", "b"), None
    ev.event(S, "order", c, node=e, extra=(cl, ety))


def pq_method(ev, e, obj, S, cty):
    n = e["n"]
    lv = lvof(ev, obj, S, cty)
    ety = cty.targ(0)
    s = ev.load(S, lv)
    if n in ("push", "emplace"):
        v = ev.rv_t(e["a"][0], S, ety) if n == "push" else construct(ev, ety, [ev.lv_or_rv(a, S) for a in e["a"]], S, e)
        ev.event(S, "push", lv, v, node=e)
        ev.put(S, lv, mk("pqadd", s, v))
        return tm.UNIT
    if n == "top":
        return ev.heap(S, typed(tm.app("pq_top", s, sort=ety.sort() if ety else "o"), ety), ety, "t")
    if n == "pop":
        ev.event(S, "pop", lv, node=e)
        ev.put(S, lv, tm.app("pq_pop", s))
        return tm.UNIT
    if n == "empty":
        if s is tm.EMPTY:
            return TRUE
        if s.op == "pqadd":
            return FALSE
        return tm.app("pq_empty", s, sort="b")
    if n == "size":
        return tm.app("pq_size", s, sort="i")
    return None


# ------------------------------------------------------------------ mmap / POSIX
def mmap_method(ev, e, obj, S, cty):
    n = e["n"]
    lv = lvof(ev, obj, S, cty)
    m = ev.load0(S, lv.root, lv.ty) if not lv.path else ev.load(S, lv)
    ev.sinks.add(lv.root)
    if n == "operator[]":
        i = ev.rv(e["a"][0], S)
        ev.event(S, "index", lv, i, mmap_size(m), node=e)
        return lv.ext("i", i, ev.ty(e["t"]).noref())
    if n in ("size", "length", "mapped_length"):
        return mmap_size(m)
    if n in ("is_open", "is_mapped"):
        return tm.app("mapped", m, sort="b")
    if n in ("sync",):
        x = lvof(ev, ev.lv_or_rv(e["a"][0], S), S)
        ev.event(S, "os", "sync", lv, x, node=e)
        ev.put(S, x, tm.app("sync_error", sort="o"))
        return tm.UNIT
    if n == "unmap":
        ev.event(S, "os", "unmap", lv, node=e)
        return tm.UNIT
    if n in ("begin", "cbegin", "data"):
        return mk("iter", lvh(lv), const(0)) if n != "data" else ptr(lv.ext("i", const(0), None))
    if n in ("end", "cend"):
        return mk("iter", lvh(lv), mmap_size(m))
    return None


def mmap_size(m):
    while m.op in ("upd", "afold"):
        m = m.a[0] if m.op == "upd" else m.a[5]
    return mk("len", m, sort="i") if m.op != "opaque" else tm.ln(m)


def free_fn(ev, e, obj, S, n, qn):
    al = e["a"]
    A = lambda i: ev.rv(al[i], S)
    if qn == "std::error_code::operator bool" or n == "operator bool" and obj is not None and (e.get("cls") == "std::error_code"):
        v = ev.argval(obj, S)
        return tm.app("failed", v, sort="b") if v.op != "app" or v.a[0] != "no_error" else FALSE
    if qn == "std::error_code::value":
        return tm.app("errno_of", ev.argval(obj, S), sort="i")
    if qn in ("std::error_code::message", "std::exception::what", "std::runtime_error::what"):
        return tm.app("message", ev.argval(obj, S))
    if qn in ("std::__exception_ptr::operator==", "std::__exception_ptr::operator!=") and len(al) == 2:
        a, b = [tm.NONE if x is tm.NULL else x for x in (A(0), A(1))]
        q = not_(tm.has_value(a)) if b is tm.NONE else not_(tm.has_value(b)) if a is tm.NONE else tm.eqt(a, b)
        return q if n == "operator==" else not_(q)
    if qn.startswith("std::"):
        if n in ("move", "forward", "as_const", "ref", "cref") and len(al) == 1:
            return ev.lv_or_rv(al[0], S)
        if n in ("make_shared", "make_unique"):
            ty = ev.ty(e["t"]).noref().targ(0)
            args = [ev.lv_or_rv(a, S) for a in al]
            v = construct(ev, ty, args, S, e)
            lv = ev.heap(S, v, ty)
            return ptr(lv)
        if n == "make_optional":
            ty = ev.ty(e["t"]).noref().targ(0)
            return tm.some(construct(ev, ty, [ev.lv_or_rv(a, S) for a in al], S, e))
        if n == "make_pair":
            return tm.rec("std::pair", [("first", A(0)), ("second", A(1))])
        if n in ("make_tuple", "tie"):
            return tm.rec("std::tuple", [("_%d" % i, A(i)) for i in range(len(al))])
        if n == "get" and len(al) == 1:
            v = ev.lv_or_rv(al[0], S)
            return None
        if n in ("min", "max") and len(al) in (1, 2):
            if len(al) == 2:
                x, y = A(0), A(1)
                xs = [x, y]
            else:
                v = A(0)
                if v.op != "list":
                    return None
                xs = list(v.a)
            if any(x.sort == "o" for x in xs):
                return None
            return (tm.mint if n == "min" else tm.maxt)(*xs)
        if n == "minmax" and len(al) == 2:
            x, y = A(0), A(1)
            if x.sort == "o" or y.sort == "o":
                return None
            return tm.rec("std::pair", [("first", tm.mint(x, y)), ("second", tm.maxt(x, y))])
        if n == "clamp" and len(al) == 3:
            x, lo, hi = A(0), A(1), A(2)
            return ite(tm.lt(x, lo), lo, ite(tm.lt(hi, x), hi, x))
        if n in ("abs", "labs", "llabs", "fabs"):
            return tm.abst(A(0))
        if n == "swap" and len(al) == 2:
            x, y = lvof(ev, ev.lv_or_rv(al[0], S), S), lvof(ev, ev.lv_or_rv(al[1], S), S)
            a, b = ev.load(S, x), ev.load(S, y)
            ev.put(S, x, b)
            ev.put(S, y, a)
            return tm.UNIT
        if n == "exchange" and len(al) == 2:
            x = lvof(ev, ev.lv_or_rv(al[0], S), S)
            a = ev.load(S, x)
            ev.put(S, x, A(1))
            return a
        if n in ("sqrt", "atan2", "sin", "cos", "asin", "acos", "hypot", "pow", "tan", "exp", "log", "cbrt"):
            vs = [tm.i2r(A(i)) for i in range(len(al))]
            return math(ev, n, vs, S)
        if n in ("round", "floor", "ceil", "trunc", "lround", "llround", "rint", "nearbyint"):
            return rounding(ev, n, A(0), e)
        if n in ("fmod", "remainder"):
            x, y = tm.i2r(A(0)), tm.i2r(A(1))
            return tm.app(n, x, y, sort="r")
        if n in ("isnan", "isfinite", "isinf", "signbit"):
            return tm.app(n, A(0), sort="b")
        if n == "to_string":
            return tm.app("str", tm.lst(A(0)))
        if n == "inserter" and len(al) == 2:
            x = lvof(ev, ev.lv_or_rv(al[0], S), S)
            ty = ev.ty(al[0]["t"]).noref()
            at_ = A(1)
            if ty.k == "rec" and ty.rec() in SETS:
                return mk("setins", lvh(x))
            if at_.op == "iter" and tm.eqt(at_.a[1], tm.ln(ev.load(S, x))) is TRUE:
                return mk("backins", lvh(x))
            return None
        if n == "back_inserter":
            return mk("backins", lvh(lvof(ev, ev.lv_or_rv(al[0], S), S)))
        if n in ("begin", "cbegin", "end", "cend", "size", "empty", "ssize") and len(al) == 1:
            x = ev.lv_or_rv(al[0], S)
            ty = ev.ty(al[0]["t"]).noref()
            lv = lvof(ev, x, S, ty)
            t = ev.load(S, lv)
            if n in ("begin", "cbegin"):
                return mk("iter", lvh(lv), const(0))
            if n in ("end", "cend"):
                return mk("iter", lvh(lv), tm.ln(t))
            if n in ("size", "ssize"):
                return tm.ln(t)
            return tm.eq0(tm.ln(t))
        if n in ("next", "prev"):
            return iter_arith(ev, "+" if n == "next" else "-", A(0), A(1) if len(al) > 1 else const(1), S)
        if n == "distance":
            a, b = A(0), A(1)
            if a.op == b.op == "iter" and a.a[0] is b.a[0]:
                return tm.sub(b.a[1], a.a[1])
            return None
        if n == "operator<<":
            return stream_out(ev, ev.lv_or_rv(al[0], S), A(1), S, e)
        if n in ("setprecision", "fixed", "endl", "flush"):
            return tm.app("manip:" + n, *[A(i) for i in range(len(al))])
        if n in ("memcpy", "memmove"):
            return memcpy(ev, e, S)
        if n in ("less", "greater"):
            return None
        if n in ("current_exception", "make_exception_ptr"):
            return tm.some(tm.app("exception_ptr"))
        if n == "rethrow_exception":
            ev.throw(S, "std::exception", A(0), e)
            raise Dead()
        r = algorithm(ev, e, S, n)
        if r is not None:
            return r
        return None
    if qn in ("memcpy", "memmove", "__builtin_memcpy"):
        return memcpy(ev, e, S)
    if qn in ("sqrt", "round", "floor", "ceil", "fabs", "abs", "atan2", "lround", "llround", "sin", "cos", "pow", "hypot"):
        if qn in ("fabs", "abs"):
            return tm.abst(A(0))
        if qn in ("round", "floor", "ceil", "lround", "llround"):
            return rounding(ev, qn, A(0), e)
        return math(ev, qn, [tm.i2r(A(i)) for i in range(len(al))], S)
    if qn.startswith("fmt::"):
        return tm.app("fmt", *[A(i) for i in range(len(al))])
    if qn.startswith("indicators::"):
        return tm.UNIT
    if qn == "open":
        a = [A(i) for i in range(len(al))]
        r = tm.app("os.open", *a, sort="i")
        tm.SYM_RANGE[r] = (-1, (1 << 31) - 1)
        ev.event(S, "os", "open", r, *a, node=e)
        return r
    if qn in ("ftruncate", "close", "truncate", "fsync", "fdatasync", "unlink", "remove", "posix_fallocate", "write", "pwrite", "rename"):
        a = [A(i) for i in range(len(al))]
        r = tm.app("os." + qn, *a, sort="i")
        tm.SYM_RANGE[r] = (-1, 0) if qn not in ("write", "pwrite") else (-1, 1 << 40)
        ev.event(S, "os", qn, r, *a, node=e)
        return r
    if qn in ("mio::make_mmap_sink", "mio::make_mmap_source"):
        a = [A(i) for i in range(len(al) - 1)]
        x = lvof(ev, ev.lv_or_rv(al[-1], S), S)
        nm = qn.split("make_")[1]
        ev.event(S, "os", nm, x, *a, node=e)
        ev.put(S, x, tm.app(nm + "_error", *a))
        return tm.app(nm, *a)
    if qn in ("omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads"):
        r = tm.app(qn, sort="i")
        tm.SYM_RANGE[r] = (0, 1 << 20)
        return r
    return None


def math(ev, n, vs, S):
    if n == "pow" and vs[1].op == "c" and vs[1].a[0] in (2, 3) and not ev.exact:
        r = vs[0]
        for _ in range(int(vs[1].a[0]) - 1):
            r = tm.mul(r, vs[0])
        return r
    if n == "hypot" and not ev.exact and len(vs) == 2:
        return mk("sqrt", tm.add(tm.mul(vs[0], vs[0]), tm.mul(vs[1], vs[1])), sort="r")
    if n == "sqrt":
        return mk("sqrt", vs[0], sort="r")
    return tm.app(n, *vs, sort="r")


def rounding(ev, n, x, e):
    if x.sort == "i":
        return x if n.startswith("l") else tm.i2r(x)
    r = tm.app(n.lstrip("l") if n not in ("lround", "llround") else "round", x, sort="r")
    if n in ("lround", "llround"):
        return ev.f2i(r, ev.ty(e["t"]))
    return r


def memcpy(ev, e, S):
    """object representation copy: a scalar of the same width, or an array of bytes"""
    d, s, n = [ev.rv(a, S) for a in e["a"]]
    if d.op == "ptr" and s.op == "ptr" and n.op == "c":
        dl, sl = LVALS[d.a[0]], LVALS[s.a[0]]
        dt, st = dl.ty, sl.ty
        k = n.a[0]
        strip = lambda lv: (LV(lv.root, lv.path[:-1]), lv.path[-1][1]) if lv.path and lv.path[-1][0] == "i" else (None, None)
        db, di = strip(dl)
        sb, si = strip(sl)
        if dt is not None and st is not None and dt.noref().is_int() and st.noref().is_int() and \
                dt.noref().width() == st.noref().width() == 8 * k and (db is None or k == 1):
            v = ev.load(S, sl)
            ev.put(S, dl, tm.trunc(8 * k, dt.noref().signed(), v))
            return d
        if db is not None and st is not None and st.noref().is_int() and st.noref().width() == 8 * k:
            v = ev.load(S, sl)
            for b in range(k):      # little-endian target
                ev.put(S, db.ext("i", tm.add(di, const(b)), None), tm.bits(v, 8 * b, 8))
            return d
        if sb is not None and dt is not None and dt.noref().is_int() and dt.noref().width() == 8 * k:
            v = const(0)
            for b in range(k):
                byte = tm.trunc(8, False, ev.load(S, sb.ext("i", tm.add(si, const(b)), None)))
                v = tm.add(v, tm.mul(byte, const(1 << (8 * b))))
            ev.put(S, dl, tm.trunc(8 * k, dt.noref().signed(), v))
            return d
    for p in (d,):
        if p.op == "ptr":
            ev.put(S, LVALS[p.a[0]], tm.opaque("memcpy", "i"))
    ev.note("memcpy", e)
    return d
