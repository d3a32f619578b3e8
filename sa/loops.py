"""Loop summaries: recurrences over loop-carried values are solved into closed forms."""
from . import terms as tm
from .terms import TRUE, FALSE, T, const, mk, and_, or_, not_, ite
from .evalcpp import LV, Loop, Out, St, Dead, Ev, typed, lvh, LVALS, ptr, subst_lv, MAPS, SETS, MULTI, SEQS

UNROLL = 16
FEW = 3
KMAX = (1 << 31) - 1


class Head:
    """iteration scheme: cond(S,k) -> term, bind(S,k), inc(S)"""
    def __init__(self):
        self.cond = lambda S, k: TRUE
        self.bind = lambda S, k: None
        self.inc = lambda S: None
        self.n = None


def exec_loop(ev, s, S, outs, par=None):
    kind = s["s"]
    H = Head()
    if kind == "rfor":
        if s.get("init"):
            S = ev.exec(s["init"], S, outs)
        x = ev.lv_or_rv(s["r"], S)
        rty = ev.ty(s["r"]["t"]).noref() if s["r"].get("t") is not None else None
        if not isinstance(x, LV):
            x = ev.heap(S, x, rty, "t")
        range_head(ev, s, S, H, x, rty)
    else:
        if kind == "for":
            if s.get("init"):
                S = ev.exec(s["init"], S, outs)
                if S is None:
                    return None
            if s.get("c") is not None:
                H.cond = lambda X, k: tm.tobool(ev.rv(s["c"], X))
            if s.get("inc") is not None:
                H.inc = lambda X: ev.rv(s["inc"], X, void=True)
        elif kind == "while":
            def wc(X, k):
                if s.get("cv"):
                    ev.declare(s["cv"], X)
                return tm.tobool(ev.rv(s["c"], X))
            H.cond = wc
        elif kind == "do":
            inner = []
            R = ev.exec(s["b"], S, inner)
            base = S.pc
            conts = [(o.S, None) for o in inner if o.kind == "cont"] + ([(R, None)] if R is not None else [])
            brks = [o for o in inner if o.kind == "brk"]
            outs.extend(o for o in inner if o.kind not in ("cont", "brk"))
            R, _ = ev.merge_all(conts, base)
            if R is None:
                X, _ = ev.merge_all([(o.S, None) for o in brks], base)
                return X
            s2 = {"s": "while", "c": s["c"], "b": s["b"], "l": s["l"]}
            R = exec_loop(ev, s2, R, outs, par)
            X, _ = ev.merge_all([(o.S, None) for o in brks] + ([(R, None)] if R is not None else []), base)
            return X
    body = s["b"]
    r = try_unroll(ev, s, S, outs, H, body)
    if r is not False:
        return r
    return summarize(ev, s, S, outs, H, body, par)


def range_head(ev, s, S, H, x, rty):
    v = s["v"]
    vty = ev.ty(v["t"])
    t = ev.load(S, x)
    n = rty.rec() if rty is not None and rty.k == "rec" else None
    if n in MAPS + MULTI:
        keys = tm.keys(t)
        kty, mty = rty.targ(0), rty.targ(1)
        H.n = tm.ln(keys)

        def bind(X, k):
            key = typed(tm.at(keys, k, kty.sort() if kty else "o"), kty)
            val = typed(tm.mget(t, key, mty.sort() if mty else "o"), mty)
            lv = ev.heap(X, tm.rec("std::pair", [("first", key), ("second", val)]), vty.noref(), "t")
            pty = vty.noref()
            ev.declare_lv(v, lv, X)
    elif n in SETS:
        keys = tm.keys(t)
        kty = rty.targ(0)
        H.n = tm.ln(keys)

        def bind(X, k):
            key = typed(tm.at(keys, k, kty.sort() if kty else "o"), kty)
            ev.declare_lv(v, ev.heap(X, key, kty, "t"), X)
    else:
        ety = None
        if n in SEQS:
            ety = rty.targ(0)
        elif rty is not None and rty.k == "arr":
            ety = rty.pointee()
        if ety is None:
            ety = vty.noref()
        H.n = tm.ln(t)

        def bind(X, k):
            ev.declare_lv(v, x.ext("i", k, ety), X)
    H.bind = bind


def declare_lv(ev, v, lv, S):
    ty = ev.ty(v["t"])
    if ty.k == "ref":
        ev.fr.vars[v["id"]] = LV(lv.root, lv.path, lv.ty or ty.pointee())
    else:
        ev.declare(v, S, value=lv)
        return
    for i, b in enumerate(v.get("bind", [])):
        ev.fr.vars[b["id"]] = ev.binding(ev.fr.vars[v["id"]], i, b, S)


def run_body(ev, body, X):
    inner = []
    R = ev.exec(body, X, inner)
    return R, inner


class Left:
    """leaving a loop because its list has ended"""

    def __init__(self, S):
        self.S = S


def bound(n):
    """the greatest value of a length that is a choice between small numbers"""
    if n.op == "c":
        return n.a[0]
    if n.op == "ite":
        a, b = bound(n.a[1]), bound(n.a[2])
        return None if a is None or b is None else max(a, b)
    if n.op == "b2i":
        return 1
    if n.op == "poly":
        r = 0
        for m, c in n.a[0]:
            if c < 0:
                return None
            x = c
            for a, e in m:
                y = bound(a)
                if y is None:
                    return None
                x *= y ** e
            r += x
        return r
    return None


def try_unroll(ev, s, S, outs, H, body):
    most = None
    if H.n is not None:
        most = bound(H.n)
        if most is None or most > (UNROLL if H.n.op == "c" else FEW):
            return False
    else:
        # probe: the condition must be decided at every iteration
        if s.get("c") is None:
            return False
        P = S.copy()
        ns = len(ev.sink[-1])
        nu = len(ev.unk)
        try:
            c = ev.simp(P, H.cond(P, None))
        except Dead:
            c = None
        del ev.sink[-1][ns:]
        if c is FALSE:
            H.cond(S, None)
            return S
        if c is not TRUE or s["c"].get("k") == "const":
            return False
    base = S.pc
    exits = []
    saved_sink, saved_unk = list(ev.sink[-1]), list(ev.unk)
    saved_outs = list(outs)
    cur = S.copy()
    k = 0
    ok = False
    while k <= UNROLL:
        if H.n is not None:
            if k >= most:
                ok = True
                break
            c = TRUE if H.n.op == "c" else ev.simp(cur, tm.lt(const(k), H.n))
            if c is not TRUE:
                E = cur.copy()
                if ev.assume(E, tm.not_(c)):
                    exits.append(Left(E))
                if not ev.assume(cur, c):
                    cur, ok = None, True
                    break
        else:
            c = ev.simp(cur, H.cond(cur, None))
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
        H.bind(cur, const(k))
        R, inner = run_body(ev, body, cur)
        conts = [(o.S, None) for o in inner if o.kind == "cont"] + ([(R, None)] if R is not None else [])
        exits += [o for o in inner if o.kind == "brk"]
        outs.extend(o for o in inner if o.kind not in ("cont", "brk"))
        cur, _ = ev.merge_all(conts, base)
        if cur is None:
            ok = True
            break
        try:
            H.inc(cur)
        except Dead:
            cur = None
            ok = True
            break
        k += 1
    if not ok:
        ev.sink[-1][:] = saved_sink
        ev.unk[:] = saved_unk
        outs[:] = saved_outs
        return False
    items = [(o.S, None) for o in exits] + ([(cur, None)] if cur is not None else [])
    R, _ = ev.merge_all(items, base)
    return R


# ------------------------------------------------------------------ phi values
def mkphi(ev, init, name, leaves):
    if init.op == "rec":
        return tm.rec(init.a[0], [(f, mkphi(ev, v, name + "." + f, leaves)) for f, v in init.a[1]])
    if init.op == "iter":
        p = tm.fresh("phi:" + name, "i")
        leaves.append((p, init.a[1]))
        return mk("iter", init.a[0], p)
    if nested_list(init):
        return tm.lst(*[mkphi(ev, v, "%s[%d]" % (name, i), leaves) for i, v in enumerate(init.a)])
    p = tm.fresh("phi:" + name, init.sort)
    ty = tm.type_of(init)
    if ty:
        tm.set_type(p, ty)
    et = tm.elem_type(init)
    if et:
        tm.ELEM_TYPE[p] = et
    leaves.append((p, init))
    return p


def nested_list(t):
    """a short list of sequences: each element is a variable of its own"""
    return t.op == "list" and 0 < len(t.a) <= 8 and all(x.op in ("list", "cat", "comp", "catmap") for x in t.a)


def leaf_steps(phi, step, out):
    """pair the leaves of a phi value with the components of the next value"""
    if phi.op == "rec":
        for f, v in phi.a[1]:
            leaf_steps(v, tm.fld(step, f, v.sort), out)
    elif phi.op == "iter":
        if step.op == "iter" and step.a[0] is phi.a[0]:
            out[phi.a[1]] = step.a[1]
        else:
            out[phi.a[1]] = tm.opaque("iterator", "i")
    elif phi.op == "list":
        whole = tm.ln(step) is const(len(phi.a))
        for i, v in enumerate(phi.a):
            leaf_steps(v, tm.at(step, const(i), v.sort) if whole else tm.opaque("list"), out)
    else:
        out[phi] = step


def box_ptrs(ev, t, S0, S1, memo=None):
    """pointers to objects allocated inside the body become boxes holding the object"""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    memo[t] = t
    if t.op == "ptr":
        lv = LVALS[t.a[0]]
        if lv.root not in S0.env and lv.root in S1.env and lv.root[0] in ("h", "t", "v"):
            v = S1.env[lv.root]
            for k, x, ty in lv.path:
                v = ev.proj(v, k, x, ty)
            memo[t] = mk("box", box_ptrs(ev, v, S0, S1, memo))
        return memo[t]
    if not any(x.op == "ptr" for x in tm.walk(t)):
        return t

    def go(x):
        if isinstance(x, T):
            return box_ptrs(ev, x, S0, S1, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    r = tm.rebuild(t.op, [go(x) for x in t.a], t)
    memo[t] = r
    return r


# ------------------------------------------------------------------ recurrences
def dsub(f, phi):
    if f.op == "ite" and f.sort in "ir":
        return ite(f.a[0], dsub(f.a[1], phi), dsub(f.a[2], phi))
    return tm.sub(f, phi)


def split_cat(f, phi):
    if f is phi:
        return tm.EMPTY
    if f.op == "cat" and f.a[0] is phi:
        return tm.cat(*f.a[1:])
    if f.op == "ite":
        a, b = split_cat(f.a[1], phi), split_cat(f.a[2], phi)
        if a is not None and b is not None:
            return ite(f.a[0], a, b)
    return None


def split_put(f, phi, op):
    """[(guard, key, value)] with f = puts applied to phi in order, or None"""
    if f is phi:
        return []
    if f.op == op:
        r = split_put(f.a[0], phi, op)
        return None if r is None else r + [(TRUE, f.a[1], f.a[2])]
    if f.op == "ite":
        a, b = split_put(f.a[1], phi, op), split_put(f.a[2], phi, op)
        if a is None or b is None:
            return None
        # common prefix
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        if len(a) == len(b) == n + 1 and a[n][1] is b[n][1]:
            (g, key, v), (h, _, u) = a[n], b[n]
            t = and_(f.a[0], g)
            return a[:n] + [(or_(t, and_(not_(f.a[0]), h)), key, ite(t, v, u))]
        return a[:n] + [(and_(f.a[0], g), k, v) for g, k, v in a[n:]] + [(and_(not_(f.a[0]), g), k, v) for g, k, v in b[n:]]
    return None


def solve(phi, init, f, k, U):
    """closed form of the value at the start of iteration k, or None.  U: unsolved phis other than phi"""
    fr = tm.free(f)
    if f is phi:
        return init
    if fr & U:
        return None
    j = k
    if phi not in fr:
        return ite(tm.eq0(k), init, tm.subst(f, {k: tm.sub(k, const(1))}))
    if phi.sort in "ir":
        d = dsub(f, phi)
        if phi not in tm.free(d):
            if k not in tm.free(d):
                return tm.add(init, tm.mul(d, k))
            v = tm.fresh("j", "i", (0, KMAX))
            return tm.add(init, tm.sumt(v, k, tm.subst(d, {k: v})))
        if f.op in ("max", "min"):
            rest = [x for x in f.a if x is not phi]
            if phi in f.a and all(phi not in tm.free(x) for x in rest):
                v = tm.fresh("j", "i", (0, KMAX))
                b = (tm.maxt if f.op == "max" else tm.mint)(*rest) if len(rest) > 1 else rest[0]
                if k not in tm.free(b):
                    return None
                seq = tm.comp(v, k, TRUE, tm.subst(b, {k: v}))
                return tm.app(f.op + "_over", init, seq, sort=phi.sort)
        return None
    if phi.sort == "b":
        f1, f0 = tm.subst(f, {phi: TRUE}), tm.subst(f, {phi: FALSE})
        v = tm.fresh("j", "i", (0, KMAX))
        if f1 is TRUE and phi not in tm.free(f0):
            return or_(init, tm.bind("exists", v, k, tm.subst(f0, {k: v})))
        if f0 is FALSE and phi not in tm.free(f1):
            return and_(init, tm.bind("forall", v, k, tm.subst(f1, {k: v})))
        return None
    x = latch(f, phi)
    if x is not None and not (tm.free(x[1]) & {k, phi}):
        # once it is the new value it stays so: the condition matters while it is still the old one
        x = (tm.subst(x[0], {phi: init}), x[1])
        v = tm.fresh("j", "i", (0, KMAX))
        return ite(tm.bind("exists", v, k, tm.subst(x[0], {k: v})), x[1], init)
    x = split_cat(f, phi)
    if x is not None and phi not in tm.free(x):
        v = tm.fresh("j", "i", (0, KMAX))
        return tm.cat(init, tm.catmap(v, k, tm.subst(x, {k: v})))
    p = split_put(f, phi, "upd")
    if p is not None and p:
        if len(p) == 1:
            g, idx, val = p[0]
            if phi in tm.free(val) and g is TRUE and phi not in tm.free(idx):
                # prefix recurrence: a[k+c] = a[k+c-1] + d(k)
                c = tm.sub(idx, k)
                if k not in tm.free(c):
                    prev = tm.at(phi, tm.sub(idx, const(1)), val.sort)
                    q = tm.fresh("prev", val.sort)
                    prevs = [t for t in tm.walk(val) if t.op == "at" and t.a[0] is phi]
                    if prevs and all(tm.sub(t.a[1], idx) is const(-1) for t in prevs):
                        vv = replace(val, {t: q for t in prevs})
                        d = dsub(vv, q)
                        if q not in tm.free(d) and phi not in tm.free(d):
                            v = tm.fresh("j", "i", (0, KMAX))
                            first = tm.at(init, tm.sub(c, const(1)), val.sort)
                            val = tm.add(first, tm.sumt(v, tm.add(k, const(1)), tm.subst(d, {k: v})))
                            p = [(g, idx, val)]
        if len(p) == 1:
            g, idx, val = p[0]
            if phi in tm.free(val) and phi not in tm.free(idx) and k not in tm.free(tm.sub(idx, k)):
                # every iteration changes its own element only, which is still the initial one
                own = [t for t in tm.walk(val) if t.op == "at" and t.a[0] is phi and tm.eqt(t.a[1], idx) is TRUE]
                if own:
                    val = replace(val, {t: like_at(t, init) for t in own})
                    p = [(g, idx, val)]
        if all(phi not in tm.free(and_(g, tm.eq0(i))) and phi not in tm.free(v2) for g, i, v2 in p if True) and len(p) == 1 or \
                (len(p) == 1 and phi not in tm.free(val)):
            g, idx, _ = p[0]
            if phi in tm.free(g) or phi in tm.free(idx) or phi in tm.free(val):
                return None
            v = tm.fresh("j", "i", (0, KMAX))
            sb = {k: v}
            return tm.afold(v, k, tm.subst(g, sb), tm.subst(idx, sb), tm.subst(val, sb), init)
        return None
    p = split_put(f, phi, "mput")
    if p is not None and len(p) == 1:
        g, key, val = p[0]
        if phi not in tm.free(g) and phi not in tm.free(key) and phi not in tm.free(val):
            v = tm.fresh("j", "i", (0, KMAX))
            sb = {k: v}
            return tm.bind("mfold", v, k, tm.subst(g, sb), tm.subst(key, sb), tm.subst(val, sb), init)
    p = split_put(f, phi, "sadd")
    if p is not None and len(p) == 1:
        g, key, val = p[0]
        if phi not in tm.free(g) and phi not in tm.free(key):
            v = tm.fresh("j", "i", (0, KMAX))
            sb = {k: v}
            return tm.bind("mfold", v, k, tm.subst(g, sb), tm.subst(key, sb), tm.UNIT, init)
    if f.op == "mfold" and f.a[5] is phi and f.a[4] is tm.UNIT and not any(phi in tm.free(x) for x in f.a[1:4]):
        # a set filled by an inner loop: filled from the concatenation of what the inner loops insert
        w, n, g, key = f.a[:4]
        u = tm.fresh("j", "i", (0, KMAX))
        one = tm.comp(u, n, tm.subst(g, {w: u}), tm.subst(key, {w: u}))
        v, i = tm.fresh("j", "i", (0, KMAX)), tm.fresh("j", "i", (0, KMAX))
        seq = tm.catmap(v, k, tm.subst(one, {k: v}))
        return tm.bind("mfold", i, tm.ln(seq), TRUE, tm.at(seq, i), tm.UNIT, init)
    return None


def like_at(t, init):
    r = tm.at(init, t.a[1], t.sort)
    if tm.type_of(t):
        tm.set_type(r, tm.type_of(t))
    return r


def latch(f, phi):
    """(c, v) when f is "v if c, else phi unchanged", with one v"""
    if f is phi:
        return FALSE, None
    if f.op != "ite":
        return TRUE, f
    a, b = latch(f.a[1], phi), latch(f.a[2], phi)
    if a is None or b is None or a[1] is not None and b[1] is not None and a[1] is not b[1]:
        return None
    return ite(f.a[0], a[0], b[0]), a[1] if a[1] is not None else b[1]


def genfold(phi, init, f, k):
    d = 1 + max([int(x.a[0][4:]) for x in tm.walk(f) if x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith("$acc")] + [0])
    acc = tm.sym("$acc%d" % d, phi.sort)
    v = tm.fresh("j", "i", (0, KMAX))
    return tm.bind("fold", v, k, acc, tm.subst(f, {k: v, phi: acc}), init)


def replace(t, m, memo=None):
    """replace whole subterms"""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, T):
            return replace(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = [go(x) for x in t.a]
    r = t if all(x is y for x, y in zip(a, t.a)) else tm.rebuild(t.op, a, t)
    memo[t] = r
    return r


def trip_count(c, k):
    """(n, remaining condition): iterations while c(k), or (None, c)"""
    parts = c.a if c.op == "and" else (c,)
    ns = []
    rest = []
    for p in parts:
        n = lin_trip(p, k)
        if n is None:
            rest.append(p)
        else:
            ns.append(n)
    if not ns:
        return None, c
    return (ns[0] if len(ns) == 1 else tm.mint(*ns)), and_(*rest)


def lin_trip(p, k):
    neg = p.op == "not"
    q = p.a[0] if neg else p
    if q.op == "ge0" and not neg and q.a[0].sort == "i":
        P = tm.to_poly(q.a[0])
        b = P.pop(((k, 1),), 0)
        A = tm.from_poly(P, "i")
        if k in tm.free(A) or b >= 0:
            return None
        b = -b
        if b == 1:
            return tm.maxt(const(0), tm.add(A, const(1)))
        return ite(tm.ge0(A), tm.add(tm.idiv(A, const(b)), const(1)), const(0))
    if q.op == "eq0" and neg and q.a[0].sort == "i":
        P = tm.to_poly(q.a[0])
        b = P.pop(((k, 1),), 0)
        A = tm.from_poly(P, "i")
        if k in tm.free(A) or b not in (1, -1):
            return None
        return A if b == -1 else tm.neg(A)
    return None


def subst_out(o, sb, ev):
    env = {}
    for r, v in o.S.env.items():
        r2 = ("d", tm.subst(r[1], sb)) if r[0] == "d" else r
        env[r2] = (v[0], tm.subst(v[1], sb)) if r[0] == "held" else tm.subst(v, sb) if isinstance(v, T) else v
    S = St(env, tuple(tm.subst(p, sb) for p in o.S.pc), [e for e in o.S.ev])
    v = o.val
    if isinstance(v, T):
        v = tm.subst(v, sb)
    elif isinstance(v, LV):
        v = subst_lv(v, sb)
    return Out(o.kind, S, v, o.info, o.line, o.fn)


def trips(loops):
    """trip counts of nested loops (outermost first) in terms of their iteration numbers alone"""
    m, out = {}, []
    for L in loops:
        out.append(tm.subst(L.n, m) if m and L.n is not None else L.n)
        m = {**m, **{p: tm.subst(v, m) if m else v for p, v in L.closed.items()}}
    return out


def norm_pc(pc):
    """drop TRUE parts"""
    out = []
    for p in pc:
        if p is TRUE:
            continue
        for x in (p.a if p.op == "and" else (p,)):
            if x not in out:
                out.append(x)
    return tuple(out)


def changed_roots(ev, S, X):
    out = []
    for r, v in X.env.items():
        if r[0] == "held" or not isinstance(v, T):
            continue
        o = S.env.get(r)
        if o is v:
            continue
        if o is None:
            if r[0] == "d" and not (v.op == "deref" and v.a[0] is r[1]):
                out.append(r)
            elif r[0] == "g" and v.op != "sym":
                out.append(r)
            continue
        out.append(r)
    return out


def summarize(ev, s, S, outs, H, body, par):
    ev.nloop += 1
    L = Loop(ev.nloop)
    L.line, L.fn, L.kind, L.par = s["l"], ev.fr.fn, s["s"], par
    k = tm.fresh("k", "i", (0, KMAX))
    L.k = k
    base = S.pc
    phis, leaves = {}, []
    ev.loops.append(L)
    ev.dry += 1
    try:
        for _ in range(10):
            X = S.copy()
            X.ev = []
            for r, p in phis.items():
                X.env[r] = p
            X0 = X.copy()
            ev.sink.append([])
            saved_vars = dict(ev.fr.vars)
            try:
                cdead = False
                try:
                    if H.n is not None:
                        c = tm.lt(k, H.n)
                    else:
                        c = ev.simp(X, H.cond(X, k))
                    live = ev.assume(X, c)
                except Dead:
                    live, c = False, FALSE
                cpc = X.pc
                inner = []
                R = None
                if live:
                    H.bind(X, k)
                    R, inner = run_body(ev, body, X)
                conts = [(o.S, None) for o in inner if o.kind == "cont"] + ([(R, None)] if R is not None else [])
                nxt, _ = ev.merge_all(conts, cpc)
                if nxt is not None:
                    try:
                        H.inc(nxt)
                    except Dead:
                        nxt = None
            finally:
                thrown = ev.sink.pop()
            ch = changed_roots(ev, X0, nxt) if nxt is not None else []
            new = [r for r in ch if r not in phis]
            if not new:
                break
            for r in new:
                init = S.env.get(r)
                if init is None:
                    init = mk("deref", r[1]) if r[0] == "d" else ev.load0(S, r)
                    init = ev._like(init, nxt.env[r])
                    S.env[r] = init
                phis[r] = mkphi(ev, init, str(r[-1] if r[0] != "d" else "d"), leaves)
        else:
            ev.note("loop did not stabilise", s)
    finally:
        ev.dry -= 1
        ev.loops.pop()
    # recurrences
    step = {}
    for r, p in phis.items():
        if nxt is not None and r in nxt.env:
            leaf_steps(p, box_ptrs(ev, nxt.env[r], S, nxt), step)
    init = dict(leaves)
    closed = {}
    pend = [p for p, _ in leaves]
    progress = True
    while progress and pend:
        progress = False
        for p in list(pend):
            f = step.get(p, p)
            if closed:
                f = tm.subst(f, closed)
            U = set(pend) - {p}
            # under the loop condition some guards are decided
            cf = solve(p, init[p], f, k, U)
            if cf is not None:
                closed[p] = cf
                pend.remove(p)
                progress = True
        if not progress:
            # a scalar accumulator whose step needs nothing else that is unsolved: a general fold
            for p in list(pend):
                f = tm.subst(step.get(p, p), closed) if closed else step.get(p, p)
                if p.sort in "irb" and not (tm.free(f) & (set(pend) - {p})) and not tm.is_opaque(f):
                    closed[p] = genfold(p, init[p], f, k)
                    pend.remove(p)
                    progress = True
                    break
    L.unsolved = set(pend)
    L.closed = closed
    for p in pend:
        L.phis[p] = (init[p], tm.subst(step.get(p, p), closed))
    # trip count
    cond = TRUE
    extra = TRUE
    if H.n is not None:
        n = H.n
    else:
        cond = tm.subst(c, closed)
        n, extra = trip_count(cond, k)
        if n is not None and (tm.free(n) & set(pend) or k in tm.free(n)):
            n, extra = None, cond
    L.exact = n is not None
    if n is None:
        n = tm.fresh("trip", "i", (0, KMAX))
    L.n, L.cond = n, cond
    if L.exact:
        tm.BOUNDS[k] = n
    sb = dict(closed)
    sub1 = lambda o: subst_out(o, sb, ev)
    evs = {}

    def conv_events(lst):
        res = []
        for e in lst:
            e2 = evs.get(id(e))
            if e2 is None:
                e2 = e.subst(sb)
                e2.pc = norm_pc(e2.pc)
                evs[id(e)] = e2
            res.append(e2)
        return res
    exits = [o for o in inner if o.kind in ("brk", "ret")]
    events = []
    seen = set()
    for st in ([nxt] if nxt is not None else []) + [o.S for o in exits] + [o.S for o in thrown]:
        for e in st.ev:
            if id(e) not in seen:
                seen.add(id(e))
                events.append(e)
    S.ev = S.ev + conv_events(events)
    ev.event(S, "loop", L, node=s)
    # exceptions leaving the body
    tconds, tout = [], []
    for o in thrown:
        o2 = sub1(o)
        o2.S.pc = norm_pc(o2.S.pc)
        o2.S.ev = list(S.ev)
        tout.append(o2)
        tconds.append(drop_range(and_(*[p for p in o2.S.pc if p not in base]), k, n))
    if tout and not exits and L.exact and not (tm.free(or_(*tconds)) & set(pend)):
        # the first iteration that raises one
        E = tm.bind("exists", k, n, or_(*tconds))
        f = tm.bind("first", k, n, or_(*tconds))
        for g, o in zip(tconds, tout):
            o3 = subst_out(o, {k: f}, ev)
            o3.S.pc = norm_pc(base + (E, tm.subst(g, {k: f}) if len(tout) > 1 else TRUE))
            o3.S.ev = list(S.ev)
            if not any(p is FALSE for p in o3.S.pc):
                ev.sink[-1].append(o3)
    else:
        ev.sink[-1] += tout
    # exits
    ex = []
    for o in exits:
        o2 = sub1(o)
        o2.S.ev = list(S.ev)
        g = and_(*norm_pc(o2.S.pc)[len(base):]) if norm_pc(o2.S.pc)[:len(base)] == base else and_(*[p for p in o2.S.pc if p not in base])
        # the loop range is implied by the binder
        g = drop_range(g, k, n)
        ex.append((g, o2))
        L.breaks.append((o.kind, g))
    if extra is not TRUE:
        ex.append((not_(extra), None))
    exitv = {}
    for p in pend:
        x = tm.fresh("exit:" + p.a[0], p.sort)
        if tm.type_of(p):
            tm.set_type(x, tm.type_of(p))
        if tm.elem_type(p):
            tm.ELEM_TYPE[x] = tm.elem_type(p)
        exitv[p] = x
    L.exitsym = exitv

    def state_at(kk):
        env = dict(S.env)
        m = dict(closed)
        for r, p in phis.items():
            v = tm.subst(p, {q: tm.subst(c2, {k: kk}) for q, c2 in closed.items()})
            v = tm.subst(v, exitv)
            env[r] = v
        return env
    items = []
    if ex:
        any_ = or_(*[g for g, _ in ex])
        if not (tm.free(any_) & set(pend)) and L.exact:
            E = tm.bind("exists", k, n, any_)
            f = tm.bind("first", k, n, any_)
            if E is TRUE:
                pass
        else:
            E = tm.fresh("exits", "b")
            f = tm.fresh("kexit", "i", (0, KMAX))
            L.exact = False
        for g, o in ex:
            gi = tm.subst(g, {k: f}) if len(ex) > 1 else TRUE
            if not L.exact:
                gi = tm.subst(g, {k: f})
            pcx = norm_pc(base + (E, gi))
            if E is FALSE or gi is FALSE:
                continue
            if o is None:
                items.append((St(state_at(f), pcx, list(S.ev)), None))
                continue
            o3 = subst_out(o, {k: f}, ev)
            o3.S.pc = pcx
            o3.S.ev = list(S.ev)
            if o.kind == "brk":
                items.append((o3.S, None))
            else:
                outs.append(o3)
        normal_pc = norm_pc(base + (not_(E),))
    else:
        normal_pc = base
        if tconds:
            any_ = or_(*tconds)
            if not (tm.free(any_) & set(pend)) and L.exact:
                normal_pc = norm_pc(base + (not_(tm.bind("exists", k, n, any_)),))
            else:
                normal_pc = norm_pc(base + (not_(tm.fresh("throws", "b")),))
    if not any(p is FALSE for p in normal_pc):
        N = St(state_at(n), normal_pc, list(S.ev))
        if H.n is None and c is not TRUE and (not L.exact or n.op == "ite"):
            # the condition is false on normal exit
            cc = tm.subst(tm.subst(tm.subst(c, closed), {k: n}), exitv)
            N.pc = norm_pc(N.pc + (not_(cc),)) if not_(cc) is not FALSE else N.pc
        if not (H.n is None and c is TRUE and not L.exact):
            items.append((N, None))
    if pend and ev.dry == 0:
        pass
    R, _ = ev.merge_all(items, base)
    return R


def drop_range(g, k, n):
    parts = g.a if g.op == "and" else (g,)
    lim = tm.lt(k, n)
    lp = set(lim.a) if lim.op == "and" else {lim}
    return and_(*[p for p in parts if p not in lp])
