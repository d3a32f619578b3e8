"""Driving the evaluator: symbolic objects, call sequences on one abstract state."""
from . import evalcpp, terms as tm
from .evalcpp import LV, St, Eval, typed
from .terms import TRUE, and_


class World:
    def __init__(self, P, opaque=(), exact=False, **kw):
        self.P = P
        self.ev = Eval(P, opaque=opaque, exact=exact, **kw)
        self.S = St()

    def obj(self, cls, name, S=None):
        """a symbolic object of a repository class, held in a named location"""
        S = S or self.S
        r = ("arg", name)
        self.ev.birth[r] = 0
        t = tm.sym(name)
        tm.set_type(t, cls)
        S.env[r] = t
        return LV(r, (), None)

    def place(self, name, term, S=None):
        S = S or self.S
        r = ("arg", name)
        self.ev.birth[r] = 0
        S.env[r] = term
        return LV(r, (), None)

    def args_for(self, fn, given, S):
        out = []
        for i, p in enumerate(fn.params()):
            ty = fn.tu.ty(p["t"])
            g = given[i] if i < len(given) else None
            if g is None or isinstance(g, str):
                n = g or p["n"] or "arg%d" % i
                r = ("arg", n)
                if ty.k == "ref":
                    if r in S.env:
                        out.append(LV(r, (), ty.pointee()))
                    else:
                        out.append(self.ev.symval(S, n, ty))
                else:
                    if r in S.env:
                        out.append(S.env[r])
                    else:
                        out.append(typed(tm.sym(n), ty))
            elif isinstance(g, tm.T) and ty.k == "ref":
                out.append(self.place("%s'%d" % (p["n"] or "arg", len(S.env)), g, S))
            else:
                out.append(g)
        return out

    def call(self, qn, this=None, args=(), np=None, S=None, pred=None):
        """call a function in state S (default: the world's), returning the Result; the state after a normal return is r.S"""
        fn = qn if not isinstance(qn, str) else self.P.need(qn, np if np is not None else (len(args) if args else None), pred)
        S = (S or self.S).copy()
        a = self.args_for(fn, list(args), S)
        th = this
        if isinstance(this, str):
            th = LV(("arg", this), (), None)
        return self.ev.run(fn, a, th, S)

    def value(self, r):
        return r.value


def fields_of(t, cls):
    if t.op == "rec":
        return dict(t.a[1])
    return {f: tm.fld(t, f) for f, *_ in tm.RECORDS.get(cls, [])}


EQ_COORD = ("Coordinate::operator==", "Coordinate::operator!=")


def under(term, facts, memo=None):
    """term with the given boolean facts (terms known to be true) applied"""
    from .loops import replace
    m = {}

    def fact(c):
        if c.op == "and":
            for x in c.a:
                fact(x)
        elif c.op == "not":
            if c.a[0].op == "or":
                for x in c.a[0].a:
                    fact(tm.not_(x))
            else:
                m[c.a[0]] = tm.FALSE
        else:
            m[c] = tm.TRUE
            n = tm.not_(c)
            m[n] = tm.FALSE
    for c in facts:
        fact(c)
    m.pop(tm.TRUE, None)
    m.pop(tm.FALSE, None)
    for _ in range(4):
        t2 = replace(term, m)
        if t2 is term:
            break
        term = t2
    return term
