"""Hash-consed value terms with normal forms: the abstract domain of the value-flow analysis.

A term stands for the value of an expression as a function of the symbolic inputs.  Two program
fragments that compute the same value by different statements (helpers, reordered statements,
early returns, other loop forms) normalise to the same term.
"""
from fractions import Fraction

_tab = {}
_cnt = [0]
BINDERS = ("comp", "sum", "catmap", "forall", "exists", "first", "fold", "mfold", "afold")
BOUNDS = {}           # loop counter / bound variable -> exclusive upper bound


class T:
    __slots__ = ("op", "a", "sort", "id", "_rng", "_free", "_opq")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a, sort="o"):
    key = (op, a, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.sort = op, a, sort
        t._rng = t._free = t._opq = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


# ------------------------------------------------------------------ leaves
TRUE = mk("true", sort="b")
FALSE = mk("false", sort="b")
SYM_RANGE = {}


def const(v, sort=None):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, float):
        v = Fraction(v) if v == v and v not in (float("inf"), float("-inf")) else v
        if isinstance(v, float):
            return mk("finf" if v > 0 else "fninf" if v < 0 else "fnan", sort="r")
        return mk("c", v, sort=sort or "r")
    if isinstance(v, int):
        return mk("c", Fraction(v) if sort == "r" else v, sort=sort or "i")
    if isinstance(v, Fraction):
        return mk("c", v, sort=sort or "r")
    raise TypeError(v)


def sconst(s):
    return mk("str", s)


NULL = mk("null")
UNIT = mk("unit")


def sym(name, sort="o", rng=None):
    t = mk("sym", name, sort=sort)
    if rng is not None:
        SYM_RANGE[t] = rng
    return t


_fresh = [0]


def fresh(prefix, sort="o", rng=None):
    _fresh[0] += 1
    return sym("%s#%d" % (prefix, _fresh[0]), sort, rng)


def opaque(why, sort="o", *args):
    """A value the analysis does not interpret.  Comparisons involving it are never definite."""
    _fresh[0] += 1
    return mk("opaque", why, _fresh[0], *args, sort=sort)


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tch(x)


def _tch(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tch(y)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def is_opaque(t):
    if t._opq is None:
        t._opq = t.op == "opaque" or any(is_opaque(c) for c in children(t))
    return t._opq


def free(t):
    if t._free is None:
        if t.op == "sym":
            t._free = frozenset([t])
        else:
            s = frozenset()
            for c in children(t):
                s |= free(c)
            if t.op in BINDERS:
                s -= {t.a[0]}
                if t.op == "fold":
                    s -= {t.a[2]}
            t._free = s
    return t._free


# ------------------------------------------------------------------ numeric polynomials
def to_poly(t):
    """{monomial: coefficient}, monomial = tuple of (atom, exponent) sorted by atom id"""
    if t.op == "c":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): 1}


def from_poly(p, sort):
    p = {m: c for m, c in p.items() if c != 0}
    p = _combine_bits(p)
    if not p:
        return const(0, sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if sort == "i" and isinstance(c, Fraction) and c.denominator == 1:
                c = int(c)
            return const(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].sort == sort:
            return m[0][0]
    items = tuple(sorted(((m, int(c) if isinstance(c, Fraction) and c.denominator == 1 and sort == "i" else c)
                          for m, c in p.items()), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk("poly", items, sort=sort)


def _combine_bits(p):
    """2^k*bits(x,lo,w) + 2^(k+w)*bits(x,lo+w,w2) = 2^k*bits(x,lo,w+w2)"""
    bs = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "bits"]
    if len(bs) < 2:
        return p
    changed = True
    while changed:
        changed = False
        bs = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "bits"]
        for b1, c1 in bs:
            for b2, c2 in bs:
                if b1.a[0] is b2.a[0] and b1.a[1] + b1.a[2] == b2.a[1] and c2 == c1 * (1 << b1.a[2]):
                    p = dict(p)
                    del p[((b1, 1),)]
                    del p[((b2, 1),)]
                    nb = bits(b1.a[0], b1.a[1], b1.a[2] + b2.a[2])
                    for m, c in to_poly(nb).items():
                        p[m] = p.get(m, 0) + c * c1
                    changed = True
                    break
            if changed:
                break
    return p


def _nsort(a, b):
    return "r" if "r" in (a.sort, b.sort) else "i"


def num(t):
    """numeric view of a term (bools become 0/1)"""
    if t.sort == "b":
        return b2i(t)
    return t


SPECIAL = ("finf", "fninf", "fnan")


def add(a, b):
    a, b = num(a), num(b)
    s = _nsort(a, b)
    if a.op in SPECIAL or b.op in SPECIAL:
        return a if a.op in SPECIAL and b.op not in SPECIAL else b if a.op not in SPECIAL else mk("fadd", a, b, sort="r")
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p, s)


def neg(a):
    a = num(a)
    if a.op == "finf":
        return mk("fninf", sort="r")
    if a.op == "fninf":
        return mk("finf", sort="r")
    return from_poly({m: -c for m, c in to_poly(a).items()}, a.sort)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # x * inv(x) = 1
    for a in list(d):
        if a.op == "inv" and a.a[0] in d and a.a[0] in d:
            k = min(d[a], d[a.a[0]])
            d[a] -= k
            d[a.a[0]] -= k
    out = {}
    sq = []
    for a, e in d.items():
        if a.op == "sqrt" and e >= 2:
            sq.append((a, e))
            e = e % 2
        if e:
            out[a] = e
    return tuple(sorted(out.items(), key=lambda x: x[0].id)), sq


def mul(a, b):
    a, b = num(a), num(b)
    s = _nsort(a, b)
    if a.op in SPECIAL or b.op in SPECIAL:
        return mk("fmul", *sorted((a, b)), sort="r")
    p = {}
    extra = []
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 4000:
        return mk("fmul", *sorted((a, b)), sort=s)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, sq = _mulmono(m1, m2)
            if sq:
                t = from_poly({m: c1 * c2}, s)
                for x, e in sq:
                    for _ in range(e // 2):
                        t = mul(t, x.a[0])
                extra.append(t)
            else:
                p[m] = p.get(m, 0) + c1 * c2
    r = from_poly(p, s)
    for t in extra:
        r = add(r, t)
    return r


def i2r(a):
    """integer to real, as exact real arithmetic"""
    a = num(a)
    if a.sort == "r":
        return a
    if a.op == "ite":
        return ite(a.a[0], i2r(a.a[1]), i2r(a.a[2]))
    return from_poly({m: Fraction(c) for m, c in to_poly(a).items()}, "r")


def rdiv(a, b):
    a, b = i2r(a), i2r(b)
    if b.op == "c" and b.a[0] != 0:
        return mul(a, const(Fraction(1) / Fraction(b.a[0]), "r"))
    if b.op in SPECIAL:
        return mk("fdiv", a, b, sort="r")
    pb = to_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        r = mul(a, const(Fraction(1) / Fraction(c), "r"))
        for at, e in m:
            iv = mk("inv", at, sort="r") if at.op != "inv" else at.a[0]
            for _ in range(e):
                r = mul(r, iv)
        return r
    return mul(a, mk("inv", b, sort="r"))


def _cdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def idiv(a, b):
    a, b = num(a), num(b)
    if b.op == "c" and b.a[0] != 0:
        if b.a[0] == 1:
            return a
        if a.op == "c":
            return const(_cdiv(a.a[0], b.a[0]))
        p = to_poly(a)
        if all(c % b.a[0] == 0 for c in p.values()):
            return from_poly({m: c // b.a[0] for m, c in p.items()}, "i")
    return mk("idiv", a, b, sort="i")


def irem(a, b):
    a, b = num(a), num(b)
    if a.op == "c" and b.op == "c" and b.a[0] != 0:
        return const(a.a[0] - b.a[0] * _cdiv(a.a[0], b.a[0]))
    if a.op == "irem" and a.a[1] is b:
        return a
    lo, hi = rng(a)
    if b.op == "c" and lo is not None and hi is not None and lo >= 0 and hi < abs(b.a[0]):
        return a
    return mk("irem", a, b, sort="i")


def bits(x, lo, w):
    """(x >> lo) mod 2^w as a non-negative integer (two's complement for negative x)"""
    x = num(x)
    if w <= 0:
        return const(0)
    if x.op == "c":
        return const((x.a[0] >> lo) & ((1 << w) - 1))
    l, h = rng(x)
    if l is not None and l >= 0 and h is not None:
        if lo == 0 and h < (1 << w):
            return x
        if h < (1 << lo):
            return const(0)
        hb = h.bit_length() if isinstance(h, int) else 64
        if lo + w > hb:
            w = hb - lo
            if lo == 0:
                return x
    if x.op == "bits":
        if lo >= x.a[2]:
            return const(0)
        return bits(x.a[0], x.a[1] + lo, min(w, x.a[2] - lo))
    if x.op == "trunc" and lo + w <= x.a[0]:
        return bits(x.a[2], lo, w)
    if x.op == "poly":
        # drop multiples of 2^(lo+w); split off low parts is left alone
        p = dict(x.a[0])
        q = {m: c for m, c in p.items() if not (isinstance(c, int) and c % (1 << (lo + w)) == 0)}
        if len(q) != len(p):
            return bits(from_poly(q, "i"), lo, w)
        if lo and all(isinstance(c, int) and c % (1 << lo) == 0 for c in p.values()):
            return bits(from_poly({m: c >> lo for m, c in p.items()}, "i"), 0, w)
        # p = low + 2^lo * high with 0 <= low < 2^lo
        if lo:
            high = {m: c for m, c in p.items() if isinstance(c, int) and c % (1 << lo) == 0}
            low = {m: c for m, c in p.items() if m not in high}
            if high and low:
                ll, lh = rng(from_poly(low, "i"))
                if ll is not None and lh is not None and ll >= 0 and lh < (1 << lo):
                    return bits(from_poly({m: c >> lo for m, c in high.items()}, "i"), 0, w)
    if x.op == "ite":
        return ite(x.a[0], bits(x.a[1], lo, w), bits(x.a[2], lo, w))
    return mk("bits", x, lo, w, sort="i")


def trunc(w, sg, x):
    """conversion to a w-bit integer"""
    x = num(x)
    l, h = rng(x)
    tl, th = ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1))
    if l is not None and h is not None and tl <= l and h <= th:
        return x
    if x.op == "c":
        v = x.a[0] & ((1 << w) - 1)
        if sg and v >> (w - 1):
            v -= 1 << w
        return const(v)
    if x.op == "trunc" and x.a[0] >= w:
        return trunc(w, sg, x.a[2])
    if x.op == "bits" and x.a[1] == 0 and x.a[2] >= w:
        return trunc(w, sg, x.a[0])
    if x.op == "ite":
        return ite(x.a[0], trunc(w, sg, x.a[1]), trunc(w, sg, x.a[2]))
    if not sg and w < 64:
        return bits(x, 0, w)
    return mk("trunc", w, sg, x, sort="i")


def _known_bits(t):
    """mask of bits that may be set, None if unknown"""
    if t.op == "c":
        return t.a[0] if t.a[0] >= 0 else None
    if t.op == "poly":
        m = 0
        for mono, c in t.a[0]:
            if not isinstance(c, int) or c <= 0:
                return None
            low = (c & -c).bit_length() - 1
            if c != 1 << low:
                return None
            l, h = rng(from_poly({mono: 1}, "i"))
            if l is None or l < 0 or h is None:
                return None
            mm = ((1 << int(h).bit_length()) - 1) << low
            if mm & m:
                return None
            m |= mm
        return m
    l, h = rng(t)
    if l is not None and l >= 0 and h is not None:
        return (1 << int(h).bit_length()) - 1
    return None


def bor(a, b):
    a, b = num(a), num(b)
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return const(a.a[0] | b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "c" and x.a[0] == 0:
            return y
    ka, kb = _known_bits(a), _known_bits(b)
    if ka is not None and kb is not None and ka & kb == 0:
        return add(a, b)
    xs = set()
    for x in (a, b):
        xs |= set(x.a) if x.op == "bor" else {x}
    return mk("bor", *sorted(xs), sort="i")


def band(a, b):
    a, b = num(a), num(b)
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return const(a.a[0] & b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            m = x.a[0]
            if m == 0:
                return const(0)
            if m > 0 and (m & (m + 1)) == 0:
                return bits(y, 0, m.bit_length())
            if m > 0 and m == m & -m:
                k = m.bit_length() - 1
                return mul(const(m), bits(y, k, 1))
    xs = set()
    for x in (a, b):
        xs |= set(x.a) if x.op == "band" else {x}
    return mk("band", *sorted(xs), sort="i")


def bxor(a, b):
    a, b = num(a), num(b)
    if a is b:
        return const(0)
    if a.op == "c" and b.op == "c":
        return const(a.a[0] ^ b.a[0])
    xs = []
    for x in (a, b):
        xs += list(x.a) if x.op == "bxor" else [x]
    cnt = {}
    for x in xs:
        cnt[x] = cnt.get(x, 0) ^ 1
    xs = sorted(x for x, k in cnt.items() if k and not (x.op == "c" and x.a[0] == 0))
    if not xs:
        return const(0)
    if len(xs) == 1:
        return xs[0]
    return mk("bxor", *xs, sort="i")


def pow2(k):
    if k.op == "c":
        return const(1 << k.a[0]) if 0 <= k.a[0] < 200 else opaque("shift")
    return mk("pow2", k, sort="i")


def shl(a, k):
    return mul(a, pow2(num(k)))


def shr(a, k, w=64):
    k = num(k)
    if k.op == "c":
        l, _ = rng(num(a))
        if l is None or l < 0:
            return mk("sar", a, k, sort="i")
        return bits(a, k.a[0], max(1, w - k.a[0]))
    return mk("shr", a, k, sort="i")


def b2i(b):
    if b is TRUE:
        return const(1)
    if b is FALSE:
        return const(0)
    if b.sort != "b":
        return b
    # [bits(x,k,1) != 0] as a number is the bit itself
    x = b
    if x.op == "not" and x.a[0].op == "eq0" and x.a[0].a[0].op == "bits" and x.a[0].a[0].a[2] == 1:
        return x.a[0].a[0]
    if x.op == "ite" and x.sort == "b":
        return ite(x.a[0], b2i(x.a[1]), b2i(x.a[2]))
    return mk("b2i", b, sort="i")


def tobool(t):
    if t.sort == "b":
        return t
    if t.op == "b2i":
        return t.a[0]
    if t.op in ("null",):
        return FALSE
    if t.sort == "o":
        if t.op == "ptr":
            return TRUE
        return not_(eqt(t, NULL))
    return not_(eq0(t))


# ------------------------------------------------------------------ ranges
def _min(a, b):
    return None if a is None or b is None else min(a, b)


def _max(a, b):
    return None if a is None or b is None else max(a, b)


def _imul(a, b):
    if a == (0, 0) or b == (0, 0):
        return (0, 0)
    if None in a or None in b:
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], None if a[1] is None or b[1] is None else a[1] * b[1])
        return (None, None)
    vs = [x * y for x in a for y in b]
    return (min(vs), max(vs))


def rng(t):
    if t._rng is None:
        t._rng = _rng(t)
    return t._rng


def _rng(t):
    if t in SYM_RANGE:
        return SYM_RANGE[t]
    op = t.op
    if op == "c":
        return (t.a[0], t.a[0])
    if op == "poly":
        lo = hi = 0
        for m, c in t.a[0]:
            r = (1, 1)
            for a, e in m:
                ra = rng(a)
                if e % 2 == 0 and None not in ra:
                    sq = (0 if ra[0] <= 0 <= ra[1] else min(ra[0] ** 2, ra[1] ** 2), max(ra[0] ** 2, ra[1] ** 2))
                    for _ in range(e // 2):
                        r = _imul(r, sq)
                elif e % 2 == 0:
                    r = _imul(r, (0, None))
                else:
                    for _ in range(e):
                        r = _imul(r, ra)
            if c < 0:
                r = (r[1], r[0])
            lo = None if lo is None or r[0] is None else lo + c * r[0]
            hi = None if hi is None or r[1] is None else hi + c * r[1]
        return (lo, hi)
    if op == "bits":
        return (0, (1 << t.a[2]) - 1)
    if op == "b2i":
        return (0, 1)
    if op == "trunc":
        w, sg = t.a[0], t.a[1]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if op == "ite":
        a, b = rng(t.a[1]), rng(t.a[2])
        return (_min(a[0], b[0]), _max(a[1], b[1]))
    if op == "min":
        a = [rng(x) for x in t.a]
        his = [x[1] for x in a if x[1] is not None]
        los = [x[0] for x in a]
        return (None if None in los else min(los), min(his) if his else None)
    if op == "max":
        a = [rng(x) for x in t.a]
        los = [x[0] for x in a if x[0] is not None]
        his = [x[1] for x in a]
        return (max(los) if los else None, None if None in his else max(his))
    if op in ("len", "count"):
        return (0, (1 << 31) - 1)
    if op == "sum":
        b = rng(t.a[2])
        c = rng(t.a[1])
        lo = 0 if b[0] is not None and b[0] >= 0 else None
        if t.a[2].op == "len" or t.a[2].op == "b2i":
            return (0, (1 << 31) - 1)         # the length of a flattened container
        return (lo, None if lo is None or b[1] is None or c[1] is None else b[1] * c[1])
    if op == "irem" and t.a[1].op == "c":
        m = abs(t.a[1].a[0]) - 1
        l, h = rng(t.a[0])
        return (0 if l is not None and l >= 0 else -m, 0 if h is not None and h <= 0 else m)
    if op == "irem":
        l, h = rng(t.a[0])
        bl, bh = rng(t.a[1])
        if l is not None and l >= 0:
            return (0, h if bh is None else bh)
        return (None, None)
    if op == "idiv" and t.a[1].op == "c":
        l, h = rng(t.a[0])
        c = t.a[1].a[0]
        if c > 0:
            return (None if l is None else _cdiv(l, c), None if h is None else _cdiv(h, c))
        return (None, None)
    if op == "idiv":
        l, h = rng(t.a[0])
        if l is not None and l >= 0 and rng(t.a[1])[0] is not None and rng(t.a[1])[0] >= 0:
            return (0, h)
        return (None, None)
    if op == "bor":
        rs = [rng(x) for x in t.a]
        if all(r[0] is not None and r[0] >= 0 and r[1] is not None for r in rs):
            return (0, (1 << max(int(r[1]).bit_length() for r in rs)) - 1)
    if op == "band":
        rs = [rng(x) for x in t.a]
        hs = [r[1] for r in rs if r[0] is not None and r[0] >= 0 and r[1] is not None]
        if hs:
            return (0, min(hs))
    if op == "pow2":
        l, h = rng(t.a[0])
        if l is not None and l >= 0:
            return (1 << l, (1 << h) if h is not None and h < 200 else None)
    if op == "shr":
        l, h = rng(t.a[0])
        if l is not None and l >= 0:
            return (0, h)
    if op == "abs":
        l, h = rng(t.a[0])
        if l is not None and h is not None:
            return (0 if l <= 0 <= h else min(abs(l), abs(h)), max(abs(l), abs(h)))
        return (0, None)
    if op in ("sqrt",):
        return (0, None)
    if op == "first":
        l, h = rng(t.a[1])
        return (0, h)
    if op == "trip":
        return (0, None)
    if t.sort == "b":
        return (0, 1)
    return (None, None)


# ------------------------------------------------------------------ comparisons and booleans
def _content(p, sort):
    """scale so that coefficients are coprime integers; sign kept"""
    from math import gcd
    den = 1
    for c in p.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    q = {m: int(c * den) for m, c in p.items()}
    return q


def eq0(t):
    t = num(t)
    if t.op == "c":
        return TRUE if t.a[0] == 0 else FALSE
    if t.op in SPECIAL:
        return FALSE
    if t.op == "b2i":
        return not_(t.a[0])
    if t.op == "ite":
        a, b = t.a[1], t.a[2]
        if a.op == "c" or b.op == "c":
            return ite(t.a[0], eq0(a), eq0(b))
    l, h = rng(t)
    if (l is not None and l > 0) or (h is not None and h < 0):
        return FALSE
    if t.op == "poly":
        q = _content(dict(t.a[0]), t.sort)
        from math import gcd
        from functools import reduce
        g = reduce(gcd, [abs(c) for m, c in q.items() if m != ()], 0)
        k0 = q.get((), 0)
        if t.sort == "i" and g > 1 and k0 % g != 0:
            return FALSE
        g = gcd(g, abs(k0)) if k0 else g
        if g > 1:
            q = {m: c // g for m, c in q.items()}
        first = min((m for m in q if m != ()), key=lambda m: tuple((a.id, e) for a, e in m))
        if q[first] < 0:
            q = {m: -c for m, c in q.items()}
        t = from_poly(q, "i") if t.sort == "i" else from_poly({m: Fraction(c) for m, c in q.items()}, "r")
        # a + b = 0 over non-negative parts, or a boolean coefficient
        if t.op == "b2i":
            return not_(t.a[0])
        if t.op == "poly" and len(t.a[0]) == 2 and t.sort == "i":
            # b2i(x) - 1 == 0
            d = dict(t.a[0])
            if d.get((), None) == -1:
                (m, c), = [(m, c) for m, c in d.items() if m != ()]
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "b2i":
                    return m[0][0].a[0]
                if c == 1 and len(m) == 1 and m[0][1] == 1 and rng(m[0][0]) == (0, 1):
                    return not_(eq0(m[0][0]))
    if t.op == "ite" and t.sort in "ir" and (t.a[1].op == "c" or t.a[2].op == "c"):
        return ite(t.a[0], eq0(t.a[1]), eq0(t.a[2]))
    if t.op == "poly" and t.sort == "i":
        r = _radix_split(t)
        if r is not None:
            return r
    return mk("eq0", t, sort="b")


def below(x, n):
    """0 <= x < n for a value x by its recorded bound"""
    b = BOUNDS.get(x)
    if b is not None:
        if b is n:
            return True
        d = sub(n, b)
        if rng(d)[0] is not None and rng(d)[0] >= 0:
            return True
    if x.op == "c" and n.op == "c":
        return 0 <= x.a[0] < n.a[0]
    return False


def _radix_split(t):
    """(i - i') + n*(j - j') = 0 with 0 <= i, i' < n  iff  i = i' and j = j'"""
    d = dict(t.a[0])
    los = [(m, c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and abs(c) == 1]
    for n in {a for m in d for a, _ in m}:
        lo = {m: c for m, c in los if m[0][0] is not n and below(m[0][0], n)}
        if not lo or len(lo) > 2:
            continue
        rest = {m: c for m, c in d.items() if m not in lo}
        if len(lo) == 2 and sum(lo.values()) != 0:
            continue
        q = {}
        ok = True
        for m, c in rest.items():
            f = dict(m)
            if n not in f:
                ok = False
                break
            f[n] -= 1
            q[tuple(sorted(((a, e) for a, e in f.items() if e), key=lambda x: x[0].id))] = c
        if ok:
            return and_(eq0(from_poly(lo, "i")), eq0(from_poly(q, "i")))
    return None


def ge0(t):
    """t >= 0"""
    t = num(t)
    if t.op == "finf":
        return TRUE
    if t.op in ("fninf", "fnan"):
        return FALSE
    l, h = rng(t)
    if l is not None and l >= 0:
        return TRUE
    if h is not None and h < 0:
        return FALSE
    if t.op == "ite" and (t.a[1].op == "c" or t.a[2].op == "c"):
        return ite(t.a[0], ge0(t.a[1]), ge0(t.a[2]))
    if t.op == "poly":
        from math import gcd
        from functools import reduce
        q = _content(dict(t.a[0]), t.sort)
        g = reduce(gcd, [abs(c) for m, c in q.items() if m != ()], 0)
        if t.sort == "i":
            if g > 1:
                q = {m: (c // g) for m, c in q.items()}   # floor of the constant keeps integer truth
        else:
            if g:
                k0 = q.get((), 0)
                g = gcd(g, abs(k0)) if k0 else g
                q = {m: Fraction(c // g) for m, c in q.items()}
        t = from_poly(q, t.sort)
        # boolean 0/1 atoms
        if t.op == "poly" and len(t.a[0]) == 2:
            d = dict(t.a[0])
            if () in d:
                (m, c), = [(m, c) for m, c in d.items() if m != ()]
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "b2i" and t.sort == "i":
                    b = m[0][0].a[0]
                    return ite(b, ge0(const(c + d[()])), ge0(const(d[()])))
        elif t.op == "poly" and len(t.a[0]) == 1:
            (m, c), = t.a[0]
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "b2i":
                return not_(m[0][0].a[0]) if c < 0 else TRUE
    # sign facts: ge0(x) with x in {min,max}
    if t.op == "min":
        return and_(*[ge0(x) for x in t.a])
    if t.op == "max":
        return or_(*[ge0(x) for x in t.a])
    if t.sort == "i" and l is not None and l == 0:
        return TRUE
    return mk("ge0", t, sort="b")


def _has_minmax(t):
    return None


def lt(a, b):
    return not_(ge(a, b))


def le(a, b):
    return ge(b, a)


def ge(a, b):
    """a >= b"""
    a, b = num(a), num(b)
    if "r" in (a.sort, b.sort):
        a, b = i2r(a), i2r(b)
        for x, y, flip in ((a, b, False), (b, a, True)):
            pass
        if a is b:
            return TRUE
        if a.op == "finf" or b.op == "fninf":
            return TRUE
        if b.op == "finf" and a.op not in SPECIAL:
            return mk("isinf", a, sort="b") if a.op in ("sym", "app", "fld", "opaque") else FALSE
        if a.op == "fninf":
            return FALSE
    # distribute over min / max
    if a.op == "min":
        return and_(*[ge(x, b) for x in a.a])
    if a.op == "max":
        return or_(*[ge(x, b) for x in a.a])
    if b.op == "min":
        return or_(*[ge(a, x) for x in b.a])
    if b.op == "max":
        return and_(*[ge(a, x) for x in b.a])
    # min/max inside a linear combination with coefficient +-1 on one side
    d = sub(a, b)
    if d.op == "poly":
        for m, c in d.a[0]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("min", "max") and c in (1, -1):
                mm = m[0][0]
                rest = sub(d, mul(const(c), mm))
                parts = [ge0(add(rest, mul(const(c), x))) for x in mm.a]
                conj = (mm.op == "min") == (c == 1)
                return and_(*parts) if conj else or_(*parts)
    return ge0(d)


def memo1(f):
    tab = {}

    def g(x):
        r = tab.get(x)
        if r is None:
            r = f(x)
            tab[x] = r
        return r
    g.__name__ = f.__name__
    return g


def memon(f):
    tab = {}

    def g(*xs):
        r = tab.get(xs)
        if r is None:
            r = f(*xs)
            tab[xs] = r
        return r
    g.__name__ = f.__name__
    return g


@memo1
def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    if b.op == "ge0":
        t = b.a[0]
        if t.sort == "i":
            return ge0(sub(neg(t), const(1)))
        return mk("not", b, sort="b")
    if b.op == "and":
        return or_(*[not_(x) for x in b.a])
    if b.op == "or":
        return and_(*[not_(x) for x in b.a])
    if b.op == "ite":
        return ite(b.a[0], not_(b.a[1]), not_(b.a[2]))
    if b.op == "forall":
        return bind("exists", b.a[0], b.a[1], not_(b.a[2]))
    if b.op == "exists":
        return bind("forall", b.a[0], b.a[1], not_(b.a[2]))
    return mk("not", b, sort="b")


@memon
def and_(*xs):
    out = []
    seen = set()

    def push(x):
        if x is TRUE or x in seen:
            return True
        if x is FALSE or not_(x) in seen:
            return False
        if x.op == "and":
            return all(push(y) for y in x.a)
        seen.add(x)
        out.append(x)
        return True
    for x in xs:
        if not push(x):
            return FALSE
    # unit propagation into disjunctions
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x.op == "or":
                rest = []
                sat = False
                for y in x.a:
                    ys = y.a if y.op == "and" else (y,)
                    if any((z in seen and z is not x) for z in ys) and all((z in seen and z is not x) for z in ys):
                        sat = True
                        break
                    if any(not_(z) in seen for z in ys):
                        continue
                    if y.op == "and":
                        y2 = and_(*[z for z in ys if z not in seen])
                    else:
                        y2 = y
                    rest.append(y2)
                if sat:
                    out.pop(i)
                    seen.discard(x)
                    changed = True
                    break
                nx = or_(*rest)
                if nx is not x:
                    out.pop(i)
                    seen.discard(x)
                    changed = True
                    if not push(nx):
                        return FALSE
                    break
    out = _drop_implied(out)
    if out is None:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out), sort="b")


_thrtab = {}


def _thr(x):
    r = _thrtab.get(x, 0)
    if r == 0:
        r = _thrtab[x] = _thr0(x)
    return r


def _thr0(x):
    """(direction-normalised linear part, kind, bound): x is  q >= k / q <= k / q == k / q != k  (integers only)"""
    neg_ = False
    y = x
    if y.op == "not":
        neg_ = True
        y = y.a[0]
    if y.op not in ("ge0", "eq0") or y.a[0].sort != "i":
        return None
    p = to_poly(y.a[0])
    k = p.pop((), 0)
    if not p:
        return None
    first = min(p, key=lambda m: tuple((a.id, e) for a, e in m))
    s = 1
    if p[first] < 0:
        p = {m: -c for m, c in p.items()}
        s = -1
    q = from_poly(p, "i")
    if y.op == "eq0":
        return (q, "ne" if neg_ else "eq", -k * s)
    if neg_:
        return None
    return (q, "ge", -k) if s > 0 else (q, "le", k)


def _drop_implied(xs):
    groups = {}
    for x in xs:
        h = _thr(x)
        if h:
            groups.setdefault(h[0], []).append((h[1], h[2], x))
    drop = set()
    addl = []
    for q, hs in groups.items():
        if len(hs) < 2:
            continue
        lo, hi = rng(q)
        los = [k for kd, k, _ in hs if kd == "ge"] + ([lo] if lo is not None else [])
        his = [k for kd, k, _ in hs if kd == "le"] + ([hi] if hi is not None else [])
        eqs = {k for kd, k, _ in hs if kd == "eq"}
        nes = {k for kd, k, _ in hs if kd == "ne"}
        L = max(los) if los else None
        H = min(his) if his else None
        if L is not None and H is not None and L > H:
            return None
        if len(eqs) > 1:
            return None
        if eqs:
            e = next(iter(eqs))
            if (L is not None and e < L) or (H is not None and e > H) or e in nes:
                return None
            for kd, k, x in hs:
                if kd != "eq":
                    drop.add(x)
            continue
        # tighten bounds by disequalities
        while L is not None and L in nes:
            nes.discard(L)
            L += 1
        while H is not None and H in nes:
            nes.discard(H)
            H -= 1
        if L is not None and H is not None and L > H:
            return None
        want = []
        if L is not None and H is not None and L == H:
            want.append(eq0(sub(q, const(L))))
        else:
            if L is not None and not (lo is not None and L <= lo):
                want.append(ge0(sub(q, const(L))))
            if H is not None and not (hi is not None and H >= hi):
                want.append(ge0(sub(const(H), q)))
            for k in nes:
                if (L is None or k >= L) and (H is None or k <= H):
                    want.append(not_(eq0(sub(q, const(k)))))
        for kd, k, x in hs:
            drop.add(x)
        addl += want
    if not drop:
        return xs
    out = [x for x in xs if x not in drop]
    for w in addl:
        if w is FALSE:
            return None
        if w is not TRUE and w not in out:
            out.append(w)
    return out


@memon
def or_(*xs):
    out = []
    seen = set()

    def push(x):
        if x is FALSE or x in seen:
            return True
        if x is TRUE or not_(x) in seen:
            return False
        if x.op == "or":
            return all(push(y) for y in x.a)
        seen.add(x)
        out.append(x)
        return True
    for x in xs:
        if not push(x):
            return TRUE
    # a | (!a & b) = a | b ; absorption a | (a & b) = a ; (a&b)|(a&!b) = a
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x.op == "and":
                if any(y in seen for y in x.a):
                    out.pop(i)
                    seen.discard(x)
                    changed = True
                    break
                ys = [y for y in x.a if not_(y) not in seen]
                if len(ys) != len(x.a):
                    out.pop(i)
                    seen.discard(x)
                    changed = True
                    if not push(and_(*ys)):
                        return TRUE
                    break
        if changed:
            continue
        ands = [x for x in out if x.op == "and"]
        for i in range(len(ands)):
            for j in range(i + 1, len(ands)):
                a, b = set(ands[i].a), set(ands[j].a)
                da, db = a - b, b - a
                if len(da) == 1 and len(db) == 1 and not_(next(iter(da))) is next(iter(db)):
                    new = and_(*(a & b))
                    for z in (ands[i], ands[j]):
                        out.remove(z)
                        seen.discard(z)
                    if not push(new):
                        return TRUE
                    changed = True
                    break
                if a < b or b < a:
                    z = ands[j] if a < b else ands[i]
                    out.remove(z)
                    seen.discard(z)
                    changed = True
                    break
            if changed:
                break
    # thresholds on one quantity: the negation of a conjunction of the negations
    if len(out) > 1:
        negs = _drop_implied([not_(x) for x in out if _thr(x)])
        rest = [x for x in out if not _thr(x)]
        if negs is None:
            return TRUE
        out = rest + [not_(x) for x in negs]
        out2 = []
        for x in out:
            if x is TRUE:
                return TRUE
            if x is not FALSE and x not in out2:
                out2.append(x)
        out = out2
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out), sort="b")


def implies_(a, b):
    return or_(not_(a), b)


def ptr_eq(a, b):
    """do two places (root, path) coincide?"""
    if a[1] != b[1] or len(a[2]) != len(b[2]):
        return FALSE
    r = TRUE
    for (k, x), (k2, y) in zip(a[2], b[2]):
        if k != k2:
            return FALSE
        if x is y or x == y:
            continue
        if not isinstance(x, T) or not isinstance(y, T):
            return FALSE
        r = and_(r, eqt(x, y))
    return r


def eqt(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "app" and x.a == ("no_error",):      # std::error_code()
            return TRUE if y is x else not_(app("failed", y, sort="b"))
    """equality of two values"""
    if a is b:
        return TRUE
    if a.sort == "b" and b.sort == "b":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort in "irb" and b.sort in "irb":
        if "r" in (a.sort, b.sort):
            a, b = i2r(a), i2r(b)
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and (x.a[1].op == "c" or x.a[2].op == "c") and y.op in ("c",):
                return ite(x.a[0], eqt(x.a[1], y), eqt(x.a[2], y))
        return eq0(sub(a, b))
    if a.op == "rec" or b.op == "rec":
        r = a if a.op == "rec" else b
        if a.op == "rec" and b.op == "rec" and (a.a[0] != b.a[0]):
            return FALSE
        return and_(*[eqt(fld(a, f, v.sort), fld(b, f, v.sort)) for f, v in r.a[1]])
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return ite(x.a[0], eqt(x.a[1], y), eqt(x.a[2], y))
    if a.op == "box" and b.op == "box" and eqt(a.a[0], b.a[0]) is FALSE:
        return FALSE
    kinds = {a.op, b.op}
    if kinds & {"mafter", "mgap"}:
        if kinds == {"mit", "mafter"} and a.a[1] is b.a[1]:
            return FALSE
        return mk("opaque", "positions in a map", a, b, sort="b")
    if kinds <= {"mit", "mend"}:
        if a.op == "mend" and b.op == "mend":
            return TRUE
        m, k = (a.a if a.op == "mit" else b.a)[:2]
        if kinds == {"mit", "mend"}:
            return not_(mhas(m, k))
        return eqt(a.a[1], b.a[1])
    if kinds == {"iter"}:
        if a.a[0] is b.a[0]:
            return eqt(a.a[1], b.a[1])
    if kinds == {"some", "none"} or kinds == {"ptr", "null"} or kinds == {"str"}:
        return FALSE
    if kinds == {"ptr"}:
        return ptr_eq(a.a[0].a[0], b.a[0].a[0])
    if kinds == {"some"}:
        return eqt(a.a[0], b.a[0])
    if a.op == "list" and b.op == "list":
        if len(a.a) != len(b.a):
            return FALSE
        return and_(*[eqt(x, y) for x, y in zip(a.a, b.a)])
    et = expand_eq(a, b)
    if et is not None:
        return et
    return mk("eq", *sorted((a, b)), sort="b")


RECORDS = {}          # type name -> [(field, sort, range, type name)]
TYPE_OF = {}          # term -> record type name


def set_type(t, name):
    if name in RECORDS and t.op != "rec":
        TYPE_OF[t] = name
    return t


def type_of(t):
    if t.op == "rec":
        return t.a[0]
    if t in TYPE_OF:
        return TYPE_OF[t]
    if t.op == "ite":
        return type_of(t.a[1]) or type_of(t.a[2])
    return None


VALUE_RECORDS = set()  # record types whose equality is fieldwise


def expand_eq(a, b):
    ty = type_of(a) or type_of(b)
    if ty in VALUE_RECORDS:
        return and_(*[eqt(fld(a, f, s), fld(b, f, s)) for f, s, r, tn in RECORDS[ty]])
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.sort == "b" and b.sort == "b":
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort == "b" and b.sort in "ir":
        a = b2i(a)
    if b.sort == "b" and a.sort in "ir":
        b = b2i(b)
    # boolean-valued integers
    if a.op == "c" and b.op == "c" and a.sort == "i" and b.sort == "i":
        if a.a[0] == 1 and b.a[0] == 0:
            return b2i(c)
        if a.a[0] == 0 and b.a[0] == 1:
            return b2i(not_(c))
    sort = a.sort
    if a.sort != b.sort and {a.sort, b.sort} == {"i", "r"}:
        a, b = i2r(a), i2r(b)
        sort = "r"
    if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0]:
        db = dict(b.a[1])
        return rec(a.a[0], [(f, ite(c, v, db.get(f, opaque("field")))) for f, v in a.a[1]])
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if b.op == "ite" and b.a[2] is a:
        return ite(and_(not_(c), b.a[0]), b.a[1], a)
    if a.op == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if a.op == "ite" and a.a[1] is b:
        return ite(and_(c, not_(a.a[0])), a.a[2], b)
    # min / max shapes
    if sort in "ir":
        for m in _as_minmax(c, a, b):
            return m
    # canonical polarity
    n = not_(c)
    if n.op in ("and", "or", "ge0", "eq0", "eq") and c.op in ("and", "or", "ge0", "not") and n.id < c.id and n.op != "not":
        return mk("ite", n, b, a, sort=sort)
    return mk("ite", c, a, b, sort=sort)


def _as_minmax(c, a, b):
    d = sub(a, b)
    if is_opaque(d):
        return
    # c : a >= b  (or a > b)  -> max ; c : b >= a -> min
    if c in (ge(a, b), lt(b, a)):
        yield maxt(a, b)
    elif c in (ge(b, a), lt(a, b)):
        yield mint(a, b)


def mint(*xs):
    return _mm("min", xs)


def maxt(*xs):
    return _mm("max", xs)


def _mm(op, xs):
    s = "r" if any(x.sort == "r" for x in xs) else "i"
    out = set()
    for x in xs:
        x = i2r(x) if s == "r" else num(x)
        if x.op == op:
            out |= set(x.a)
        else:
            out.add(x)
    if len(out) == 2:
        a, b = sorted(out)
        g = None
        d = sub(a, b)
        l, h = rng(d)
        if l is not None and l >= 0:
            g = True
        elif h is not None and h <= 0:
            g = False
        if g is not None:
            return (b if g else a) if op == "min" else (a if g else b)
    if len(out) == 1:
        return out.pop()
    return mk(op, *sorted(out), sort=s)


def abst(x):
    x = num(x)
    if x.op == "c":
        return const(abs(x.a[0]), x.sort)
    l, h = rng(x)
    if l is not None and l >= 0:
        return x
    if h is not None and h <= 0:
        return neg(x)
    n = neg(x)
    return mk("abs", min(x, n, key=lambda t: t.id), sort=x.sort)


# ------------------------------------------------------------------ records, sequences, maps, optionals
def rec(name, fields):
    fields = tuple(fields)
    # eta: all fields are projections of one base
    if fields and name in RECORDS and len(fields) == len(RECORDS[name]):
        base = None
        for f, v in fields:
            if v.op == "fld" and v.a[1] == f and (base is None or base is v.a[0]):
                base = v.a[0]
            else:
                base = False
                break
        if base and type_of(base) == name:
            return base
    return mk("rec", name, fields)


def fld(t, f, sort="o"):
    if t.op == "rec":
        for g, v in t.a[1]:
            if g == f:
                return v
        return opaque("field " + f, sort)
    if t.op == "ite":
        return ite(t.a[0], fld(t.a[1], f, sort), fld(t.a[2], f, sort))
    if t.op == "opaque":
        return mk("opaque", "field", t.a[1], t, f, sort=sort)
    r = mk("fld", t, f, sort=sort)
    ty = type_of(t)
    if ty in RECORDS:
        for g, s, rg, tn in RECORDS[ty]:
            if g == f:
                if r.sort != s:
                    r = mk("fld", t, f, sort=s)
                if rg is not None:
                    SYM_RANGE[r] = rg
                if tn:
                    set_type(r, tn)
    return r


def with_fld(t, f, v):
    if t.op == "rec":
        done = False
        out = []
        for g, w in t.a[1]:
            if g == f:
                out.append((g, v))
                done = True
            else:
                out.append((g, w))
        if not done:
            out.append((f, v))
        return rec(t.a[0], out)
    ty = type_of(t)
    if ty in RECORDS:
        return rec(ty, [(g, v if g == f else fld(t, g, s)) for g, s, r, tn in RECORDS[ty]])
    return mk("with", t, f, v)


def lst(*xs):
    return mk("list", *xs)


EMPTY = mk("list")


def ln(s):
    op = s.op
    if op == "list":
        return const(len(s.a))
    if op == "cat":
        r = const(0)
        for x in s.a:
            r = add(r, ln(x))
        return r
    if op == "comp":
        if s.a[2] is TRUE:
            return s.a[1]
        return sumt(s.a[0], s.a[1], b2i(s.a[2]))
    if op == "catmap":
        return sumt(s.a[0], s.a[1], ln(s.a[2]))
    if op == "upd":
        return ln(s.a[0])
    if op == "afold":
        return ln(s.a[5])
    if op == "sub":
        return sub(s.a[2], s.a[1])
    if op in ("sorted", "rev", "perm"):
        return ln(s.a[0])
    if op == "ite":
        return ite(s.a[0], ln(s.a[1]), ln(s.a[2]))
    if op == "str":
        return const(len(s.a[0]))
    if op == "opaque":
        return mk("opaque", "len", s.a[1], s, sort="i")
    r = mk("len", s, sort="i")
    return r


ELEM_TYPE = {}        # sequence term -> (sort, record type name) of its elements


def seq_type(s, sort, tn=None, rg=None):
    ELEM_TYPE[s] = (sort, tn, rg)
    return s


def elem_type(s):
    if s in ELEM_TYPE:
        return ELEM_TYPE[s]
    if s.op in ("upd", "sorted", "rev", "perm", "tail", "sub"):
        return elem_type(s.a[0])
    if s.op == "ite":
        return elem_type(s.a[1]) or elem_type(s.a[2])
    return None


def at(s, i, sort="o"):
    op = s.op
    i = num(i)
    if op == "list":
        if i.op == "c" and 0 <= i.a[0] < len(s.a):
            return s.a[i.a[0]]
        if len(s.a) and all(x is s.a[0] for x in s.a):
            return s.a[0]
    if op == "comp" and s.a[2] is TRUE:
        return subst(s.a[3], {s.a[0]: i})
    if op == "ite":
        return ite(s.a[0], at(s.a[1], i, sort), at(s.a[2], i, sort))
    if op == "upd":
        c = eqt(s.a[1], i)
        if c is TRUE:
            return s.a[2]
        rest = at(s.a[0], i, sort)
        return ite(c, s.a[2], rest)
    if op == "cat":
        off = const(0)
        for k, x in enumerate(s.a):
            n = ln(x)
            d = sub(i, off)
            inb = lt(d, n)
            lo = ge0(d)
            if inb is not TRUE and below(d, n):
                inb = lo = TRUE
            if lo is TRUE and inb is not TRUE and x.op == "catmap" and x.a[0] not in free(ln(x.a[2])):
                dm = divmod_(d, ln(x.a[2]))
                if dm is not None and below(dm[0], x.a[1]):
                    inb = TRUE
            if lo is TRUE and inb is TRUE:
                return at(x, d, sort)
            if lo is TRUE and inb is not FALSE and k == len(s.a) - 1:
                return at(x, d, sort)
            if inb is FALSE:
                off = add(off, n)
                continue
            break
    if op == "sub":
        return at(s.a[0], add(s.a[1], i), sort)
    if op == "afold":
        v, cnt, g, idx, val, init = s.a
        c = sub(idx, v)
        if v not in free(c):
            j = sub(i, c)          # the iteration that writes slot i
            inr = and_(ge0(j), lt(j, cnt), subst(g, {v: j}))
            return ite(inr, subst(val, {v: j}), at(init, i, sort))
        hit = and_(g, eqt(idx, i))
        e = bind("exists", v, cnt, hit)
        if e is FALSE:
            return at(init, i, sort)
    if op == "catmap":
        rw = ln(s.a[2])
        if s.a[0] not in free(rw):
            dm = divmod_(i, rw)
            if dm is not None:
                return at(subst(s.a[2], {s.a[0]: dm[0]}), dm[1], sort)
    if op == "rev":
        return at(s.a[0], sub(sub(ln(s.a[0]), const(1)), i), sort)
    if op == "opaque":
        return mk("opaque", "at", s.a[1], s, i, sort=sort)
    et = elem_type(s)
    if et:
        sort = et[0]
    r = mk("at", s, i, sort=sort)
    if et:
        if et[1]:
            set_type(r, et[1])
        if et[2]:
            SYM_RANGE[r] = et[2]
    return r


def divmod_(i, n):
    """(q, r) with i = q*n + r and 0 <= r < n, when visible from the form of i and the recorded bounds"""
    if n.op == "c" and n.a[0] == 1:
        return i, const(0)
    p = to_poly(i)
    for m, c in list(p.items()) + [(None, 0)]:
        if m is None:
            r = const(0)
        elif c == 1 and len(m) == 1 and m[0][1] == 1 and below(m[0][0], n):
            r = m[0][0]
        elif m == () and below(const(c), n):
            r = const(c)
        else:
            continue
        q = _pdiv(to_poly(sub(i, r)), to_poly(n))
        if q is not None:
            return from_poly(q, "i"), r
    return None


def _pdiv(p, d):
    """exact polynomial quotient, or None"""
    p = {m: c for m, c in p.items() if c}
    d = {m: c for m, c in d.items() if c}
    if not d:
        return None
    key = lambda m: (sum(e for _, e in m), tuple((a.id, e) for a, e in m))
    ld = max(d, key=key)
    q = {}
    for _ in range(64):
        if not p:
            return q
        lp = max(p, key=key)
        f = dict(lp)
        for a, e in ld:
            if f.get(a, 0) < e:
                return None
            f[a] -= e
        if p[lp] % d[ld]:
            return None
        m = tuple(sorted(((a, e) for a, e in f.items() if e), key=lambda x: x[0].id))
        c = p[lp] // d[ld]
        q[m] = q.get(m, 0) + c
        for dm, dc in d.items():
            mm = dict(m)
            for a, e in dm:
                mm[a] = mm.get(a, 0) + e
            mm = tuple(sorted(mm.items(), key=lambda x: x[0].id))
            p[mm] = p.get(mm, 0) - c * dc
            if p[mm] == 0:
                del p[mm]
    return None


def rev(s):
    if s.op == "rev":
        return s.a[0]
    if s.op == "list":
        return lst(*reversed(s.a))
    if s.op == "ite":
        return ite(s.a[0], rev(s.a[1]), rev(s.a[2]))
    if s.op == "cat":
        return cat(*[rev(x) for x in reversed(s.a)])
    return mk("rev", s)


def sub_seq(s, a, b):
    """s[a:b)"""
    a, b = num(a), num(b)
    if eqt(a, b) is TRUE:
        return EMPTY
    if a is const(0) and eqt(b, ln(s)) is TRUE:
        return s
    if s.op == "list" and a.op == "c" and b.op == "c" and 0 <= a.a[0] <= b.a[0] <= len(s.a):
        return lst(*s.a[a.a[0]:b.a[0]])
    if s.op == "ite":
        return ite(s.a[0], sub_seq(s.a[1], a, b), sub_seq(s.a[2], a, b))
    if s.op == "sub":
        return sub_seq(s.a[0], add(s.a[1], a), add(s.a[1], b))
    if s.op == "comp" and s.a[2] is TRUE:
        v = fresh("bv", "i", (0, 1 << 40))
        return comp(v, sub(b, a), TRUE, subst(s.a[3], {s.a[0]: add(v, a)}))
    if s.op == "cat":
        # boundaries that coincide with part boundaries
        offs = [const(0)]
        for x in s.a:
            offs.append(add(offs[-1], ln(x)))
        ia = [k for k, o in enumerate(offs) if eqt(o, a) is TRUE]
        ib = [k for k, o in enumerate(offs) if eqt(o, b) is TRUE]
        if ia and ib:
            return cat(*s.a[ia[0]:ib[-1]])
        if ia and ia[0] == 0 and s.a[-1].op == "list":
            # drop trailing elements of a list part
            d = sub(offs[-1], b)
            if d.op == "c" and 0 < d.a[0] <= len(s.a[-1].a):
                return cat(*s.a[:-1], lst(*s.a[-1].a[:len(s.a[-1].a) - d.a[0]]))
        if ib and ib[-1] == len(s.a) and s.a[0].op == "list" and a.op == "c" and 0 < a.a[0] <= len(s.a[0].a):
            return cat(lst(*s.a[0].a[a.a[0]:]), *s.a[1:])
    r = mk("sub", s, a, b)
    return r


def afold(v, cnt, guard, idx, val, init):
    """init with slots idx(j) := val(j) for j in [0, cnt) where guard(j), in order"""
    if cnt.op == "c" and cnt.a[0] <= 8:
        r = init
        for k in range(max(0, cnt.a[0])):
            sb = {v: const(k)}
            r = ite(subst(guard, sb), upd(r, subst(idx, sb), subst(val, sb)), r)
        return r
    if guard is FALSE:
        return init
    if guard is TRUE and idx is v and eqt(ln(init), cnt) is TRUE:
        return comp(v, cnt, TRUE, val)
    r = bind("afold", v, cnt, guard, idx, val, init)
    et = elem_type(init)
    if et:
        ELEM_TYPE[r] = et
    return r


def mdel(m, k):
    if m.op == "mempty":
        return m
    if m.op == "mput":
        c = eqt(m.a[1], k)
        if c is TRUE:
            return mdel(m.a[0], k)
        if c is FALSE:
            return mput(mdel(m.a[0], k), m.a[1], m.a[2])
    return mk("mdel", m, k)


def upd(s, i, v):
    i = num(i)
    if s.op == "list" and i.op == "c" and 0 <= i.a[0] < len(s.a):
        xs = list(s.a)
        xs[i.a[0]] = v
        return lst(*xs)
    if s.op == "upd" and s.a[1] is i:
        s = s.a[0]
    r = mk("upd", s, i, v)
    return r


def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            out += list(x.a)
        elif x.op == "list" and not x.a:
            continue
        else:
            out.append(x)
    i = 0
    while i + 1 < len(out):
        if out[i].op == "list" and out[i + 1].op == "list":
            out[i:i + 2] = [lst(*(out[i].a + out[i + 1].a))]
        else:
            i += 1
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def _level(t):
    m = 0
    for x in walk(t):
        if x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith("%"):
            m = max(m, int(x.a[0][1:]) + 1)
        if x.op in BINDERS:
            b = x.a[0]
            if b.op == "sym" and b.a[0].startswith("%"):
                m = max(m, int(b.a[0][1:]) + 1)
    return m


def bvar(n):
    return sym("%%%d" % n, "i", (0, 1 << 40))


def bind(op, var, count, *bodies):
    """binder with canonical bound variable; var ranges over [0, count)"""
    if not var.a[0].startswith("%") or True:
        lv = max([_level(b) for b in bodies if isinstance(b, T)] + [0])
        cur = int(var.a[0][1:]) if isinstance(var.a[0], str) and var.a[0].startswith("%") else None
        # the level must exceed those of inner binders only
        inner = [x for b in bodies if isinstance(b, T) for x in [_innerlevel(b, var)]]
        lv = max(inner + [0])
        nv = bvar(lv)
        if nv is not var:
            bodies = tuple(subst(b, {var: nv}) if isinstance(b, T) else b for b in bodies)
            var = nv
    sort = {"sum": "i", "forall": "b", "exists": "b", "first": "i"}.get(op, "o")
    if op == "sum":
        sort = bodies[0].sort
    if op == "fold":
        sort = bodies[2].sort
    if op in ("forall", "exists"):
        body = bodies[0]
        if body is TRUE:
            return TRUE if op == "forall" else not_(eq0(count))
        if body is FALSE:
            return FALSE if op == "exists" else eq0(count)
        if count.op == "c" and count.a[0] <= 8:
            xs = [subst(body, {var: const(k)}) for k in range(max(0, count.a[0]))]
            return and_(*xs) if op == "forall" else or_(*xs)
    return mk(op, var, count, *bodies, sort=sort)


def _innerlevel(t, var):
    m = 0
    for x in walk(t):
        if x.op in BINDERS:
            b = x.a[0]
            if b.op == "sym" and b.a[0].startswith("%"):
                m = max(m, int(b.a[0][1:]) + 1)
        elif x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith("%") and x is not var:
            m = max(m, int(x.a[0][1:]) + 1)
    return m


def comp(var, count, guard, body):
    if guard is FALSE or (count.op == "c" and count.a[0] <= 0):
        return EMPTY
    if count.op == "c" and count.a[0] <= 4:
        parts = []
        for k in range(count.a[0]):
            g = subst(guard, {var: const(k)})
            e = subst(body, {var: const(k)})
            parts.append(ite(g, lst(e), EMPTY))
        return cat(*parts)
    # identity: [s[i] for i < len s] = s
    if guard is TRUE and body.op == "at" and body.a[1] is var and var not in free(body.a[0]) and ln(body.a[0]) is count:
        return body.a[0]
    return bind("comp", var, count, guard, body)


def catmap(var, count, body):
    if body.op == "list" and len(body.a) == 1:
        return comp(var, count, TRUE, body.a[0])
    if body is EMPTY:
        return EMPTY
    if body.op == "ite":
        a, b = body.a[1], body.a[2]
        if a.op == "list" and len(a.a) == 1 and b is EMPTY:
            return comp(var, count, body.a[0], a.a[0])
        if b.op == "list" and len(b.a) == 1 and a is EMPTY:
            return comp(var, count, not_(body.a[0]), b.a[0])
    if count.op == "c" and count.a[0] <= 4:
        return cat(*[subst(body, {var: const(k)}) for k in range(max(0, count.a[0]))])
    return bind("catmap", var, count, body)


def sumt(var, count, body):
    """sum of body for var in [0, count)"""
    body = num(body)
    if count.op == "c" and count.a[0] <= 0:
        return const(0, body.sort)
    if var not in free(body):
        return mul(body, count)
    if count.op == "c" and count.a[0] <= 16:
        r = const(0, body.sort)
        for k in range(count.a[0]):
            r = add(r, subst(body, {var: const(k)}))
        return r
    if body.op == "poly":
        r = const(0, body.sort)
        for m, c in body.a[0]:
            inv = [(a, e) for a, e in m if var not in free(a)]
            dep = [(a, e) for a, e in m if var in free(a)]
            k = from_poly({tuple(inv): c}, body.sort)
            if not dep:
                r = add(r, mul(k, count))
            else:
                d = from_poly({tuple(dep): 1}, body.sort)
                if d is var:     # sum of i
                    s = mk_tri(count)
                else:
                    s = bind("sum", var, count, d)
                r = add(r, mul(k, s))
        return r
    if body is var:
        return mk_tri(count)
    return bind("sum", var, count, body)


def mk_tri(n):
    return idiv(mul(n, sub(n, const(1))), const(2))


def mempty():
    return mk("mempty")


def mput(m, k, v):
    return mk("mput", _unput(m, k), k, v)


def _unput(m, k):
    """m without the entry for k, where that is visible"""
    if m.op in ("mput", "mdel") and eqt(m.a[1], k) is TRUE:
        return _unput(m.a[0], k)
    if m.op == "ite":
        a, b = _unput(m.a[1], k), _unput(m.a[2], k)
        return a if a is b else ite(m.a[0], a, b)
    return m


def mhas(m, k):
    if m.op == "mempty":
        return FALSE
    if m.op == "mput":
        return or_(eqt(m.a[1], k), mhas(m.a[0], k))
    if m.op == "mdel":
        return and_(not_(eqt(m.a[1], k)), mhas(m.a[0], k))
    if m.op == "ite":
        return ite(m.a[0], mhas(m.a[1], k), mhas(m.a[2], k))
    if m.op == "opaque":
        return mk("opaque", "has", m.a[1], m, k, sort="b")
    if m.op == "mfold":
        v, cnt, g, key, val, init = m.a
        return or_(mhas(init, k), bind("exists", v, cnt, and_(g, eqt(key, k))))
    return mk("mhas", m, k, sort="b")


def mget(m, k, sort="o"):
    if m.op == "mput":
        c = eqt(m.a[1], k)
        if c is TRUE:
            return m.a[2]
        return ite(c, m.a[2], mget(m.a[0], k, sort))
    if m.op == "mdel":
        c = eqt(m.a[1], k)
        if c is FALSE:
            return mget(m.a[0], k, sort)
    if m.op == "ite":
        return ite(m.a[0], mget(m.a[1], k, sort), mget(m.a[2], k, sort))
    if m.op == "opaque":
        return mk("opaque", "get", m.a[1], m, k, sort=sort)
    et = elem_type(m)
    if et:
        sort = et[0]
    r = mk("mget", m, k, sort=sort)
    if et:
        if et[1]:
            set_type(r, et[1])
        if et[2]:
            SYM_RANGE[r] = et[2]
    return r


def some(v):
    return mk("some", v)


NONE = mk("none")


def has_value(o):
    if o.op == "some":
        return TRUE
    if o.op == "none":
        return FALSE
    if o.op == "ite":
        return ite(o.a[0], has_value(o.a[1]), has_value(o.a[2]))
    return mk("hasv", o, sort="b")


def opt_value(o, sort="o"):
    if o.op == "some":
        return o.a[0]
    if o.op == "ite":
        if o.a[1].op == "none":
            return opt_value(o.a[2], sort)
        if o.a[2].op == "none":
            return opt_value(o.a[1], sort)
        return ite(o.a[0], opt_value(o.a[1], sort), opt_value(o.a[2], sort))
    et = elem_type(o)
    r = mk("val", o, sort=et[0] if et else sort)
    if et and et[1]:
        set_type(r, et[1])
    return r


def app(name, *args, sort="o"):
    return mk("app", name, *args, sort=sort)


# ------------------------------------------------------------------ substitution
def subst(t, s, memo=None):
    if not s or not (free(t) & s.keys()):
        return t
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "sym":
        r = s.get(t, t)
    elif op in BINDERS:
        v = t.a[0]
        s2 = {k: x for k, x in s.items() if k is not v}
        if any(v in free(x) for x in s2.values()):
            nv = fresh("bv", "i", (0, 1 << 40))
            args = [subst(x, {v: nv}) if isinstance(x, T) else x for x in t.a[1:]]
            v = nv
        else:
            args = list(t.a[1:])
        args = [subst(x, s2) if isinstance(x, T) else x for x in args]
        r = rebuild(op, [v] + args, t)
    else:
        def go(x):
            if isinstance(x, T):
                return subst(x, s, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = rebuild(op, [go(x) for x in t.a], t)
    memo[t] = r
    return r


def rebuild(op, a, t):
    if op == "poly":
        r = const(0, t.sort)
        for m, c in a[0]:
            x = const(c, t.sort)
            for at_, e in m:
                for _ in range(e):
                    x = mul(x, at_)
            r = add(r, x)
        return r
    f = _REB.get(op)
    if f:
        return f(a, t)
    r = mk(op, *a, sort=t.sort)
    if t in TYPE_OF and r not in TYPE_OF:
        TYPE_OF[r] = TYPE_OF[t]
    if t in ELEM_TYPE and r not in ELEM_TYPE:
        ELEM_TYPE[r] = ELEM_TYPE[t]
    if t in SYM_RANGE and r not in SYM_RANGE:
        SYM_RANGE[r] = SYM_RANGE[t]
    return r


_REB = {
    "idiv": lambda a, t: idiv(*a), "irem": lambda a, t: irem(*a), "bits": lambda a, t: bits(*a),
    "trunc": lambda a, t: trunc(*a), "bor": lambda a, t: _fold(bor, a), "band": lambda a, t: _fold(band, a),
    "bxor": lambda a, t: _fold(bxor, a), "pow2": lambda a, t: pow2(*a), "shr": lambda a, t: shr(*a),
    "b2i": lambda a, t: b2i(*a), "eq0": lambda a, t: eq0(*a), "ge0": lambda a, t: ge0(*a), "not": lambda a, t: not_(*a),
    "and": lambda a, t: and_(*a), "or": lambda a, t: or_(*a), "eq": lambda a, t: eqt(*a), "ite": lambda a, t: ite(*a),
    "min": lambda a, t: mint(*a), "max": lambda a, t: maxt(*a), "abs": lambda a, t: abst(*a),
    "rec": lambda a, t: rec(a[0], a[1]), "fld": lambda a, t: _keep(fld(a[0], a[1], t.sort), t), "with": lambda a, t: with_fld(*a),
    "list": lambda a, t: lst(*a), "len": lambda a, t: ln(*a), "at": lambda a, t: _keep(at(a[0], a[1], t.sort), t),
    "upd": lambda a, t: upd(*a), "cat": lambda a, t: cat(*a), "comp": lambda a, t: comp(*a),
    "catmap": lambda a, t: catmap(*a), "sum": lambda a, t: sumt(*a),
    "forall": lambda a, t: bind("forall", *a), "exists": lambda a, t: bind("exists", *a),
    "first": lambda a, t: bind("first", *a), "fold": lambda a, t: bind("fold", *a), "mfold": lambda a, t: bind("mfold", *a),
    "afold": lambda a, t: afold(*a), "rev": lambda a, t: rev(*a), "sub": lambda a, t: _keep(sub_seq(*a), t), "mdel": lambda a, t: mdel(*a),
    "mput": lambda a, t: mput(*a), "mhas": lambda a, t: mhas(*a), "mget": lambda a, t: _keep(mget(a[0], a[1], t.sort), t),
    "keys": lambda a, t: _keep(keys(*a), t), "hasv": lambda a, t: has_value(*a), "val": lambda a, t: _keep(opt_value(a[0], t.sort), t),
}


def _keep(r, t):
    if r.op == t.op:
        if t in TYPE_OF and r not in TYPE_OF:
            TYPE_OF[r] = TYPE_OF[t]
        if t in ELEM_TYPE and r not in ELEM_TYPE:
            ELEM_TYPE[r] = ELEM_TYPE[t]
        if t in SYM_RANGE and r not in SYM_RANGE:
            SYM_RANGE[r] = SYM_RANGE[t]
    return r


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return "..."
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == "c":
        return str(t.a[0])
    if op == "sym":
        return str(t.a[0])
    if op == "str":
        return repr(t.a[0])
    if op == "poly":
        out = []
        for m, c in t.a[0]:
            ms = "*".join(s(a) + ("^%d" % e if e > 1 else "") for a, e in m)
            out.append((str(c) if not ms else ms if c == 1 else "-" + ms if c == -1 else "%s*%s" % (c, ms)))
        return "(" + " + ".join(out) + ")"
    if op == "fld":
        return "%s.%s" % (s(t.a[0]), t.a[1])
    if op == "at":
        return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if op == "len":
        return "|%s|" % s(t.a[0])
    if op == "eq0":
        return "(%s == 0)" % s(t.a[0])
    if op == "ge0":
        return "(%s >= 0)" % s(t.a[0])
    if op == "not":
        return "!%s" % s(t.a[0])
    if op in ("and", "or"):
        return "(" + (" && " if op == "and" else " || ").join(s(x) for x in t.a) + ")"
    if op == "eq":
        return "(%s == %s)" % (s(t.a[0]), s(t.a[1]))
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in t.a)
    if op == "rec":
        return "%s{%s}" % (t.a[0], ", ".join("%s=%s" % (f, s(v)) for f, v in t.a[1]))
    if op == "list":
        return "[" + ", ".join(s(x) for x in t.a) + "]"
    if op == "comp":
        return "[%s | %s<%s%s]" % (s(t.a[3]), s(t.a[0]), s(t.a[1]), "" if t.a[2] is TRUE else ", " + s(t.a[2]))
    if op == "sum":
        return "Sum{%s<%s}(%s)" % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if op == "app":
        return "%s(%s)" % (t.a[0], ", ".join(s(x) for x in t.a[1:]))
    if op in ("true", "false", "null", "none", "mempty", "mend"):
        return op
    if op == "opaque":
        return "<?%s>" % t.a[0]
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.a))


KEY_ORDER = None        # set to +1 or -1: maps with given entries are enumerated in (reverse) order of insertion
FOLD_SORTS = False      # sort lists of given elements when every comparison is decided


def given_keys(m):
    """the keys of a map made of given entries in order of insertion, or None"""
    ks, gone, y = [], [], m
    while y.op in ("mput", "mdel"):
        k = y.a[1]
        for z in ks + gone:
            e = eqt(z, k)
            if e is TRUE:
                break
            if e is not FALSE:
                return None
        else:
            (gone if y.op == "mdel" else ks).append(k)
        y = y.a[0]
    return ks[::-1] if y.op == "mempty" else None


def keys(m):
    """the keys of a map, in its iteration order"""
    if m.op == "mempty":
        return EMPTY
    if KEY_ORDER is not None:
        ks = given_keys(m)
        if ks is not None:
            return lst(*ks[::KEY_ORDER]) if ks else EMPTY
    return mk("keys", m)


def alpha_eq(a, b, m=None):
    """equality up to the names of bound variables"""
    m = m or {}
    if a is b and not (m and isinstance(a, T) and free(a) & m.keys()):
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(alpha_eq(x, y, m) for x, y in zip(a, b))
        return not isinstance(a, T) and not isinstance(b, T) and a == b
    if a in m:
        return m[a] is b
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    if a.op in BINDERS:
        if not alpha_eq(a.a[1], b.a[1], m):
            return False
        m2 = dict(m)
        m2[a.a[0]] = b.a[0]
        if a.op == "fold":
            m2[a.a[2]] = b.a[2]
        return all(alpha_eq(x, y, m2) for x, y in zip(a.a[2:], b.a[2:]))
    if a.op == "poly":
        rest = list(b.a[0])
        if len(a.a[0]) != len(rest):
            return False
        for mono, k in a.a[0]:
            hit = None
            for cand in rest:
                if cand[1] == k and len(cand[0]) == len(mono) and _alpha_multi(list(mono), list(cand[0]), m):
                    hit = cand
                    break
            if hit is None:
                return False
            rest.remove(hit)
        return True
    if a.op in ("and", "or", "band", "bor", "bxor", "min", "max"):
        return _alpha_multi(list(a.a), list(b.a), m)
    return all(alpha_eq(x, y, m) for x, y in zip(a.a, b.a))


def _alpha_multi(xs, ys, m):
    if len(xs) != len(ys):
        return False
    ys = list(ys)
    for x in xs:
        for y in ys:
            if alpha_eq(x, y, m):
                ys.remove(y)
                break
        else:
            return False
    return True
