"""Random interpretation of value terms (Gulwani & Necula, "Global value numbering using random
interpretation", POPL 2004): two summaries whose normal forms differ are compared under random
assignments to their uninterpreted atoms.  Only a difference found that way is reported; nothing of
/repo is run, the assignments are to the terms the analysis computed.
"""
import os
import random
import struct
import math
from fractions import Fraction

from . import terms as tm
from .terms import T, TRUE, FALSE

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def half_even(x):
    f = math.floor(x)
    d = x - f
    return f if d < Fraction(1, 2) or (d == Fraction(1, 2) and f % 2 == 0) else f + 1


ROUND = {"floor": math.floor, "ceil": math.ceil, "trunc": int, "nearbyint": half_even, "rint": half_even,
         "round": lambda x: (1 if x >= 0 else -1) * math.floor(abs(x) + Fraction(1, 2)),
         "f32": lambda x: Fraction(struct.unpack("f", struct.pack("f", x))[0])}


def angle(y, x):
    """arc tangent; the same value for every vector of the same direction"""
    k = math.lcm(y.denominator, x.denominator)
    y, x = int(y * k), int(x * k)
    d = math.gcd(y, x) or 1
    return Fraction(math.atan2(y // d, x // d))


TINY = Fraction(1, 1 << 150)


def close(a, b):
    """equal up to the precision of approximated roots"""
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool):
        return abs(a - b) <= TINY * max(1, abs(a))
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(x == y or close(x, y) for x, y in zip(a, b))


class Unknown(Exception):
    pass


SMALL = (0, 1, 2, -1, 3, 5, -2, 7)


class Universe:
    """one assignment to every uninterpreted symbol and function (a pseudo-random congruence)"""

    def __init__(self, seed, mode=0, hints=()):
        self.hints = hints
        self.seed = seed
        self.rnd = random.Random(seed)
        self.memo = {}
        self.mode = mode

    def prf(self, key, sort, rg):
        k = (key, sort)
        if k in self.memo:
            return self.memo[k]
        r = self.rnd
        if sort == "b":
            v = r.random() < 0.5
        elif sort in ("i", "r"):
            lo, hi = rg if rg else (None, None)
            m = r.random()
            if self.mode == 2 and m < 0.6:
                # around the constants of the compared terms
                v = r.choice(self.hints) + r.choice((0, 0, 1, -1))
                if m < 0.2:
                    v += r.choice((-3, -2, -1, 1, 2, 3)) * r.choice(self.hints)
            elif self.mode != 1 or m < 0.5:
                v = r.choice(SMALL)
            elif m < 0.8:
                v = r.choice([x for x in (lo, hi) if x is not None] or [0]) + r.choice((0, 0, 1, -1, 2, -2))
            else:
                a = lo if lo is not None else -(1 << 31)
                b = hi if hi is not None else 1 << 31
                v = r.randint(int(a), int(b))
            if lo is not None:
                v = max(v, lo)
            if hi is not None:
                v = min(v, hi)
            v = int(v)
            if sort == "r" and r.random() < 0.3:
                v = Fraction(v) + Fraction(1, 2)
        else:
            v = ("o", r.randrange(3) if r.random() < 0.8 else r.randrange(10))
        self.memo[k] = v
        return v

    def length(self, key):
        k = ("len", key)
        if k not in self.memo:
            self.memo[k] = self.rnd.randrange(4 if self.mode == 0 else 6)
        return self.memo[k]


def norm(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


class Interp:
    def __init__(self, U, limit=200000):
        self.U = U
        self.steps = 0
        self.limit = limit
        self.memo = {}
        self.missing = False
        self.approx = False

    def ev(self, t, B=None):
        if not B:
            r = self.memo.get(t)
            if r is None:
                r = norm(self._ev(t, {}))
                self.memo[t] = r
            return r
        if not (tm.free(t) & B.keys()):
            return self.ev(t)
        return norm(self._ev(t, B))

    def _ev(self, t, B):
        self.steps += 1
        if self.steps > self.limit:
            raise Unknown("budget")
        f = getattr(self, "o_" + t.op, None)
        if f:
            return f(t, B)
        if t.op in ("at", "mget", "val", "deref", "fld", "hasv", "mhas", "perm", "iter", "keys", "first_key", "opaque", "closure", "lvh", "ptr",
                    "refto", "box", "fn", "lock"):
            if t.op == "opaque":
                raise Unknown("opaque")
            return self.uf(t, B)
        raise Unknown("op " + t.op)

    def arg(self, x, B):
        if isinstance(x, T):
            return self.ev(x, B)
        if isinstance(x, tuple):
            return tuple(self.arg(y, B) for y in x)
        return x

    def uf(self, t, B):
        key = (t.op,) + tuple(self.arg(x, B) for x in t.a)
        return self.U.prf(key, t.sort, tm.SYM_RANGE.get(t))

    # -------------------------------------------------------------- leaves
    def o_true(self, t, B):
        return True

    def o_false(self, t, B):
        return False

    def o_c(self, t, B):
        return t.a[0]

    def o_str(self, t, B):
        return ("str", t.a[0])

    def o_null(self, t, B):
        return ("null",)

    def o_unit(self, t, B):
        return ("unit",)

    def o_none(self, t, B):
        return ("none",)

    def o_some(self, t, B):
        return ("some", self.ev(t.a[0], B))

    def o_sym(self, t, B):
        if t in B:
            return B[t]
        if isinstance(t.a[0], str) and t.a[0].startswith("%"):
            raise Unknown("unbound variable")
        return self.U.prf(("sym", t.a[0]), t.sort, tm.SYM_RANGE.get(t))

    def o_app(self, t, B):
        if t.a[0] in ROUND and len(t.a) == 2:
            x = Fraction(self.n(t.a[1], B))
            if self.approx and any(abs(x * 2 - k) < TINY for k in (round(x * 2),)) and x.denominator > 2:
                raise Unknown("rounding of an approximated number")
            return ROUND[t.a[0]](x)
        if t.a[0] == "atan2" and len(t.a) == 3:
            return angle(Fraction(self.n(t.a[1], B)), Fraction(self.n(t.a[2], B)))
        return self.uf(t, B)

    # -------------------------------------------------------------- numbers
    def n(self, x, B):
        v = self.ev(x, B)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, Fraction)):
            raise Unknown("not a number")
        return v

    def o_poly(self, t, B):
        r = 0
        for m, c in t.a[0]:
            x = c
            for a, e in m:
                x = x * self.n(a, B) ** e
            r += x
        return r

    def o_b2i(self, t, B):
        return int(self.b(t.a[0], B))

    def o_idiv(self, t, B):
        a, b = self.n(t.a[0], B), self.n(t.a[1], B)
        if b == 0:
            raise Unknown("division by zero")
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q

    def o_irem(self, t, B):
        a, b = self.n(t.a[0], B), self.n(t.a[1], B)
        if b == 0:
            raise Unknown("division by zero")
        r = abs(a) % abs(b)
        return r if a >= 0 else -r

    def o_bits(self, t, B):
        x = self.n(t.a[0], B)
        return (x >> t.a[1]) & ((1 << t.a[2]) - 1)

    def o_trunc(self, t, B):
        w, sg = t.a[0], t.a[1]
        x = int(self.n(t.a[2], B)) & ((1 << w) - 1)
        return x - (1 << w) if sg and x >> (w - 1) else x

    def o_band(self, t, B):
        r = -1
        for x in t.a:
            r &= self.n(x, B)
        return r

    def o_bor(self, t, B):
        r = 0
        for x in t.a:
            r |= self.n(x, B)
        return r

    def o_bxor(self, t, B):
        r = 0
        for x in t.a:
            r ^= self.n(x, B)
        return r

    def o_pow2(self, t, B):
        k = self.n(t.a[0], B)
        if not 0 <= k < 128:
            raise Unknown("shift")
        return 1 << k

    def o_shr(self, t, B):
        k = self.n(t.a[1], B)
        if not 0 <= k < 128:
            raise Unknown("shift")
        return self.n(t.a[0], B) >> k

    o_sar = o_shr

    def o_min(self, t, B):
        return min(self.n(x, B) for x in t.a)

    def o_max(self, t, B):
        return max(self.n(x, B) for x in t.a)

    def o_abs(self, t, B):
        return abs(self.n(t.a[0], B))

    def o_inv(self, t, B):
        x = self.n(t.a[0], B)
        if x == 0:
            raise Unknown("division by zero")
        return Fraction(1) / x

    def o_f2i(self, t, B):
        x = self.n(t.a[-1], B)
        whole = t.a[-1].op == "app" and t.a[-1].a[0] in ROUND and t.a[-1].a[0] != "f32"
        if self.approx and not whole and abs(x - round(x)) < TINY:
            raise Unknown("rounding of an approximated number")
        return int(x)

    # -------------------------------------------------------------- logic
    def b(self, x, B):
        v = self.ev(x, B)
        if not isinstance(v, bool):
            raise Unknown("not a bool")
        return v

    def o_eq0(self, t, B):
        return self.zeroed(self.n(t.a[0], B)) == 0

    def o_ge0(self, t, B):
        return self.zeroed(self.n(t.a[0], B)) >= 0

    def zeroed(self, x):
        return 0 if self.approx and abs(x) < TINY else x

    def o_sqrt(self, t, B):
        x = Fraction(self.n(t.a[0], B))
        if x < 0:
            raise Unknown("root of a negative number")
        p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if p * p == x.numerator and q * q == x.denominator:
            return Fraction(p, q)
        self.approx = True
        return Fraction(math.isqrt(x.numerator * x.denominator << 400), x.denominator << 200)

    def o_not(self, t, B):
        return not self.b(t.a[0], B)

    def o_and(self, t, B):
        u = None
        for x in t.a:
            try:
                if not self.b(x, B):
                    return False
            except Unknown as e:
                u = e
        if u:
            raise u
        return True

    def o_or(self, t, B):
        u = None
        for x in t.a:
            try:
                if self.b(x, B):
                    return True
            except Unknown as e:
                u = e
        if u:
            raise u
        return False

    def o_eq(self, t, B):
        return self.equal(self.ev(t.a[0], B), self.ev(t.a[1], B), t.a[0], t.a[1])

    def equal(self, a, b, ta=None, tb=None):
        if self.opaque_obj(a) != self.opaque_obj(b):
            raise Unknown("structured against symbolic")
        return a == b or self.approx and close(a, b)

    def opaque_obj(self, v):
        return isinstance(v, tuple) and len(v) > 0 and v[0] == "o"

    def o_ite(self, t, B):
        return self.ev(t.a[1] if self.b(t.a[0], B) else t.a[2], B)

    # -------------------------------------------------------------- records / sequences
    def o_rec(self, t, B):
        return ("rec", t.a[0], tuple((f, self.ev(v, B)) for f, v in t.a[1]))

    def o_fld(self, t, B):
        v = self.ev(t.a[0], B)
        if isinstance(v, tuple) and v and v[0] == "rec":
            for f, x in v[2]:
                if f == t.a[1]:
                    return x
            raise Unknown("field")
        return self.U.prf(("fld", v, t.a[1]), t.sort, tm.SYM_RANGE.get(t))

    def o_list(self, t, B):
        return ("l",) + tuple(self.ev(x, B) for x in t.a)

    def is_list(self, v):
        return isinstance(v, tuple) and v and v[0] == "l"

    def seq(self, t, B):
        """sequence term -> python list"""
        v = self.ev(t, B)
        if self.is_list(v):
            return list(v[1:])
        if self.opaque_obj(v):
            et = tm.elem_type(t)
            if not et:
                raise Unknown("element type")
            return [self.U.prf(("at", v, k), et[0], et[2]) for k in range(self.U.length(v))]
        raise Unknown("not a sequence")

    def o_len(self, t, B):
        v = self.ev(t.a[0], B)
        if self.is_list(v):
            return len(v) - 1
        if isinstance(v, tuple) and v and v[0] == "m":
            raise Unknown("size of a map")
        return self.U.length(v)

    def o_at(self, t, B):
        v = self.ev(t.a[0], B)
        i = self.n(t.a[1], B)
        if self.is_list(v):
            if 0 <= i < len(v) - 1:
                return v[1 + i]
            return self.U.prf(("oob", v, i), t.sort, tm.SYM_RANGE.get(t))
        return self.U.prf(("at", v, i), t.sort, tm.SYM_RANGE.get(t))

    def o_cat(self, t, B):
        r = []
        for x in t.a:
            r += self.seq(x, B)
        return ("l",) + tuple(r)

    def o_sub(self, t, B):
        s = self.seq(t.a[0], B)
        a, b = self.n(t.a[1], B), self.n(t.a[2], B)
        if not 0 <= a <= b <= len(s):
            raise Unknown("slice bounds")
        return ("l",) + tuple(s[a:b])

    def o_rev(self, t, B):
        return ("l",) + tuple(reversed(self.seq(t.a[0], B)))

    def o_upd(self, t, B):
        s = self.seq(t.a[0], B)
        i = self.n(t.a[1], B)
        if not 0 <= i < len(s):
            raise Unknown("update out of range")
        s[i] = self.ev(t.a[2], B)
        return ("l",) + tuple(s)

    def count(self, t, B):
        n = self.n(t.a[1], B)
        if n > self.longest:
            raise Unknown("long loop")
        return max(0, int(n))

    longest = 64

    def search(self, t, B, want):
        """the first index at which the condition has the wanted value, or the bound"""
        n = max(0, int(self.n(t.a[1], B)))
        B = dict(B)
        for k in range(min(n, self.longest)):
            B[t.a[0]] = k
            if self.b(t.a[2], B) == want:
                return k, n
        if n > self.longest:
            raise Unknown("long loop")
        return n, n

    def o_comp(self, t, B):
        r = []
        for k in range(self.count(t, B)):
            B2 = dict(B)
            B2[t.a[0]] = k
            if t.a[2] is TRUE or self.b(t.a[2], B2):
                r.append(self.ev(t.a[3], B2))
        return ("l",) + tuple(r)

    def o_catmap(self, t, B):
        r = []
        for k in range(self.count(t, B)):
            B2 = dict(B)
            B2[t.a[0]] = k
            r += self.seq(t.a[2], B2)
        return ("l",) + tuple(r)

    def o_sum(self, t, B):
        r = 0
        for k in range(self.count(t, B)):
            B2 = dict(B)
            B2[t.a[0]] = k
            r += self.n(t.a[2], B2)
        return r

    def o_forall(self, t, B):
        k, n = self.search(t, B, False)
        return k == n

    def o_exists(self, t, B):
        k, n = self.search(t, B, True)
        return k < n

    def o_first(self, t, B):
        return self.search(t, B, True)[0]

    def o_afold(self, t, B):
        v, cnt, g, idx, val, init = t.a
        s = self.seq(init, B)
        for k in range(self.count(t, B)):
            B2 = dict(B) | {v: k}
            if self.b(g, B2):
                i = self.n(idx, B2)
                if not 0 <= i < len(s):
                    raise Unknown("update out of range")
                s[i] = self.ev(val, B2)
        return ("l",) + tuple(s)

    # -------------------------------------------------------------- optionals
    def o_hasv(self, t, B):
        v = self.ev(t.a[0], B)
        if v == ("none",):
            return False
        if isinstance(v, tuple) and v and v[0] == "some":
            return True
        return self.U.prf(("hasv", v), "b", None)

    def o_val(self, t, B):
        v = self.ev(t.a[0], B)
        if isinstance(v, tuple) and v and v[0] == "some":
            return v[1]
        if v == ("none",):
            raise Unknown("empty optional")
        return self.U.prf(("val", v), t.sort, tm.SYM_RANGE.get(t))

    # -------------------------------------------------------------- maps: (m, base, ((k, v|gone)...)) extensional on touched keys
    def o_mempty(self, t, B):
        return ("m", None, ())

    def mp(self, t, B):
        v = self.ev(t, B)
        if isinstance(v, tuple) and v and v[0] == "m":
            return v[1], dict(v[2])
        if self.opaque_obj(v):
            return v, {}
        raise Unknown("not a map")

    def mkm(self, base, d):
        d2 = {}
        for k, v in d.items():
            if base is None and v == ("gone",):
                continue
            d2[k] = v
        return ("m", base, tuple(sorted(d2.items(), key=repr)))

    def o_mput(self, t, B):
        b, d = self.mp(t.a[0], B)
        d[self.ev(t.a[1], B)] = ("in", self.ev(t.a[2], B))
        return self.mkm(b, d)

    def o_mdel(self, t, B):
        b, d = self.mp(t.a[0], B)
        d[self.ev(t.a[1], B)] = ("gone",)
        return self.mkm(b, d)

    def o_fold(self, t, B):
        v, cnt, acc, step, init = t.a
        x = self.ev(init, B)
        for k in range(self.count(t, B)):
            x = self.ev(step, dict(B) | {v: k, acc: x})
        return x

    def o_mfold(self, t, B):
        v, cnt, g, key, val, init = t.a
        b, d = self.mp(init, B)
        for k in range(self.count(t, B)):
            B2 = dict(B) | {v: k}
            if self.b(g, B2):
                d[self.ev(key, B2)] = ("in", self.ev(val, B2))
        return self.mkm(b, d)

    def o_keys(self, t, B):
        b, d = self.mp(t.a[0], B)
        if b is None:
            return ("l",) + tuple(sorted((k for k, v in d.items() if v[0] == "in"), key=repr))
        return self.uf(t, B)

    def o_mhas(self, t, B):
        b, d = self.mp(t.a[0], B)
        k = self.ev(t.a[1], B)
        if k in d:
            return d[k][0] == "in"
        if b is None:
            return False
        return self.U.prf(("mhas", b, k), "b", None)

    def o_mget(self, t, B):
        b, d = self.mp(t.a[0], B)
        k = self.ev(t.a[1], B)
        if k in d:
            if d[k][0] == "in":
                return d[k][1]
        if k in d or b is None:
            self.missing = True          # a value that no defined execution looks at
            return self.U.prf(("missing", t.a[0].op, k), t.sort, tm.SYM_RANGE.get(t))
        return self.U.prf(("mget", b, k), t.sort, tm.SYM_RANGE.get(t))


def vocab(t):
    """names of uninterpreted functions in a term"""
    return {x.a[0] for x in tm.walk(t) if x.op == "app"} | {x.op for x in tm.walk(t) if x.op in ("perm", "sorted", "keys", "first_key")}


def constants(*ts):
    """the integer constants of the terms beyond the small ones, with both signs"""
    cs = set()
    for t in ts:
        for x in tm.walk(t):
            for v in [x.a[0]] if x.op == "c" else [k for _, k in x.a[0]] if x.op == "poly" else ():
                if isinstance(v, (int, Fraction)) and not isinstance(v, bool) and 8 < abs(v) < 1 << 62 and v == int(v):
                    cs |= {int(v), -int(v)}
    return sorted(cs)[:24]


def same(a, b, assume=TRUE, n=300, need=12, known=None):
    """'yes' / 'no' / 'unknown', with a witness description for 'no'.

    known: vocabulary of the specification; an implementation that uses uninterpreted functions
    outside it is never judged different."""
    if a is b:
        return "yes", None
    if a is None or b is None:
        return "unknown", "no value"
    if tm.is_opaque(a) or tm.is_opaque(b):
        return "unknown", "uninterpreted construct"
    if a.sort == "b" and b.sort in ("i", "r"):
        a = tm.b2i(a)
    if b.sort == "b" and a.sort in ("i", "r"):
        b = tm.b2i(b)
    if tm.eqt(a, b) is TRUE or tm.alpha_eq(a, b):
        return "yes", None
    done, why, lost = 0, None, 0
    hints = constants(a, b, assume)
    modes = 3 if hints else 2
    for k in range(n if not hints else n + n // 2):
        U = Universe(SEED * 1000003 + k, mode=k % modes, hints=hints)
        I = Interp(U)
        try:
            if assume is not TRUE and not I.b(assume, {}):
                continue
            va, vb = I.ev(a), I.ev(b)
            eqv = I.equal(va, vb)
        except Unknown as e:
            why = str(e)
            lost += 1
            continue
        except RecursionError:
            return "unknown", "depth"
        if not eqv and I.missing:
            why = "missing key"
            lost += 1
            continue
        done += 1
        if not eqv:
            kn = known if known is not None else vocab(b)
            extra = vocab(a) - kn - set(ROUND)
            if extra:
                return "unknown", "uses %s" % sorted(extra)
            return "no", "differs under assignment %d: %s against %s" % (k, str(va)[:200], str(vb)[:200])
    if done >= need and lost <= done:
        return "yes", None
    return "unknown", why or "no assignment satisfied the assumption"


def valid(c, assume=TRUE, n=400, known=None):
    """is the condition always true? -> yes / no / unknown"""
    if c is TRUE:
        return "yes", None
    return same(c, TRUE, assume, n, known=vocab(c) if known is None else known)


def unsolved(*ts):
    """does a value the analysis has no closed form for occur?"""
    return any(x.op == "sym" and str(x.a[0]).startswith(("exit:", "phi:", "kexit", "trip", "exits", "throws#")) for t in ts if isinstance(t, tm.T) for x in tm.free(t))


def settled(a, b, v):
    """a difference that may be due to a loop without a closed form is no difference"""
    return ("unknown", "a loop without a closed form") if v[0] == "no" and unsolved(a, b) else v


def same_s(a, b, *r, **k):
    return settled(a, b, same(a, b, *r, **k))


def valid_s(c, assume=TRUE, *r, **k):
    return settled(c, assume, valid(c, assume, *r, **k))
