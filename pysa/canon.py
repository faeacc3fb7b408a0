"""Normal form of value-graph terms.

Laurent polynomials over the rationals whose atoms are normalised applications (sin, asin, frac, I(cond) ...).
Two terms with the same normal form are equal as real functions; the converse need not hold.
"""
from fractions import Fraction as F
import math
from . import nodes as N

_atoms = {}      # key -> index
_info = []       # index -> (kind, payload)
LIMIT = 600      # terms in a product before it is kept as an atom


def atom(kind, *payload):
    k = (kind,) + payload
    i = _atoms.get(k)
    if i is None:
        i = len(_info)
        _atoms[k] = i
        _info.append(k)
        if kind == "poly":
            _polys.add(i)
    return i


_polys = set()   # the atoms that stand for a polynomial kept in one piece


class Poly:
    __slots__ = ("t", "key")

    def __init__(self, t):
        self.t = t
        self.key = None

    def k(self):
        if self.key is None:
            self.key = tuple(sorted(self.t.items()))
        return self.key

    def const(self):
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None


_by_key = {}


def intern(p):
    return _by_key.setdefault(p.k(), p)


def pc(c):
    return Poly({(): F(c)} if c else {})


ZERO, ONE = pc(0), pc(1)
A_PI = atom("pi")
A_E = atom("e")


def pa(i, e=1):
    return Poly({((i, F(e)),): F(1)})


PI = pa(A_PI)


def padd(a, b, s=1):
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + s * c
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return Poly(t)


def pscale(a, c):
    return Poly({m: v * c for m, v in a.t.items()}) if c else ZERO


class TooBig(Exception):
    pass


def _mulmono(m1, m2):
    """product of monomials -> list of (mono, coef) after reducing idempotents and sin^2"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    sq = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        k = _info[a][0]
        if k == "I" and e > 1:
            d[a] = F(1)
        elif k == "sin" and e >= 2 and e.denominator == 1:
            sq = a
    if sq is not None:
        e = d[sq]
        d[sq] = e - 2
        if d[sq] == 0:
            del d[sq]
        base = tuple(sorted(d.items()))
        c = atom("cos", _info[sq][1])
        out = {}
        for mm, cc in _mulmono(base, ()):
            out[mm] = out.get(mm, 0) + cc
        for mm, cc in _mulmono(base, ((c, F(2)),)):
            out[mm] = out.get(mm, 0) - cc
        return list(out.items())
    return [(tuple(sorted(d.items())), 1)]


def pmul(a, b):
    if len(a.t) * len(b.t) > LIMIT:
        if len(a.t) > 1 and len(b.t) > 1:
            a, b = _aspoly(a), _aspoly(b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            for m, c in _mulmono(m1, m2):
                v = t.get(m, 0) + c * c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
    return _spread(Poly(t))


def _spread(p):
    """a piece that stands alone in its monomial, to the first power, is multiplied out"""
    if not _polys:
        return p
    hit = [m for m in p.t if [e for a, e in m if a in _polys] == [1]]
    if not hit or len(p.t) > 8:
        return p
    t = dict(p.t)
    for m in hit:
        c = t.pop(m, None)
        if c is None:
            continue
        (a,) = [a for a, e in m if a in _polys]
        rest = tuple(x for x in m if x[0] != a)
        for m2, c2 in _info[a][1]:
            for m3, c3 in _mulmono(rest, m2):
                v = t.get(m3, 0) + c * c2 * c3
                if v:
                    t[m3] = v
                else:
                    t.pop(m3, None)
    return Poly(t)


def _lead(p):
    return p.t[min(p.t)] if p.t else F(0)


def _aspoly(p):
    """keep a large polynomial as one atom (normalised to leading coefficient 1)"""
    if len(p.t) <= 1:
        return p
    c = _lead(p)
    return pscale(pa(atom("poly", intern(pscale(p, 1 / c)).k())), c)


def pinv(p):
    if not p.t:
        return pa(atom("div0"))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(_info[a][0] != "I" for a, _ in m):
            return _spread(Poly({tuple((a, -e) for a, e in m): 1 / c}))
    c = _lead(p)
    q = intern(pscale(p, 1 / c))
    return pscale(pa(atom("poly", q.k()), -1), 1 / c)


def ppow(p, n):
    if n < 0:
        p, n = pinv(p), -n
    r = ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def frac_int(c):
    return c.denominator == 1


def isint_atom(a):
    k = _info[a][0]
    if k in ("I", "cal", "round", "trunc", "ymd"):
        return True
    if k == "var":
        return _info[a][2]
    return False


def frac(p):
    """p mod 1"""
    t = {}
    rest = p
    again = True
    while again:
        again = False
        t = {}
        for m, c in rest.t.items():
            if m == ():
                c = c - math.floor(c)
                if c:
                    t[m] = t.get(m, 0) + c
            elif frac_int(c) and all(isint_atom(a) and e.denominator == 1 and e > 0 for a, e in m):
                continue
            elif len(m) == 1 and m[0][1] == 1 and _info[m[0][0]][0] == "frac" and frac_int(c):
                q = Poly(dict(_info[m[0][0]][1]))
                for mm, cc in q.t.items():
                    t[mm] = t.get(mm, 0) + cc * c
                    if not t[mm]:
                        del t[mm]
                again = True
            else:
                t[m] = t.get(m, 0) + c
                if not t[m]:
                    del t[m]
        rest = Poly(t)
    c = rest.const()
    if c is not None:
        return pc(c - math.floor(c))
    if len(rest.t) <= 4:
        lo = hi = F(0)
        for m, c in rest.t.items():
            b = (F(1), F(1)) if m == () else var_bounds(m)
            if b is None:
                break
            lo += c * (b[0] if c > 0 else b[1])
            hi += c * (b[1] if c > 0 else b[0])
        else:
            if lo >= 0 and hi < 1:
                return rest
    return pa(atom("frac", rest.k()))


def var_bounds(m):
    """the documented range of a monomial that is one argument"""
    if len(m) != 1 or m[0][1] != 1 or _info[m[0][0]][0] != "var":
        return None
    from . import interval
    inf = _info[m[0][0]]
    lo, hi = interval.var_iv(N.var(inf[1], inf[2]))
    return None if lo == -math.inf or hi == math.inf else (F(lo), F(hi))


def _trigarg(p):
    """reduce argument: returns (poly without quarter turns, quarter turns k, sign)"""
    t = {}
    k = 0
    for m, c in p.t.items():
        if m == ((A_PI, F(1)),):
            q = math.floor(2 * c)
            k += q
            c = c - F(q, 2)
            if c:
                t[m] = t.get(m, 0) + c
        elif len(m) == 2 and (A_PI, F(1)) in m:
            other = m[0] if m[1] == (A_PI, F(1)) else m[1]
            if other[1] == 1 and _info[other[0]][0] == "frac" and frac_int(c / 2):
                for mm, cc in _info[other[0]][1]:
                    m2 = tuple(sorted(dict(mm, **{}).items())) if False else None
                    for mmm, c3 in _mulmono(mm, ((A_PI, F(1)),)):
                        t[mmm] = t.get(mmm, 0) + cc * c * c3
                        if not t[mmm]:
                            del t[mmm]
            else:
                t[m] = t.get(m, 0) + c
        else:
            t[m] = t.get(m, 0) + c
        if m in t and not t[m]:
            del t[m]
    q = Poly(t)
    pm = ((A_PI, F(1)),)
    if pm in q.t:      # a fractional reduction may have reintroduced whole turns
        c = q.t[pm]
        kk = math.floor(2 * c)
        if kk:
            k += kk
            c -= F(kk, 2)
            if c:
                q.t[pm] = c
            else:
                del q.t[pm]
    return q, k % 4


def _sincos(p, which):
    q, k = _trigarg(p)
    # sin(q + k pi/2)
    if which == "cos":
        k = (k + 1) % 4          # cos x = sin(x + pi/2)
    s = 1
    if q.t and _neg(q):
        # sign choice on the non-pi part
        q = pscale(q, -1)
        q2, k2 = _trigarg(q)
        # sin(-q' + k pi/2) with q'=q : = sin(k pi/2 - q)
        # sin(k pi/2 - q) = cos-type: use  sin(k pi/2 - q) = -sin(q - k pi/2) = -sin(q2 + (k2-k) pi/2)
        s = -1
        k = (k2 - k) % 4
        q = q2
    if k >= 2:
        s = -s
        k -= 2
    if not q.t:
        v = pc(0) if k == 0 else pc(1)
        return pscale(v, s)
    a = pa(atom("sin" if k == 0 else "cos", intern(q).k()))
    return pscale(a, s)


def _neg(p):
    """is the leading coefficient (ignoring a pure pi term or constant) negative"""
    ms = [m for m in p.t if m not in ((), ((A_PI, F(1)),))]
    if not ms:
        return _lead(p) < 0
    return p.t[min(ms)] < 0


_ind = {}


def ind(c):
    """indicator polynomial of a boolean node"""
    r = _ind.get(c.id)
    if r is None:
        r = _ind[c.id] = _indicator(c)
    return r


def _indicator(c):
    o = c.op
    if o == "bconst":
        return ONE if c.data else ZERO
    if o == "not":
        return padd(ONE, ind(c.args[0]), -1)
    if o == "and":
        return pmul(ind(c.args[0]), ind(c.args[1]))
    if o == "or":
        a, b = ind(c.args[0]), ind(c.args[1])
        return padd(padd(a, b), pmul(a, b), -1)
    if o == "lt":
        return _lt(padd(canon(c.args[0]), canon(c.args[1]), -1))
    if o == "le":
        return padd(ONE, _lt(padd(canon(c.args[1]), canon(c.args[0]), -1)), -1)
    if o == "eq":
        p = signed(padd(canon(c.args[0]), canon(c.args[1]), -1))
        k = p.const()
        if k is not None:
            return ONE if k == 0 else ZERO
        return pa(atom("I", "eq", intern(pscale(p, 1 / _lead(p))).k()))
    if o == "bvar":
        return pa(atom("I", "bvar", c.data))
    if o == "isnan":
        return pa(atom("I", "isnan", canon(c.args[0]).k()))
    raise NotImplementedError(o)


POSITIVE = ("pi", "e", "exp", "npow")
ODD_INCREASING = ("asin", "atan", "sinh", "tanh")


def signed(p):
    """a polynomial of the same sign: positive factors dropped, asin/atan of a single term replaced by its argument"""
    while p.t:
        low = None
        for m in p.t:
            e = {a: x for a, x in m if _info[a][0] in POSITIVE}
            if low is None:
                low = e
            else:
                low = {a: min(low.get(a, F(0)), e.get(a, F(0))) for a in set(low) | set(e)}
        low = {a: x for a, x in low.items() if x}
        if low:
            t = {}
            for m, c in p.t.items():
                d = dict(m)
                for a, x in low.items():
                    d[a] = d.get(a, F(0)) - x
                    if not d[a]:
                        del d[a]
                t[tuple(sorted(d.items()))] = c
            p = Poly(t)
            continue
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and _info[m[0][0]][0] in ODD_INCREASING and m[0][1] > 0 and m[0][1].denominator == 1 and m[0][1] % 2:
                q = Poly(dict(_info[m[0][0]][1]))
                p = q if c > 0 else pscale(q, -1)
                continue
        return p
    return p


def _lt(p):
    """I(p < 0)"""
    p = signed(p)
    k = p.const()
    if k is not None:
        return ONE if k < 0 else ZERO
    return pa(atom("I", "lt", intern(pscale(p, 1 / abs(_lead(p)))).k()))


def canon(n):
    if n._canon is not None:
        return n._canon
    for m in N.topo([n]):
        if m._canon is None and not m.isbool:
            m._canon = intern(_canon1(m))
    return n._canon


def _canon1(n):
    o = n.op
    A = n.args
    if o == "num":
        return pc(n.data)
    if o == "pi":
        return PI
    if o == "e":
        return pa(A_E)
    if o in ("inf", "ninf"):
        return pscale(pa(atom("inf")), 1 if o == "inf" else -1)
    if o == "nan":
        return pa(atom("nan"))
    if o == "var":
        return pa(atom("var", n.data, n.isint))
    if o == "opaque":
        return pa(atom("opaque", n.data))
    if o == "b2n":
        return ind(A[0])
    if o == "ite":
        c, a, b = ind(A[0]), canon(A[1]), canon(A[2])
        if len(c.t) > 6 or len(c.t) * max(len(a.t), len(b.t)) > 120:
            if a.k() == b.k():
                return a
            return pa(atom("ite", intern(c).k(), a.k(), b.k()))
        return padd(b, pmul(c, padd(a, b, -1)))
    p = [canon(a) for a in A if not a.isbool]
    if o == "add":
        return padd(p[0], p[1])
    if o == "mul":
        return pmul(p[0], p[1])
    if o == "div":
        return pmul(p[0], pinv(p[1]))
    if o == "rad":
        return pmul(pscale(p[0], F(1, 180)), PI)
    if o == "deg":
        return pmul(pscale(p[0], F(180)), pa(A_PI, -1))
    if o == "pow":
        c = p[1].const()
        if c is not None and c.denominator == 1 and abs(c) <= 40:
            return ppow(p[0], int(c))
        return _power(p[0], p[1])
    if o == "sqrt":
        return _power(p[0], pc(F(1, 2)))
    if o == "exp":
        return _exp(p[0])
    if o == "mod":
        c = p[1].const()
        if c:
            return pscale(frac(pscale(p[0], 1 / c)), c)
        q = pmul(p[0], pinv(p[1]))
        return pmul(p[1], frac(q))
    if o == "floor":
        return padd(p[0], frac(p[0]), -1)
    if o == "sin" or o == "cos":
        return _sincos(p[0], o)
    if o == "tan":
        return pmul(_sincos(p[0], "sin"), pinv(_sincos(p[0], "cos")))
    if o == "acos":
        return padd(pscale(PI, F(1, 2)), _odd("asin", p[0]), -1)
    if o in ("asin", "atan", "sinh", "tanh"):
        return _odd(o, p[0])
    if o == "atan2":
        a, b = p
        s = 1
        if a.t and _lead(a) < 0:
            a, s = pscale(a, -1), -1
        c = abs(_lead(a)) or abs(_lead(b)) or F(1)
        return pscale(pa(atom("atan2", intern(pscale(a, 1 / c)).k(), intern(pscale(b, 1 / c)).k())), s)
    if o == "abs":
        q = p[0] if _lead(p[0]) >= 0 else pscale(p[0], -1)
        return pa(atom("abs", q.k()))
    if o == "cal":
        return pa(atom("cal", n.data, p[0].k()))
    if o == "round":
        return pa(atom("round", p[0].k()))
    return pa(atom(o, *([x.k() for x in p] + [n.data])))


def _power(b, x):
    """b ** x: constant exponents become exponents of one factor; the sign of a symbolic exponent is normalised"""
    c = x.const()
    if b.t == {((A_E, F(1)),): F(1)}:
        return _exp(x)
    if c is not None and b.t and c:
        bc = b.const()
        l = abs(_lead(b)) if bc is None else bc
        if bc is not None and bc <= 0:
            return pa(atom("pow", b.k(), x.k()))
        num = pa(atom("npow", l), c) if l != 1 else ONE
        if bc is not None:
            return num
        q = pscale(b, 1 / l)
        if len(q.t) == 1:
            (m, cc), = q.t.items()
            if cc == 1 and len(m) == 1 and m[0][1] == 1 and _info[m[0][0]][0] not in ("I", "npow"):
                return pmul(num, pa(m[0][0], c))
        return pmul(num, pa(atom("poly", intern(q).k()), c))
    if x.t and _lead(x) < 0:
        return pa(atom("pow", b.k(), pscale(x, -1).k()), -1)
    return pa(atom("pow", b.k(), x.k()))


def _exp(p):
    """exp of a sum is the product of the powers of the exponentials of its terms"""
    d = {}
    for m, c in p.t.items():
        d[A_E if m == () else atom("exp", ((m, F(1)),))] = c
    return Poly({tuple(sorted(d.items())): F(1)})


EXPAND = 4000


def rational_zero(p):
    """p is zero once its denominators are cleared and factored polynomials are multiplied out"""
    for _ in range(12):
        if not p.t:
            return True
        den = {}
        hit = False
        for m in p.t:
            for a, e in m:
                if _info[a][0] == "poly" and abs(e) >= 1:
                    hit = True
                    if e < 0:
                        den[a] = max(den.get(a, 0), math.ceil(-e))
        if not hit:
            return False
        r = {}
        work = 0
        for m, c in p.t.items():
            d = dict(m)
            todo = []
            for a in set(d) | set(den):
                if _info[a][0] != "poly":
                    continue
                e = d.get(a, F(0)) + den.get(a, 0)
                n = math.floor(e)
                d[a] = e - n
                if not d[a]:
                    del d[a]
                if n:
                    todo.append((a, n))
            q = Poly({tuple(sorted(d.items())): c})
            for a, n in todo:
                b = Poly(dict(_info[a][1]))
                for _ in range(n):
                    work += len(q.t) * len(b.t)
                    if work > EXPAND or len(b.t) * len(q.t) > LIMIT:
                        return False
                    q = pmul(q, b)
            for mm, cc in q.t.items():
                v = r.get(mm, 0) + cc
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
        p = Poly(r)
    return False


def trig_zero(p, limit=600):
    """p is zero once products of sines and cosines are written as sums"""
    if len(p.t) > 120:
        return False
    hit = False
    out = {}
    for m, c in p.t.items():
        facs, rest = [], []
        for a, e in m:
            if _info[a][0] in ("sin", "cos") and e.denominator == 1 and 1 <= e <= 6:
                facs += [a] * int(e)
            else:
                rest.append((a, e))
        if len(facs) < 2:
            out[m] = out.get(m, 0) + c
            continue
        if len(facs) > 7:
            return False
        hit = True
        acc = Poly({tuple(rest): c})
        # acc * f1 * f2 ... with each partial product linear in one sine or cosine
        terms = [(F(1), None, None)]
        for a in facs:
            k, q = _info[a][0], Poly(dict(_info[a][1]))
            new = []
            for f, kind, arg in terms:
                if kind is None:
                    new.append((f, k, q))
                    continue
                s, d = padd(arg, q), padd(arg, q, -1)
                if kind == "cos" and k == "cos":
                    new += [(f / 2, "cos", d), (f / 2, "cos", s)]
                elif kind == "sin" and k == "sin":
                    new += [(f / 2, "cos", d), (-f / 2, "cos", s)]
                elif kind == "sin":
                    new += [(f / 2, "sin", s), (f / 2, "sin", d)]
                else:
                    new += [(f / 2, "sin", s), (-f / 2, "sin", d)]
            terms = new
        for f, kind, arg in terms:
            for m2, c2 in pmul(acc, pscale(_sincos(arg, kind), f)).t.items():
                v = out.get(m2, 0) + c2
                if v:
                    out[m2] = v
                else:
                    out.pop(m2, None)
        if len(out) > limit:
            return False
    return hit and not {m: c for m, c in out.items() if c}


def _odd(o, p):
    if not p.t:
        return ZERO
    c = p.const()
    if o == "asin" and c in (1, -1, F(1, 2), F(-1, 2)):
        return pscale(PI, F(1, 2) * c if abs(c) == 1 else F(1, 3) * c)
    if o == "atan" and c in (1, -1):
        return pscale(PI, F(1, 4) * c)
    if _lead(p) < 0:
        return pscale(pa(atom(o, intern(pscale(p, -1)).k())), -1)
    return pa(atom(o, p.k()))


def same(a, b):
    """normal forms equal (boolean nodes through their indicators)"""
    if a is b:
        return True
    ca = ind(a) if a.isbool else canon(a)
    cb = ind(b) if b.isbool else canon(b)
    if ca.k() == cb.k():
        return True
    if len(ca.t) + len(cb.t) > 200:
        return False
    d = padd(ca, cb, -1)
    return rational_zero(d) or trig_zero(d)


def delta_const(a, b, free_of):
    """a-b if its normal form contains none of the variables named in free_of, else None (as Poly)"""
    p = padd(canon(a), canon(b), -1)
    return p if not mentions(p.k(), free_of) else None


def mentions(key, names):
    seen = set()

    def poly(k):
        for m, _ in k:
            for a, _e in m:
                if at(a):
                    return True
        return False

    def at(i):
        if i in seen:
            return False
        seen.add(i)
        inf = _info[i]
        if inf[0] == "var":
            return inf[1] in names
        for x in inf[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], tuple) and poly(x):
                return True
        return False
    return poly(key)
