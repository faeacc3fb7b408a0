"""Interval analysis of terms over the documented argument domains (real semantics, outward slack 1e-12)."""
import math
from . import nodes as N
from . import api
from . import times

INFT = (-math.inf, math.inf)
_memo = {}


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else None


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def mul(a, b):
    p = [_m(x, y) for x in a for y in b]
    return (min(p), max(p))


def var_iv(v):
    k = api.VARKIND.get(v)
    if k == "time":
        return (times.LO, times.HI)
    if k == "offset":
        return (-86400.0, 86400.0)
    if k in api.KINDS:
        return (float(api.KINDS[k][0]), float(api.KINDS[k][1]))
    return INFT


def small(n, limit=80):
    seen, st = set(), [n]
    while st:
        m = st.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        if len(seen) > limit:
            return False
        st.extend(m.args)
    return True


def facts_of(c, pos=True):
    """comparisons with known bounds implied by a condition: {node: (lo, hi)}"""
    out = {}

    def put(n, iv):
        if n in out:
            m = meet(out[n], iv)
            iv = m if m else iv
        out[n] = iv

    def go(c, pos):
        if c.op == "not":
            go(c.args[0], not pos)
        elif c.op == "and" and pos:
            go(c.args[0], True)
            go(c.args[1], True)
        elif c.op == "or" and not pos:
            go(c.args[0], False)
            go(c.args[1], False)
        elif c.op in ("lt", "le"):
            a, b = c.args
            if not pos:
                a, b = b, a            # a<b false: b<=a
            ia, ib = iv(a), iv(b)
            put(a, (-math.inf, ib[1]))
            put(b, (ia[0], math.inf))
        elif c.op == "eq" and pos and not c.args[0].isbool:
            a, b = c.args
            put(a, iv(b))
            put(b, iv(a))
    go(c, pos)
    return {k: v for k, v in out.items() if not N.isnum(k) and v != INFT}


def truth(c, facts=None):
    """True/False if the intervals decide the condition, else None"""
    o = c.op
    if o == "bconst":
        return c.data
    if o == "not":
        t = truth(c.args[0], facts)
        return None if t is None else not t
    if o in ("and", "or"):
        t = [truth(a, facts) for a in c.args]
        if o == "and":
            return False if False in t else (True if t == [True, True] else None)
        return True if True in t else (False if t == [False, False] else None)
    if o in ("lt", "le") :
        a, b = iv(c.args[0], facts), iv(c.args[1], facts)
        if a[1] < b[0] or (o == "le" and a[1] <= b[0]):
            return True
        if a[0] > b[1] or (o == "lt" and a[0] >= b[1]):
            return False
        return None
    if o == "eq" and not c.args[0].isbool:
        for x, y in (c.args, c.args[::-1]):
            if N.isnum(x) and x.data == 0 and nonzero(y, facts):
                return False
        a, b = iv(c.args[0], facts), iv(c.args[1], facts)
        if a[1] < b[0] or a[0] > b[1]:
            return False
    return None


_refining = set()


def iv(root, facts=None):
    fk = None
    if facts:
        fk = tuple(sorted((n.id, v) for n, v in facts.items()))
    memo = _memo.setdefault(fk, {})
    if root.id in memo:
        return memo[root.id]
    for n in N.topo([root]):
        if n.id in memo:
            continue
        r = INFT if n.isbool else _iv1(n, memo, facts)
        if facts and n in facts:
            m = meet(r, facts[n])
            r = m if m else r
        if n.op == "div" and r == INFT and n.id not in _refining:
            _refining.add(n.id)
            try:
                memo[n.id] = r
                q = subdivide(n, lambda z: math.isfinite(z[0]) and math.isfinite(z[1]), facts, 300)
                r = q or r
            finally:
                _refining.discard(n.id)
        if r[0] != r[0] or r[1] != r[1]:
            r = INFT
        memo[n.id] = r
    return memo[root.id]


def sin_iv(a):
    lo, hi = a
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo >= 2 * math.pi or max(abs(lo), abs(hi)) > 1e6:
        return (-1.0, 1.0)
    eps = 1e-14
    l, h = min(math.sin(lo), math.sin(hi)), max(math.sin(lo), math.sin(hi))
    k = math.ceil((lo - eps - math.pi / 2) / (2 * math.pi))
    if math.pi / 2 + 2 * math.pi * k <= hi + eps:
        h = 1.0
    k = math.ceil((lo - eps + math.pi / 2) / (2 * math.pi))
    if -math.pi / 2 + 2 * math.pi * k <= hi + eps:
        l = -1.0
    # sin of an interval that ends at a multiple of pi up to rounding keeps its sign
    return (0.0 if -1e-15 < l < 0 and lo >= -1e-15 and hi <= math.pi + 1e-14 else l, h)


def factors(n):
    """numerator and denominator factors of a product or quotient; tangents as quotients of sine and cosine"""
    num, den = [], []
    st = [(n, 1)]
    while st:
        m, e = st.pop()
        if m.op == "mul":
            st += [(m.args[0], e), (m.args[1], e)]
        elif m.op == "div":
            st += [(m.args[0], e), (m.args[1], -e)]
        elif m.op == "tan":
            st += [(N.unary("sin", m.args[0]), e), (N.unary("cos", m.args[0]), -e)]
        else:
            (num if e > 0 else den).append(m)
    return num, den


def _ratio(n, memo):
    num, den = factors(n)
    if len(num) + len(den) > 30:
        return None

    def val(m):
        if m.op in ("sin", "cos") and m.args[0].id in memo:
            a = memo[m.args[0].id]
            return sin_iv(a if m.op == "sin" else (a[0] + math.pi / 2, a[1] + math.pi / 2))
        if m.id in memo:
            return memo[m.id]
        return iv(m)
    r = (1.0, 1.0)
    for m in num:
        r = mul(r, val(m))
    for m in den:
        b = val(m)
        if b[0] <= 0 <= b[1]:
            return None
        r = mul(r, (1 / b[1], 1 / b[0]))
    return r


class Over:
    """interval memo with local overrides"""

    def __init__(self, base):
        self.base, self.own = base, {}

    def __getitem__(self, k):
        return self.own[k] if k in self.own else self.base[k]

    def __contains__(self, k):
        return k in self.own or k in self.base

    def __setitem__(self, k, v):
        self.own[k] = v


def cuts(root, facts=None):
    """subterms to subdivide: used more than once on the way to the root, with a bounded range"""
    topo = N.topo([root])
    users = {}
    for n in topo:
        for a in set(n.args):
            users[a.id] = users.get(a.id, 0) + 1
    out = []
    for n in reversed(topo):
        if n.isbool or N.isnum(n) or n is root:
            continue
        if users.get(n.id, 0) >= 2 or n.op == "var":
            lo, hi = iv(n, facts)
            if math.isfinite(lo) and math.isfinite(hi) and hi > lo:
                out.append(n)
    depth, level, k = {root.id: 0}, [root], 0
    while level:
        k += 1
        nxt = []
        for n in level:
            for a in n.args:
                if a.id not in depth:
                    depth[a.id] = k
                    nxt.append(a)
        level = nxt
    out.sort(key=lambda n: (n.op == "var", depth[n.id], -users[n.id]))
    return out[:6]


MAXBOXES = 1500


def subdivide(root, good, facts=None, maxboxes=MAXBOXES):
    """True if some subterm's range splits into pieces on each of which good(interval of root) holds; root's range on the way"""
    iv(root, facts)
    fk = tuple(sorted((n.id, v) for n, v in facts.items())) if facts else None
    base = _memo[fk]
    topo = N.topo([root])
    for t in cuts(root, facts):
        dep = set([t.id])
        order = []
        for n in topo:
            if n is not t and any(a.id in dep for a in n.args):
                dep.add(n.id)
                order.append(n)
        if root.id not in dep or len(order) > 400:
            continue
        lo, hi = base[t.id]
        stack = [(lo, hi, 0)]
        count = 0
        total = None
        while stack:
            a, b, d = stack.pop()
            count += 1
            m = Over(base)
            m[t.id] = (a, b)
            for n in order:
                r = INFT if n.isbool else _iv1(n, m, None)
                if facts and n in facts:
                    q = meet(r, facts[n])
                    r = q if q else r
                m[n.id] = INFT if r[0] != r[0] or r[1] != r[1] else r
            r = m[root.id]
            if good(r):
                total = r if total is None else join(total, r)
                continue
            if d > 40 or count > maxboxes or b - a < 1e-9 * (1 + abs(a)):
                total = None
                break
            c = (a + b) / 2
            stack += [(a, c, d + 1), (c, b, d + 1)]
        else:
            return total
    return None


_nz = {}


def nonzero(x, facts=None, double=False):
    """no factor of x can be zero; double: the cosine of a double is never exactly zero, its sine only at zero"""
    if N.isnum(x):
        return x.data != 0
    fk = tuple(sorted((n.id, v) for n, v in facts.items())) if facts else None
    r = _nz.get((x.id, fk, double))
    if r is None:
        num, _ = factors(x)
        r = True
        for m in num:
            if double and m.op == "cos":
                continue
            if double and m.op == "sin":
                m = m.args[0]
                while m.op == "rad" or (m.op == "mul" and N.isnum(m.args[0])):
                    m = m.args[-1]
            if N.isnum(m):
                if m.data == 0:
                    r = False
                continue
            a = iv(m, facts)
            if a[0] > 0 or a[1] < 0:
                continue
            if m.args and subdivide(m, lambda q: q[0] > 0 or q[1] < 0, facts) is None:
                r = False
                break
            if not m.args:
                r = False
                break
        _nz[(x.id, fk, double)] = r
    return r


def bounded(x, facts=None):
    """a finite range of x, by subdivision where needed"""
    a = iv(x, facts)
    if math.isfinite(a[0]) and math.isfinite(a[1]):
        return a
    return subdivide(x, lambda q: math.isfinite(q[0]) and math.isfinite(q[1]), facts, 300)


def _iv1(n, memo, facts):
    o = n.op
    A = [memo[a.id] for a in n.args]
    if o == "num":
        x = float(n.data)
        return (x, x)
    if o == "pi":
        return (math.pi, math.pi)
    if o == "e":
        return (math.e, math.e)
    if o == "inf":
        return (math.inf, math.inf)
    if o == "ninf":
        return (-math.inf, -math.inf)
    if o == "var":
        return var_iv(n)
    if o == "add":
        a, b = n.args
        # day - first day of its year
        for x, y in ((a, b), (b, a)):
            if y.op == "mul" and N.isnum(y.args[0]) and y.args[0].data == -1 and y.args[1].op == "cal" and y.args[1].args[0] is x:
                return (0.0, 365.0) if y.args[1].data == "ystart" else (0.0, 30.0) if y.args[1].data == "mstart" else _add(A[0], A[1])
            if y.op == "mul" and N.isnum(y.args[0]) and y.args[0].data == -1 and y.args[1].op == "floor" and y.args[1].args[0] is x:
                return (0.0, 1.0)
        return _add(A[0], A[1])
    if o == "mul":
        if n.args[0] is n.args[1]:
            q = max(abs(A[0][0]), abs(A[0][1]))
            lo = 0.0 if A[0][0] <= 0 <= A[0][1] else min(abs(A[0][0]), abs(A[0][1]))
            return (lo * lo, q * q)
        return mul(A[0], A[1])
    if o == "div":
        b = A[1]
        if b[0] <= 0 <= b[1]:
            r = _ratio(n, memo)
            if r is not None:
                return r
            if b[0] == 0 and b[1] > 0:
                return mul(A[0], (1 / b[1], math.inf)) if A[0][0] != 0 or A[0][1] != 0 else INFT
            return INFT
        q = (1 / b[1], 1 / b[0])
        return mul(A[0], q)
    if o == "pow":
        if N.isnum(n.args[1]):
            e = n.args[1].data
            a = A[0]
            if e.denominator == 1 and abs(e) < 60:
                e = int(e)
                try:
                    if e >= 0:
                        p = (a[0] ** e, a[1] ** e)
                        if e % 2 == 0:
                            if a[0] <= 0 <= a[1]:
                                return (0.0, max(p))
                            return (min(p), max(p))
                        return p
                    if a[0] > 0 or a[1] < 0:
                        p = (a[0] ** e, a[1] ** e)
                        return (min(p), max(p))
                except OverflowError:
                    return INFT
                return INFT
        if A[0][0] >= 0:
            try:
                lo = max(A[0][0], 0.0)
                c = []
                for x in (lo, A[0][1]):
                    for y in A[1]:
                        c.append(x ** y)
                return (min(c), max(c))
            except (OverflowError, ZeroDivisionError):
                return (0.0, math.inf)
        return INFT
    if o == "sqrt":
        return (math.sqrt(max(A[0][0], 0)), math.sqrt(max(A[0][1], 0)) if A[0][1] < math.inf else math.inf)
    if o == "exp":
        f = lambda x: math.exp(x) if x < 700 else math.inf
        return (f(A[0][0]), f(A[0][1]))
    if o == "log":
        return (math.log(A[0][0]) if A[0][0] > 0 else -math.inf, math.log(A[0][1]) if 0 < A[0][1] < math.inf else math.inf)
    if o == "sin":
        return sin_iv(A[0])
    if o == "cos":
        return sin_iv((A[0][0] + math.pi / 2, A[0][1] + math.pi / 2))
    if o == "tan":
        a = A[0]
        if -math.pi / 2 + 1e-9 < a[0] and a[1] < math.pi / 2 - 1e-9:
            return (math.tan(a[0]), math.tan(a[1]))
        return INFT
    if o == "asin":
        a = (max(-1.0, min(1.0, A[0][0])), max(-1.0, min(1.0, A[0][1])))
        return (math.asin(a[0]), math.asin(a[1]))
    if o == "acos":
        a = (max(-1.0, min(1.0, A[0][0])), max(-1.0, min(1.0, A[0][1])))
        return (math.acos(a[1]), math.acos(a[0]))
    if o == "atan":
        return (math.atan(A[0][0]), math.atan(A[0][1]))
    if o == "atan2":
        if A[1][0] > 0:
            return (-math.pi / 2, math.pi / 2)
        return (-math.pi, math.pi)
    if o == "rad":
        return (A[0][0] * math.pi / 180, A[0][1] * math.pi / 180)
    if o == "deg":
        return (A[0][0] * 180 / math.pi, A[0][1] * 180 / math.pi)
    if o == "mod":
        b = A[1]
        if b[0] > 0:
            if A[0][0] >= 0 and A[0][1] < b[0]:
                return A[0]
            return (0.0, b[1])
        return INFT
    if o in ("floor", "trunc", "round"):
        f = {"floor": math.floor, "trunc": math.trunc, "round": round}[o]
        g = lambda x: float(f(x)) if math.isfinite(x) else x
        return (g(A[0][0]), g(A[0][1]))
    if o == "abs":
        a = A[0]
        lo = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
        return (lo, max(abs(a[0]), abs(a[1])))
    if o == "ite":
        c, x, y = n.args
        t = truth(c, facts)
        if t is True:
            return A[1]
        if t is False:
            return A[2]
        out = None
        for br, pos in ((x, True), (y, False)):
            r = memo[br.id]
            f = facts_of(c, pos)
            if f:
                hit = br in f
                if hit:
                    m = meet(r, f[br])
                    if m is None:
                        continue
                    r = m
                elif not isinstance(memo, Over) and small(br) and len(facts or ()) < 4:
                    ff = dict(facts or {})
                    ff.update(f)
                    r = iv(br, ff)
            out = r if out is None else join(out, r)
        return out if out is not None else INFT
    if o == "sel":
        r = A[1]
        for a in A[2:]:
            r = join(r, a)
        return r
    if o == "b2n":
        t = truth(n.args[0], facts)
        return (0.0, 1.0) if t is None else (1.0, 1.0) if t else (0.0, 0.0)
    if o == "cal":
        return {"year": (1.0, 9999.0), "month": (1.0, 12.0), "mday": (1.0, 31.0)}.get(n.data, (-719162.0, 2932897.0))
    return INFT


def _add(a, b):
    lo, hi = a[0] + b[0], a[1] + b[1]
    return (lo if lo == lo else -math.inf, hi if hi == hi else math.inf)
