"""Hash-consed value graph (the abstract values of numbers and booleans).

Numbers are real numbers: literals are exact rationals, pi and e are symbols.  Nothing here ever
runs code of the analysed project; nodes are terms.  `evaluate` gives a term its value under an
assignment of its leaves (used to tell two different normal forms apart, as in random interpretation).
"""
from fractions import Fraction
import datetime as _dt
import math
import numpy as np
import mpmath as mp

_table = {}
_ids = [0]

BOOL_OPS = {"bconst", "bvar", "lt", "le", "eq", "and", "or", "not", "isnan"}


class Node:
    __slots__ = ("op", "args", "data", "id", "isint", "site", "_vars", "_canon", "_hash", "_iv", "_neg")

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    @property
    def isbool(self):
        return self.op in BOOL_OPS


CUR_SITE = [None]


def mk(op, args=(), data=None, isint=False):
    k = len(args)
    if k == 2:
        key = (op, args[0].id, args[1].id, data)
    elif k == 1:
        key = (op, args[0].id, data)
    elif k == 0:
        key = (op, data)
    else:
        key = (op, tuple([a.id for a in args]), data)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.data = op, tuple(args), data
        _ids[0] += 1
        n.id = _ids[0]
        n.isint = isint
        n.site = CUR_SITE[0]
        n._vars = None
        n._canon = None
        n._iv = None
        n._neg = None
        n._hash = n.id
        _table[key] = n
    return n


_nums = {}


def num(x):
    k = (x.__class__, x)
    r = _nums.get(k)
    if r is None:
        r = _nums[k] = _num(x)
    return r


def _num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return INF if x > 0 else mk("ninf")
        x = Fraction(repr(x))
    else:
        x = Fraction(x)
    return mk("num", (), x, isint=(x.denominator == 1))


PI = mk("pi")
E = mk("e")
INF = mk("inf")
NINF = mk("ninf")
NAN = mk("nan")
TRUE = mk("bconst", (), True)
FALSE = mk("bconst", (), False)
ZERO, ONE, TWO, NEG1 = num(0), num(1), num(2), num(-1)


def var(name, isint=False):
    return mk("var", (), name, isint=isint)


def bvar(name):
    return mk("bvar", (), name)


def bconst(b):
    return TRUE if b else FALSE


def isnum(n):
    return n.op == "num"


def asnum(n):
    """coerce boolean node to 0/1"""
    if n.isbool:
        if n is TRUE:
            return ONE
        if n is FALSE:
            return ZERO
        return mk("b2n", (n,), isint=True)
    return n


def add(a, b):
    a, b = asnum(a), asnum(b)
    if isnum(a) and isnum(b):
        return num(a.data + b.data)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return mk("add", (a, b), isint=a.isint and b.isint)


def neg(a):
    return mul(NEG1, a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = asnum(a), asnum(b)
    if isnum(a) and isnum(b):
        return num(a.data * b.data)
    if a is ONE:
        return b
    if b is ONE:
        return a
    if (a is ZERO and b.op not in ("inf", "ninf", "nan")) or (b is ZERO and a.op not in ("inf", "ninf", "nan")):
        return ZERO
    if isnum(a) and b.op in ("inf", "ninf"):
        if a.data == 0:
            return NAN
        return INF if (a.data > 0) == (b.op == "inf") else NINF
    if isnum(b) and a.op in ("inf", "ninf"):
        return mul(b, a)
    # (-1)*((-1)*x) -> x
    if isnum(a) and b.op == "mul" and isnum(b.args[0]):
        return mul(num(a.data * b.args[0].data), b.args[1])
    return mk("mul", (a, b), isint=a.isint and b.isint)


def div(a, b):
    a, b = asnum(a), asnum(b)
    if isnum(b):
        if b.data == 0:
            return mk("div", (a, b))
        if isnum(a):
            return num(a.data / b.data)
        return mul(num(1 / b.data), a) if b.data != 1 else a
    if b.op in ("inf", "ninf"):
        return ZERO
    return mk("div", (a, b))


def power(a, b):
    a, b = asnum(a), asnum(b)
    if isnum(b):
        if b.data == 1:
            return a
        if b.data == 0:
            return ONE
        if isnum(a) and b.data.denominator == 1 and abs(b.data) < 4000 and (a.data != 0 or b.data > 0):
            return num(a.data ** int(b.data))
        if b.data == Fraction(1, 2):
            return mk("sqrt", (a,))
    if isnum(a) and a.data == 1:
        return ONE
    if a is E:
        return unary("exp", b)
    return mk("pow", (a, b), isint=a.isint and isnum(b) and b.isint and b.data >= 0)


def floor(a):
    a = asnum(a)
    if a.isint:
        return a
    if isnum(a):
        return num(math.floor(a.data))
    return mk("floor", (a,), isint=True)


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    a = asnum(a)
    if a.isint:
        return a
    if isnum(a):
        return num(math.trunc(a.data))
    return mk("trunc", (a,), isint=True)


def rnd(a):
    a = asnum(a)
    if a.isint:
        return a
    if isnum(a):
        return num(round(a.data))
    return mk("round", (a,), isint=True)


def mod(a, b):
    a, b = asnum(a), asnum(b)
    if isnum(a) and isnum(b) and b.data != 0:
        return num(a.data % b.data)
    if isnum(b) and b.data == 1 and a.isint:
        return ZERO
    return mk("mod", (a, b), isint=a.isint and b.isint)


def floordiv(a, b):
    return floor(div(a, b))


def absn(a):
    a = asnum(a)
    if isnum(a):
        return num(abs(a.data))
    return mk("abs", (a,), isint=a.isint)


UNARY_EXACT = {("sin", 0): 0, ("cos", 0): 1, ("tan", 0): 0, ("asin", 0): 0, ("atan", 0): 0, ("exp", 0): 1,
               ("log", 1): 0, ("sqrt", 0): 0, ("sqrt", 1): 1, ("acos", 1): 0, ("sinh", 0): 0, ("cosh", 0): 1, ("tanh", 0): 0}


def unary(op, a):
    a = asnum(a)
    if isnum(a):
        r = UNARY_EXACT.get((op, a.data))
        if r is not None:
            return num(r)
        if op in ("rad", "deg") and a.data == 0:
            return ZERO
    if op == "exp":
        if a.op == "ninf":
            return ZERO
        if a.op == "inf":
            return INF
        if a is ONE:
            return E
    return mk(op, (a,))


def atan2(a, b):
    return mk("atan2", (asnum(a), asnum(b)))


def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    r = a._neg
    if r is None:
        r = a.args[0] if a.op == "not" else mk("not", (a,))
        a._neg = r
    return r


def land(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if (b.op == "not" and b.args[0] is a) or (a.op == "not" and a.args[0] is b):
        return FALSE
    return mk("and", (a, b))


def lor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    if (b.op == "not" and b.args[0] is a) or (a.op == "not" and a.args[0] is b):
        return TRUE
    return mk("or", (a, b))


def _cmpconst(a, b):
    if isnum(a) and isnum(b):
        return a.data, b.data
    inf = {"inf": math.inf, "ninf": -math.inf}
    x = a.data if isnum(a) else inf.get(a.op)
    y = b.data if isnum(b) else inf.get(b.op)
    if x is not None and y is not None:
        return x, y
    # closed constant terms: compare numerically when clearly different
    if not free_vars(a) and not free_vars(b):
        try:
            u, v = evalmp(a, {}), evalmp(b, {})
            if mp.isnan(u) or mp.isnan(v):
                return None
            if abs(u - v) > mp.mpf(10) ** -30 * (1 + abs(u)):
                return (0, 1) if u < v else (1, 0)
            return (0, 0)
        except Exception:
            return None
    return None


def lt(a, b):
    a, b = asnum(a), asnum(b)
    if a is b:
        return FALSE
    c = _cmpconst(a, b)
    if c:
        return bconst(c[0] < c[1])
    return mk("lt", (a, b))


def le(a, b):
    a, b = asnum(a), asnum(b)
    if a is b:
        return TRUE
    c = _cmpconst(a, b)
    if c:
        return bconst(c[0] <= c[1])
    return mk("le", (a, b))


def eq(a, b):
    if a.isbool and b.isbool:
        if a is b:
            return TRUE
        return lor(land(a, b), land(lnot(a), lnot(b)))
    a, b = asnum(a), asnum(b)
    if a is b:
        return TRUE
    if a.op == "nan" or b.op == "nan":
        return FALSE
    c = _cmpconst(a, b)
    if c:
        return bconst(c[0] == c[1])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.isbool and b.isbool:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return lnot(c)
        return lor(land(c, a), land(lnot(c), b))
    a, b = asnum(a), asnum(b)
    if a is b:
        return a
    return mk("ite", (c, a, b), isint=a.isint and b.isint)


def nmin(a, b):
    return ite(lt(asnum(b), asnum(a)), b, a)


def nmax(a, b):
    return ite(lt(asnum(a), asnum(b)), b, a)


def sel(idx, elems):
    idx = asnum(idx)
    if isnum(idx):
        i = int(idx.data)
        if -len(elems) <= i < len(elems):
            return elems[i]                # otherwise it fails where it is evaluated
    if all(e is elems[0] for e in elems):
        return elems[0]
    return mk("sel", (idx,) + tuple(asnum(e) for e in elems), isint=all(asnum(e).isint for e in elems))


def days_of(t):
    return floordiv(t, num(86400))


def cal(field, day):
    if isnum(day):
        return num(_calfield(field, int(day.data)))
    if field == "yday":
        return add(sub(day, cal("ystart", day)), ONE)
    if field == "wday":
        return mod(add(day, num(3)), num(7))
    return mk("cal", (day,), field, isint=True)


def ymd2days(y, m, d):
    y, m, d = asnum(y), asnum(m), asnum(d)
    if isnum(y) and isnum(m) and isnum(d):
        return num(_dt.date(int(y.data), int(m.data), int(d.data)).toordinal() - 719163)
    if y.op == "cal" and y.data == "year":
        D = y.args[0]
        if m is ONE and d is ONE:
            return cal("ystart", D)
        if m.op == "cal" and m.data == "month" and m.args[0] is D:
            if d.op == "cal" and d.data == "mday" and d.args[0] is D:
                return D
            return add(cal("mstart", D), sub(d, ONE))
    if m is ONE and d is not ONE:
        return add(ymd2days(y, ONE, ONE), sub(d, ONE))
    return mk("ymd", (y, m, d), isint=True)


def opaque(reason):
    _ids[0] += 1
    return mk("opaque", (), (reason, _ids[0]))


def _calfield(field, d):
    x = _dt.date.fromordinal(d + 719163)
    return {"year": x.year, "month": x.month, "mday": x.day,
            "ystart": _dt.date(x.year, 1, 1).toordinal() - 719163,
            "mstart": _dt.date(x.year, x.month, 1).toordinal() - 719163}[field]


# ------------------------------------------------------------------------------------------------
def topo(roots):
    """nodes reachable from roots, arguments before users (iterative)"""
    seen, out, stack = set(), [], [(r, 0) for r in roots]
    while stack:
        n, st = stack.pop()
        if st:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, 1))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, 0))
    return out


def free_vars(n):
    if n._vars is None:
        for m in topo([n]):
            if m._vars is None:
                if m.op in ("var", "bvar", "opaque"):
                    m._vars = frozenset([m])
                elif not m.args:
                    m._vars = frozenset()
                elif len(m.args) == 1:
                    m._vars = m.args[0]._vars
                else:
                    m._vars = frozenset().union(*[a._vars for a in m.args])
    return n._vars


def has_opaque(n):
    return [v for v in free_vars(n) if v.op == "opaque"]


def subst(roots, mapping):
    """rebuild graphs with leaves (or any node) replaced; mapping Node->Node"""
    memo = dict(mapping)
    for n in topo(roots):
        if n in memo:
            continue
        if not n.args:
            memo[n] = n
            continue
        args = [memo[a] for a in n.args]
        if all(x is y for x, y in zip(args, n.args)):
            memo[n] = n
        else:
            memo[n] = rebuild(n, args)
    return [memo[r] for r in roots]


def rebuild(n, args):
    o = n.op
    f = {"add": add, "mul": mul, "div": div, "pow": power, "mod": mod, "lt": lt, "le": le, "eq": eq,
         "and": land, "or": lor, "atan2": atan2}.get(o)
    if f:
        return f(*args)
    if o == "not":
        return lnot(args[0])
    if o == "ite":
        return ite(*args)
    if o == "floor":
        return floor(args[0])
    if o == "trunc":
        return trunc(args[0])
    if o == "round":
        return rnd(args[0])
    if o == "abs":
        return absn(args[0])
    if o == "b2n":
        return asnum(args[0])
    if o == "sel":
        return sel(args[0], args[1:])
    if o == "cal":
        return cal(n.data, args[0])
    if o == "ymd":
        return ymd2days(*args)
    if len(args) == 1 and o not in ("isnan",):
        return unary(o, args[0])
    return mk(o, args, n.data, n.isint)


# ------------------------------------------------------------------------------ valuations
def _veccal(field, d):
    ok = np.isfinite(d)
    di = np.where(ok, d, 0).astype("int64")
    di = np.clip(di, -719162, 2932896)
    D = di.astype("datetime64[D]")
    if field == "year":
        r = D.astype("datetime64[Y]").astype("int64") + 1970
    elif field == "ystart":
        r = D.astype("datetime64[Y]").astype("datetime64[D]").astype("int64")
    elif field == "month":
        r = D.astype("datetime64[M]").astype("int64") % 12 + 1
    elif field == "mstart":
        r = D.astype("datetime64[M]").astype("datetime64[D]").astype("int64")
    elif field == "mday":
        r = (D - D.astype("datetime64[M]").astype("datetime64[D]")).astype("int64") + 1
    r = r.astype(float)
    return np.where(ok, r, np.nan)


def _vecymd(y, m, d):
    ok = np.isfinite(y) & np.isfinite(m) & np.isfinite(d) & (m >= 1) & (m <= 12)
    yi = np.where(ok, y, 1970).astype("int64")
    mi = np.where(ok, m, 1).astype("int64")
    M = ((yi - 1970) * 12 + mi - 1).astype("datetime64[M]")
    r = M.astype("datetime64[D]").astype("int64") + d - 1
    return np.where(ok, r, np.nan)


_UN = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan,
       "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "rad": np.radians, "deg": np.degrees,
       "floor": np.floor, "trunc": np.trunc, "round": np.rint, "abs": np.abs,
       "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh}


def evalvec(roots, env, n):
    """env: {var node: float ndarray(n)}; returns list of arrays (bool arrays for bool nodes)."""
    val = {}
    order = topo(roots)
    uses = {}
    for m in order:
        for a in m.args:
            uses[a.id] = uses.get(a.id, 0) + 1
    keep = {r.id for r in roots}
    with np.errstate(all="ignore"):
        for m in order:
            o = m.op
            A = [val[a.id] for a in m.args]
            if o == "num":
                r = float(m.data) if abs(m.data) < 10 ** 300 else math.inf
            elif o in ("var", "bvar"):
                r = env[m]
            elif o == "opaque":
                r = np.full(n, np.nan)
            elif o == "pi":
                r = math.pi
            elif o == "e":
                r = math.e
            elif o == "inf":
                r = math.inf
            elif o == "ninf":
                r = -math.inf
            elif o == "nan":
                r = math.nan
            elif o == "bconst":
                r = m.data
            elif o == "add":
                r = A[0] + A[1]
            elif o == "mul":
                r = np.multiply(A[0], A[1])
            elif o == "div":
                r = np.divide(A[0], A[1])
            elif o == "pow":
                r = np.power(np.asarray(A[0], float), A[1])
            elif o == "mod":
                r = np.mod(A[0], A[1])
            elif o in _UN:
                r = _UN[o](A[0])
            elif o == "atan2":
                r = np.arctan2(A[0], A[1])
            elif o == "lt":
                r = A[0] < A[1]
            elif o == "le":
                r = A[0] <= A[1]
            elif o == "eq":
                r = A[0] == A[1]
            elif o == "and":
                r = np.logical_and(A[0], A[1])
            elif o == "or":
                r = np.logical_or(A[0], A[1])
            elif o == "not":
                r = np.logical_not(A[0])
            elif o == "isnan":
                r = np.isnan(A[0])
            elif o == "b2n":
                r = np.where(A[0], 1.0, 0.0)
            elif o == "ite":
                r = np.where(A[0], A[1], A[2])
            elif o == "sel":
                idx = np.broadcast_to(np.asarray(A[0], float), (n,))
                k = len(A) - 1
                ok = np.isfinite(idx) & (idx >= -k) & (idx < k)
                ii = np.where(ok, idx, 0).astype(int) % k
                tab = np.stack([np.broadcast_to(np.asarray(x, float), (n,)) for x in A[1:]])
                r = np.where(ok, tab[ii, np.arange(n)], np.nan)
            elif o == "cal":
                r = _veccal(m.data, np.broadcast_to(np.asarray(A[0], float), (n,)))
            elif o == "ymd":
                r = _vecymd(*[np.broadcast_to(np.asarray(x, float), (n,)) for x in A])
            else:
                raise NotImplementedError(o)
            val[m.id] = r
            for a in m.args:
                uses[a.id] -= 1
                if uses[a.id] == 0 and a.id not in keep:
                    del val[a.id]
    return [np.broadcast_to(np.asarray(val[r.id]), (n,)) for r in roots]


mp.mp.dps = 50
MPTOL = mp.mpf(10) ** -32


def evalmp(root, env, memo=None):
    """value at one point with 50 digits; env {var node: mpf/bool}. nan for undefined."""
    mp.mp.dps = 50
    nan = mp.nan
    val = memo if memo is not None else {}

    def bad(*xs):
        return any((not isinstance(x, bool)) and mp.isnan(x) for x in xs)
    for m in topo([root]):
        if m.id in val:
            continue
        o = m.op
        A = [val[a.id] for a in m.args]
        try:
            if o == "num":
                r = mp.mpf(m.data.numerator) / m.data.denominator
            elif o in ("var", "bvar"):
                r = env[m]
            elif o == "opaque":
                r = nan
            elif o == "pi":
                r = +mp.pi
            elif o == "e":
                r = +mp.e
            elif o == "inf":
                r = mp.inf
            elif o == "ninf":
                r = -mp.inf
            elif o == "nan":
                r = nan
            elif o == "bconst":
                r = m.data
            elif o == "ite":
                r = A[1] if A[0] else A[2]
            elif o == "and":
                r = A[0] and A[1]
            elif o == "or":
                r = A[0] or A[1]
            elif o == "not":
                r = not A[0]
            elif o == "b2n":
                r = mp.mpf(1 if A[0] else 0)
            elif o == "isnan":
                r = bool(mp.isnan(A[0]))
            elif o in ("lt", "le", "eq"):
                if bad(*A):
                    r = False
                else:
                    a, b = A
                    if mp.isinf(a) or mp.isinf(b):
                        d = 0 if a == b else (1 if a > b else -1)
                    else:
                        d = a - b
                        if abs(d) < MPTOL * (1 + abs(a)):
                            d = 0
                    r = bool(d < 0) if o == "lt" else bool(d <= 0) if o == "le" else bool(d == 0)
            elif o == "sel":
                k = len(A) - 1
                i = int(mp.nint(A[0]))
                r = A[1:][i] if -k <= i < k else nan
            elif bad(*A):
                r = nan
            elif o == "add":
                r = A[0] + A[1]
            elif o == "mul":
                r = A[0] * A[1]
            elif o == "div":
                r = A[0] / A[1] if abs(A[1]) > mp.mpf(10) ** -40 else nan
            elif o == "pow":
                r = A[0] ** A[1] if not (A[0] == 0 and A[1] <= 0) else nan
                if isinstance(r, mp.mpc):
                    r = nan
            elif o == "mod":
                if A[1] == 0:
                    r = nan
                else:
                    q = A[0] / A[1]
                    k = mp.nint(q)
                    fl = k if abs(q - k) < MPTOL * (1 + abs(q)) else mp.floor(q)
                    r = A[0] - A[1] * fl
            elif o in ("floor", "trunc", "round"):
                x = A[0]
                if mp.isinf(x):
                    r = x
                else:
                    k = mp.nint(x)
                    if abs(x - k) < MPTOL * (1 + abs(x)):
                        r = k
                    elif o == "floor":
                        r = mp.floor(x)
                    elif o == "trunc":
                        r = mp.floor(x) if x >= 0 else mp.ceil(x)
                    else:
                        f = mp.floor(x)
                        if abs(x - f - mp.mpf(1) / 2) < MPTOL * (1 + abs(x)):
                            r = f if int(f) % 2 == 0 else f + 1
                        else:
                            r = k
            elif o == "rad":
                r = A[0] * mp.pi / 180
            elif o == "deg":
                r = A[0] * 180 / mp.pi
            elif o in ("asin", "acos"):
                x = A[0]
                if abs(x) > 1:
                    if abs(x) - 1 < MPTOL:
                        x = mp.mpf(1) if x > 0 else mp.mpf(-1)
                        r = getattr(mp, o)(x)
                    else:
                        r = nan
                else:
                    r = getattr(mp, o)(x)
            elif o == "log":
                r = mp.log(A[0]) if A[0] > 0 else nan
            elif o == "sqrt":
                r = mp.sqrt(A[0]) if A[0] >= 0 else nan
            elif o == "exp":
                r = mp.exp(A[0]) if A[0] < 10 ** 6 else mp.inf
            elif o == "abs":
                r = abs(A[0])
            elif o == "atan2":
                r = mp.atan2(A[0], A[1]) if not (A[0] == 0 and A[1] == 0) else mp.mpf(0)
            elif o == "cal":
                r = mp.mpf(_calfield(m.data, int(mp.nint(A[0]))))
            elif o == "ymd":
                r = mp.mpf(_dt.date(int(A[0]), int(A[1]), 1).toordinal() - 719163 + int(A[2]) - 1)
            else:
                r = getattr(mp, o)(A[0])
        except (ZeroDivisionError, ValueError, OverflowError):
            r = nan
        val[m.id] = r
    return val[root.id]


def show(n, depth=6):
    if depth < 0:
        return "…"
    o = n.op
    if o == "num":
        return str(float(n.data)) if n.data.denominator != 1 else str(n.data)
    if o in ("var", "bvar"):
        return str(n.data)
    if o == "opaque":
        return "opaque(%s)" % n.data[0]
    if o == "bconst":
        return str(n.data)
    if not n.args:
        return o
    s = [show(a, depth - 1) for a in n.args[:6]]
    if len(n.args) > 6:
        s.append("…")
    sym = {"add": " + ", "mul": "*", "div": "/", "lt": " < ", "le": " <= ", "eq": " == ", "and": " and ", "or": " or ", "mod": " % ", "pow": "**"}
    if o in sym:
        return "(" + sym[o].join(s) + ")"
    if o == "cal":
        return "%s(%s)" % (n.data, s[0])
    return "%s(%s)" % (o, ", ".join(s))
