"""Proof by exhaustive case distinction on the comparisons of a term.

Every comparison is put in the form L < t, L = t or L > t for a normalised form L.  A case fixes the outcome of the
comparisons one after the other (innermost first); outcomes that linear arithmetic over the facts already assumed, or
the intervals of the documented domains, exclude are skipped.  At a leaf no comparison is left and normal forms decide.
"""
from fractions import Fraction as F

from . import nodes as N
from . import canon as C
from . import interval

CMP = ("lt", "le", "eq")
MAXLEAVES = 400
MAXDEPTH = 14


class GiveUp(Exception):
    pass


# ------------------------------------------------------------------------------------ linear facts
def _const_bounds(m):
    """rational bounds of a monomial that is a single atom"""
    if len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    inf = C._info[a]
    k = inf[0]
    if k == "pi":
        return F(31415926535, 10 ** 10), F(31415926536, 10 ** 10)
    if k == "e":
        return F(27182818284, 10 ** 10), F(27182818285, 10 ** 10)
    if k in ("sin", "cos", "tanh"):
        return F(-1), F(1)
    if k in ("I", "frac"):
        return F(0), F(1)
    if k == "abs" or k == "exp" or k == "npow":
        return F(0), None
    if k == "var":
        v = N.var(inf[1], inf[2])
        lo, hi = interval.var_iv(v)
        if lo == float("-inf"):
            return None
        return F(lo), F(hi)
    return None


PIM = ((C.A_PI, F(1)),)


def infeasible(facts):
    """facts: [(poly, strict)] meaning poly < 0 (strict) or poly <= 0; True if no real assignment of the monomials fits"""
    rows = []
    monos = set()
    for p, s in facts:
        rows.append((dict(p.t), s))
        monos |= set(p.t)
    for m in list(monos):
        if len(m) == 1 and m[0][1] == 1 and C._info[m[0][0]][0] in ("asin", "atan"):
            monos.add(PIM)
            rows.append(({m: F(1), PIM: F(-1, 2)}, False))
            rows.append(({m: F(-1), PIM: F(-1, 2)}, False))
    for m in monos:
        b = _const_bounds(m)
        if b:
            lo, hi = b
            if lo is not None:
                rows.append(({(): lo, m: F(-1)} if lo else {m: F(-1)}, False))
            if hi is not None:
                rows.append(({(): -hi, m: F(1)} if hi else {m: F(1)}, False))
    while True:
        live = set()
        for r, s in rows:
            if not [m for m in r if m != ()]:
                c = r.get((), F(0))
                if c > 0 or (c == 0 and s):
                    return True
            live |= set(r)
        live.discard(())
        rows = [(r, s) for r, s in rows if any(m != () for m in r)]
        if not live or not rows:
            return False
        best = None
        for m in live:
            p = sum(1 for r, s in rows if r.get(m, 0) > 0)
            n = sum(1 for r, s in rows if r.get(m, 0) < 0)
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, m)
        m = best[1]
        pos = [(r, s) for r, s in rows if r.get(m, 0) > 0]
        neg = [(r, s) for r, s in rows if r.get(m, 0) < 0]
        rest = [(r, s) for r, s in rows if not r.get(m, 0)]
        if len(pos) * len(neg) > 400:
            return False
        for rp, sp in pos:
            for rn, sn in neg:
                a, b = rp[m], -rn[m]
                q = {}
                for k, v in rp.items():
                    q[k] = q.get(k, 0) + v / a
                for k, v in rn.items():
                    q[k] = q.get(k, 0) + v / b
                q = {k: v for k, v in q.items() if v}
                rest.append((q, sp or sn))
        rows = rest
        if len(rows) > 300:
            return False


_diff = {}


def diff(n):
    """the signed polynomial left - right of a comparison"""
    p = _diff.get(n.id)
    if p is None:
        p = _diff[n.id] = C.signed(C.padd(C.canon(n.args[0]), C.canon(n.args[1]), -1))
    return p


def relevant(p, facts):
    """the facts connected to p through shared monomials"""
    ms = set(m for m in p.t if m != ())
    out, rest = [], list(facts)
    again = True
    while again:
        again = False
        for f in list(rest):
            fm = set(m for m in f[0].t if m != ())
            if fm & ms:
                ms |= fm
                out.append(f)
                rest.remove(f)
                again = True
    return out


def signs(p, facts):
    """the possible signs of p under the facts, subset of (-1, 0, 1)"""
    c = p.const()
    if c is not None:
        return ((c > 0) - (c < 0),)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        t = 1 if c > 0 else -1
        for a, e in m:
            q = atom_sign(a, facts)
            if q is None:
                break
            if q < 0 and (e.denominator != 1 or e % 2):
                t = -t
        else:
            return (t,)
    return signs_linear(p, facts)


def signs_linear(p, facts):
    fs = relevant(p, facts)
    neg = C.pscale(p, -1)
    out = []
    if not infeasible(fs + [(p, True)]):
        out.append(-1)
    if not infeasible(fs + [(p, False), (neg, False)]):
        out.append(0)
    if not infeasible(fs + [(neg, True)]):
        out.append(1)
    return tuple(out)


HALFPI = C.pscale(C.PI, F(1, 2))


def atom_sign(a, facts):
    """1 / -1 if the atom is certainly positive / negative, else None"""
    k = C._info[a]
    if k[0] in ("exp", "npow", "pi", "e"):
        return 1
    if k[0] in ("sin", "cos"):
        q = C.Poly(dict(k[1]))
        if not q.t:
            return None
        lo, hi = (C.ZERO, C.PI) if k[0] == "sin" else (C.pscale(HALFPI, -1), HALFPI)
        if signs(C.signed(C.padd(q, lo, -1)), facts) == (1,) and signs(C.signed(C.padd(hi, q, -1)), facts) == (1,):
            return 1
        if k[0] == "sin" and signs(C.signed(q), facts) == (-1,) and signs(C.signed(C.padd(q, C.PI)), facts) == (1,):
            return -1
        return None
    if k[0] == "var":
        s = signs_linear(C.pa(a), facts)
        return s[0] if len(s) == 1 and s[0] else None
    return None


def outcome(op, ss):
    """truth of `p op 0` when the sign of p is one of ss"""
    f = {"lt": lambda s: s < 0, "le": lambda s: s <= 0, "eq": lambda s: s == 0}[op]
    t = {f(s) for s in ss}
    return t.pop() if len(t) == 1 else None


# ------------------------------------------------------------------------------------ the case tree
PARTIAL = ("asin", "acos", "log", "sqrt", "pow", "opaque", "inf", "ninf", "sel")


class State:
    def __init__(self, facts=(), bools=None):
        self.facts = list(facts)
        self.bools = dict(bools or {})
        self.memo = {}
        pos = {p.k() for p, s in self.facts if not s}
        self.zeros = [p for p, s in self.facts if not s and C.pscale(p, -1).k() in pos and len(p.t) <= 40]

    def decide(self, n):
        """True/False/None"""
        if n.op == "isnan" and n not in self.bools:
            return self.isnan(n.args[0])
        if n.op == "bvar" or n.op == "isnan":
            return self.bools.get(n)
        if n.args[0].isbool:
            return None
        t = interval.truth(n)
        if t is not None:
            return t
        return outcome(n.op, signs(diff(n), self.facts))

    def isnan(self, root):
        """whether the term has no value; divisions by zero are left aside, there is nothing to compare there"""
        st = {}
        for m in N.topo([root]):
            o = m.op
            a = [st[x.id] for x in m.args]
            if o == "nan":
                r = True
            elif o in PARTIAL:
                r = None
                if o in ("asin", "acos") and a[0] is False:
                    p = C.canon(m.args[0])
                    hi, lo = signs(C.padd(p, C.ONE, -1), self.facts), signs(C.padd(p, C.ONE), self.facts)
                    if 1 not in hi and -1 not in lo:
                        r = False
                    elif hi == (1,) or lo == (-1,):
                        r = True
                elif True in a:
                    r = True
            elif o == "ite":
                r = a[1] if a[1] is a[2] else None
            elif True in a:
                r = True
            else:
                r = None if None in a else False
            st[m.id] = r
        return st[root.id]

    def fixed(self, m):
        """the constant m equals because an equality holds in this case"""
        p = C.canon(m)
        for z in self.zeros:
            if abs(len(p.t) - len(z.t)) > 1:
                continue
            m0 = next(x for x in z.t if x != ())
            if m0 not in p.t:
                continue
            r = C.padd(p, C.pscale(z, p.t[m0] / z.t[m0]), -1).const()
            if r is not None:
                return N.num(r)
        return m

    def simplify(self, roots):
        for n in N.topo(roots):
            if n.id in self.memo:
                continue
            args = [self.memo[a.id] for a in n.args]
            m = n if all(x is y for x, y in zip(args, n.args)) else N.rebuild(n, args)
            if m.op in CMP or m.op in ("bvar", "isnan"):
                t = self.decide(m)
                if t is not None:
                    m = N.bconst(t)
            elif m.op == "abs":
                x = m.args[0]
                m = N.ite(N.lt(x, N.ZERO), N.neg(x), x)
                if m.op == "ite":
                    t = self.decide(m.args[0]) if m.args[0].op in CMP else None
                    m = m if t is None else (m.args[1] if t else m.args[2])
            if self.zeros and not m.isbool and (m.args or m.op == "var") and m.op != "ite" and not (m.op == "div" and m.args[1] is N.ZERO):
                m = self.fixed(m)
            self.memo[n.id] = m
        return [self.memo[r.id] for r in roots]


def splitter(roots):
    """an innermost comparison (or boolean variable) to distinguish cases on"""
    inner = {}
    cands = []
    for n in N.topo(roots):
        has = any(inner[a.id] for a in n.args)
        if n.op in CMP and not n.args[0].isbool:
            if not has:
                cands.append(n)
            has = True
        elif n.op in ("bvar", "isnan") and not has:
            cands.append(n)
            has = True
        inner[n.id] = has
    return cands


class Prover:
    def __init__(self, leaf, maxleaves=MAXLEAVES):
        self.leaf = leaf
        self.leaves = 0
        self.max = maxleaves

    def run(self, roots, state, depth=0):
        """leaf(roots) -> True (proved), False (fails for good) or None (needs further cases)"""
        roots = state.simplify(roots)
        r = self.leaf(roots)
        if r is not None:
            self.leaves += 1
            return r
        if depth >= MAXDEPTH or self.leaves > self.max:
            raise GiveUp
        cands = splitter(roots)
        if not cands:
            return False
        n = cands[0]
        if n.op in ("bvar", "isnan"):
            for v in (True, False):
                s = State(state.facts, state.bools)
                s.bools[n] = v
                if not self.run(roots, s, depth + 1):
                    return False
            return True
        p = diff(n)
        neg = C.pscale(p, -1)
        for s in signs(p, state.facts):
            f = {-1: [(p, True)], 0: [(p, False), (neg, False)], 1: [(neg, True)]}[s]
            if not self.run(roots, State(state.facts + f, state.bools), depth + 1):
                return False
        return True


def undefined(x):
    """the term has no value: nan, or a division by the constant zero"""
    return x.op == "nan" or (x.op == "div" and x.args[1] is N.ZERO)


def equal(a, b, assume=N.TRUE, same=C.same):
    """a = b wherever assume holds, proved case by case"""
    def leaf(roots):
        x, y, g = roots
        if g is N.FALSE or x is y or undefined(y) or (y.op in ("inf", "ninf") and undefined(x)):
            return True
        if same(x, y):
            return True
        return None
    try:
        return Prover(leaf).run([a, b, assume], State())
    except (GiveUp, NotImplementedError, RecursionError):
        return False


def unsatisfiable(c):
    def leaf(roots):
        (g,) = roots
        if g is N.FALSE:
            return True
        if g is N.TRUE:
            return False
        return None
    try:
        return Prover(leaf).run([c], State())
    except (GiveUp, NotImplementedError, RecursionError):
        return False


def harmless(guard, values):
    """no value divides by zero where the guard holds"""
    def leaf(roots):
        g = roots[0]
        if g is N.FALSE:
            return True
        if not any(m.op == "div" and (m.args[1] is N.ZERO or not interval.nonzero(m.args[1])) for m in N.topo(roots[1:])):
            return True
        return None
    try:
        return Prover(leaf).run([guard] + list(values), State())
    except (GiveUp, NotImplementedError, RecursionError):
        return False
