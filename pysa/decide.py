"""Deciding equalities and satisfiability of extracted terms.

Order of methods: identical graph; identical normal form; normal form after exhaustive tabulation of the parts that
depend only on the UTC year and month and after the unit-circle lemma for clamps; and only then term-level identity
testing (random interpretation, Gulwani & Necula 2003): the two TERMS are valued at many points, a difference is
confirmed with 50 digits before it is believed.  Project code is never executed.
"""
import hashlib
import math
from fractions import Fraction as F

import numpy as np
import mpmath as mp

from . import nodes as N
from . import canon as C
from . import api
from . import times
from . import cases


# ------------------------------------------------------------------------------------ tabulation
_tagcache = {}
_tab = {}
YY, MM = N.var("tab!year", True), N.var("tab!month", True)
GRID_Y = np.repeat(np.arange(1, 10000), 12).astype(float)
GRID_M = np.tile(np.arange(1, 13), 9999).astype(float)


def _tag(n):
    """None: constant; ('ym', D): depends on year and month of day D only; 'other'"""
    t = _tagcache.get(n.id, 0)
    if t != 0:
        return t
    for m in N.topo([n]):
        if m.id in _tagcache:
            continue
        if m.op in ("var", "bvar", "opaque"):
            r = "other"
        elif m.op == "cal":
            r = ("ym", m.args[0].id) if m.data in ("year", "month") and m.args[0].args else "other"
            if r != "other":
                _D[m.args[0].id] = m.args[0]
        else:
            r = None
            for a in m.args:
                ta = _tagcache[a.id]
                if ta is None or ta == r:
                    continue
                r = ta if r is None else "other"
                if r == "other":
                    break
        _tagcache[m.id] = r
    return _tagcache[n.id]


_D = {}


def _summands(n, c, out):
    """n as a sum of (coefficient, term), looking through sums and constant factors"""
    st = [(n, c)]
    while st:
        m, k = st.pop()
        if m.op == "add":
            st.append((m.args[0], k))
            st.append((m.args[1], k))
        elif m.op == "mul" and N.isnum(m.args[0]):
            st.append((m.args[1], k * m.args[0].data))
        elif m.op == "mul" and N.isnum(m.args[1]):
            st.append((m.args[0], k * m.args[1].data))
        else:
            out.append((k, m))
    return out


def _gather(n):
    """the terms of a sum that depend on the year and month only, added up in one table; None if there is nothing to gather"""
    parts = _summands(n, F(1), [])
    by = {}
    for k, m in parts:
        t = _tag(m)
        if isinstance(t, tuple):
            by.setdefault(t, []).append((k, m))
    if not any(len(v) > 1 or v[0][0] != 1 for v in by.values()):
        return None
    r = N.ZERO
    for k, m in parts:
        if not isinstance(_tag(m), tuple):
            r = N.add(r, N.mul(N.num(k), m))
    for t, v in by.items():
        e = N.ZERO
        for k, m in v:
            e = N.add(e, N.mul(N.num(k), m))
        r = N.add(r, e)
    return r


def tabulate(roots):
    """replace maximal terms that depend only on the UTC year and month by a constant or by a leaf naming their full table"""
    for r in roots:
        _tag(r)
    if not any(isinstance(_tagcache[n.id], tuple) for n in N.topo(roots)):
        return list(roots)
    return [_tabulate(r) for r in roots]


_tabulated = {}


def _tabulate(n):
    m = _tabulated.get(n.id)
    if m is not None:
        return m
    t = _tag(n)
    m = n
    if isinstance(t, tuple):
        m = n if n.op == "cal" else _table_leaf(n)
    elif t == "other":
        g = _gather(n) if n.op in ("add", "mul") else None
        x = n if g is None else g
        if g is not None and isinstance(_tag(g), tuple):
            m = _tabulate(g)
        else:
            args = [_tabulate(a) for a in x.args]
            m = x if all(p is q for p, q in zip(args, x.args)) else N.rebuild(x, args)
    _tabulated[n.id] = m
    return m


_registry = {}


def _exact_at(e, i):
    """the rational value of a table at one year and month, or None"""
    (x,) = N.subst([e], {YY: N.num(int(GRID_Y[i])), MM: N.num(int(GRID_M[i]))})
    try:
        return C.canon(x).const()
    except (NotImplementedError, RecursionError):
        return None


def _table_leaf(n):
    r = _tab.get(n.id)
    if r is None:
        D = _D[_tagcache[n.id][1]]
        (e,) = N.subst([n], {N.cal("year", D): YY, N.cal("month", D): MM})
        (v,) = N.evalvec([e], {YY: GRID_Y, MM: GRID_M}, len(GRID_Y))
        if n.isbool:
            v = v.astype(bool)
            if v.all() or not v.any():
                r = N.bconst(bool(v.all()))
            else:
                r = N.bvar("table:%s:%d" % (hashlib.sha1(np.packbits(v).tobytes()).hexdigest(), D.id))
        else:
            v = v.astype(float) + 0.0
            size = float(np.max(np.abs(v))) if np.isfinite(v).all() else np.nan
            if size == size and float(np.max(v) - np.min(v)) <= 1e-12 * (size or 1):
                c = F(float(v[0]))
                k = c.limit_denominator(10 ** 9)
                r = N.num(k if abs(float(k) - float(c)) <= 1e-13 * abs(float(c)) else c)
            else:
                # offset and scale are split off exactly, so that tables that differ by them only share one leaf
                off = _exact_at(e, 0)
                scale = F(1)
                if off is not None:
                    v = v - float(off)
                    nz = int(np.argmax(np.abs(v) > 1e-12 * size))
                    x = _exact_at(e, nz)
                    if x is not None and x != off:
                        scale = x - off
                        v = v / float(scale)
                        for q in (1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 25, 50, 100, 1000):
                            if np.max(np.abs(v * q - np.round(v * q))) < 1e-9:
                                v, scale = np.round(v * q) + 0.0, scale / q
                                break
                    size = float(np.max(np.abs(v)))
                known = _registry.setdefault(D.id, [])
                for u, leaf in known:
                    if size == size and np.max(np.abs(u - v)) <= 1e-12 * size:
                        r = leaf
                        break
                else:
                    r = N.var("table:%s:%d" % (hashlib.sha1(v.tobytes()).hexdigest(), D.id), bool((v == np.round(v)).all()))
                    known.append((v, r))
                r = N.add(N.mul(N.num(scale), r), N.num(off or 0))
        _tab[n.id] = r
    return r


# ------------------------------------------------------------------------------------ unit-circle lemma
_unit = {}


def unit_bounded(p, depth=0):
    """proves |p| <= 1 for a polynomial in sines and cosines (multilinear in one cosine/sine; a cos x + b sin x with a^2+b^2 <= 1)"""
    k = p.k()
    if k in _unit:
        return _unit[k]
    _unit[k] = False
    r = _unit_bounded(p, depth)
    _unit[k] = r
    return r


def _unit_bounded(p, depth):
    c = p.const()
    if c is not None:
        return abs(c) <= 1
    if depth > 6 or len(p.t) > 12:
        return False
    atoms = {}
    for m in p.t:
        for a, e in m:
            kind = C._info[a][0]
            if kind not in ("sin", "cos") or e.denominator != 1 or e < 1:
                return False
            atoms[a] = max(atoms.get(a, 0), e)
    # one angle: p = A sin x + B cos x with A, B free of x: |p| <= sqrt(A^2+B^2)
    angles = {}
    for a in atoms:
        angles.setdefault(C._info[a][1], set()).add(a)
    for ang, at in angles.items():
        A = {C._info[a][0]: a for a in at}
        parts = {"sin": {}, "cos": {}, "": {}}
        ok = True
        for m, cf in p.t.items():
            d = dict(m)
            hit = [a for a in at if a in d]
            if len(hit) > 1 or (hit and d[hit[0]] != 1):
                ok = False
                break
            key = C._info[hit[0]][0] if hit else ""
            mm = tuple(x for x in m if not hit or x[0] != hit[0])
            parts[key][mm] = parts[key].get(mm, 0) + cf
        if not ok:
            continue
        P = {k: C.Poly(v) for k, v in parts.items()}
        if not P[""].t:
            s = C.padd(C.pmul(P["sin"], P["sin"]), C.pmul(P["cos"], P["cos"]))
            if unit_bounded(s, depth + 1):
                return True
        if not (P["sin"].t and P["cos"].t):      # linear in one of them: extremes at +-1
            q = P["sin"] if P["sin"].t else P["cos"]
            if unit_bounded(C.padd(P[""], q), depth + 1) and unit_bounded(C.padd(P[""], q, -1), depth + 1):
                return True
    return False


def _bounded(n):
    try:
        return unit_bounded(C.canon(n))
    except RecursionError:
        return False


def unclamp(roots):
    """drop min/max against +-1 around terms proved to lie in [-1, 1]"""
    mapping = {}
    for n in N.topo(roots):
        args = [mapping.get(a, a) for a in n.args]
        m = n if all(x is y for x, y in zip(args, n.args)) else N.rebuild(n, args)
        if m.op == "ite" and m.args[0].op in ("lt", "le"):
            a, b = m.args[0].args
            x, y = m.args[1], m.args[2]
            if {a.id, b.id} == {x.id, y.id}:
                ismax = x is b                      # ite(a<b, b, a)
                cn, t = (a, b) if N.isnum(a) else (b, a)
                if N.isnum(cn) and abs(cn.data) == 1 and t.args and _bounded(t):
                    m = t if (cn.data == -1) == ismax else cn
        if m is not n:
            mapping[n] = m
    return [mapping.get(r, r) for r in roots]


_norm = {}


def normal(roots):
    """roots after tabulation and clamp removal"""
    out = []
    for r in roots:
        k = _norm.get(r.id)
        if k is None:
            (k,) = unclamp(tabulate([r]))
            _norm[r.id] = k
        out.append(k)
    return out


def ckey(n):
    return (C.ind(n) if n.isbool else C.canon(n)).k()


_same = {}


def proved_equal(a, b, assume=N.TRUE):
    """'identical', 'normal form', 'tabulated', 'cases' or None"""
    if a is b:
        return "identical graph"
    k = (a.id, b.id, assume.id)
    if k not in _same:
        r = None
        try:
            if C.same(a, b):
                r = "normal form"
            else:
                x, y = normal([a, b])
                if C.same(x, y):
                    r = "normal form + table/clamp lemma"
                else:
                    (g,) = normal([assume])
                    if cases.equal(x, y, g):
                        r = "case distinction"
        except (NotImplementedError, RecursionError):
            r = None
        _same[k] = r
    return _same[k]


# ------------------------------------------------------------------------------------ sampling
class Point(dict):
    pass


def var_samples(v, n, rng):
    kind = api.VARKIND.get(v)
    if v.op == "bvar":
        return rng.random(n) < 0.5
    if kind == "time" or str(v.data).startswith("clock!"):
        return times.sample(n, rng)
    if kind == "offset":
        x = np.round(rng.uniform(-14 * 4, 14 * 4, n)) * 900.0
        sp = np.array([0, 3600, -3600, 43200, -43200, 50400, 20700, -39600, 86340, -86340.])
        return np.where(rng.random(n) < 0.3, rng.choice(sp, n), x)
    lo, hi, sp, _ = api.KINDS.get(kind, (-1000, 1000, (0, 1, -1), "none"))
    x = rng.uniform(lo, hi, n)
    if v.isint or kind == "day":
        x = np.round(x)
    elif kind not in ("jd",):
        d = rng.random(n)
        x = np.where(d < 0.15, np.clip(np.round(x), lo, hi), x)
    if sp:
        s = np.array([float(q) for q in sp])
        x = np.where(rng.random(n) < 0.25, rng.choice(s, n), x)
    return x


def inrange(v, x):
    kind = api.VARKIND.get(v)
    if kind == "time":
        return times.LO <= x <= times.HI
    if kind == "offset":
        return -86400 < x < 86400
    r = api.KINDS.get(kind)
    return r is None or r[0] <= x <= r[1]


CMP = ("lt", "le", "eq")


def atoms_of(roots):
    return [n for n in N.topo(roots) if n.op in CMP]


def nice(x):
    """neighbouring short decimals of x"""
    out = [x]
    for d in range(0, 10):
        out.append(round(x, d))
    return out


class Env:
    """sample points aimed at the comparisons of `focus` that `known` does not contain"""

    def __init__(self, roots, focus=(), known=(), n=4000, seed=1, fixed=None):
        self.rng = np.random.default_rng(seed)
        self.fixed = fixed or {}
        vs = set()
        for r in list(roots) + list(focus):
            vs |= N.free_vars(r)
        self.vars = sorted((v for v in vs if v.op != "opaque"), key=lambda v: str(v.data))
        self.n = n
        self.env = {v: np.asarray(var_samples(v, n, self.rng)) for v in self.vars}
        self.notes = []
        if focus:
            self._direct(list(focus), list(known))

    def ev(self, roots, env=None):
        env = env or self.env
        n = len(next(iter(env.values()))) if env else 1
        return N.evalvec(roots, env, n)

    def _append(self, pts):
        if not pts:
            return
        for v in self.vars:
            self.env[v] = np.concatenate([self.env[v], np.array([p[v] for p in pts])])
        self.n = len(self.env[self.vars[0]])

    def point(self, i):
        return {v: self.env[v][i] for v in self.vars}

    def _direct(self, focus, known):
        kn = set()
        for a in atoms_of(known):
            kn.add(a.id)
            kn.add(ckey(a))
        at = [a for a in atoms_of(focus) if a.id not in kn]
        at = [a for a in at if N.free_vars(a)]
        seen, todo = set(), []
        for a in at:
            try:
                k = ckey(a)
            except (NotImplementedError, RecursionError):
                k = a.id
            if k in kn or k in seen:
                continue
            seen.add(k)
            todo.append(a)
        self.unshared = todo
        if not todo or not self.vars:
            return
        todo = todo[:60]
        groups = []                      # (vars, [points]) per atom and polarity
        diffs = []
        for a in todo:
            x, y = a.args
            if x.isbool or y.isbool:
                diffs.append(None)
            else:
                diffs.append(N.sub(x, y))
        vals = self.ev([d if d is not None else N.ZERO for d in diffs])
        extra = []
        for a, d, dv in zip(todo, diffs, vals):
            if d is None:
                continue
            fv = sorted(N.free_vars(a) - N_opaque(a), key=lambda v: str(v.data))
            fv = [v for v in fv if v in self.env]
            pts = {}
            fin = np.isfinite(dv)
            for pol, cond in (("neg", fin & (dv < 0)), ("pos", fin & (dv > 0)), ("zero", fin & (dv == 0))):
                idx = np.nonzero(cond)[0]
                if len(idx):
                    ch = self.rng.choice(idx, min(6, len(idx)), replace=False)
                    pts[pol] = [self.point(i) for i in ch]
            # roots between samples of opposite sign
            if "neg" in pts and "pos" in pts:
                z = []
                for p, q in zip(pts["neg"], pts["pos"]):
                    z += self._bisect(d, p, q, fv)
                if z:
                    pts.setdefault("zero", []).extend(z)
            else:
                z = self._descend(d, fv, dv)
                for p in z:
                    s = self._at(d, p)
                    pts.setdefault("neg" if s < 0 else "pos" if s > 0 else "zero", []).append(p)
                if z and "neg" in pts and "pos" in pts:
                    pts.setdefault("zero", []).extend(self._bisect(d, pts["neg"][-1], pts["pos"][-1], fv))
            for pol, ps in pts.items():
                if ps:
                    groups.append((fv, ps))
                    extra += ps
        if not groups:
            return
        # recombination: fresh values for the other variables, witnesses kept for the variables of each atom
        k = min(4000, 60 * len(groups) + 200)
        base = {v: np.asarray(var_samples(v, k, self.rng)).astype(bool if v.op == "bvar" else float) for v in self.vars}
        order = np.arange(len(groups))
        for i in range(k):
            m = 1 + int(self.rng.integers(0, min(4, len(groups))))
            for g in self.rng.choice(order, m, replace=False):
                fv, ps = groups[g]
                p = ps[int(self.rng.integers(0, len(ps)))]
                for v in fv:
                    base[v][i] = p[v]
        self._append(extra)
        for v in self.vars:
            self.env[v] = np.concatenate([self.env[v], base[v]])
        self.n = len(self.env[self.vars[0]])

    def _at(self, d, p):
        (r,) = N.evalvec([d], {v: np.array([float(p[v])]) if v.op != "bvar" else np.array([p[v]]) for v in self.vars}, 1)
        return float(r[0])

    def _line(self, d, p, q, ts):
        env = {}
        for v in self.vars:
            if v.op == "bvar":
                env[v] = np.where(ts < 0.5, p[v], q[v])
            else:
                env[v] = p[v] + (q[v] - p[v]) * ts
        (r,) = N.evalvec([d], env, len(ts))
        return env, r

    def _bisect(self, d, p, q, fv):
        """points around a root of d on the segment p..q (only the variables of d move); exact short decimals when one variable moves"""
        out = []
        movers = [fv] + ([[v] for v in fv] if len(fv) > 1 else [])
        for mv in movers[:4]:
            a = dict(p)
            b = dict(p)
            for v in mv:
                b[v] = q[v]
            lo, hi = 0.0, 1.0
            env, r = self._line(d, a, b, np.linspace(0, 1, 65))
            s = np.sign(r)
            k = np.nonzero((s[:-1] * s[1:] < 0))[0]
            if not len(k):
                continue
            ts = np.linspace(0, 1, 65)
            lo, hi = ts[k[0]], ts[k[0] + 1]
            for _ in range(6):
                tt = np.linspace(lo, hi, 257)
                env, r = self._line(d, a, b, tt)
                s = np.sign(r)
                kk = np.nonzero(s[:-1] * s[1:] <= 0)[0]
                if not len(kk):
                    break
                lo, hi = tt[kk[0]], tt[kk[0] + 1]
            for t in (lo, hi):
                pt = dict(a)
                for v in mv:
                    pt[v] = a[v] + (b[v] - a[v]) * t if v.op != "bvar" else (a[v] if t < 0.5 else b[v])
                out.append(pt)
                if len(mv) == 1 and mv[0].op != "bvar":
                    for x in nice(pt[mv[0]]):
                        if inrange(mv[0], x):
                            w = dict(pt)
                            w[mv[0]] = x
                            if self._at(d, w) == 0:
                                out.append(w)
                                break
        return out

    def _descend(self, d, fv, dv):
        """push |d| towards zero from the best samples (no sign change seen)"""
        fin = np.where(np.isfinite(dv), np.abs(dv), np.inf)
        if not np.isfinite(fin).any() or not fv:
            return []
        start = np.argsort(fin)[:4]
        out = []
        for i in start:
            p = self.point(i)
            best = abs(self._at(d, p))
            scale = 0.3
            for _ in range(25):
                k = 200
                env = {v: np.full(k, p[v]) for v in self.vars}
                for v in fv:
                    if v.op == "bvar":
                        continue
                    if api.VARKIND.get(v) == "time":
                        w = 86400.0 * 400 * scale
                    elif api.VARKIND.get(v) in api.KINDS:
                        lo, hi = api.KINDS[api.VARKIND[v]][:2]
                        w = (hi - lo) * scale
                    else:
                        w = (abs(p[v]) + 1) * scale
                    mask = self.rng.random(k) < max(0.4, 1.0 / len(fv))
                    x = env[v] + np.where(mask, self.rng.normal(0, w, k), 0)
                    kd = api.KINDS.get(api.VARKIND.get(v))
                    if kd:
                        x = np.clip(x, kd[0], kd[1])
                    if api.VARKIND.get(v) == "time":
                        x = np.clip(x, times.LO, times.HI)
                    env[v] = x
                (r,) = N.evalvec([d], env, k)
                q = np.where(np.isfinite(r), r, np.inf)
                j = int(np.argmin(np.abs(q)))
                s0 = self._at(d, p)
                flip = np.nonzero(np.isfinite(r) & (np.sign(r) * np.sign(s0) <= 0))[0]
                if len(flip):
                    out.append({v: env[v][flip[0]] for v in self.vars})
                    break
                if abs(q[j]) < best:
                    best = abs(q[j])
                    p = {v: env[v][j] for v in self.vars}
                else:
                    scale *= 0.5
            else:
                out.append(p)
            if out and self._at(d, out[-1]) * self._at(d, self.point(i)) <= 0:
                break
        return out


def N_opaque(n):
    return frozenset(N.has_opaque(n))


def mpenv(p):
    # times and UTC offsets are whole microseconds
    return {v: (bool(x) if v.op == "bvar" else mp.mpf(repr(round(float(x), 6) if api.VARKIND.get(v) in ("time", "offset") else float(x))))
            for v, x in p.items()}


def show_point(p):
    out = {}
    for v, x in sorted(p.items(), key=lambda t: str(t[0].data)):
        k = api.VARKIND.get(v)
        if v.op == "bvar":
            out[str(v.data)] = bool(x)
        elif k == "time":
            out[str(v.data)] = times.iso(float(x))
        else:
            out[str(v.data)] = float(x)
    return out


class Diff:
    """a confirmed difference: the point, the value of each term there"""

    def __init__(self, point, a, b):
        self.point, self.a, self.b = point, a, b

    def text(self):
        return "at %s: code %s, expected %s" % (show_point(self.point), fmt(self.a), fmt(self.b))


def fmt(x):
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    try:
        return mp.nstr(x, 15)
    except Exception:
        return str(x)


SIZES = {"quick": 4000, "thorough": 30000}
TIER = ["quick"]
SEED = [1]
STATS = {"graph": 0, "normal": 0, "table": 0, "tested": 0, "points": 0, "refuted": 0}


def wraps(x, y):
    """x and y the same angle written on the two sides of a 0/360 seam"""
    d = abs(x - y)
    return abs(d - 360) < 1e-6 and min(abs(y), abs(y - 360)) < 1e-6


TRANSC = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "sqrt", "sinh", "cosh", "tanh", "pow"}


def degenerate(roots, memo):
    """the terms have no stable value at the evaluated point: the angle of a vanishing vector, or an undecided comparison of computed irrational
    quantities; there any rearrangement of the arithmetic may change the floating point result"""
    irr = {}
    for m in N.topo(roots):
        irr[m.id] = m.op in TRANSC or any(irr[a.id] for a in m.args)
        A = [memo.get(a.id) for a in m.args]
        if m.op == "atan2" and None not in A and all(abs(x) < 1e-12 for x in A) and any(irr[a.id] for a in m.args):
            return True
        if m.op in ("lt", "le", "eq") and irr[m.id] and None not in A and not any(mp.isnan(x) or mp.isinf(x) for x in A) \
                and all(irr[a.id] for a in m.args) and abs(A[0] - A[1]) < N.MPTOL * (1 + abs(A[0])):
            return True
    return False


def find_diff(a, b, assume=N.TRUE, tol=(1e-9, 1e-9), seam=True, n=None, trysites=14):
    """search a point (satisfying assume) where the terms differ by more than tol[0]+tol[1]*|b|; confirmed with 50 digits"""
    n = n or SIZES[TIER[0]]
    E = Env([a, b, assume], focus=[a, assume], known=[b], n=n, seed=SEED[0])
    va, vb, vm = E.ev([a, b, assume])
    STATS["points"] += E.n
    isb = a.isbool or b.isbool
    ok = np.broadcast_to(vm, (E.n,)).astype(bool)
    if isb:
        bad = np.nonzero(ok & (va.astype(bool) != vb.astype(bool)))[0]
        score = np.ones(len(bad))
    else:
        va = va.astype(float)
        vb = vb.astype(float)
        with np.errstate(all="ignore"):
            d = np.abs(va - vb) / (tol[0] + tol[1] * np.abs(vb))
        same = (va == vb) | np.isnan(vb) | (np.isinf(vb) & ~np.isfinite(va))    # where the reference divides by zero it has no value
        d = np.where(same, 0, np.where(np.isnan(d), np.inf, d))
        if seam:
            with np.errstate(all="ignore"):
                sm = (np.abs(np.abs(va - vb) - 360) < 1e-6) & (np.minimum(np.abs(vb), np.abs(vb - 360)) < 1e-6)
            d = np.where(sm, 0, d)
        bad = np.nonzero(ok & (d > 1))[0]
        score = d[bad]
    if not len(bad):
        return None
    order = bad[np.argsort(-score, kind="stable")]
    pick = list(order[:trysites // 2])
    rest = order[trysites // 2:]
    if len(rest):
        pick += list(E.rng.choice(rest, min(len(rest), trysites - len(pick)), replace=False))
    for i in pick:
        p = E.point(i)
        m = mpenv(p)
        memo = {}
        if not N.evalmp(assume, m, memo):
            continue
        x, y = N.evalmp(a, m, memo), N.evalmp(b, m, memo)
        if isb:
            if bool(x) != bool(y) and not degenerate([a, b], memo):
                return Diff(p, bool(x), bool(y))
            continue
        if mp.isnan(y) or (mp.isinf(y) and (mp.isnan(x) or mp.isinf(x))):
            continue
        if x == y or degenerate([a, b], memo):
            continue
        if mp.isnan(x):
            return Diff(p, x, y)
        if mp.isinf(x) or mp.isinf(y) or abs(x - y) > tol[0] + tol[1] * abs(y):
            if seam and wraps(x, y):
                continue
            return Diff(p, x, y)
    return None


def large(*terms, limit=200):
    for i, _ in enumerate(N.topo(list(terms))):
        if i >= limit:
            return True
    return False


def equal(a, b, assume=N.TRUE, tol=(1e-9, 1e-9), seam=True):
    """-> (method, None) if no difference, ('refuted', Diff) otherwise"""
    d = find_diff(a, b, assume, tol, seam, n=64) if a is not b and large(a, b) else None
    if d:                                   # the normal form of a large difference can take very long
        STATS["refuted"] += 1
        return "refuted", d
    r = proved_equal(a, b, assume)
    if r:
        STATS["graph" if r.startswith("ident") else "normal" if r == "normal form" else "table"] += 1
        return r, None
    d = find_diff(a, b, assume, tol, seam) or find_diff(a, b, assume, tol, seam, n=8 * SIZES[TIER[0]])
    if d:
        STATS["refuted"] += 1
        return "refuted", d
    STATS["tested"] += 1
    return "identity testing", None


def sat(cond, known=(), n=None, exact_float=False):
    """a point where cond holds (confirmed with 50 digits, and in double precision if exact_float), or None"""
    if cond is N.FALSE:
        return None
    if cond is N.TRUE:
        return {}
    if impossible(cond):
        return None
    E = Env([cond], focus=[cond], known=known, n=n or SIZES[TIER[0]], seed=SEED[0])
    (v,) = E.ev([cond])
    STATS["points"] += E.n
    idx = np.nonzero(v.astype(bool))[0]
    if len(idx) > 12:
        idx = E.rng.choice(idx, 12, replace=False)
    for i in idx:
        p = E.point(i)
        if N.evalmp(cond, mpenv(p)):
            return p
    return None


def witnesses(cond, watch=(), limit=24):
    """confirmed points where cond holds, together with their double-precision values of the watched terms"""
    if cond is N.FALSE or impossible(cond):
        return []
    E = Env([cond] + list(watch), focus=[cond], n=SIZES[TIER[0]], seed=SEED[0])
    vals = E.ev([cond] + list(watch))
    STATS["points"] += E.n
    idx = np.nonzero(np.broadcast_to(vals[0], (E.n,)).astype(bool))[0]
    if len(idx) > limit:
        idx = E.rng.choice(idx, limit, replace=False)
    out = []
    for i in idx:
        p = E.point(i)
        if N.evalmp(cond, mpenv(p)):
            out.append((p, [np.broadcast_to(v, (E.n,))[i] for v in vals[1:]]))
    return out


def rounding_escape(arg, assume=N.TRUE):
    return _escape(arg, assume, 1) or _escape(arg, assume, -1)


def _escape(arg, assume, sign):
    """a point where the term, valued in double precision, leaves [-1, 1] although it is meant to be a sine or cosine"""
    E = Env([arg, assume], focus=[N.lt(N.ONE, arg), N.lt(arg, N.NEG1)], n=SIZES[TIER[0]], seed=SEED[0])
    v, m = E.ev([arg, assume])
    STATS["points"] += E.n
    best = np.where(np.broadcast_to(m, (E.n,)).astype(bool) & np.isfinite(v), sign * v, -1)
    for rnd in range(6):
        j = int(np.argmax(best))
        if best[j] > 1:
            return E.point(j), float(E.ev([arg])[0][j])
        if best[j] < 0.9 and rnd > 1:
            return None
        top = [E.point(i) for i in np.argsort(-best)[:8]]
        k = 2500
        rows = {u: [] for u in E.vars}
        for p in top:
            for u in E.vars:
                x = np.full(k, float(p[u])) if u.op != "bvar" else np.full(k, p[u])
                kd = api.KINDS.get(api.VARKIND.get(u))
                if kd and u.op != "bvar":
                    w = (kd[1] - kd[0]) * 10.0 ** E.rng.uniform(-9, -1, k)
                    mv = E.rng.random(k) < 0.5
                    y = np.where(mv, x + E.rng.normal(0, 1, k) * w, x)
                    others = [q for q in E.vars if q is not u and api.VARKIND.get(q) in api.KINDS]
                    if others:                      # equal magnitudes are where such sums reach 1
                        o = others[int(E.rng.integers(0, len(others)))]
                        c = E.rng.random(k)
                        y = np.where(c < 0.25, (np.array(rows[o][-1]) if len(rows[o]) > len(rows[u]) else float(p[o])), y)
                    if kd[2]:
                        y = np.where(E.rng.random(k) < 0.2, E.rng.choice(np.array([float(q) for q in kd[2]]), k), y)
                    x = np.clip(y, kd[0], kd[1])
                rows[u].append(x)
        env = {u: np.concatenate(rows[u]) for u in E.vars}
        if not env:
            return None
        n = k * len(top)
        (a, mm) = N.evalvec([arg, assume], env, n)
        E.env, E.n = env, n
        best = np.where(np.broadcast_to(mm, (n,)).astype(bool) & np.isfinite(a), sign * a, -1)
    j = int(np.argmax(best))
    if best[j] > 1:
        return E.point(j), float(E.ev([arg])[0][j])
    if best[j] >= 1 - 1e-13:
        return unguarded(arg, E.point(j))
    return None


def unguarded(arg, p):
    """the sum whose value reaches 1 at the point, if nothing between it and the arc function bounds it against the rounding error of that sum"""
    env = {v: np.array([x]) for v, x in p.items()}
    leaf = arg
    while leaf.op == "ite":
        leaf = leaf.args[1] if bool(np.broadcast_to(N.evalvec([leaf.args[0]], env, 1)[0], (1,))[0]) else leaf.args[2]
    if leaf.op != "add":
        return None
    z = N.var("rounded!%d" % arg.id)
    (q,) = N.subst([arg], {leaf: z})
    x = float(np.broadcast_to(N.evalvec([leaf], env, 1)[0], (1,))[0])
    env[z] = np.array([math.copysign(1 + 2.0 ** -52, x)])
    r = float(np.broadcast_to(N.evalvec([q], env, 1)[0], (1,))[0])
    return (p, r) if abs(r) > 1 else None


_imp = {}


def impossible(cond):
    """cond is proved unsatisfiable"""
    if cond is N.FALSE:
        return True
    r = _imp.get(cond.id)
    if r is None:
        r = False
        try:
            (c2,) = normal([cond])
            if c2 is N.FALSE:
                r = True
            elif sum(1 for m in N.topo([c2]) if m.op in ("and", "or", "not", "ite")) <= 60:
                r = not C.ind(c2).t
            if not r and len(N.topo([c2])) <= 4000:
                r = cases.unsatisfiable(c2)
        except (NotImplementedError, RecursionError):
            r = False
        _imp[cond.id] = r
    return r


# ------------------------------------------------------------------------------------ ranges
def out_of_range(node, lo, hi, assume=N.TRUE, slack=1e-9):
    """(method, None) or ('refuted', (point, value)): does node leave [lo, hi]?"""
    from . import interval
    a, b = interval.iv(node)
    if (lo is None or a >= lo - 1e-9) and (hi is None or b <= hi + 1e-9):
        return "interval", None
    facts = interval.facts_of(assume)
    if facts:
        a, b = interval.iv(node, facts)
        if (lo is None or a >= lo - 1e-9) and (hi is None or b <= hi + 1e-9):
            return "interval", None
    conds = []
    if lo is not None:
        conds.append(N.lt(node, N.num(lo)))
    if hi is not None:
        conds.append(N.lt(N.num(hi), node))
    if interval.subdivide(node, lambda q: (lo is None or q[0] >= lo - 1e-9) and (hi is None or q[1] <= hi + 1e-9), facts or None) is not None:
        return "interval subdivision", None
    if all(impossible(N.land(assume, c)) for c in conds):
        return "case distinction", None
    for n in (SIZES[TIER[0]], 10 * SIZES[TIER[0]]):
        hit = _leaves(node, lo, hi, assume, conds, n, slack)
        if hit:
            return "refuted", hit
    return "identity testing", None


def _leaves(node, lo, hi, assume, conds, n, slack):
    E = Env([node, assume], focus=conds + [assume] + [node], n=n, seed=SEED[0])
    v, m = E.ev([node, assume])
    STATS["points"] += E.n
    v = v.astype(float)
    ex = np.full(E.n, -np.inf)
    if lo is not None:
        ex = np.maximum(ex, lo - v)
    if hi is not None:
        ex = np.maximum(ex, v - hi)
    ex = np.where(m.astype(bool) & np.isfinite(v), ex, -np.inf)
    for i in np.argsort(-ex)[:10]:
        if not ex[i] > 0:
            break
        p = E.point(i)
        e = mpenv(p)
        memo = {}
        if not N.evalmp(assume, e, memo):
            continue
        x = N.evalmp(node, e, memo)
        if mp.isnan(x):
            continue
        if (lo is not None and x < lo - slack) or (hi is not None and x > hi + slack):
            return p, x
    return None


# ------------------------------------------------------------------------------------ internal errors stay local
def guarded(f):
    """an internal error makes the obligation at hand undecided, not the whole run"""
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        from .values import Undecided
        from .report import Enough
        try:
            return f(*a, **k)
        except (Undecided, Enough, MemoryError):
            raise
        except Exception as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            raise Undecided("internal error in the analysis: %r (%s:%d)" % (x, tb.filename.rsplit("/", 1)[-1], tb.lineno))
    return g


equal, sat, witnesses, rounding_escape, out_of_range = map(guarded, (equal, sat, witnesses, rounding_escape, out_of_range))
