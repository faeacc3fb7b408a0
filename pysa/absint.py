"""Abstract interpreter for the Python subset used by pysolar (and well beyond it).

The source is parsed and its statements are transferred over abstract values; branches on unknown
conditions are merged at the join with gated (ite) nodes, so every function yields one value graph,
the guards under which it raises, and the obligations (hazards) met on the way.  The analysed code
is never imported or executed.
"""
import ast
import builtins as _pyb
import os
import sys
from fractions import Fraction

from . import nodes as N
from . import canon as C
from .values import *

sys.setrecursionlimit(60000)

MAX_UNROLL = 700
MAX_DEPTH = 80

_BUILTIN_EXC = {}


def bexc(name):
    c = _BUILTIN_EXC.get(name)
    if c is None:
        py = getattr(_pyb, name)
        bases = [bexc(b.__name__) for b in py.__bases__ if b.__name__ != "object"] or [OBJECT]
        c = Cls(name, bases, None, builtin=True)
        _BUILTIN_EXC[name] = c
    return c


OBJECT = Cls("object", [], None, builtin=True)
BTYPES = {n: Cls(n, [OBJECT], None, builtin=True) for n in
          ("int", "float", "str", "list", "tuple", "dict", "set", "frozenset", "type", "complex", "bytes", "function",
           "NoneType", "range", "generator", "module", "super", "property", "staticmethod", "classmethod", "slice", "ellipsis")}
BTYPES["bool"] = Cls("bool", [BTYPES["int"]], None, builtin=True)
ND = {n: Cls(n, [OBJECT], None, builtin=True) for n in ("ndarray", "generic", "datetime64", "timedelta64")}
ND["float64"] = Cls("float64", [BTYPES["float"], ND["generic"]], None, builtin=True)
ND["bool_"] = Cls("bool_", [ND["generic"]], None, builtin=True)
DTC = {n: Cls(n, [OBJECT], None, builtin=True) for n in ("date", "timedelta", "tzinfo", "time", "struct_time")}
DTC["datetime"] = Cls("datetime", [DTC["date"]], None, builtin=True)
DTC["timezone"] = Cls("timezone", [DTC["tzinfo"]], None, builtin=True)


def _bounds0(n, d=6):
    """cheap bounds of a node (lo, hi) or None ends"""
    o = n.op
    if o == "num":
        return n.data, n.data
    if d == 0:
        return None, None
    if o == "cal":
        return {"year": (1, 9999), "month": (1, 12), "mday": (1, 31)}.get(n.data, (None, None))
    if o == "mod" and N.isnum(n.args[1]) and n.args[1].data > 0:
        hi = n.args[1].data
        return 0, (hi - 1 if n.isint else hi)
    if o == "b2n":
        return 0, 1
    if o == "abs":
        return 0, None
    if o == "add":
        a, b = _bounds0(n.args[0], d - 1), _bounds0(n.args[1], d - 1)
        return (None if a[0] is None or b[0] is None else a[0] + b[0],
                None if a[1] is None or b[1] is None else a[1] + b[1])
    if o == "mul" and N.isnum(n.args[0]):
        c = n.args[0].data
        a = _bounds0(n.args[1], d - 1)
        x = [None if v is None else v * c for v in a]
        return (x[0], x[1]) if c >= 0 else (x[1], x[0])
    if o == "ite":
        a, b = _bounds0(n.args[1], d - 1), _bounds0(n.args[2], d - 1)
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if o in ("floor", "trunc", "round"):
        a = _bounds0(n.args[0], d - 1)
        import math
        return (None if a[0] is None else math.floor(a[0]), None if a[1] is None else math.ceil(a[1]) if o != "floor" else math.floor(a[1]))
    return None, None


_b0 = {}


def bounds0(n):
    r = _b0.get(n)
    if r is None:
        r = _b0[n] = _bounds0(n)
    return r


class St(dict):
    """heap: cells by number; w holds the numbers written since the heap it was branched off from (base)"""
    __slots__ = ("base", "w")

    def __setitem__(self, k, v):
        self.w.add(k)
        dict.__setitem__(self, k, v)


def fork(st, child=False):
    """a copy of a heap; a child may only be taken of a heap that is not written any more"""
    r = St(st)
    if child or not isinstance(st, St):
        r.base, r.w = st, set()
    else:
        r.base, r.w = st.base, st.w      # shared: more numbers than needed do no harm
    return r


def changed(a, b):
    """(common ancestor, numbers of the cells in which a and b may differ); (None, None): unknown"""
    up, x = {}, a
    while isinstance(x, St):
        up[id(x)] = x
        x = x.base
    up[id(x)] = x
    w, y = set(), b
    while id(y) not in up:
        if not isinstance(y, St):
            return None, None
        w |= y.w
        y = y.base
    x = a
    while x is not y:
        w |= x.w
        x = x.base
    return y, w


class PC:
    """path condition: chain of literals with derived facts and integer bounds"""
    __slots__ = ("parent", "lit", "facts", "bounds", "n", "memo")

    def __init__(self, parent=None, lit=None, facts=frozenset(), bounds=None, n=0):
        self.parent, self.lit, self.facts, self.bounds, self.n = parent, lit, facts, bounds or {}, n
        self.memo = {}

    def decide(self, c):
        r = self.memo.get(c, 0)
        if r == 0 and r is not False:
            r = self.memo[c] = self._decide(c)
        return r

    def _decide(self, c):
        if c is N.TRUE:
            return True
        if c is N.FALSE:
            return False
        if c in self.facts:
            return True
        if N.lnot(c) in self.facts:
            return False
        o = c.op
        if o == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if o == "and":
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if o == "or":
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if o in ("lt", "le", "eq"):
            x, y = c.args
            lx, hx, ex = self.bnd(x)
            ly, hy, ey = self.bnd(y)
            if o == "eq":
                if lx is not None and hx is not None and lx == hx == ly == hy:
                    return True
                if (hx is not None and ly is not None and hx < ly) or (hy is not None and lx is not None and hy < lx):
                    return False
                if N.isnum(y) and y.data in ex or N.isnum(x) and x.data in ey:
                    return False
                return None
            if hx is not None and ly is not None and (hx < ly or (o == "le" and hx <= ly)):
                return True
            if lx is not None and hy is not None and (lx > hy or (o == "lt" and lx >= hy)):
                return False
        return None

    def bnd(self, x):
        b = self.bounds.get(x)
        lo, hi = bounds0(x)
        ex = ()
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
            ex = b[2]
        return lo, hi, ex

    def ext(self, c):
        """self and c; None if contradictory"""
        d = self.decide(c)
        if d is True:
            return self
        if d is False:
            return None
        facts = set(self.facts)
        bounds = dict(self.bounds)
        todo = [c]
        while todo:
            x = todo.pop()
            if x in facts:
                continue
            facts.add(x)
            if x.op == "and":
                todo.extend(x.args)
            elif x.op == "not" and x.args[0].op == "or":
                todo.extend(N.lnot(a) for a in x.args[0].args)
            else:
                self._bound(bounds, x)
        for k, (lo, hi, ex) in bounds.items():
            if lo is not None and hi is not None and lo > hi:
                return None
        return PC(self, c, frozenset(facts), bounds, self.n + 1)

    def _bound(self, B, c):
        pos = True
        if c.op == "not":
            pos, c = False, c.args[0]
        if c.op not in ("lt", "le", "eq"):
            return
        x, y = c.args
        if N.isnum(x) == N.isnum(y):
            return
        if N.isnum(y):
            v, k, side = x, y.data, 0      # v op k
        else:
            v, k, side = y, x.data, 1      # k op v
        lo, hi, ex = B.get(v) or (None, None, frozenset())
        l0, h0 = bounds0(v)
        lo = l0 if lo is None else lo if l0 is None else max(lo, l0)
        hi = h0 if hi is None else hi if h0 is None else min(hi, h0)
        op = c.op
        if op == "eq":
            if pos:
                lo = k if lo is None else max(lo, k)
                hi = k if hi is None else min(hi, k)
            else:
                ex = ex | {k}
        else:
            strict = (op == "lt") == pos
            upper = (side == 0) == pos      # v <(=) k
            if v.isint:
                import math
                if upper:
                    kk = (math.ceil(k) - 1) if strict else math.floor(k)
                else:
                    kk = (math.floor(k) + 1) if strict else math.ceil(k)
            else:
                kk = k
            if upper:
                hi = kk if hi is None else min(hi, kk)
            else:
                lo = kk if lo is None else max(lo, kk)
        if v.isint:
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
        B[v] = (lo, hi, ex)

    def rel(self, base):
        """condition collected since base"""
        r = N.TRUE
        p = self
        lits = []
        while p is not base:
            if p is None:
                raise AssertionError("rel")
            lits.append(p.lit)
            p = p.parent
        for l in reversed(lits):
            r = N.land(r, l)
        return r


class Outcome:
    """result of calling a function abstractly"""
    def __init__(self):
        self.value = None
        self.returns = False
        self.raises = []      # (guard, exception class, message, site)
        self.hazards = []     # dict
        self.events = []
        self.pc = None


_localcache = {}


def local_names(fn):
    """names bound in a function body (not nested scopes), and whether it is a generator"""
    r = _localcache.get(id(fn))
    if r is not None:
        return r[0], r[1]
    names, glob, gen = set(), set(), [False]

    def targets(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        walk(s)
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        names.add(x.arg)
    names -= glob
    _localcache[id(fn)] = (frozenset(names), gen[0], fn)
    return _localcache[id(fn)][0], gen[0]


class Interp:
    def __init__(self, roots, numpy=True, package="pysolar"):
        self.roots = roots                # search path for source modules
        self.numpy = numpy
        self.st = fork({})
        self.pc = PC()
        self.modules = {}
        self.nid = 0
        self.raises = [[]]
        self.trycatch = []
        self.fns = []
        self.hazards = []
        self.events = []
        self.prims = set()
        self.depth = 0
        self.kcount = 0
        self.site = ("?", "?", 0)
        self.callsites = 0
        self.visited = set()
        self.steps = 0
        self.handling = []
        self.sources = {}
        self.fresh = 0
        self.step_limit = 6_000_000
        self.callpath = []
        from . import extlib
        self.ext = extlib.Ext_lib(self)

    # ------------------------------------------------------------------ heap
    def alloc(self, content, kind):
        self.nid += 1
        self.st[self.nid] = content
        return Ref(self.nid, kind)

    def newlist(self, items, guards=None, kind="list"):
        items = tuple(items)
        if guards is not None and all(g is None or g is N.TRUE for g in guards):
            guards = None
        return self.alloc(("list", items, tuple(guards) if guards is not None else None), kind)

    def newdict(self, pairs=()):
        r = self.alloc(("dict", ()), "dict")
        for k, v in pairs:
            self.dict_set(r, k, v)
        return r

    def newarr(self, node, owner=frozenset(), isint=False):
        return self.alloc(("arr", node, owner), "arr")

    def arrnode(self, ref):
        return self.get(ref)[1]

    def get(self, ref):
        c = self.st[ref.id]
        return c

    def put(self, ref, content):
        self.st[ref.id] = content

    # ------------------------------------------------------------------ exceptions, hazards, events
    def event(self, kind, detail, node=None):
        self.events.append(dict(kind=kind, detail=detail, site=self.site, pc=self.pc, fn=self.curfn()))

    def curfn(self):
        return self.fns[-1].name if self.fns else "<module>"

    def mkexc(self, cls, msg=None):
        return self.alloc(("obj", cls, {"args": (msg,) if msg is not None else ()}), "obj")

    def throw(self, name, msg):
        """raise a builtin exception unconditionally"""
        cls = bexc(name) if isinstance(name, str) else name
        x = self.mkexc(cls, msg)
        self.raises[-1].append((self.pc, fork(self.st), x, self.site, list(self.callpath)))
        raise Dead()

    def throw_value(self, exc):
        self.raises[-1].append((self.pc, fork(self.st), exc, self.site, list(self.callpath)))
        raise Dead()

    def throw_if(self, cond, name, msg):
        d = self.pc.decide(cond)
        if d is False:
            return
        if d is True:
            self.throw(name, msg)
        p = self.pc.ext(cond)
        if p is None:
            return
        x = self.mkexc(bexc(name), msg)
        self.raises[-1].append((p, fork(self.st), x, self.site, list(self.callpath)))
        q = self.pc.ext(N.lnot(cond))
        if q is None:
            raise Dead()
        self.pc = q

    def caught(self, name):
        cls = bexc(name)
        for handlers in self.trycatch:
            for h in handlers:
                if h in cls.mro:
                    return True
        return False

    def hazard(self, kind, cond, detail, arg=None, raising=True):
        """kind: exception name; cond: bool node under which it happens"""
        d = self.pc.decide(cond)
        if d is False:
            return
        if raising and (d is True or self.caught(kind)):
            if d is True or self.caught(kind):
                self.throw_if(cond, kind, detail)
                return
        self.hazards.append(dict(kind=kind, cond=cond, pc=self.pc, detail=detail, arg=arg, site=self.site,
                                 raising=raising, fn=self.curfn(), path=list(self.callpath)))

    def undecided(self, reason):
        raise Undecided(reason, self.site)

    # ------------------------------------------------------------------ merging
    def mergeval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            if a.n is b.n and a.k == b.k:
                return a
            if a.k == b.k:
                k = a.k
            elif {a.k, b.k} <= {"np", "npb"}:
                k = "np"
            elif {a.k, b.k} == {"bool", "npb"}:
                k = "bool"
            elif {a.k, b.k} == {"bool", "int"}:
                k = "int"
            else:
                k = "float"
            if a.n.isbool != b.n.isbool:
                return Num(N.ite(c, N.asnum(a.n), N.asnum(b.n)), k)
            return Num(N.ite(c, a.n, b.n), k)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mergeval(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (str, bytes)) and a == b and type(a) is type(b):
            return a
        if isinstance(a, DT) and isinstance(b, DT) and (a.tz is None) == (b.tz is None):
            tz = a.tz
            if a.tz is not None and b.tz is not None and a.tz is not b.tz:
                tz = TZ(N.ite(c, a.tz.off, b.tz.off), "merged")
            return DT(N.ite(c, a.inst, b.inst), tz)
        if isinstance(a, TD) and isinstance(b, TD):
            return TD(N.ite(c, a.sec, b.sec))
        if isinstance(a, TT) and isinstance(b, TT):
            return TT(N.ite(c, a.sec, b.sec))
        if isinstance(a, Date) and isinstance(b, Date):
            return Date(N.ite(c, a.day, b.day))
        if isinstance(a, TZ) and isinstance(b, TZ):
            return TZ(N.ite(c, a.off, b.off), "merged")
        if isinstance(a, DT64) and isinstance(b, DT64) and a.unit == b.unit and a.arr == b.arr:
            return DT64(N.ite(c, a.sec, b.sec), a.unit, a.arr)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "arr":
            # content of a fresh cell; aliasing of the originals is kept through the owners
            x, y = self.st.get(a.id), self.st.get(b.id)
            if x and y:
                return self.newarr(N.ite(c, x[1], y[1]), x[2] | y[2])
        if isinstance(a, Prim) and a == b:
            return a
        if isinstance(a, Ext) and a == b:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and self.same_value(a.self, b.self):
            return a
        if a is None and b is None:
            return None
        alts = []
        for g, v in ((c, a), (N.lnot(c), b)):
            if isinstance(v, Choice):
                alts.extend((N.land(g, h), w) for h, w in v.alts)
            else:
                alts.append((g, v))
        # coalesce identical alternatives
        out = []
        for g, v in alts:
            for i, (h, w) in enumerate(out):
                if self.same_value(v, w):
                    out[i] = (N.lor(h, g), w)
                    break
            else:
                out.append((g, v))
        if len(out) == 1:
            return out[0][1]
        return Choice(out)

    def same_value(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Num):
            return a.n is b.n and a.k == b.k
        if isinstance(a, Ref):
            return a.id == b.id
        if isinstance(a, (str, bytes, Prim, Ext)):
            return a == b
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same_value(x, y) for x, y in zip(a, b))
        return False

    def mergecontent(self, c, x, y):
        if x is y:
            return x
        if x[0] == y[0]:
            if x[0] == "env":
                d = {}
                for k in list(x[1]) + [k for k in y[1] if k not in x[1]]:
                    if k in x[1] and k in y[1]:
                        d[k] = self.mergeval(c, x[1][k], y[1][k])
                    elif k in x[1]:
                        d[k] = x[1][k]      # possibly unbound on the other branch; use is reported by name checks
                    else:
                        d[k] = y[1][k]
                return ("env", d)
            if x[0] == "list":
                n = min(len(x[1]), len(y[1]))
                gx = x[2] or (None,) * len(x[1])
                gy = y[2] or (None,) * len(y[1])
                items, gs = [], []
                if len(x[1]) == len(y[1]) or all(self.same_value(p, q) for p, q in zip(x[1][:n], y[1][:n])) or n == 0:
                    for i in range(n):
                        items.append(self.mergeval(c, x[1][i], y[1][i]))
                        a, b = gx[i] or N.TRUE, gy[i] or N.TRUE
                        gs.append(N.lor(N.land(c, a), N.land(N.lnot(c), b)) if a is not b else a)
                    for i in range(n, len(x[1])):
                        items.append(x[1][i])
                        gs.append(N.land(c, gx[i] or N.TRUE))
                    for i in range(n, len(y[1])):
                        items.append(y[1][i])
                        gs.append(N.land(N.lnot(c), gy[i] or N.TRUE))
                else:
                    for i in range(len(x[1])):
                        items.append(x[1][i])
                        gs.append(N.land(c, gx[i] or N.TRUE))
                    for i in range(len(y[1])):
                        items.append(y[1][i])
                        gs.append(N.land(N.lnot(c), gy[i] or N.TRUE))
                if all(g is N.TRUE for g in gs):
                    gs = None
                return ("list", tuple(items), tuple(g if g is not N.TRUE else None for g in gs) if gs else None)
            if x[0] in ("dict", "set"):
                out = []
                used = set()
                for k, v, g in x[1]:
                    j = next((j for j, e in enumerate(y[1]) if j not in used and self.same_key(e[0], k)), None)
                    if j is not None:
                        used.add(j)
                        h = y[1][j][2]
                        a, b = g or N.TRUE, h or N.TRUE
                        gg = a if a is b else N.lor(N.land(c, a), N.land(N.lnot(c), b))
                        out.append((k, self.mergeval(c, v, y[1][j][1]), None if gg is N.TRUE else gg))
                    else:
                        out.append((k, v, N.land(c, g or N.TRUE)))
                for j, (k, v, g) in enumerate(y[1]):
                    if j not in used:
                        out.append((k, v, N.land(N.lnot(c), g or N.TRUE)))
                return (x[0], tuple(out))
            if x[0] == "obj" and x[1] is y[1]:
                d = {}
                for k in list(x[2]) + [k for k in y[2] if k not in x[2]]:
                    if k in x[2] and k in y[2]:
                        d[k] = self.mergeval(c, x[2][k], y[2][k])
                    else:
                        d[k] = x[2].get(k, y[2].get(k))
                return ("obj", x[1], d)
            if x[0] == "arr":
                return ("arr", N.ite(c, x[1], y[1]), x[2] | y[2])
        self.undecided("merge of different objects")

    def same_key(self, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            return a.n is b.n
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_key(x, y) for x, y in zip(a, b))
        if isinstance(a, DT) and isinstance(b, DT):
            return a.inst is b.inst and (a.tz is None) == (b.tz is None)
        if isinstance(a, Date) and isinstance(b, Date):
            return a.day is b.day
        return self.same_value(a, b)

    def mergestate(self, c, sa, sb):
        if sa is sb:
            return sa
        anc, keys = changed(sa, sb)
        if keys is None:
            out = fork(sb)
            out.base, out.w = None, set(sa) | set(sb)
            keys = sa
        else:
            out = St(sb)
            out.base, out.w = anc, keys
        save = self.st
        self.st = out
        # values merged below may consult contents of both sides
        todo = []
        for i in list(keys):
            x = sa.get(i)
            if x is None:
                continue
            y = sb.get(i)
            if y is None:
                out[i] = x
            elif y is not x:
                todo.append(i)
        todo.sort()
        for i in todo:
            out[i] = self.mergecontent(c, sa[i], sb[i])
        self.st = save
        return out

    def join(self, base, outs):
        """outs: [(guard, value, st, pc)] exclusive guards relative to base; sets st and pc; returns merged value"""
        if not outs:
            raise Dead()
        g, v, st, pc = outs[-1]
        alive = g
        rels = [pc.rel(base)]
        for g2, v2, st2, pc2 in reversed(outs[:-1]):
            st = self.mergestate(g2, st2, st)
            self.st = st
            v = self.mergeval(g2, v2, v)
            st = self.st
            rels.append(pc2.rel(base))
        self.st = st
        if len(outs) == 1:
            self.pc = pc
        else:
            r = N.FALSE
            for x in rels:
                r = N.lor(r, x)
            p = base.ext(r) if r is not N.TRUE else base
            self.pc = p if p is not None else base
        return v

    def branch(self, alts):
        """alts: [(guard, thunk)], exclusive and exhaustive under the current path condition"""
        base_pc, base_st = self.pc, self.st
        outs = []
        live = []
        for g, th in alts:
            d = base_pc.decide(g)
            if d is False:
                continue
            live.append((g, th))
            if d is True:
                live = [(g, th)]
                break
        if len(live) == 1:
            return live[0][1]()
        for g, th in live:
            p = base_pc.ext(g)
            if p is None:
                continue
            self.st, self.pc = fork(base_st, True), p
            try:
                v = th()
            except Dead:
                continue
            outs.append((g, v, self.st, self.pc))
        v = self.join(base_pc, outs)
        if self.st.base is base_st and isinstance(base_st, St):
            self.st.base = base_st.base
            base_st.w |= self.st.w
            self.st.w = base_st.w
        return v

    def lift(self, f, *vals):
        """apply f to values, distributing over Choice"""
        for i, v in enumerate(vals):
            if isinstance(v, Choice):
                def mkth(w):
                    return lambda: self.lift(f, *(vals[:i] + (w,) + vals[i + 1:]))
                return self.branch([(g, mkth(w)) for g, w in v.alts])
        return f(*vals)

    # ------------------------------------------------------------------ modules
    def find(self, name):
        rel = name.replace(".", os.sep)
        for r in self.roots:
            p = os.path.join(r, rel, "__init__.py")
            if os.path.isfile(p):
                return p
            p = os.path.join(r, rel + ".py")
            if os.path.isfile(p):
                return p
        return None

    def source(self, path):
        if path not in self.sources:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            self.sources[path] = ast.parse(src, path)
        return self.sources[path]

    def import_module(self, name):
        """returns Mod/Ext or raises ImportError outcome; imports parents first"""
        if name in self.modules:
            return self.modules[name]
        parts = name.split(".")
        path = self.find(name)
        if path is None:
            if self.ext.has_module(name):
                top = parts[0]
                if top == "numpy" and not self.numpy:
                    self.throw("ModuleNotFoundError", "No module named '%s'" % name)
                return Ext(name)
            if parts[0] in sys.stdlib_module_names:
                return Ext(name)
            self.throw("ModuleNotFoundError", "No module named '%s'" % name)
        parent = None
        if len(parts) > 1:
            parent = self.import_module(".".join(parts[:-1]))
            if name in self.modules:
                return self.modules[name]
        env = self.alloc(("env", {"__name__": name, "__file__": path, "__doc__": None,
                                  "__package__": name if path.endswith("__init__.py") else ".".join(parts[:-1])}), "env")
        m = Mod(name, env, path)
        self.modules[name] = m
        if isinstance(parent, Mod):
            self.setvar_env(parent.env, parts[-1], m)
        tree = self.source(path)
        saved = (self.fns, self.site)
        fr = Frame("<module %s>" % name, m, env, None, [])
        self.fns = self.fns + [fr]
        try:
            self.exec_block(tree.body)
        finally:
            self.fns, self.site = saved
        return m

    def setvar_env(self, env, name, v):
        c = self.st[env.id]
        d = dict(c[1])
        d[name] = v
        self.st[env.id] = ("env", d)

    # ------------------------------------------------------------------ names
    def lookup(self, name):
        fr = self.fns[-1]
        if fr.locals is not None and name in fr.locals:
            d = self.st[fr.env.id][1]
            if name in d:
                return d[name]
            if fr.comp:
                pass
            else:
                self.throw("UnboundLocalError", "cannot access local variable '%s'" % name)
        d = self.st[fr.env.id][1]
        if fr.locals is None and name in d:
            return d[name]
        e = fr.outer
        while e is not None:
            d = self.st[e.env.id][1]
            if name in d and not e.classbody:
                return d[name]
            e = e.outer
        d = self.st[fr.mod.env.id][1]
        if name in d:
            return d[name]
        b = self.ext.builtin(name)
        if b is not self.ext.MISSING:
            return b
        self.throw("NameError", "name '%s' is not defined" % name)

    def assign_name(self, name, v):
        fr = self.fns[-1]
        while fr.comp and name not in (fr.locals or ()):
            fr = fr.outer
        if fr.globals_decl and name in fr.globals_decl:
            self.setvar_env(fr.mod.env, name, v)
            return
        if fr.nonlocals and name in fr.nonlocals:
            e = fr.outer
            while e is not None:
                if name in self.st[e.env.id][1] and not e.classbody:
                    self.setvar_env(e.env, name, v)
                    return
                e = e.outer
        self.setvar_env(fr.env, name, v)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.step_limit:
            self.undecided("step limit")
        fr = self.fns[-1]
        self.site = (fr.mod.path, fr.name, getattr(s, "lineno", 0))
        N.CUR_SITE[0] = self.site
        self.visited.add((fr.mod.path, getattr(s, "lineno", 0)))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.undecided("statement " + type(s).__name__)
        m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        fr = self.fns[-1]
        if fr.classbody and isinstance(s.target, ast.Name):
            fr.anns[s.target.id] = ast.unparse(s.annotation)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.augop(s.op, cur, self.ev(s.value))
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            v = self.augop(s.op, self.getattr(o, t.attr), self.ev(s.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value), self.ev_slice(t.slice)
            v = self.augop(s.op, self.getitem(o, i), self.ev(s.value))
            self.setitem(o, i, v)

    def augop(self, op, cur, v):
        if isinstance(cur, Choice):
            return self.lift(lambda c: self.augop(op, c, v), cur)
        if isinstance(cur, Ref) and cur.kind == "arr":
            r = self.binop(op, cur, v)
            if isinstance(r, Ref) and r.kind == "arr":
                self.write_arr(cur, self.arrnode(r))
                return cur
            return r
        if isinstance(cur, Ref) and cur.kind == "list" and isinstance(op, ast.Add):
            self.ext.list_extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def write_arr(self, ref, node):
        c = self.get(ref)
        if c[2]:
            self.event("mutates-argument", "in-place write to the caller's array %s" % ",".join(sorted(c[2])))
        self.put(ref, ("arr", node, c[2]))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env = self.fns[-1].env
                d = dict(self.st[env.id][1])
                d.pop(t.id, None)
                self.st[env.id] = ("env", d)
            elif isinstance(t, ast.Subscript):
                self.ext.delitem(self.ev(t.value), self.ev_slice(t.slice))
            else:
                self.undecided("del")

    def s_Global(self, s):
        self.fns[-1].globals_decl |= set(s.names)

    def s_Nonlocal(self, s):
        self.fns[-1].nonlocals |= set(s.names)

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.throw_if(N.lnot(c), "AssertionError", "assert")

    def s_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.assign_name(a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, self.modules.get(top) or (m if isinstance(m, Ext) and "." not in a.name else Ext(top)))

    def s_ImportFrom(self, s):
        fr = self.fns[-1]
        base = s.module or ""
        if s.level:
            pkg = self.st[fr.mod.env.id][1].get("__package__", "")
            parts = pkg.split(".") if pkg else []
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        m = self.import_module(base)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in list(self.st[m.env.id][1].items()):
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                    continue
                self.undecided("import *")
            self.assign_name(a.asname or a.name, self.import_from(m, base, a.name))

    def import_from(self, m, base, name):
        if isinstance(m, Mod):
            d = self.st[m.env.id][1]
            if name in d:
                return d[name]
            if self.find(base + "." + name):
                return self.import_module(base + "." + name)
            self.throw("ImportError", "cannot import name '%s' from '%s'" % (name, base))
        return self.getattr(m, name)

    def s_FunctionDef(self, s):
        f = self.mkfunc(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)

    def mkfunc(self, s, name):
        fr = self.fns[-1]
        f = Func()
        f.name, f.node, f.mod = name, s, fr.mod
        f.env = fr if (fr.locals is not None or fr.classbody or fr.comp) else None
        if f.env is not None and f.env.classbody:
            pass
        f.defaults = [self.ev(d) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f.attrs = self.alloc(("env", {}), "env")
        f.qual = "%s.%s" % (fr.mod.name, name)
        f.locals, f.is_gen = local_names(s)
        return f

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fr = self.fns[-1]
        env = self.alloc(("env", {}), "env")
        nf = Frame(s.name, fr.mod, env, fr if (fr.locals is not None or fr.classbody) else None, None)
        nf.locals = None
        nf.classbody = True
        self.fns = self.fns + [nf]
        try:
            self.exec_block(s.body)
        finally:
            self.fns = self.fns[:-1]
        bs = []
        nt = False
        for b in bases:
            if isinstance(b, Cls):
                bs.append(b)
            elif isinstance(b, Prim) and b.name == "typing.NamedTuple":
                nt = True
                bs.append(BTYPES["tuple"])
            else:
                b2 = self.ext.as_class(b)
                if b2 is None:
                    self.undecided("base class")
                bs.append(b2)
        c = Cls(s.name, bs or [OBJECT], env, fr.mod)
        c.anns = nf.anns
        if nt:
            d = self.st[env.id][1]
            c.nt = list(nf.anns)
            c.ntdef = [d[k] for k in c.nt if k in d]
        else:
            c.nt = next((k.nt for k in c.mro if getattr(k, "nt", None)), None)
            c.ntdef = next((k.ntdef for k in c.mro if getattr(k, "nt", None)), None)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.fns[-1].fn().returns.append((self.pc, self.st, v))
        raise Dead()

    def s_Raise(self, s):
        if s.exc is None:
            if self.handling:
                self.throw_value(self.handling[-1])
            self.throw("RuntimeError", "No active exception to reraise")
        v = self.ev(s.exc)
        if s.cause is not None:
            self.ev(s.cause)
        if isinstance(v, Cls):
            v = self.call(v, [], {})
        self.throw_value(v)

    def s_If(self, s):
        c = self.truth(self.ev(s.test))

        def run(b):
            def th():
                self.exec_block(b)
                return None
            return th
        self.branch([(c, run(s.body)), (N.lnot(c), run(s.orelse))])

    def s_Match(self, s):
        v = self.ev(s.subject)

        def rest(i):
            def th():
                if i == len(s.cases):
                    return None
                c = s.cases[i]
                g, binds = self.match(c.pattern, v)

                def hit():
                    for n, x in binds:
                        self.assign_name(n, x)
                    if c.guard is None:
                        self.exec_block(c.body)
                        return None
                    q = self.truth(self.ev(c.guard))
                    return self.branch([(q, body), (N.lnot(q), rest(i + 1))])

                def body():
                    self.exec_block(c.body)
                    return None
                return self.branch([(g, hit), (N.lnot(g), rest(i + 1))])
            return th
        rest(0)()

    def match(self, p, v):
        """-> (condition under which the value matches the pattern, [(name, value)])"""
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value))), []
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is(), v, PyBool(p.value) if isinstance(p.value, bool) else p.value)), []
        if isinstance(p, ast.MatchAs):
            g, b = self.match(p.pattern, v) if p.pattern is not None else (N.TRUE, [])
            return g, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            g = N.FALSE
            for q in p.patterns:
                h, b = self.match(q, v)
                if b:
                    self.undecided("capture in an alternative of a pattern")
                g = N.lor(g, h)
            return g, []
        if isinstance(p, ast.MatchSequence) and not isinstance(v, Choice):
            if isinstance(v, (str, Num)) or v is None:
                return N.FALSE, []
            if not (isinstance(v, tuple) or isinstance(v, Ref) and (v.kind == "list" or getattr(self.get(v)[1], "nt", None))):
                self.undecided("sequence pattern on %s" % self.ext.typename(v))
            items = self.concrete_items(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            ps, binds = list(p.patterns), []
            if star:
                i = star[0]
                k = len(items) - (len(ps) - 1)
                if k < 0:
                    return N.FALSE, []
                if ps[i].name:
                    binds.append((ps[i].name, self.newlist(items[i:i + k])))
                items = items[:i] + items[i + k:]
                del ps[i]
            if len(items) != len(ps):
                return N.FALSE, []
            g = N.TRUE
            for q, x in zip(ps, items):
                h, b = self.match(q, x)
                g, binds = N.land(g, h), binds + b
            return g, binds
        if isinstance(p, ast.MatchClass) and not p.patterns:
            g = self.truth(self.call(Prim("builtins.isinstance"), [v, self.ev(p.cls)], {}))
            binds = []
            if g is not N.FALSE:
                for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                    h, b = self.match(q, self.getattr(v, a))
                    g, binds = N.land(g, h), binds + b
            return g, binds
        self.undecided("pattern " + type(p).__name__)

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            r = self.ext.enter(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
        self.exec_block(s.body)
        for it in reversed(s.items):
            pass

    def s_Try(self, s):
        base = self.pc
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(bexc("BaseException"))
            else:
                t = self.ev(h.type)
                names.extend(t if isinstance(t, tuple) else [t])
        fnrec = self.fns[-1].fn()
        nret = len(fnrec.returns) if fnrec else 0
        self.raises.append([])
        self.trycatch.append(names)
        outs = []
        try:
            try:
                self.exec_block(s.body)
                ok = True
            except Dead:
                ok = False
        finally:
            raised = self.raises.pop()
            self.trycatch.pop()
        if ok:
            # the else clause is outside the protection
            norm = (self.st, self.pc)
        fin_raises = []
        self.raises.append(fin_raises)
        try:
            if ok:
                self.st, self.pc = norm
                try:
                    self.exec_block(s.orelse)
                    outs.append((self.pc.rel(base), None, self.st, self.pc))
                except Dead:
                    pass
            for pc, st, exc, site, path in raised:
                self.st, self.pc = fork(st), pc
                done = False
                for h in s.handlers:
                    if h.type is None:
                        m = True
                    else:
                        t = self.ev(h.type)
                        m = self.exc_match(exc, t)
                    if m:
                        if h.name:
                            self.assign_name(h.name, exc)
                        self.handling.append(exc)
                        try:
                            self.exec_block(h.body)
                            outs.append((self.pc.rel(base), None, self.st, self.pc))
                        except Dead:
                            pass
                        finally:
                            self.handling.pop()
                        done = True
                        break
                if not done:
                    self.raises[-1].append((pc, st, exc, site, path))
        finally:
            self.raises.pop()
        if s.finalbody:
            # run the finally clause on every way out
            newraises = []
            for pc, st, exc, site, path in fin_raises:
                self.st, self.pc = fork(st), pc
                try:
                    self.exec_block(s.finalbody)
                    newraises.append((self.pc, self.st, exc, site, path))
                except Dead:
                    pass
            fin_raises = newraises
            if fnrec:
                rets = fnrec.returns[nret:]
                del fnrec.returns[nret:]
                for pc, st, v in rets:
                    self.st, self.pc = fork(st), pc
                    try:
                        self.exec_block(s.finalbody)
                        fnrec.returns.append((self.pc, self.st, v))
                    except Dead:
                        pass
        self.raises[-1].extend(fin_raises)
        self.join(base, outs)
        if s.finalbody:
            self.exec_block(s.finalbody)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if isinstance(exc, Ref) and exc.kind == "obj":
            cls = self.get(exc)[1]
            if isinstance(t, Cls):
                return t in cls.mro
        self.undecided("exception match")

    # ---- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        self.for_loop(it, lambda item: self.assign(s.target, item), s.body, s.orelse, s)

    def for_loop(self, it, bind, body, orelse, s):
        if isinstance(it, Choice):
            def th(w):
                return lambda: self.for_loop(w, bind, body, orelse, s)
            return self.branch([(g, th(w)) for g, w in it.alts])
        items = self.iterate(it)
        base = self.pc
        fr = self.fns[-1]
        rec = LoopRec()
        fr.fn_loops().append(rec)
        try:
            dead = False
            for g, item in items:
                if isinstance(item, Seg):
                    self.sym_loop(item, bind, body, s)
                    continue

                def once():
                    rec.conts = []
                    b = self.pc
                    outs = []
                    try:
                        bind(item)
                        self.exec_block(body)
                        outs.append((self.pc.rel(b), None, self.st, self.pc))
                    except Dead:
                        pass
                    for pc, st in rec.conts:
                        outs.append((pc.rel(b), None, st, pc))
                    rec.conts = []
                    self.join(b, outs)
                try:
                    if g is None or g is N.TRUE:
                        once()
                    else:
                        self.branch([(g, once), (N.lnot(g), lambda: None)])
                except Dead:
                    dead = True
                    break
        finally:
            fr.fn_loops().pop()
        outs = []
        if not dead:
            if orelse:
                try:
                    self.exec_block(orelse)
                    outs.append((self.pc.rel(base), None, self.st, self.pc))
                except Dead:
                    pass
            else:
                outs.append((self.pc.rel(base), None, self.st, self.pc))
        for pc, st in rec.breaks:
            outs.append((pc.rel(base), None, st, pc))
        self.join(base, outs)

    def s_While(self, s):
        base = self.pc
        fr = self.fns[-1]
        has_exit = any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in ast.walk(b))
        if not has_exit and not s.orelse and self.try_while_summary(s):
            return
        rec = LoopRec()
        fr.fn_loops().append(rec)
        exits = []
        n = 0
        try:
            while True:
                n += 1
                if n > MAX_UNROLL:
                    self.undecided("loop not bounded")
                try:
                    c = self.settle(self.truth(self.ev(s.test)))
                except Dead:
                    break
                d = self.pc.decide(c)
                if d is False:
                    exits.append((self.pc, self.st))
                    break
                if d is None:
                    q = self.pc.ext(N.lnot(c))
                    if q is not None:
                        exits.append((q, fork(self.st)))
                    p = self.pc.ext(c)
                    if p is None:
                        break
                    self.pc = p
                rec.conts = []
                b = self.pc
                outs = []
                try:
                    self.exec_block(s.body)
                    outs.append((self.pc.rel(b), None, self.st, self.pc))
                except Dead:
                    pass
                for pc, st in rec.conts:
                    outs.append((pc.rel(b), None, st, pc))
                try:
                    self.join(b, outs)
                except Dead:
                    break
        finally:
            fr.fn_loops().pop()
        outs = []
        for pc, st in exits:
            self.st, self.pc = st, pc
            try:
                self.exec_block(s.orelse)
                outs.append((self.pc.rel(base), None, self.st, self.pc))
            except Dead:
                pass
        for pc, st in rec.breaks:
            outs.append((pc.rel(base), None, st, pc))
        self.join(base, outs)

    def s_Break(self, s):
        self.fns[-1].fn_loops()[-1].breaks.append((self.pc, self.st))
        raise Dead()

    def s_Continue(self, s):
        self.fns[-1].fn_loops()[-1].conts.append((self.pc, self.st))
        raise Dead()

    def settle(self, c):
        """c, with comparisons decided whose sides differ by a constant"""
        neg = c.op == "not"
        m = c.args[0] if neg else c
        if m.op in ("lt", "le") and not m.args[0].isbool and not m.args[1].isbool and self.pc.decide(c) is None and len(N.topo([m])) < 3000:
            k = C.canon(N.sub(m.args[0], m.args[1])).const()
            if k is not None:
                r = k < 0 if m.op == "lt" else k <= 0
                return N.FALSE if bool(r) == neg else N.TRUE
        return c

    # ---- summaries of loops whose trip count is unknown
    def fresh_k(self):
        self.kcount += 1
        return N.var("k%d" % self.kcount, isint=True)

    def carried(self, before, after, bound):
        """env variables (id, name) whose value changed"""
        out = []
        for i, x in before.items():
            y = after.get(i)
            if y is None or y is x:
                continue
            if x[0] == "env" and y[0] == "env":
                for k in x[1]:
                    if not self.same_value(x[1][k], y[1].get(k)):
                        out.append((i, k))
            else:
                out.append((i, None))
        return out

    def sym_body(self, k, count, bind, body):
        """run the body once for symbolic iteration k; carried numeric/datetime variables get closed forms.
        returns list of (env id, name, closed form value at k -> value at count)."""
        fr = self.fns[-1]
        before = self.st
        pc0 = self.pc
        mark = (len(self.hazards), len(self.events), len(fr.fn().yields) if fr.fn() else 0)

        def run(init, inside):
            self.st = fork(before)
            self.pc = inside
            for (i, name), v in init.items():
                self.setvar_env(Ref(i, "env"), name, v)
            nr = len(self.raises[-1])
            nret = len(fr.fn().returns) if fr.fn() else 0
            rec = LoopRec()
            fr.fn_loops().append(rec)
            try:
                bind()
                try:
                    self.exec_block(body)
                    outs = [(self.pc.rel(inside), None, self.st, self.pc)]
                except Dead:
                    outs = []
                for pc, st in rec.conts:
                    outs.append((pc.rel(inside), None, st, pc))
                if rec.breaks or (fr.fn() and len(fr.fn().returns) > nret):
                    self.undecided("early exit from a loop of unknown length")
                self.join(inside, outs)
            finally:
                fr.fn_loops().pop()
            return self.st

        inside = pc0.ext(N.land(N.le(N.ZERO, k), N.lt(k, count))) or pc0
        after = run({}, inside)
        if fr.fn():
            del fr.fn().yields[mark[2]:]
        ch = [(i, n) for i, n in self.carried(before, after, None) if n is not None]
        # targets of the loop itself are not carried
        def reset():
            del self.hazards[mark[0]:]
            del self.events[mark[1]:]
        closed = {}
        lists = [i for i, n in self.carried(before, after, None) if n is None]
        if ch:
            reset()
            hav = {}
            for i, name in ch:
                v = before[i][1][name]
                hav[(i, name)] = self.havoc(v, name)
            after2 = run(hav, inside)
            if fr.fn():
                del fr.fn().yields[mark[2]:]
            for (i, name), h in hav.items():
                v0, v1 = before[i][1][name], after2[i][1][name]
                if self.same_value(h, v1):
                    closed[(i, name)] = (v0, v0)
                    continue
                d = self.step_of(h, v1, hav)
                if d is None:
                    # assigned before use in every iteration: not carried
                    a1 = after[i][1][name]
                    if self.indep(v1, hav):
                        closed[(i, name)] = (v0, None)
                        continue
                    self.undecided("loop-carried variable %s has no closed form" % name)
                closed[(i, name)] = (self.shift(v0, N.mul(k, d)), self.shift(v0, N.mul(count, d)))
            reset()
            after = run({kk: v[0] for kk, v in closed.items()}, inside)
        else:
            reset()
            if fr.fn():
                del fr.fn().yields[mark[2]:]
            after = run({}, inside)
        ys = []
        if fr.fn():
            ys = fr.fn().yields[mark[2]:]
            del fr.fn().yields[mark[2]:]
        # state after the loop
        final = fork(before)
        for (i, name), (vk, vn) in closed.items():
            if vn is not None:
                d = dict(final[i][1])
                d[name] = vn
                final[i] = ("env", d)
        for i in after:
            if i not in final:
                final[i] = after[i]
        for i in lists:
            x, y = before[i], after[i]
            if x[0] == "list" and y[0] == "list" and y[2] is None and len(y[1]) == len(x[1]) + 1 and \
                    all(self.same_value(p, q) for p, q in zip(x[1], y[1])):
                final[i] = ("list", x[1] + (Seg(k, count, y[1][-1]),), x[2] + (None,) if x[2] else None)
            elif y[0] in ("arr",) or x == y:
                final[i] = y
            else:
                self.undecided("object changed in a loop of unknown length")
        self.st, self.pc = final, pc0
        for g, v in ys:
            if g is not None and pc0.decide(g) is not True and inside.decide(g) is not True:
                # conditional yield
                self.undecided("conditional yield in a loop of unknown length")
        if len(ys) > 1:
            self.undecided("several yields per iteration in a loop of unknown length")
        if ys:
            fr.fn().yields.append((None, Seg(k, count, ys[0][1])))

    def havoc(self, v, name):
        self.fresh += 1
        h = N.var("h%d_%s" % (self.fresh, name), isint=isinstance(v, Num) and v.k == "int")
        if isinstance(v, Num) and v.k in ("int", "float", "np"):
            return Num(h, v.k)
        if isinstance(v, DT):
            return DT(h, v.tz)
        if isinstance(v, TD):
            return TD(h)
        self.undecided("loop-carried %s" % type(v).__name__)

    def core(self, v):
        return v.n if isinstance(v, Num) else v.inst if isinstance(v, DT) else v.sec if isinstance(v, TD) else None

    def step_of(self, h, v1, hav):
        if type(h) is not type(v1):
            return None
        a, b = self.core(h), self.core(v1)
        if a is None or b is None:
            return None
        d = N.sub(b, a)
        bad = {self.core(x).data for x in hav.values()}
        bad |= {"k%d" % i for i in range(1, self.kcount + 1)}
        p = C.canon(d)
        if C.mentions(p.k(), bad):
            return None
        # rebuild a node without the havoc variable: substitute it by zero
        z = {self.core(x): N.ZERO for x in hav.values()}
        return N.subst([d], z)[0]

    def indep(self, v, hav):
        c = self.core(v)
        if c is None:
            return not isinstance(v, (Num, DT, TD))
        return not (N.free_vars(c) & {self.core(x) for x in hav.values()})

    def shift(self, v, d):
        if isinstance(v, Num):
            return Num(N.add(v.n, d), v.k)
        if isinstance(v, DT):
            return DT(N.add(v.inst, d), v.tz)
        return TD(N.add(v.sec, d))

    def sym_loop(self, seg, bind, body, s):
        k, count = seg.k, seg.count
        self.sym_body(k, count, lambda: bind(seg.item), body)

    def try_while_summary(self, s):
        """while cond: body, with cond linear in the iteration number"""
        st0, pc0 = self.st, self.pc
        self.st = fork(st0)
        snap = (len(self.hazards), len(self.events), len(self.raises[-1]))
        fnrec = self.fns[-1].fn()
        ny = len(fnrec.yields) if fnrec else 0
        try:
            c0 = self.settle(self.truth(self.ev(s.test)))
            if pc0.decide(c0) is not None:
                raise Undecided("const")
            k = self.fresh_k()
            big = self.fresh_k()
            self.st = fork(st0)
            # closed forms with an unknown count
            self.sym_body(k, big, lambda: None, s.body)
            after = self.st
            seg = fnrec.yields[ny:] if fnrec else []
            if fnrec:
                del fnrec.yields[ny:]
            # condition at iteration k: state with count:=k
            sub = {big: k}
            stk = {}
            for i, x in after.items():
                if x is st0.get(i):
                    stk[i] = x
                elif x[0] == "env":
                    stk[i] = ("env", {n: self.subst_val(v, sub) for n, v in x[1].items()})
                else:
                    stk[i] = x
            self.st = fork(stk)
            ck = self.truth(self.ev(s.test))
            strict = None
            cc = ck
            if cc.op == "not":
                strictness = {"lt": "le", "le": "lt"}.get(cc.args[0].op)
                if strictness is None:
                    raise Undecided("loop condition")
                a, b = cc.args[0].args[1], cc.args[0].args[0]
                op = strictness
            else:
                op = cc.op
                if op not in ("lt", "le"):
                    raise Undecided("loop condition")
                a, b = cc.args
            d = N.sub(a, b)          # continue while d < 0 (or <= 0)
            step = N.sub(N.subst([d], {k: N.add(k, N.ONE)})[0], d)
            if C.mentions(C.canon(step).k(), {k.data}):
                raise Undecided("loop condition not linear")
            step0 = N.subst([step], {k: N.ZERO})[0]
            d0 = N.subst([d], {k: N.ZERO})[0]
            from .extlib import usec
            q = N.div(usec(N.neg(d0)), usec(step0))      # d0 + k*step (< or <=) 0
            cnt = N.ceil(q) if op == "lt" else N.add(N.floor(q), N.ONE)
            cnt = N.nmax(cnt, N.ZERO)
        except (Undecided, Dead):
            self.st, self.pc = st0, pc0
            del self.hazards[snap[0]:]
            del self.events[snap[1]:]
            del self.raises[-1][snap[2]:]
            if fnrec:
                del fnrec.yields[ny:]
            return False
        sub = {big: cnt}
        fin = {}
        for i, x in after.items():
            if x is st0.get(i):
                fin[i] = x
            elif x[0] == "env":
                fin[i] = ("env", {n: self.subst_val(v, sub) for n, v in x[1].items()})
            elif x[0] == "list":
                fin[i] = ("list", tuple(self.subst_val(v, sub) for v in x[1]), x[2])
            else:
                fin[i] = x
        self.st, self.pc = fin, pc0
        if fnrec:
            for g, v in seg:
                fnrec.yields.append((g, self.subst_val(v, sub)))
        return True

    def subst_val(self, v, m):
        if isinstance(v, Num):
            return Num(N.subst([v.n], m)[0], v.k)
        if isinstance(v, DT):
            return DT(N.subst([v.inst], m)[0], v.tz)
        if isinstance(v, TD):
            return TD(N.subst([v.sec], m)[0])
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, m) for x in v)
        if isinstance(v, Seg):
            return Seg(v.k, N.subst([v.count], m)[0], self.subst_val(v.item, m))
        return v

    # ------------------------------------------------------------------ assignment targets
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Choice):
                n = len(t.elts)
                cols = [self.lift(lambda w, i=i: self.unpack(w, t.elts)[i], v) for i in range(n)]
                for e, x in zip(t.elts, cols):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x)
                return
            for e, x in zip(t.elts, self.unpack(v, t.elts)):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_slice(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.undecided("assignment target")

    def unpack(self, v, elts):
        if isinstance(v, Ref) and v.kind == "arr":
            self.undecided("unpacking an array")
        items = self.concrete_items(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            k = len(items) - (len(elts) - 1)
            if k < 0:
                self.throw("ValueError", "not enough values to unpack")
            return items[:i] + [self.newlist(items[i:i + k])] + items[i + k:]
        if len(items) != len(elts):
            self.throw("ValueError", "unpack of %d values into %d targets" % (len(items), len(elts)))
        return items

    def concrete_items(self, v):
        out = []
        for g, x in self.iterate(v):
            if g is not None and self.pc.decide(g) is not True or isinstance(x, Seg):
                self.undecided("sequence of unknown length")
            out.append(x)
        return out

    def iterate(self, v):
        """list of (guard or None, item)"""
        if isinstance(v, tuple):
            return [(None, x) for x in v]
        if isinstance(v, (str, bytes)):
            return [(None, x if isinstance(v, str) else PyInt(x)) for x in v]
        if isinstance(v, Ref):
            c = self.get(v)
            if c[0] == "list":
                items, gs = c[1], c[2] or (None,) * len(c[1])
                if v.kind == "iter":
                    self.put(v, ("list", (), None))
                return list(zip(gs, items))
            if c[0] in ("dict", "set"):
                return [(e[2], e[0]) for e in c[1]]
            if c[0] == "env":
                return [(None, k) for k in c[1]]
            if c[0] == "arr":
                self.event("iterates-array", "iteration over an array")
                self.undecided("iteration over an array")
            if c[0] == "obj":
                m = self.find_method(c[1], "__iter__")
                if m is not None:
                    return self.iterate(self.call(Bound(v, m), [], {}))
                if getattr(c[1], "nt", None):
                    return [(None, c[2][k]) for k in c[1].nt]
        if isinstance(v, SymRange):
            k = self.fresh_k()
            item = Num(N.add(v.start, N.mul(k, v.step)), "int")
            return [(None, Seg(k, v.count, item))]
        if isinstance(v, Choice):
            # alternatives: flatten with guards
            out = []
            for g, w in v.alts:
                for h, x in self.iterate(w):
                    out.append((N.land(g, h) if h is not None else g, x))
            return out
        if isinstance(v, TT):
            return [(None, Num(n, "int")) for n in self.ext.tt_fields(v)]
        if isinstance(v, Num) or v is None:
            self.throw("TypeError", "object is not iterable")
        self.undecided("iteration over %s" % type(v).__name__)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.undecided("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return PyBool(v)
        if isinstance(v, int):
            return PyInt(v)
        if isinstance(v, float):
            return PyFloat(v)
        return v

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        return self.newlist(self.elts(e.elts))

    def e_Set(self, e):
        return self.ext.mkset(self.elts(e.elts))

    def e_Dict(self, e):
        d = self.newdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.ext.dict_update(d, self.ev(v))
            else:
                kk = self.ev(k)
                self.dict_set(d, kk, self.ev(v))
        return d

    def dict_set(self, d, k, v):
        c = self.get(d)
        if c[0] == "env":
            if not isinstance(k, str):
                self.undecided("non-string name")
            self.setvar_env(d, k, v)
            return
        self.ext.check_hash(k)
        ents = list(c[1])
        for i, (k2, v2, g) in enumerate(ents):
            if self.same_key(k2, k):
                ents[i] = (k2, v, None)
                self.put(d, ("dict", tuple(ents)))
                return
        # keys that may be equal
        new = N.TRUE
        for i, (k2, v2, g) in enumerate(ents):
            q = self.key_eq(k2, k)
            if q is N.FALSE or self.pc.decide(q) is False:
                continue
            both = N.land(q, g or N.TRUE)
            ents[i] = (k2, self.mergeval(both, v, v2), g)
            new = N.land(new, N.lnot(both))
        ents.append((k, v, None if new is N.TRUE else new))
        self.put(d, ("dict", tuple(ents)))

    def key_eq(self, a, b):
        r = self.compare_eq(a, b)
        return r

    def dict_get(self, d, k):
        """-> (found guard, value or None)"""
        c = self.get(d)
        if c[0] == "env":
            if isinstance(k, str):
                return (N.TRUE, c[1][k]) if k in c[1] else (N.FALSE, None)
            self.undecided("non-string name")
        hits = []
        for k2, v, g in c[1]:
            q = self.key_eq(k2, k)
            q = N.land(q, g or N.TRUE)
            dd = self.pc.decide(q)
            if dd is False:
                continue
            hits.append((N.TRUE if dd else q, v))
            if dd:
                break
        found = N.FALSE
        for q, _ in hits:
            found = N.lor(found, q)
        if not hits:
            return N.FALSE, None
        val = hits[-1][1]
        for q, v in reversed(hits[:-1]):
            val = self.mergeval(q, v, val)
        return found, val

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(v, Choice):
            return self.lift(lambda w: self.unop(op, w), v)
        if isinstance(op, ast.Not):
            return Num(N.lnot(self.truth(v)), "bool")
        if isinstance(v, Num):
            if isinstance(op, ast.USub):
                return Num(N.neg(N.asnum(v.n)), "int" if v.k == "bool" else v.k)
            if isinstance(op, ast.UAdd):
                return Num(N.asnum(v.n), "int" if v.k == "bool" else v.k)
            if isinstance(op, ast.Invert):
                if v.k == "npb":
                    return Num(N.lnot(v.n), "npb")
                return Num(N.sub(N.NEG1, N.asnum(v.n)), "int")
        if isinstance(v, Ref) and v.kind == "arr":
            n = self.arrnode(v)
            if isinstance(op, ast.USub):
                return self.newarr(N.neg(N.asnum(n)))
            if isinstance(op, ast.Invert) and n.isbool:
                return self.newarr(N.lnot(n))
            if isinstance(op, ast.UAdd):
                return self.newarr(n)
        if isinstance(v, TD):
            if isinstance(op, ast.USub):
                return TD(N.neg(v.sec))
            return v
        if isinstance(v, Ref) and v.kind == "obj":
            m = self.find_method(self.get(v)[1], {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(op).__name__])
            if m is not None:
                return self.call(Bound(v, m), [], {})
        if v is None or isinstance(v, (str, tuple)):
            self.throw("TypeError", "bad operand type for unary operator")
        self.undecided("unary operator on %s" % type(v).__name__)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch([(c, lambda: go(i + 1)), (N.lnot(c), lambda: v)])
            return self.branch([(c, lambda: v), (N.lnot(c), lambda: go(i + 1))])
        return go(0)

    def e_Compare(self, e):
        left = self.ev(e.left)

        def go(left, i):
            right = self.ev(e.comparators[i])
            r = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.truth(r)
            return self.branch([(c, lambda: go(right, i + 1)), (N.lnot(c), lambda: r)])
        return go(left, 0)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch([(c, lambda: self.ev(e.body)), (N.lnot(c), lambda: self.ev(e.orelse))])

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign_name(e.target.id, v)
        return v

    def e_Lambda(self, e):
        return self.mkfunc(e, "<lambda>")

    def e_JoinedStr(self, e):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value)
                out.append(self.ext.to_str(v))
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return SymStr()

    def e_FormattedValue(self, e):
        return self.ext.to_str(self.ev(e.value))

    def e_Call(self, e):
        f = self.ev(e.func)
        if isinstance(f, Prim) and f.name == "builtins.super" and not e.args:
            fr = self.fns[-1].fn()
            return self.ext.make_super(fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.ev(a.value)))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                for kk, vv in self.ext.dict_items(v):
                    if not isinstance(kk, str):
                        self.undecided("** with unknown keys")
                    if kk in kw:
                        self.throw("TypeError", "multiple values for keyword argument '%s'" % kk)
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    self.throw("TypeError", "multiple values for keyword argument '%s'" % k.arg)
                kw[k.arg] = v
        fr = self.fns[-1]
        self.site = (fr.mod.path, fr.name, e.lineno)
        N.CUR_SITE[0] = self.site
        self.callsites += 1
        r = self.call(f, args, kw)
        self.site = (fr.mod.path, fr.name, e.lineno)
        return r

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev_slice(e.slice)
        return self.getitem(o, i)

    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            return ("slice", self.ev(s.lower) if s.lower else None, self.ev(s.upper) if s.upper else None,
                    self.ev(s.step) if s.step else None)
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return ("multi",) + tuple(self.ev_slice(x) for x in s.elts)
        return self.ev(s)

    def e_Starred(self, e):
        self.undecided("starred expression")

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        fn = self.fns[-1].fn()
        g = self.pc.rel(fn.basepc)
        fn.yields.append((None if g is N.TRUE else g, v))
        return None

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        fn = self.fns[-1].fn()
        g = self.pc.rel(fn.basepc)
        for h, x in self.iterate(v):
            gg = g if h is None else N.land(g, h)
            fn.yields.append((None if gg is N.TRUE else gg, x))
        return None

    # comprehensions
    def comp(self, e, emit):
        fr = self.fns[-1]
        names = set()
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        env = self.alloc(("env", {}), "env")
        nf = Frame(fr.name, fr.mod, env, fr, None)
        nf.locals = frozenset(names)
        nf.comp = True
        first = self.ev(e.generators[0].iter)
        out = []

        def go(i, guard, segs):
            if i == len(e.generators):
                self.fns = self.fns  # in comp frame
                out.append((guard, segs, emit()))
                return
            g = e.generators[i]
            it = first if i == 0 else self.ev(g.iter)
            for h, item in self.iterate(it):
                gg = guard if h is None else N.land(guard, h)
                ss = segs
                if isinstance(item, Seg):
                    ss = segs + [item]
                    item = item.item

                def body(gg=gg, ss=ss, item=item):
                    self.assign(g.target, item)
                    cond = N.TRUE
                    for c in g.ifs:
                        cond = N.land(cond, self.truth(self.ev(c)))
                        if self.pc.decide(cond) is False:
                            return
                    d = self.pc.decide(cond)
                    if d is True:
                        go(i + 1, gg, ss)
                    elif d is None:
                        def t():
                            go(i + 1, N.land(gg, cond), ss)
                        self.branch([(cond, t), (N.lnot(cond), lambda: None)])
                if h is None or h is N.TRUE or self.pc.decide(h) is True:
                    body()
                elif self.pc.decide(h) is None:
                    self.branch([(h, body), (N.lnot(h), lambda: None)])
        self.fns = self.fns + [nf]
        try:
            go(0, N.TRUE, [])
        finally:
            self.fns = self.fns[:-1]
        return out

    def comp_list(self, e, kind):
        out = self.comp(e, lambda: self.ev(e.elt))
        items, gs = [], []
        for g, segs, v in out:
            for s in reversed(segs):
                v = Seg(s.k, s.count, v)
            items.append(v)
            gs.append(None if g is N.TRUE else g)
        return self.newlist(items, gs, kind)

    def e_ListComp(self, e):
        return self.comp_list(e, "list")

    def e_GeneratorExp(self, e):
        return self.comp_list(e, "iter")

    def e_SetComp(self, e):
        out = self.comp(e, lambda: self.ev(e.elt))
        if any(g is not N.TRUE or s for g, s, v in out):
            self.undecided("set comprehension of unknown size")
        return self.ext.mkset([v for _, _, v in out])

    def e_DictComp(self, e):
        out = self.comp(e, lambda: (self.ev(e.key), self.ev(e.value)))
        d = self.newdict()
        for g, s, (k, v) in out:
            if s or (g is not N.TRUE and self.pc.decide(g) is not True):
                self.undecided("dict comprehension of unknown size")
            self.dict_set(d, k, v)
        return d

    # ------------------------------------------------------------------ operators
    def truth(self, v):
        if isinstance(v, Num):
            if v.n.isbool:
                return v.n
            return N.lnot(N.eq(v.n, N.ZERO))
        if v is None:
            return N.FALSE
        if isinstance(v, (str, bytes, tuple)):
            return N.bconst(len(v) > 0)
        if isinstance(v, Ref):
            c = self.get(v)
            if c[0] == "list":
                if v.kind == "iter":
                    return N.TRUE
                r = N.FALSE
                for i, x in enumerate(c[1]):
                    g = (c[2][i] if c[2] else None) or N.TRUE
                    if isinstance(x, Seg):
                        g = N.land(g, N.lt(N.ZERO, x.count))
                    r = N.lor(r, g)
                return r
            if c[0] in ("dict", "set"):
                r = N.FALSE
                for ent in c[1]:
                    r = N.lor(r, ent[2] or N.TRUE)
                return r
            if c[0] == "env":
                return N.bconst(bool(c[1]))
            if c[0] == "arr":
                self.event("truth-of-array", "a single decision is taken from an array")
                self.throw("ValueError", "The truth value of an array with more than one element is ambiguous")
            if c[0] == "obj":
                m = self.find_method(c[1], "__bool__")
                if m is not None:
                    return self.truth(self.call(Bound(v, m), [], {}))
                m = self.find_method(c[1], "__len__")
                if m is not None:
                    return self.truth(self.call(Bound(v, m), [], {}))
            return N.TRUE
        if isinstance(v, TD):
            return N.lnot(N.eq(v.sec, N.ZERO))
        if isinstance(v, TD64) and not v.arr:
            return N.lnot(N.eq(v.sec, N.ZERO))
        if isinstance(v, DT64) and v.arr or isinstance(v, TD64):
            self.event("truth-of-array", "a single decision is taken from an array")
            self.throw("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, SymRange):
            return N.lt(N.ZERO, v.count)
        if isinstance(v, Choice):
            r = N.FALSE
            for g, w in v.alts:
                r = N.lor(r, N.land(g, self.truth(w)))
            return r
        if isinstance(v, SymStr):
            return N.TRUE if v.num is not None else self.undecided("truth of an unknown string")
        return N.TRUE

    def isarr(self, v):
        return isinstance(v, Ref) and v.kind == "arr"

    def node(self, v):
        """numeric node of a scalar or array value"""
        if isinstance(v, Num):
            return v.n
        if self.isarr(v):
            return self.arrnode(v)
        return None

    BIN = {"Add": N.add, "Sub": N.sub, "Mult": N.mul, "Div": N.div, "Pow": N.power, "Mod": N.mod, "FloorDiv": N.floordiv}

    def reskind(self, op, a, b):
        ks = {a.k, b.k}
        if ks & {"np", "npb"}:
            return "np"
        if "float" in ks or op == "Div":
            return "float"
        return "int"

    def binop(self, op, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.lift(lambda x, y: self.binop(op, x, y), a, b)
        o = type(op).__name__
        na, nb = self.node(a), self.node(b)
        if na is not None and nb is not None:
            arr = self.isarr(a) or self.isarr(b)
            if o in ("BitAnd", "BitOr", "BitXor"):
                if na.isbool and nb.isbool:
                    r = {"BitAnd": N.land, "BitOr": N.lor, "BitXor": lambda x, y: N.lnot(N.eq(x, y))}[o](na, nb)
                    if arr:
                        return self.newarr(r)
                    return Num(r, "npb" if "npb" in (a.k, b.k) else "bool")
                if N.isnum(na) and N.isnum(nb) and na.isint and nb.isint:
                    x, y = int(na.data), int(nb.data)
                    return PyInt(x & y if o == "BitAnd" else x | y if o == "BitOr" else x ^ y)
                self.undecided("bit operation")
            if o in ("LShift", "RShift"):
                if N.isnum(na) and N.isnum(nb):
                    x, y = int(na.data), int(nb.data)
                    return PyInt(x << y if o == "LShift" else x >> y)
                self.undecided("shift")
            f = self.BIN.get(o)
            if f is None:
                self.undecided("operator " + o)
            py = not arr and not ({a.k, b.k} & {"np", "npb"})
            if o in ("Div", "Mod", "FloorDiv"):
                if not (N.isnum(nb) and nb.data != 0):
                    self.hazard("ZeroDivisionError", N.eq(N.asnum(nb), N.ZERO), "division by zero", arg=nb, raising=py)
            elif o == "Pow":
                bb = N.asnum(nb)
                if not (N.isnum(bb) and bb.data >= 0 and bb.data.denominator == 1):
                    ba = N.asnum(na)
                    if not (N.isnum(ba) and ba.data > 0) and ba not in (N.E, N.PI):
                        neg = N.lt(ba, N.ZERO) if not (N.isnum(bb) and bb.data.denominator == 1) else N.FALSE
                        self.hazard("complex", neg, "power of a negative base", arg=ba, raising=False)
                        self.hazard("ZeroDivisionError", N.land(N.eq(ba, N.ZERO), N.lt(bb, N.ZERO)), "0.0 to a negative power", arg=ba, raising=py)
                    elif ba is N.E:
                        self.hazard("OverflowError", N.lt(N.num(709), bb), "exponential overflow", arg=bb, raising=py)
            r = f(na, nb)
            if arr:
                return self.newarr(r)
            k = self.reskind(o, a, b)
            if o == "Pow" and k == "int" and not (N.isnum(nb) and nb.data >= 0):
                k = "float"
            return Num(r, k)
        r = self.ext.binop(o, a, b)
        return r

    def compare(self, op, a, b):
        o = type(op).__name__
        if o == "Is" or o == "IsNot":
            r = self.identity(a, b)
            return Num(r if o == "Is" else N.lnot(r), "bool")
        if o in ("In", "NotIn"):
            r = self.contains(b, a)
            return Num(r if o == "In" else N.lnot(r), "bool")
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.lift(lambda x, y: self.compare(op, x, y), a, b)
        na, nb = self.node(a), self.node(b)
        if na is not None and nb is not None:
            if o == "Eq":
                r = N.eq(na, nb)
            elif o == "NotEq":
                r = N.lnot(N.eq(na, nb))
            else:
                x, y = N.asnum(na), N.asnum(nb)
                r = {"Lt": lambda: N.lt(x, y), "LtE": lambda: N.le(x, y), "Gt": lambda: N.lt(y, x), "GtE": lambda: N.le(y, x)}[o]()
            if self.isarr(a) or self.isarr(b):
                return self.newarr(r)
            return Num(r, "npb" if {a.k, b.k} & {"np", "npb"} else "bool")
        if o in ("Eq", "NotEq"):
            if (self.isarr(a) or self.isarr(b)):
                other = b if self.isarr(a) else a
                if other is None or isinstance(other, str):
                    r = N.FALSE
                    return self.newarr(r if o == "Eq" else N.TRUE)
            if isinstance(a, DT64) and isinstance(b, DT64) or isinstance(a, TD64) and isinstance(b, TD64):
                r = N.eq(a.sec, b.sec)
                r = r if o == "Eq" else N.lnot(r)
                return self.newarr(r) if a.arr or b.arr else Num(r, "npb")
            r = self.compare_eq(a, b)
            return Num(r if o == "Eq" else N.lnot(r), "bool")
        return self.ext.order(o, a, b)

    def identity(self, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            r = self.lift(lambda x, y: Num(self.identity(x, y), "bool"), a, b)
            return r.n
        if a is None or b is None:
            return N.bconst(a is None and b is None)
        if isinstance(a, Num) and isinstance(b, Num):
            if a.k == b.k == "bool":
                return N.eq(a.n, b.n)
            if a.k != b.k:
                return N.FALSE
            return N.TRUE if a is b else N.FALSE
        if isinstance(a, TZ) and isinstance(b, TZ):
            return N.bconst(a is b)
        return N.bconst(self.same_value(a, b))

    def compare_eq(self, a, b):
        """bool node: a == b (no user-visible side effects)"""
        if isinstance(a, Choice) or isinstance(b, Choice):
            r = N.FALSE
            aa = a.alts if isinstance(a, Choice) else [(N.TRUE, a)]
            bb = b.alts if isinstance(b, Choice) else [(N.TRUE, b)]
            for g, x in aa:
                for h, y in bb:
                    r = N.lor(r, N.land(N.land(g, h), self.compare_eq(x, y)))
            return r
        if isinstance(a, Num) and isinstance(b, Num):
            return N.eq(a.n, b.n)
        if a is None or b is None:
            return N.bconst(a is None and b is None)
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return N.bconst(type(a) is type(b) and a == b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return N.FALSE
            r = N.TRUE
            for x, y in zip(a, b):
                r = N.land(r, self.compare_eq(x, y))
            return r
        if isinstance(a, DT) and isinstance(b, DT):
            if (a.tz is None) != (b.tz is None):
                return N.FALSE
            return N.eq(a.inst, b.inst)
        if isinstance(a, TD) and isinstance(b, TD):
            return N.eq(a.sec, b.sec)
        if isinstance(a, Date) and isinstance(b, Date):
            return N.eq(a.day, b.day)
        if isinstance(a, TZ) and isinstance(b, TZ):
            return N.eq(a.off, b.off)
        if isinstance(a, TT) and isinstance(b, TT):
            return N.eq(a.sec, b.sec)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return N.TRUE
            x, y = self.get(a), self.get(b)
            if x[0] == "list" and y[0] == "list" and not x[2] and not y[2]:
                return self.compare_eq(tuple(x[1]), tuple(y[1]))
            if x[0] == "obj":
                m = self.find_method(x[1], "__eq__")
                if m is not None:
                    return self.truth(self.call(Bound(a, m), [b], {}))
                return N.FALSE
            if x[0] == "dict" and y[0] == "dict":
                if any(e[2] for e in x[1] + y[1]):
                    self.undecided("comparison of dicts")
                if len(x[1]) != len(y[1]):
                    return N.FALSE
                r = N.TRUE
                for k, v, _ in x[1]:
                    f, w = self.dict_get(b, k)
                    if f is N.FALSE:
                        return N.FALSE
                    r = N.land(r, N.land(f, self.compare_eq(v, w)))
                return r
            self.undecided("comparison of objects")
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            self.undecided("comparison with an unknown string")
        if type(a) is type(b):
            return N.bconst(self.same_value(a, b))
        return N.FALSE

    def contains(self, cont, x):
        if isinstance(cont, Choice) or isinstance(x, Choice):
            r = self.lift(lambda c, y: Num(self.contains(c, y), "bool"), cont, x)
            return r.n
        if isinstance(cont, str) and isinstance(x, str):
            return N.bconst(x in cont)
        if isinstance(cont, Ref) and self.get(cont)[0] in ("dict", "env"):
            self.ext.check_hash(x)
            return self.dict_get(cont, x)[0]
        if isinstance(cont, Ref) and self.get(cont)[0] == "obj":
            m = self.find_method(self.get(cont)[1], "__contains__")
            if m is not None:
                return self.truth(self.call(Bound(cont, m), [x], {}))
        if isinstance(cont, SymRange):
            xn = self.node(x)
            if xn is None:
                return N.FALSE
            k = N.div(N.sub(xn, cont.start), cont.step)
            return N.land(N.eq(k, N.floor(k)), N.land(N.le(N.ZERO, k), N.lt(k, cont.count)))
        r = N.FALSE
        for g, y in self.iterate(cont):
            if isinstance(y, Seg):
                self.undecided("membership in a sequence of unknown length")
            r = N.lor(r, N.land(g or N.TRUE, self.compare_eq(x, y)))
        return r

    # ------------------------------------------------------------------ attributes, items
    def find_method(self, cls, name):
        for c in cls.mro:
            if c.ns is not None:
                d = self.st[c.ns.id][1]
                if name in d:
                    return d[name]
        return None

    def getattr(self, o, name):
        if isinstance(o, Choice):
            return self.lift(lambda x: self.getattr(x, name), o)
        r = self.getattr0(o, name)
        if r is self.ext.MISSING:
            self.throw("AttributeError", "%s has no attribute '%s'" % (self.ext.typename(o), name))
        return r

    def getattr0(self, o, name):
        M = self.ext.MISSING
        if isinstance(o, Mod):
            d = self.st[o.env.id][1]
            if name in d:
                return d[name]
            if name == "__dict__":
                return o.env
            sub = o.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            return M
        if isinstance(o, Ref) and o.kind == "obj":
            c = self.get(o)
            if name in c[2]:
                return c[2][name]
            if name == "__class__":
                return c[1]
            if name == "__dict__":
                return self.newdict(list(c[2].items()))
            for k in c[1].mro:
                if k.ns is not None:
                    d = self.st[k.ns.id][1]
                    if name in d:
                        return self.bind_attr(o, c[1], d[name])
            return self.ext.obj_attr(o, c, name)
        if isinstance(o, Cls):
            for k in o.mro:
                if k.ns is not None:
                    d = self.st[k.ns.id][1]
                    if name in d:
                        return self.bind_attr(None, o, d[name])
            if name in ("__name__", "__qualname__"):
                return o.name
            return self.ext.cls_attr(o, name)
        if isinstance(o, Func):
            d = self.st[o.attrs.id][1]
            if name in d:
                return d[name]
            return self.ext.func_attr(o, name)
        r = self.ext.attr(o, name)
        if r is M and self.ext.really_has(o, name):
            self.undecided("attribute %s of %s" % (name, self.ext.typename(o)))
        return r

    def bind_attr(self, o, cls, v):
        if isinstance(v, Rec):
            if v.name == "property":
                r = self.call(v.fields["fget"], [o], {}) if o is not None else v
                if o is not None and v.fields.get("cached"):
                    c = self.get(o)
                    self.put(o, ("obj", c[1], dict(c[2], **{v.fields["fget"].name: r})))
                return r
            if v.name == "staticmethod":
                return v.fields["f"]
            if v.name == "classmethod":
                return Bound(cls, v.fields["f"])
        if o is not None and isinstance(v, (Func,)):
            return Bound(o, v)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Choice):
            def th(w):
                return lambda: self.setattr(w, name, v)
            return self.branch([(g, th(w)) for g, w in o.alts])
        if isinstance(o, Mod):
            self.setvar_env(o.env, name, v)
        elif isinstance(o, Ref) and o.kind == "obj":
            c = self.get(o)
            m = self.find_method(c[1], "__setattr__")
            if m is not None:
                self.call(Bound(o, m), [name, v], {})
                return
            if getattr(c[1], "frozen", False) or getattr(c[1], "nt", None) and name in c[1].nt:
                self.throw("AttributeError", "cannot assign to field '%s'" % name)
            d = dict(c[2])
            d[name] = v
            self.put(o, ("obj", c[1], d))
        elif isinstance(o, Func):
            self.setvar_env(o.attrs, name, v)
        elif isinstance(o, Cls) and o.ns is not None:
            self.setvar_env(o.ns, name, v)
        elif isinstance(o, Ext):
            self.event("patches-module", "assignment to %s.%s" % (o.name, name))
            self.undecided("assignment to an attribute of an external module")
        else:
            self.undecided("attribute assignment on %s" % type(o).__name__)

    def getitem(self, o, i):
        if isinstance(o, Choice) or isinstance(i, Choice):
            return self.lift(lambda x, y: self.getitem(x, y), o, i)
        return self.ext.getitem(o, i)

    def setitem(self, o, i, v):
        if isinstance(o, Choice):
            def th(w):
                return lambda: self.setitem(w, i, v)
            return self.branch([(g, th(w)) for g, w in o.alts])
        return self.ext.setitem(o, i, v)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Choice):
            def th(w):
                return lambda: self.call(w, args, kw)
            return self.branch([(g, th(w)) for g, w in f.alts])
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, Prim):
            self.prims.add((f.name, self.site))
            return self.ext.call_prim(f, args, kw)
        if isinstance(f, Meth):
            return self.ext.call_meth(f.obj, f.name, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ref) and f.kind == "obj":
            m = self.find_method(self.get(f)[1], "__call__")
            if m is not None:
                return self.call(Bound(f, m), args, kw)
        if isinstance(f, Rec) and f.name in ("partial", "lru", "vectorize", "staticmethod"):
            return self.ext.call_rec(f, args, kw)
        self.throw("TypeError", "'%s' object is not callable" % self.ext.typename(f))

    def instantiate(self, cls, args, kw):
        if cls.ns is None or any(c.builtin and c is not OBJECT for c in cls.mro):
            r = self.ext.construct(cls, args, kw)
            if r is not self.ext.MISSING:
                return r
        o = self.alloc(("obj", cls, {}), "obj")
        if any(c.builtin and c.name == "BaseException" for c in cls.mro):
            self.put(o, ("obj", cls, {"args": tuple(args)}))
        init = self.find_method(cls, "__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif getattr(cls, "dc", None) is not None:
            self.put(o, ("obj", cls, self.ext.dc_fields(cls, args, kw)))
            post = self.find_method(cls, "__post_init__")
            if post is not None:
                self.call(post, [o], {})
        elif (args or kw) and not any(c.builtin and c.name == "BaseException" for c in cls.mro):
            self.throw("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def bind_args(self, f, args, kw):
        """-> dict name -> value; raises TypeError outcome on mismatch"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
            env[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        ponly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if (k in pos and k not in ponly) or k in kwonly:
                if k in env:
                    self.throw("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                env[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                self.throw("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.newdict(extra)
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            if n not in env:
                env[n] = d
        for n in kwonly:
            if n not in env and n in f.kwdefaults:
                env[n] = f.kwdefaults[n]
        miss = [n for n in pos + kwonly if n not in env]
        if miss:
            self.throw("TypeError", "%s() missing required argument '%s'" % (f.name, miss[0]))
        return env

    record = None        # {qualified name: [result, ...]}, filled while set

    def call_func(self, f, args, kw):
        if self.depth > MAX_DEPTH:
            self.undecided("recursion depth")
        bound = self.bind_args(f, args, kw)
        env = self.alloc(("env", bound), "env")
        fr = Frame(f.name, f.mod, env, f.env, None)
        fr.locals = f.locals
        fr.isfn = True
        fr.func = f
        fr.basepc = self.pc
        fr.args0 = args
        save = (self.fns, self.site)
        self.fns = self.fns + [fr]
        self.depth += 1
        self.callpath.append("%s:%s" % (f.mod.name.split(".")[-1], f.name))
        base = self.pc
        outs = []
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                return v
            try:
                self.exec_block(f.node.body)
                outs.append((self.pc, self.st, None))
            except Dead:
                pass
            outs = fr.returns + outs
            if not outs:
                raise Dead()
            v = self.join(base, [(pc.rel(base), val, st, pc) for pc, st, val in outs])
            if f.is_gen:
                return self.newlist([y[1] for y in fr.yields], [y[0] for y in fr.yields], "iter")
            if self.record is not None and f.qual in self.record:
                self.record[f.qual].append(v)
            return v
        finally:
            self.depth -= 1
            self.fns, self.site = save
            self.callpath.pop()
            N.CUR_SITE[0] = self.site

    # ------------------------------------------------------------------ entry
    def run(self, thunk):
        """run thunk (returning a value) from the current state; gives an Outcome; the state after is kept"""
        out = Outcome()
        self.raises = [[]]
        self.hazards, self.events = [], []
        self.trycatch = []
        self.callpath = []
        self.depth = 0
        pc0 = self.pc
        self.steps = 0
        try:
            out.value = thunk()
            out.returns = True
        except Dead:
            pass
        out.pc = self.pc if out.returns else None
        for pc, st, exc, site, path in self.raises[0]:
            c = st[exc.id] if isinstance(exc, Ref) and exc.id in st else None
            cls = c[1] if c else None
            msg = (c[2].get("args") or (None,))[0] if c else None
            out.raises.append((pc.rel(pc0), cls, msg if isinstance(msg, str) else None, site, path))
        for h in self.hazards:
            h = dict(h)
            h["guard"] = N.land(h["pc"].rel(pc0), h["cond"])
            h["pathcond"] = h["pc"].rel(pc0)
            out.hazards.append(h)
        for e in self.events:
            e = dict(e)
            e["guard"] = e["pc"].rel(pc0)
            out.events.append(e)
        if not out.returns and not out.raises:
            raise Undecided("no outcome", self.site)
        out.st = self.st
        self.pc = pc0
        return out


class LoopRec:
    def __init__(self):
        self.breaks, self.conts = [], []


class Frame:
    def __init__(self, name, mod, env, outer, returns):
        self.name, self.mod, self.env, self.outer = name, mod, env, outer
        self.returns = []
        self.yields = []
        self.locals = None
        self.isfn = False
        self.classbody = False
        self.anns = {}                    # annotated names of a class body
        self.comp = False
        self.func = None
        self.globals_decl = set()
        self.nonlocals = set()
        self.loops = []
        self.basepc = None
        self.args0 = ()

    def fn(self):
        """the frame that owns returns and yields (comprehension frames belong to their function)"""
        f = self
        while f is not None and f.comp:
            f = f.outer
        return f if f is not None else self

    def fn_loops(self):
        return self.fn().loops
