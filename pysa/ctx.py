"""Analysis contexts: the package interpreted abstractly under one backend, and outcomes in comparable form."""
import os
import copy

from . import nodes as N
from . import absint as A
from .values import *

REPO = os.environ.get("PYSOLAR_REPO", "/repo")
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
PKG = "pysolar"


def module_names():
    d = os.path.join(REPO, PKG)
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            out.append(PKG + "." + f[:-3])
    return out


class Ctx:
    """mode: 'numpy', 'math' (numpy installed, use_math() called), 'absent' (numpy not installed)"""

    def __init__(self, mode):
        self.mode = mode
        self.ip = A.Interp([REPO], numpy=mode != "absent")
        self.import_problems = []
        o = self.ip.run(lambda: self.ip.import_module(PKG))
        if not o.returns:
            raise Undecided("package import fails: %s" % [(r[1], r[2]) for r in o.raises])
        self.import_events = list(o.events)
        for m in module_names():
            try:
                o = self.ip.run(lambda: self.ip.import_module(m))
                if not o.returns:
                    self.import_problems.append((m, "import raises %s: %s" % (o.raises[0][1], o.raises[0][2]), o.raises[0][3]))
                self.import_events += o.events
            except Undecided as u:
                self.import_problems.append((m, "cannot model import: %s" % u.reason, u.site))
        if mode == "math":
            self.switch("use_math")
        self.st0, self.pc0 = A.fork(self.ip.st), self.ip.pc

    def switch(self, name):
        top = self.ip.modules[PKG]
        f = self.ip.getattr(top, name)
        return self.ip.run(lambda: self.ip.call(f, [], {}))

    def reset(self):
        self.ip.st = A.fork(self.st0)
        self.ip.pc = self.pc0

    def func(self, qual):
        mod, name = qual.rsplit(".", 1)
        m = self.ip.modules.get(PKG + "." + mod)
        if m is None:
            return None
        return self.ip.st[m.env.id][1].get(name)

    def call(self, qual, build, reset=True):
        """build(ip) -> (args, kwargs)"""
        if reset:
            self.reset()
        f = self.func(qual)
        if f is None:
            raise Undecided("no function %s" % qual)
        ip = self.ip

        def th():
            a, k = build(ip)
            return ip.call(f, a, k)
        return ip.run(th)


class SpecCtx:
    def __init__(self, flags=()):
        self.mode = "spec"
        self.ip = A.Interp([SPEC], numpy=True)
        o = self.ip.run(lambda: self.ip.import_module("ref"))
        if not o.returns:
            raise RuntimeError("reference does not load: %s" % o.raises)
        self.m = self.ip.modules["ref"]
        for f in flags:
            assert f in self.ip.st[self.m.env.id][1], f
            self.ip.setvar_env(self.m.env, f, Num(N.TRUE, "bool"))
        self.st0, self.pc0 = A.fork(self.ip.st), self.ip.pc

    reset = Ctx.reset

    def func(self, qual):
        return self.ip.st[self.m.env.id][1].get(qual.rsplit(".", 1)[1])

    call = Ctx.call


def flatten(v, st, path="", guard=N.TRUE, out=None, ip=None):
    """value -> list of (path, guard, kind, payload); payload node for 'num', otherwise hashable description"""
    if out is None:
        out = []
    if isinstance(v, Num):
        out.append((path, guard, "num", N.asnum(v.n)))
    elif isinstance(v, Choice):
        for g, w in v.alts:
            flatten(w, st, path, N.land(guard, g), out, ip)
    elif isinstance(v, (tuple, list)):
        out.append((path + "#len", guard, "const", ("sequence", len(v))))
        for i, w in enumerate(v):
            flatten(w, st, "%s[%d]" % (path, i), guard, out, ip)
    elif isinstance(v, Ref):
        c = st[v.id]
        if c[0] == "arr":
            out.append((path, guard, "num", N.asnum(c[1])))
        elif c[0] == "list":
            items = c[1]
            gs = c[2] or (None,) * len(items)
            if any(isinstance(i, Seg) for i in items):
                out.append((path, guard, "seg", [(i, g) for i, g in zip(items, gs)]))
            else:
                if all(g is None for g in gs):
                    out.append((path + "#len", guard, "const", ("sequence", len(items))))
                for i, w in enumerate(items):
                    flatten(w, st, "%s[%d]" % (path, i), guard if gs[i] is None else N.land(guard, gs[i]), out, ip)
        elif c[0] == "dict":
            keys = []
            for k, w, g in c[1]:
                kk = k if isinstance(k, str) else ("%s" % (k.n.data,) if isinstance(k, Num) and N.isnum(k.n) else "?")
                keys.append(kk)
                flatten(w, st, "%s[%r]" % (path, kk), guard if g is None else N.land(guard, g), out, ip)
            out.append((path + "#keys", guard, "const", tuple(sorted(keys))))
        elif v.kind == "iter":
            out.append((path, guard, "other", "iterator"))
        elif c[0] == "obj" and getattr(c[1], "nt", None):
            flatten(tuple(c[2][k] for k in c[1].nt), st, path, guard, out, ip)
        elif c[0] == "obj" and path.count(".") < 6:
            out.append((path + "#class", guard, "other", c[1].name))
            for k in sorted(c[2]):
                flatten(c[2][k], st, path + "." + k, guard, out, ip)
        else:
            out.append((path, guard, "other", repr(c[0])))
    elif isinstance(v, DT):
        out.append((path + "#aware", guard, "const", v.tz is not None))
        out.append((path + ".instant" if v.tz is not None else path + ".wall", guard, "num", v.inst))
        if v.tz is not None:
            out.append((path + ".utcoffset", guard, "num", v.tz.off))
    elif isinstance(v, DT64):
        out.append((path, guard, "num", v.sec))
    elif isinstance(v, TD):
        out.append((path, guard, "num", v.sec))
    elif isinstance(v, Date):
        out.append((path, guard, "num", v.day))
    elif v is None or isinstance(v, (str, bytes)):
        out.append((path, guard, "const", v))
    elif isinstance(v, Rec) and path.count(".") < 6:
        out.append((path + "#class", guard, "other", v.name))
        for k in sorted(v.fields):
            w = v.fields[k]
            flatten(tuple(w[x] for x in sorted(w)) if isinstance(w, dict) and all(isinstance(x, str) for x in w) else w, st, path + "." + k, guard, out, ip)
    else:
        out.append((path, guard, "other", repr(v)))
    return out
