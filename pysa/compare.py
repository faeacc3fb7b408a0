"""Comparing outcomes of abstract calls."""
import numpy as np

from . import nodes as N
from . import canon as C
from . import decide as D
from .ctx import flatten, REPO
from .values import *

TOL = (1e-9, 1e-9)
TOL_INSTANT = (2e-6, 0)


def merged(o):
    """{path: {'num': (presence guard, value node), ('const', payload): guard, ...}}"""
    out = {}
    for path, g, kind, pay in flatten(o.value, o.st):
        d = out.setdefault(path, {})
        if kind == "num":
            if "num" in d:
                g0, v0 = d["num"]
                d["num"] = (N.lor(g0, g), N.ite(g, pay, v0))
            else:
                d["num"] = (g, pay)
        elif kind == "seg":
            d["seg"] = (g, pay)
        else:
            k = (kind, repr(pay))
            d[k] = N.lor(d.get(k, N.FALSE), g)
    return out


def orall(gs):
    r = N.FALSE
    for g in gs:
        r = N.lor(r, g)
    return r


def is_error(cls, name):
    return cls is not None and cls.isa(name)


def locate(a, b):
    """deepest construct of term a that has no counterpart in term b (counterparts found by value at fixed random points)"""
    try:
        E = D.Env([a] + ([b] if b is not None else []), n=24, seed=7)
        tb = list(N.topo([b])) if b is not None else []
        ta = list(N.topo([a]))
        known = {m.id for m in tb}
        vals = E.ev(tb + ta)
    except (NotImplementedError, RecursionError, Undecided):
        return None

    def key(m, v):
        v = np.broadcast_to(np.asarray(v), (E.n,))
        return (m.isbool, v.tobytes() if v.dtype == bool else tuple("%.9g" % x for x in v))
    kb = {key(m, v) for m, v in zip(tb, vals)}
    bad = set()
    for m, v in zip(ta, vals[len(tb):]):
        if m.id in known or not m.args or key(m, v) in kb:
            continue
        if not any(x.id in bad for x in m.args) and m.site and str(m.site[0]).startswith(REPO):
            return m.site
        bad.add(m.id)
    return None


class Mismatch:
    def __init__(self, path, text, site=None):
        self.path, self.text, self.site = path, text, site


def compare(code, ref, tol=TOL, values=True, assume=N.TRUE, events=None, raises="none"):
    """compare an outcome with a reference outcome -> (list of Mismatch, set of methods)

    raises: 'none' -- the reference never raises, so any possible raise of the code is a mismatch
            'ignore', or 'same' -- explicit raises of the two compared as one condition
    """
    bad, methods = [], set()
    if not code.returns:
        r = code.raises[0]
        return [Mismatch("raise", "always raises %s: %s" % (r[1].name if r[1] else "?", r[2]), r[3])], methods
    if raises == "none":
        for g, cls, msg, site, path in code.raises:
            p = D.sat(N.land(g, assume))
            if p is not None:
                bad.append(Mismatch("raise", "raises %s (%s) at %s" % (cls.name if cls else "?", msg, D.show_point(p)), site))
        methods.add("normal form")
    elif raises == "same":
        a, b = orall(r[0] for r in code.raises), orall(r[0] for r in ref.raises)
        m, d = D.equal(a, b, assume)
        methods.add(m)
        if d:
            bad.append(Mismatch("raise", "failure condition differs " + d.text(), code.raises[0][3] if code.raises else None))
    ok = assume
    if raises != "none":
        for r in ref.raises:
            ok = N.land(ok, N.lnot(r[0]))
        for r in code.raises:
            ok = N.land(ok, N.lnot(r[0]))
    if events is not None:
        ga = orall(e["guard"] for e in code.events if e["kind"] == events)
        gb = orall(e["guard"] for e in ref.events if e["kind"] == events)
        m, d = D.equal(ga, gb, ok)
        methods.add(m)
        if d:
            st = [e["site"] for e in code.events if e["kind"] == events]
            bad.append(Mismatch(events, "%s condition differs " % events + d.text(), st[0] if st else None))
    if values:
        A, B = merged(code), merged(ref)
        for path in list(A) + [p for p in B if p not in A]:
            x, y = A.get(path, {}), B.get(path, {})
            for k in list(x) + [k for k in y if k not in x]:
                if k == "seg":
                    if ("seg" in x) != ("seg" in y):
                        bad.append(Mismatch(path, "result is a stream in one and not in the other"))
                    continue
                gx = x[k][0] if k == "num" and k in x else x.get(k, N.FALSE)
                gy = y[k][0] if k == "num" and k in y else y.get(k, N.FALSE)
                m, d = D.equal(gx, gy, ok)
                methods.add(m)
                if d:
                    bad.append(Mismatch(path, "%s result %s %s" % (
                        "numeric" if k == "num" else "%s %s" % k, "where it should not be" if d.a else "missing", d.text())))
                    continue
                if k == "num" and k in x and k in y:
                    t = TOL_INSTANT if path.endswith(".instant") or path.endswith(".wall") else tol
                    m, d = D.equal(x[k][1], y[k][1], N.land(ok, gx), t)
                    methods.add(m)
                    if d:
                        bad.append(Mismatch(path, "value differs " + d.text(), locate(x[k][1], y[k][1])))
    return bad, methods


RANK = ["identical graph", "normal form", "normal form + table/clamp lemma", "identity testing", "refuted"]


def worst(methods):
    w = [m for m in RANK if m in methods]
    return w[-1] if w else "normal form"
