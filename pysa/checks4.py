"""REST2, units, type stubs."""
import ast
import builtins
import os

import numpy as np

from . import nodes as N
from . import api
from . import decide as D
from . import compare as K
from .ctx import flatten, REPO, PKG
from .report import sitestr
from .values import *
from .checks2 import _k, returns_guard
from .checks3 import span_call, step_got, stream_items


# ------------------------------------------------------------------------------------ C23
def source(mod):
    return open(os.path.join(REPO, PKG, mod + ".py"), encoding="utf-8").read()


def local_names(fn):
    """names bound inside a function (or any scope nested in it)"""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


def unwrapped(ip, f):
    n = 0
    while n < 20:
        w = ip.getattr0(f, "__wrapped__") if isinstance(f, (Func, Rec)) else ip.ext.MISSING
        if w is ip.ext.MISSING:
            return f
        f = w
        n += 1
    return f


def accepts(f, call):
    """None if the call fits the function's parameters, else what does not fit"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    n = len(call.args)
    if n > len(pos) and not a.vararg:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    given = set(pos[:n])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return "two values for %s" % k.arg
        if k.arg not in pos + kwonly and not a.kwarg:
            return "no parameter %s" % k.arg
        given.add(k.arg)
    need = pos[:len(pos) - len(f.defaults)] + [k for k in kwonly if k not in f.kwdefaults]
    miss = [p for p in need if p not in given]
    if miss:
        return "nothing for %s" % ", ".join(miss)
    return None


def scan_calls(rep, c, mod):
    """every global name resolves and every call of a function of the module fits its parameters"""
    tree = ast.parse(source(mod))
    env = c.st0[c.ip.modules[PKG + "." + mod].env.id][1]
    seen = 0
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        loc = local_names(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in loc:
                seen += 1
                desc = "%s.%s: name %s exists" % (mod, fn.name, n.id)
                if n.id in env or hasattr(builtins, n.id):
                    rep.ok(desc, "name lookup")
                elif not rep.known("REST2:name:%s" % n.id, "%s line %d" % (fn.name, n.lineno)):
                    rep.bad(desc, "pysolar/%s.py:%d in %s" % (mod, n.lineno, fn.name), "no such name in the module")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in loc:
                f = unwrapped(c.ip, env.get(n.func.id))
                if isinstance(f, Func):
                    seen += 1
                    desc = "%s.%s: call of %s fits (argument %d)" % (mod, fn.name, n.func.id, n.lineno)
                    why = accepts(f, n)
                    if why is None:
                        rep.ok(desc, "signature comparison")
                    elif not rep.known("REST2:call:%s" % n.func.id, "%s line %d: %s" % (fn.name, n.lineno, why)):
                        rep.bad(desc, "pysolar/%s.py:%d in %s" % (mod, n.lineno, fn.name), why)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id not in loc and isinstance(env.get(n.value.id), Mod) \
                    and isinstance(n.ctx, ast.Load):
                seen += 1
                desc = "%s.%s: %s.%s exists" % (mod, fn.name, n.value.id, n.attr)
                if n.attr in c.st0[env[n.value.id].env.id][1]:
                    rep.ok(desc, "name lookup")
                else:
                    rep.bad(desc, "pysolar/%s.py:%d in %s" % (mod, n.lineno, fn.name), "no such name")
    return seen


BROKEN = ("rest.get_backscattered_diffuse_broadband_irradiance", "rest.get_diffuse_irradiance_by_band", "rest.get_diffuse_broadband_irradiance",
          "rest.get_global_broadband_irradiance")


def c23(rep):
    ch = _k()
    ch.formula_property(rep, "C23")
    for mode in ("math", "numpy"):
        c = ch.ctx(mode)
        c.reset()
        n = scan_calls(rep, c, "rest")
        rep.extra["names_and_calls_checked"] = n
        # functions added or not specified: they can be evaluated
        env = c.st0[c.ip.modules[PKG + ".rest"].env.id][1]
        known = {f.name for f in api.API if f.qual.startswith("rest.")}
        for name, f in env.items():
            g = unwrapped(c.ip, f)
            if not isinstance(g, Func) or g.mod.name != PKG + ".rest" or name in known or name.startswith("_"):
                continue
            desc = "rest.%s can be evaluated [%s]" % (name, mode)
            if not rep.mine():
                continue
            ar = g.node.args
            need = (ar.posonlyargs + ar.args)[:len(ar.posonlyargs + ar.args) - len(g.defaults)]
            if any(x.arg not in GENERIC for x in need) or any(x.arg not in g.kwdefaults for x in ar.kwonlyargs):
                continue                               # a helper with arguments of its own: its names and calls are looked up above
            try:
                o = c.call("rest." + name, lambda ip: (generic_args(ip, g), {}))
            except Undecided as u:
                rep.undecided(desc, u.reason, u.site)
                continue
            if o.returns:
                rep.ok(desc, "a returning path exists")
            else:
                r = o.raises[0]
                if not any(K.is_error(r[1], n) for n in ("NameError", "AttributeError", "TypeError", "ImportError")):
                    rep.ok(desc, "refuses these arguments")
                elif not rep.known("REST2:%s" % name, desc):
                    rep.bad(desc, sitestr(r[3]) or "pysolar/rest.py " + name, "always fails: %s %s" % (r[1].name if r[1] else "?", r[2]))


GENERIC = {"band": None, "altitude_deg": "altp", "pressure_millibars": "pmb", "ozone_atm_cm": "uo", "nitrogen_atm_cm": "un", "precipitable_water_cm": "w",
           "turbidity_alpha": "alpha", "turbidity_beta": "beta", "air_mass": "ma", "ma": "ma", "mo": "ma", "mw": "ma", "mR": "ma", "mRprime": "ma",
           "tau_a": "tau", "uo": "uo", "w": "w", "Ebi": "irr", "Edpi": "irr"}


def generic_args(ip, f):
    a = f.node.args
    out = []
    for x in a.posonlyargs + a.args:
        if x.arg == "band":
            out.append("high-frequency")
        elif GENERIC.get(x.arg):
            out.append(Num(api.pvar(x.arg, GENERIC[x.arg]), "float"))
        elif len(out) >= len(a.posonlyargs + a.args) - len(f.defaults):
            break
        else:
            out.append(Num(api.pvar(x.arg, "coef"), "float"))
    return out


# ------------------------------------------------------------------------------------ C24
FACTOR = (np.pi / 180, 180 / np.pi)


def unit_of(roots, tags):
    """-> ({node id: 'deg' | 'rad' | 'none' | 'any'}, [(node, what)]); a constant is 'any'"""
    u, errs = {}, []

    def join(n, *us):
        us = [x for x in us if x not in ("any", "none")] or [x for x in us if x != "any"] or ["any"]
        if "deg" in us and "rad" in us:
            errs.append((n, "degrees and radians are combined"))
            return "deg"
        return us[0]
    for n in N.topo(roots):
        o = n.op
        A = [u[a.id] for a in n.args]
        if o == "var":
            k = api.VARKIND.get(n)
            r = "any" if k is None else (api.KINDS[k][3] if k in api.KINDS else "none")
            if r not in ("deg", "rad"):
                r = "none"
        elif not n.args:
            r = "any"
        elif o == "rad":
            if A[0] == "rad":
                errs.append((n, "radians are converted to radians again"))
            r = "rad"
        elif o == "deg":
            if A[0] == "deg":
                errs.append((n, "degrees are converted to degrees again"))
            r = "deg"
        elif o in ("sin", "cos", "tan"):
            if A[0] == "deg":
                errs.append((n, "%s() is given degrees" % o))
            r = "none"
        elif o in ("asin", "acos", "atan", "atan2"):
            r = "rad"
        elif o in ("exp", "log"):
            if A[0] == "deg":
                errs.append((n, "%s() is given degrees" % o))
            r = "none"
        elif o == "add":
            r = join(n, *A)
        elif o == "ite":
            r = join(n, *A[1:])
        elif o == "sel":
            r = join(n, *A[1:])
        elif o in ("lt", "le", "eq"):
            join(n, *A)
            r = "none"
        elif o == "mul":
            r = scaled(n, A)
        elif o == "div":
            cst = const_value(n.args[1])
            if cst is not None:
                r = by_constant(A[0], 1 / cst if cst else 1, n.args[1])
            else:
                r = "none" if A[1] == A[0] else A[0] if A[1] in ("none", "any") else "none"
        elif o == "mod":
            cst = const_value(n.args[1])
            if A[0] == "rad" and cst is not None and abs(cst) in (90, 180, 360):
                errs.append((n, "radians are reduced modulo %g" % cst))
            r = A[0]
        elif o in ("abs", "floor", "trunc", "round", "b2n"):
            r = A[0]
        elif o in ("and", "or", "not", "isnan", "bvar"):
            r = "none"
        else:
            r = "none"
        if n.id in tags and n.args:
            t = tags[n.id]
            if r == "rad" and t == "deg":
                errs.append((n, "a result in radians is returned as degrees"))
            r = t
        u[n.id] = r
    return u, errs


_cv = {}


def const_value(n):
    if n.id not in _cv:
        v = None
        if not N.free_vars(n) and not n.isbool:
            try:
                v = float(N.evalmp(n, {}))
            except Exception:
                v = None
        _cv[n.id] = v
    return _cv[n.id]


def by_constant(unit, c, n):
    if unit == "deg" and abs(abs(c) / FACTOR[0] - 1) < 1e-3:
        return "rad"
    if unit == "rad" and abs(abs(c) / FACTOR[1] - 1) < 1e-3:
        return "deg"
    if any(m is N.PI for m in N.topo([n])):
        return "none"
    return unit


def scaled(n, A):
    a, b = n.args
    ca, cb = const_value(a), const_value(b)
    if ca is not None:
        return by_constant(A[1], ca, a)
    if cb is not None:
        return by_constant(A[0], cb, b)
    if A[0] in ("deg", "rad") and A[1] in ("none", "any"):
        return A[0]
    if A[1] in ("deg", "rad") and A[0] in ("none", "any"):
        return A[1]
    return "none"


UNITS = {}
for _f in api.API:
    if _f.unit == "deg" and _f.qual not in ("solar.get_nutation", "solar.get_topocentric_position", "solar.get_position"):
        UNITS["pysolar." + _f.qual] = "deg"


def num_nodes(v):
    if isinstance(v, Num):
        return [v.n]
    if isinstance(v, Choice):
        return [x for _, w in v.alts for x in num_nodes(w)]
    if isinstance(v, tuple):
        return [x for w in v for x in num_nodes(w)]
    return []


def graph_with_units(c, fn, form, band):
    """outcome, and the units of intermediate results known from the functions that returned them"""
    ip = c.ip
    ip.record = {q: [] for q in list(UNITS) + ["pysolar.solar.get_position", "pysolar.solar.get_topocentric_position"]}
    try:
        o = c.call(fn.qual, api.build(fn, form, band=band))
        rec = ip.record
    finally:
        ip.record = None
    own = "pysolar." + fn.qual
    tags = {}
    for q, vs in rec.items():
        for v in vs:
            for n in num_nodes(v):
                if n.args and (q != own):
                    tags[n.id] = "deg"
    return o, tags


def unit_repairs(root, want, tol):
    """a conversion inserted or removed at one place that makes the term equal to the reference -> (node, what)"""
    n = 400
    E = D.Env([root, want], focus=[root], known=[want], n=n, seed=D.SEED[0])
    (vw,) = E.ev([want])
    vw = vw.astype(float)

    def close(x):
        (v,) = E.ev([x])
        v = v.astype(float)
        with np.errstate(all="ignore"):
            ok = (np.abs(v - vw) <= tol[0] + tol[1] * np.abs(vw)) | ~np.isfinite(vw) | (v == vw)
        return ok.mean() > 0.98
    cand = []
    for m in N.topo([root]):
        if not N.free_vars(m) or m.isbool:
            continue
        if m.op in ("sin", "cos", "tan"):
            cand.append((m, N.unary(m.op, N.unary("rad", m.args[0])), "%s() is given degrees" % m.op))
        if m.op in ("rad", "deg"):
            cand.append((m, m.args[0], "%s is applied to a value that already has that unit" % {"rad": "radians()", "deg": "degrees()"}[m.op]))
        if m.op in ("asin", "acos", "atan", "atan2"):
            cand.append((m, N.unary("deg", m), "the result of %s() is not converted to degrees" % m.op))
            cand.append((m, N.unary("rad", m), "the result of %s() is already in radians" % m.op))
    cand = cand[:400]
    args = {}
    for m in N.topo([root]):
        if m.op in ("sin", "cos", "tan") and N.free_vars(m):
            args.setdefault(m.args[0], []).append(m)
    for x, ms in args.items():
        if len(ms) > 1:
            cand.append((tuple(ms), tuple(N.unary(m.op, N.unary("rad", x)) for m in ms), "sin/cos/tan are given degrees"))
    for m, r, what in cand:
        mp_ = dict(zip(m, r)) if isinstance(m, tuple) else {m: r}
        (x,) = N.subst([root], mp_)
        if x is not root and close(x):
            return (m[0] if isinstance(m, tuple) else m), what
    for s, what in (("deg", "the result is in radians"), ("rad", "the result is converted to degrees once too often")):
        if close(N.unary(s, root)):
            return root, what
    return None


def c24(rep):
    ch = _k()
    terms = 0
    for fn in api.API:
        for mode in ch.modes(fn):
            for form in (("pos",) if rep.tier == "quick" else fn.forms()):
                for band in ch.bands(fn):
                    desc = "%s(%s%s): one conversion on every path [%s]" % (fn.qual, form, ", " + band if band else "", mode)
                    if not rep.mine():
                        continue
                    try:
                        o, tags = graph_with_units(ch.ctx(mode), fn, form, band)
                        if not o.returns:
                            rep.undecided(desc, "never returns")
                            continue
                        M = K.merged(o)
                        roots = {p: v["num"][1] for p, v in M.items() if "num" in v}
                        u, errs = unit_of(list(roots.values()), tags)
                        terms += len(u)
                        for p, r in roots.items():
                            if (fn.unit == "deg" or fn.qual in ("solar.get_position", "solar.get_topocentric_position", "solar.get_nutation")) and u[r.id] == "rad":
                                errs.append((r, "a result in radians is returned as degrees"))
                        ref = K.merged(ch.spec_out((), fn, form, band))
                        diff = value_diff(roots, ref, fn, ch)
                        if not diff:
                            rep.ok(desc, "unit inference: no conflict" if not errs else "agrees with the reference (%s)" % diff_method(roots, ref, fn, ch))
                            continue
                        # the value is wrong: is it because of units?
                        hit = None
                        rel = ch.relevant_flags(fn, form, band)
                        if rel:
                            kf = K.merged(ch.spec_out([f for f in rel], fn, form, band))
                            kd = value_diff(roots, kf, fn, ch)
                            if not kd:
                                miss = [f for f in rel if f in ("KF_SIDEREAL_COS_DEG", "KF_DECLINATION_AS_DEPTH")]
                                for f in miss:
                                    if not rep.known(f, desc):
                                        hit = (list(roots.values())[0], "matches the recorded defect %s, which is not recorded here" % f)
                                if hit is None:
                                    if not miss:
                                        rep.ok(desc, "unit inference: no conflict")
                                    continue
                            else:
                                ref, diff = kf, kd
                                errs = own_errors(errs, kf, tags)
                        if hit is None and errs:
                            hit = errs[0]
                        if hit is None:
                            for p, d in diff.items():
                                if p in ref and "num" in ref[p]:
                                    hit = hit or unit_repairs(roots[p], ref[p]["num"][1], ch.tolerance(fn))
                        if hit:
                            n, what = hit
                            site = n.site if n.site and str(n.site[0]).startswith(REPO) else K.locate(n, None)
                            rep.bad(desc, sitestr(site) or ch.where(fn), "%s: %s" % (what, next(iter(diff.values())).text() if diff else ""))
                        else:
                            rep.ok(desc, "unit inference: no conflict (the value differs for another reason)")
                    except Undecided as x:
                        rep.undecided(desc, x.reason, x.site)
    for mode in ("math", "numpy"):
        desc = "simulate.simulate_span: one conversion on every path [%s]" % mode
        if not rep.mine():
            continue
        try:
            terms += span_units(rep, ch.ctx(mode), desc)
        except Undecided as x:
            rep.undecided(desc, x.reason, x.site)
    rep.extra["terms_given_units"] = terms


def span_units(rep, c, desc):
    """the angles of a simulated span: every step's altitude is converted once where the horizon is compared"""
    site = "pysolar/simulate.py simulate_span"
    o, step_want = span_call(c, 3000, 20, "pos")
    if not o.returns:
        raise Undecided("never returns")
    n = 0
    for i, (g, x) in enumerate(stream_items(o)):
        got = step_got(x, o.st)
        u, errs = unit_of(list(got.values()), {got[p].id: "deg" for p in ("[1]", "[2]") if p in got})
        n += len(u)
        for p, (wn, edge) in step_want(i).items():
            if p not in got:
                continue
            d = D.equal(got[p], wn, edge, K.TOL_INSTANT if p == "[0].instant" else K.TOL)[1]
            if not d:
                continue
            own = [e for e in errs if e[0] in N.topo([got[p]])]
            hit = own[0] if own else unit_repairs(got[p], wn, K.TOL)
            if hit:
                s = hit[0].site if hit[0].site and str(hit[0].site[0]).startswith(REPO) else None
                rep.bad(desc, sitestr(s) or site, "%s: step %d, item %s: %s" % (hit[1], i, p, d.text()))
                return n
    rep.ok(desc, "unit inference: no conflict, or the values agree with the reference")
    return n


def own_errors(errs, kf, tags):
    """unit conflicts that the recorded defect does not have as well"""
    roots = [v["num"][1] for v in kf.values() if "num" in v]
    _, kerr = unit_of(roots, {})
    have = set()
    for n, w in kerr:
        try:
            have.add((D.ckey(n), w))
        except (NotImplementedError, RecursionError):
            pass
    out = []
    for n, w in errs:
        try:
            if (D.ckey(n), w) in have:
                continue
        except (NotImplementedError, RecursionError):
            pass
        out.append((n, w))
    return out


def value_diff(roots, ref, fn, ch):
    out = {}
    for p, r in roots.items():
        if p in ref and "num" in ref[p]:
            t = K.TOL_INSTANT if p.endswith(".instant") else ch.tolerance(fn)
            m, d = D.equal(r, ref[p]["num"][1], ref[p]["num"][0], t)
            if d:
                out[p] = d
    return out


def diff_method(roots, ref, fn, ch):
    ms = {D.equal(r, ref[p]["num"][1], ref[p]["num"][0], ch.tolerance(fn))[0] for p, r in roots.items() if p in ref and "num" in ref[p]}
    return K.worst(ms)


# ------------------------------------------------------------------------------------ C25
STUBBED = None
FROZEN = {"": ["use_numpy", "use_math"],
          "constants": ["get_aberration_coeffs"],
          "elevation": ["get_pressure_with_elevation", "get_temperature_with_elevation", "elevation_test"]}
for _f in api.API:
    FROZEN.setdefault(_f.qual.split(".")[0], [])
    if _f.name not in FROZEN[_f.qual.split(".")[0]]:
        FROZEN[_f.qual.split(".")[0]].append(_f.name)
FROZEN["simulate"] = ["datetime_range", "simulate_span"]
FROZEN["solar"] = FROZEN["solar"] + ["solar_test"]


def stub_files():
    d = os.path.join(REPO, PKG)
    return sorted(f for f in os.listdir(d) if f.endswith(".pyi"))


def ann(n):
    return ast.unparse(n) if n is not None else None


def fits(v, a, st, ip, depth=0):
    """does an abstract value fit an annotation? None: yes or not known, else a text"""
    if a is None or depth > 3:
        return None
    if isinstance(v, Choice):
        for g, w in v.alts:
            if g is N.FALSE:
                continue
            r = fits(w, a, st, ip, depth)
            if r and D.sat(g) is not None:
                return r
        return None
    if isinstance(a, ast.Constant) and a.value is None:
        return None if v is None else "not None"
    name = a.attr if isinstance(a, ast.Attribute) else a.id if isinstance(a, ast.Name) else None
    if isinstance(a, ast.Subscript):
        head = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
        elts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        if head == "Optional":
            return None if v is None else fits(v, elts[0], st, ip, depth)
        if head == "Union":
            rs = [fits(v, e, st, ip, depth) for e in elts]
            return None if any(r is None for r in rs) else rs[0]
        if head == "Tuple":
            if not isinstance(v, tuple):
                return "not a tuple but %s" % ip.ext.typename(v)
            if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                elts = [elts[0]] * len(v)
            if len(elts) != len(v):
                return "a tuple of %d, not %d" % (len(v), len(elts))
            for i, (x, e) in enumerate(zip(v, elts)):
                r = fits(x, e, st, ip, depth + 1)
                if r:
                    return "item %d: %s" % (i, r)
            return None
        if head in ("List", "Iterator", "Iterable", "Sequence"):
            if head == "List" and not (isinstance(v, Ref) and st[v.id][0] == "list" and v.kind != "iter"):
                return "not a list but %s" % ip.ext.typename(v)
            if head == "Iterator" and not (isinstance(v, Ref) and v.kind == "iter"):
                return "not an iterator but %s" % ip.ext.typename(v)
            if isinstance(v, Ref) and st[v.id][0] == "list":
                for x in st[v.id][1][:8]:
                    r = fits(x.item if isinstance(x, Seg) else x, elts[0], st, ip, depth + 1)
                    if r:
                        return "an element: %s" % r
            return None
        if head == "Dict":
            if not (isinstance(v, Ref) and st[v.id][0] == "dict"):
                return "not a dict but %s" % ip.ext.typename(v)
            for k, w, g in st[v.id][1]:
                r = fits(k, elts[0], st, ip, depth + 1) or fits(w, elts[1], st, ip, depth + 1)
                if r:
                    return "entry %r: %s" % (k if isinstance(k, str) else "?", r)
            return None
        if head == "Callable":
            if isinstance(v, Ref) and v.kind == "obj" and ip.find_method(st[v.id][1], "__call__") is not None:
                return None
            return None if isinstance(v, (Func, Bound, Prim, Rec, Cls, Meth)) else "not a function but %s" % ip.ext.typename(v)
        return None
    if name == "float":
        return None if isinstance(v, Num) and v.k != "bool" or (isinstance(v, Ref) and v.kind == "arr") else "not a number but %s" % ip.ext.typename(v)
    if name == "int":
        if not isinstance(v, Num):
            return "not a number but %s" % ip.ext.typename(v)
        return None if v.k == "int" or v.k == "np" and v.n.isint else "not an int but %s" % v.k if v.k == "float" else None
    if name == "datetime":
        return None if isinstance(v, DT) else "not a datetime but %s" % ip.ext.typename(v)
    if name == "str":
        return None if isinstance(v, (str, SymStr)) else "not a string but %s" % ip.ext.typename(v)
    if name == "bool":
        return None if isinstance(v, Num) and (v.k in ("bool", "npb")) else "not a bool"
    return None


def stub_value(ip, a, pname, kind):
    """abstract argument of the annotated type"""
    name = a.attr if isinstance(a, ast.Attribute) else a.id if isinstance(a, ast.Name) else None
    if kind:
        return api.arg(ip, pname, kind)
    if name == "int":
        return Num(N.var(pname + "_int", True), "int")
    if name == "datetime":
        return DT(api.TS, TZ(api.OFF))
    return Num(api.pvar(pname, "coef"), "float")


def c25(rep):
    ch = _k()
    c = ch.ctx("math")
    ip = c.ip
    stubs = stub_files()
    rep.extra["stubs"] = stubs
    want = {"__init__.pyi" if m == "" else m + ".pyi" for m in ("", "constants", "elevation", "radiation", "simulate", "solar", "solartime", "util")}
    for s in sorted(want - set(stubs)):
        rep.bad("stub %s exists" % s, "pysolar/" + s, "the stub is missing")
    nfun = nconst = 0
    for s in stubs:
        mod = "" if s == "__init__.pyi" else s[:-4]
        site = "pysolar/" + s
        c.reset()
        m = ip.modules.get(PKG + ("." + mod if mod else ""))
        if m is None:
            rep.bad("%s describes a module" % s, site, "there is no module %s" % mod)
            continue
        env = c.st0[m.env.id][1]
        try:
            tree = ast.parse(open(os.path.join(REPO, PKG, s), encoding="utf-8").read())
        except SyntaxError as x:
            rep.bad("%s parses" % s, "%s:%s" % (site, x.lineno), str(x))
            continue
        declared = {}
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                declared.setdefault(n.name, []).append(n)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                nconst += 1
                desc = "%s: constant %s exists with its type" % (s, n.target.id)
                if n.target.id not in env:
                    rep.bad(desc, "%s:%d" % (site, n.lineno), "the module has no %s" % n.target.id)
                    continue
                r = fits(env[n.target.id], n.annotation, c.st0, ip)
                if r:
                    rep.bad(desc, "%s:%d" % (site, n.lineno), "declared %s, at run time %s" % (ann(n.annotation), r))
                else:
                    rep.ok(desc, "type comparison")
            elif isinstance(n, ast.ImportFrom) and n.level == 1 and n.module is None:
                for a in n.names:
                    desc = "%s: re-exported module %s exists" % (s, a.asname or a.name)
                    if isinstance(env.get(a.asname or a.name), Mod):
                        rep.ok(desc, "name lookup")
                    else:
                        rep.bad(desc, "%s:%d" % (site, n.lineno), "no such module at run time")
        for name in FROZEN.get(mod, []):
            desc = "%s declares %s" % (s, name)
            if name in declared:
                rep.ok(desc, "name lookup")
            elif unwrapped(ip, env.get(name)) is not None and isinstance(unwrapped(ip, env.get(name)), Func):
                rep.bad(desc, site, "public function %s is not declared" % name)
            else:
                rep.bad(desc, site, "public function %s exists neither in the stub nor in the module" % name)
        for name, defs in declared.items():
            for n in defs:
                nfun += 1
                one_function(rep, ch, c, s, site, mod, env, name, n)
    rep.extra["stub_functions"] = nfun
    rep.extra["stub_constants"] = nconst


def sig(a, ndef, kwdef):
    pos = [x.arg for x in a.posonlyargs + a.args]
    return ([(p, i >= len(pos) - ndef) for i, p in enumerate(pos)], a.vararg.arg if a.vararg else None,
            [(x.arg, x.arg in kwdef) for x in a.kwonlyargs], a.kwarg.arg if a.kwarg else None)


def one_function(rep, ch, c, s, site, mod, env, name, n):
    ip = c.ip
    where = "%s:%d" % (site, n.lineno)
    desc = "%s: %s has the declared parameters" % (s, name)
    f = env.get(name)
    g = unwrapped(ip, f)
    if not isinstance(g, Func):
        rep.bad(desc, where, "no such function at run time" if g is None else "not a function at run time")
        return
    a = n.args
    kwd = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    decl, dva, dko, dkw = sig(a, len(a.defaults), kwd)
    run, rva, rko, rkw = sig(g.node.args, len(g.defaults), g.kwdefaults or {})
    text = None
    if [p for p, _ in decl] != [p for p, _ in run]:
        text = "declared (%s), at run time (%s)" % (", ".join(p for p, _ in decl), ", ".join(p for p, _ in run))
    elif decl != run:
        text = "optional in the stub: %s; at run time: %s" % ([p for p, d in decl if d], [p for p, d in run if d])
    elif sorted(dko) != sorted(rko):
        text = "keyword-only parameters differ: %s / %s" % (dko, rko)
    elif len(g.node.args.posonlyargs) > len(a.posonlyargs):
        text = "positional-only at run time: %s" % [x.arg for x in g.node.args.posonlyargs]
    if text:
        rep.bad(desc, where, text)
        return
    rep.ok(desc, "signature comparison")
    # defaults fit the declared types
    for (p, opt), x in zip(decl, a.posonlyargs + a.args):
        if opt:
            v = g.defaults[[q for q, _ in run].index(p) - (len(run) - len(g.defaults))]
            r = fits(v, x.annotation, c.st0, ip)
            if r:
                rep.bad("%s: default of %s in %s fits" % (s, p, name), where, "declared %s, at run time %s" % (ann(x.annotation), r))
            else:
                rep.ok("%s: default of %s in %s fits" % (s, p, name), "type comparison")
    fn = api.BYNAME.get(mod + "." + name)
    kinds = {p: k for p, k, _ in fn.params} if fn else {}
    kinds.update({"horizon": None})
    for form in ("pos", "kw", "min"):
        desc = "%s: %s accepts the declared call (%s) and gives %s" % (s, name, form, ann(n.returns))
        if name in ("solar_test", "elevation_test") and form != "pos":
            continue
        if not rep.mine():
            continue

        def th(ip):
            vals = []
            for (p, opt), x in zip(decl, a.posonlyargs + a.args):
                if form == "min" and opt:
                    continue
                if p == "horizon":
                    v = ip.newlist([Num(N.num(30), "float")] * 361)
                elif p == "end_datetime":
                    v = DT(N.add(api.TS, N.num(3000)), TZ(api.OFF))
                elif p == "start_datetime":
                    v = DT(api.TS, TZ(api.OFF))
                elif p == "step_minutes":
                    v = Num(N.num(20), "float")
                else:
                    v = stub_value(ip, x.annotation, p, kinds.get(p))
                vals.append((p, v))
            return ([], dict(vals)) if form == "kw" else ([v for _, v in vals], {})
        try:
            if name in ("use_numpy", "use_math"):
                continue
            o = c.call(mod + "." + name, th)
        except Undecided as u:
            rep.undecided(desc, u.reason, u.site)
            continue
        if not o.returns:
            r = o.raises[0]
            rep.bad(desc, sitestr(r[3]) or where, "the call fails: %s %s" % (r[1].name if r[1] else "?", r[2]))
            continue
        hit = None
        for r in o.raises:
            if r[1] is not None and r[1].isa("TypeError") and D.sat(r[0]) is not None:
                hit = r
                break
        if hit:
            rep.bad(desc, sitestr(hit[3]) or where, "the call fails: %s" % hit[2])
            continue
        r = fits(o.value, n.returns, o.st, ip)
        if r:
            rep.bad(desc, where, "the result is %s" % r)
        else:
            rep.ok(desc, "abstract call")
