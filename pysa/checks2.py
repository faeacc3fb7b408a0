"""Properties other than plain formula equality."""
import ast
import os

from . import nodes as N
from . import canon as C
from . import api
from . import decide as D
from . import compare as K
from . import interval as I
from .ctx import Ctx, flatten, REPO, PKG
from .report import sitestr
from .absint import fork
from .values import *


def _k():
    from . import checks
    return checks


def rel(o):
    return o.guard if hasattr(o, "guard") else N.TRUE


def returns_guard(o):
    """condition under which a call returns normally"""
    r = N.TRUE
    for x in o.raises:
        r = N.land(r, N.lnot(x[0]))
    return r if o.returns else N.FALSE


NAIVE = N.var("WALL")
api.VARKIND[NAIVE] = "time"
INTV = N.var("n_int", True)
FLV = N.var("x_float")


def when_inputs():
    def derived(ip):
        from .absint import DTC
        d = DT(NAIVE, None)
        d.cls = Cls("Timestamp", [DTC["datetime"]], None, builtin=True)     # a class of the caller's derived from datetime
        return d
    return [("naive datetime", lambda ip: DT(NAIVE, None), True),
            ("naive instance of a class derived from datetime", derived, True),
            ("int", lambda ip: Num(INTV, "int"), False),
            ("float", lambda ip: Num(FLV, "float"), False),
            ("str", lambda ip: "2003-10-17 12:30:30", False),
            ("None", lambda ip: None, False),
            ("date", lambda ip: Date(N.floordiv(NAIVE, N.num(86400))), False)]


def time_functions():
    """(qual, builder(form, when value, which)) of every public function taking a time"""
    for fn in api.API:
        if fn.when:
            yield fn.qual, [("pos", "when"), ("kw", "when")] + [("min", "when")] * ("min" in fn.forms()), fn
    yield "simulate.simulate_span", [("pos", "start_datetime"), ("kw", "start_datetime"), ("pos", "end_datetime"), ("kw", "end_datetime")], None


def span_args(ip, form, values=None, horizon=None):
    """arguments of simulate_span; values overrides by name"""
    vals = [("latitude_deg", Num(api.pvar("latitude_deg", "lat"), "float")), ("longitude_deg", Num(api.pvar("longitude_deg", "lon"), "float")),
            ("horizon", horizon(ip) if horizon else ip.newlist([Num(N.num(38), "int")] * 361)),
            ("start_datetime", DT(api.TS, TZ(api.OFF))), ("end_datetime", DT(N.add(api.TS, N.num(3600)), TZ(api.OFF))),
            ("step_minutes", Num(N.num(30), "int")),
            ("elevation", Num(api.pvar("elevation", "elev"), "float")), ("temperature", Num(api.pvar("temperature", "temp"), "float")),
            ("pressure", Num(api.pvar("pressure", "press"), "float"))]
    vals = [(n, (values[n](ip) if callable(values[n]) else values[n]) if values and n in values else v) for n, v in vals]
    if form == "kw":
        return [], dict(vals)
    return [v for _, v in vals], {}


def c01(rep):
    ch = _k()
    n = 0
    for qual, forms, fn in time_functions():
        for form, which in forms:
            for label, mk, naive in when_inputs():
                for mode in ("math", "numpy"):
                    if rep.tier == "quick" and mode == "math" and form == "min" or not rep.mine():
                        continue
                    desc = "%s refuses %s as %s (%s) [%s]" % (qual, label, which, form, mode)
                    n += 1
                    try:
                        if fn is None:
                            o = ch.ctx(mode).call(qual, lambda ip: span_args(ip, form, {which: mk}))
                        else:
                            o = ch.ctx(mode).call(qual, api.build(fn, form, when=mk))
                    except Undecided as u:
                        rep.undecided(desc, u.reason, u.site)
                        continue
                    g = returns_guard(o)
                    p = D.sat(g) if g is not N.FALSE else None
                    if p is not None:
                        rep.bad(desc, ch.where(fn or qual), "a result is returned%s" % (" at %s" % D.show_point(p) if p else ""))
                        continue
                    wrong = None
                    for gr, cls, msg, site, path in o.raises:
                        good = cls is not None and cls.isa("ValueError") and (not naive or any(c.name == "NoTimeZoneInfoError" for c in cls.mro))
                        if not good and D.sat(gr) is not None:
                            wrong = (cls, msg, site)
                            break
                    if wrong:
                        rep.bad(desc, sitestr(wrong[2]) or ch.where(fn or qual), "raises %s (%s) instead of the %s" % (
                            wrong[0].name if wrong[0] else "?", wrong[1], "timezone error" if naive else "ValueError"))
                    else:
                        rep.ok(desc, "all paths raise" if g is N.FALSE else "no returning path found")
    # aware times are accepted and handed on unchanged
    for fn in api.API:
        if fn.when:
            for form in ("pos", "kw"):
                if not rep.mine():
                    continue
                ch.check_formula(rep, fn, form, None, "math", raises="ignore" if fn.qual in NOZONE else "none", own=False)
                if fn.timearr:
                    array_case(rep, fn, form, (), True)
    rep.extra["refusal_calls"] = n


NOZONE = ("util.get_sunrise_sunset_transit", "util.get_sunrise_sunset", "util.get_sunrise_time", "util.get_sunset_time", "util.get_transit_time")
OFF2 = N.var("OFF!2")
api.VARKIND[OFF2] = "offset"


def c02(rep):
    ch = _k()
    for fn in api.API:
        if not fn.when or fn.qual in NOZONE:
            continue
        for mode in ("math", "numpy"):
            for form in (("pos",) if rep.tier == "quick" else fn.forms()):
                desc = "%s(%s) does not depend on the zone [%s]" % (fn.qual, form, mode)
                if not rep.mine():
                    continue
                try:
                    o = ch.ctx(mode).call(fn.qual, api.build(fn, form))
                except Undecided as u:
                    rep.undecided(desc, u.reason, u.site)
                    continue
                if not o.returns:
                    rep.bad(desc, ch.where(fn), "never returns")
                    continue
                nodes = []
                for path, d in K.merged(o).items():
                    for k, v in d.items():
                        if k == "num":
                            nodes += [(path, v[0]), (path, v[1])]
                        elif isinstance(v, N.Node):
                            nodes.append((path, v))
                for r in o.raises:
                    nodes.append(("raise %s" % r[2], r[0]))
                for e in o.events:
                    if e["kind"] == "warn":
                        nodes.append(("warning", e["guard"]))
                meth = set()
                for path, x in nodes:
                    if api.OFF not in N.free_vars(x):
                        meth.add("no flow from the zone")
                        continue
                    (y,) = N.subst([x], {api.OFF: OFF2})
                    m, d = D.equal(x, y, tol=(1e-9, 1e-9))
                    meth.add(m)
                    if d:
                        s = zone_site(x)
                        rep.bad(desc, s or ch.where(fn), "two zones of one instant give different results%s %s" % (path and " in " + path, d.text().replace("expected", "in the second zone")))
                        break
                else:
                    rep.ok(desc, "identity testing" if "identity testing" in meth else sorted(meth)[0] if meth else "no flow from the zone")
    from .checks3 import span_zone
    span_zone(rep)


def zone_site(x):
    for m in N.topo([x]):
        if api.OFF in m.args and m.site and str(m.site[0]).startswith(REPO):
            return sitestr(m.site)
    return None


# ------------------------------------------------------------------------------------ backends
ROLE1 = {"degrees": "deg", "cos": "cos", "sin": "sin", "radians": "rad", "tan": "tan", "acos": "acos", "atan": "atan", "asin": "asin",
         "exp": "exp", "log": "log"}
NUMERIC_SITE = "pysolar/numeric.py"


def numeric_env(c, st=None):
    m = c.ip.modules["pysolar.numeric"]
    return (st or c.ip.st)[m.env.id][1]


def vrepr(v):
    if isinstance(v, Num):
        return "num:%s" % (N.show(v.n, 3) + ("#%d" % v.n.id))
    if isinstance(v, Func):
        return "func:%s" % v.qual
    if isinstance(v, Prim):
        return "prim:%s" % v.name
    if isinstance(v, (str, type(None))):
        return repr(v)
    if isinstance(v, Ext):
        return "ext:%s" % v.name
    return "%s:%s" % (type(v).__name__, id(v))


def env_repr(c):
    e = numeric_env(c)
    return {k: vrepr(v) for k, v in e.items() if not k.startswith("__")}


def alias_uses():
    """{(module, line, attribute)} used through an alias of pysolar.numeric, and names imported from it"""
    out = []
    d = os.path.join(REPO, PKG)
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        src = open(os.path.join(d, f), encoding="utf-8").read()
        tree = ast.parse(src)
        aliases = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.level == 1 and n.module is None:
                for a in n.names:
                    if a.name == "numeric":
                        aliases.add(a.asname or a.name)
            if isinstance(n, ast.ImportFrom) and (n.module == "numeric" and n.level == 1 or n.module == "pysolar.numeric"):
                for a in n.names:
                    out.append((f, n.lineno, a.name, "from"))
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in aliases and isinstance(n.ctx, ast.Load):
                out.append((f, n.lineno, n.attr, "attr"))
    return out


def shared(e):
    """the bindings that matter for the closure argument: functions, library functions, modules and numbers"""
    return {k: v for k, v in e.items() if v.partition(":")[0] in ("num", "func", "prim", "ext") or v[:1] in "'\"" or v == "None"}


def c03(rep):
    ch = _k()
    EX = {"math": "use_math", "numpy": "use_numpy"}
    base = Ctx("numpy")
    words = [("math",), ("numpy",), ("math", "numpy"), ("numpy", "math"), ("math", "math"), ("numpy", "numpy"),
             ("math", "numpy", "math"), ("numpy", "math", "numpy"), ("math", "math", "numpy"), ("numpy", "numpy", "math"),
             ("math", "numpy", "math", "numpy"), ("numpy", "math", "numpy", "math")]
    cs = {(): (base, "numpy")}
    states = {}
    seen_states = set()
    for w in words:
        c = Ctx("numpy")
        desc = "switch sequence %s" % " -> ".join(w)
        failed = None
        for x in w:
            o = c.switch(EX[x])
            if not o.returns or any(D.sat(r[0]) is not None for r in o.raises):
                failed = o
                break
        if failed:
            r = failed.raises[0]
            rep.bad(desc, sitestr(r[3]) or NUMERIC_SITE, "a switch fails: %s %s" % (r[1].name if r[1] else "?", r[2]))
            continue
        e = env_repr(c)
        seen_states.add(repr(sorted(shared(e).items())))
        first = w[-1] not in states
        if first:
            states[w[-1]] = (w, e, c)
        same = shared(e) == shared(states[w[-1]][1])
        if same:
            rep.ok(desc, "binding state closure")
        else:
            rep.ok(desc, "functions re-checked in this state")
        if first or not same or rep.tier == "thorough" or len(w) == 2:
            cs[w] = (c, w[-1])
        cm = e.get("current_mod")
        if cm is not None and cm != repr(w[-1]):
            rep.bad(desc + " reports its name", NUMERIC_SITE + " " + EX[w[-1]], "current_mod is %s" % cm)
        elif cm is not None:
            rep.ok(desc + " reports its name", "binding state closure")
    cm = env_repr(base).get("current_mod")
    if cm == "'math'":
        cs[()] = (base, "math")
    rep.extra["binding_states"] = len(seen_states)
    rep.extra["switch_sequences"] = len(words)
    absent = ch.ctx("absent")
    cs[("absent",)] = (absent, "math")
    for w, (c, mode) in cs.items():
        if rep.mine():
            roles(rep, c, mode, "not installed" if w == ("absent",) else "after import" if not w else "->".join(w))
    # --- every name used through the alias exists in every state
    uses = alias_uses()
    rep.extra["names_used_from_numeric"] = len(uses)
    for f, line, nm, how in uses:
        for w, (c, mode) in cs.items():
            if nm not in numeric_env(c):
                rep.bad("name %s used from numeric exists [%s]" % (nm, mode), "pysolar/%s:%d" % (f, line), "numeric has no %s after %s" % (nm, w))
            else:
                rep.ok("name %s (%s:%d) exists [%s]" % (nm, f, line, w), "name lookup")
        if how == "from" and nm not in ("use_numpy", "use_math") and len(states) == 2:
            a, bb = numeric_env(states["math"][2]).get(nm), numeric_env(states["numpy"][2]).get(nm)
            if vrepr(a) != vrepr(bb) and not isinstance(a, Num) and not imported_for_switching(f):
                rep.bad("name %s follows the switch" % nm, "pysolar/%s:%d" % (f, line), "imported by value, so it keeps the backend of import time")
    # --- calculations reach only the selected backend
    for mode in ("math", "numpy", "absent"):
        c = ch.ctx(mode)
        c.ip.prims = set()
        for fn in api.API:
            for bd in ch.bands(fn)[:2]:
                desc = "%s uses the selected backend only [%s]" % (fn.qual, mode)
                if not rep.mine():
                    continue
                try:
                    before, c.ip.prims = c.ip.prims, set()
                    o = c.call(fn.qual, api.build(fn, "pos", band=bd))
                    used, c.ip.prims = c.ip.prims, before | c.ip.prims
                except Undecided as u:
                    rep.undecided(desc, u.reason, u.site)
                    continue
                if not o.returns:
                    rep.bad(desc, sitestr(o.raises[0][3]) or ch.where(fn), "always fails: %s %s" % (o.raises[0][1].name, o.raises[0][2]))
                    continue
                bad = [p for p in used if wrong_backend(p[0], mode) and not allowed_prim(p)]
                if bad:
                    rep.bad(desc, sitestr(bad[0][1]), "calls %s while the %s backend is selected" % (bad[0][0], "numpy" if mode == "numpy" else "math"))
                else:
                    rep.ok(desc, "reached library functions")
    # numpy absent
    absent.reset()
    before = env_repr(absent)
    if before.get("current_mod") == "'math'":
        rep.ok("numpy not installed: plain-math backend reported", "binding state closure")
    elif "current_mod" in before:
        rep.bad("numpy not installed: plain-math backend reported", NUMERIC_SITE, "current_mod is %s" % before.get("current_mod"))
    if absent.import_problems:
        for m, r, s in absent.import_problems:
            if "import raises" in r:
                rep.bad("numpy not installed: %s imports" % m, sitestr(s) or m, r)
            else:
                rep.undecided("numpy not installed: %s imports" % m, r, s)
    else:
        rep.ok("numpy not installed: every module imports", "abstract import")


def imported_for_switching(f):
    return f == "numeric.py"


def roles(rep, c, mode, label):
    """every mathematical function and calendar helper of numeric computes what its name says, with the selected backend's functions"""
    x = Num(api.pvar("x_role", "coef"), "float")
    y = Num(api.pvar("y_role", "coef"), "float")
    b = N.lt(x.n, y.n)
    env = numeric_env(c)
    other = "numpy" if mode != "numpy" else "math"
    c.st0, c.pc0 = fork(c.ip.st), c.ip.pc

    def role(name, args, want, what):
        desc = "numeric.%s is %s [%s]" % (name, what, label)
        if name not in env:
            return                      # (names that are used are looked up separately)
        c.reset()
        before = set(c.ip.prims)
        c.ip.prims = set()
        try:
            o = c.ip.run(lambda: c.ip.call(env[name], args, {}))
        except Undecided as u:
            rep.undecided(desc, u.reason, u.site)
            return
        finally:
            used, c.ip.prims = c.ip.prims, before | c.ip.prims
        if not o.returns:
            rep.bad(desc, NUMERIC_SITE, "always fails")
            return
        v = K.merged(o).get("", {}).get("num")
        if v is None:
            rep.bad(desc, NUMERIC_SITE, "does not give a number")
            return
        dom = N.TRUE
        if name in ("acos", "asin"):
            dom = N.land(N.le(N.NEG1, args[0].n), N.le(args[0].n, N.ONE))
        if name == "log":
            dom = N.lt(N.ZERO, args[0].n)
        m, d = D.equal(v[1], want, dom, seam=False)
        if d:
            rep.bad(desc, NUMERIC_SITE + " " + vrepr(env[name]), "computes something else: " + d.text())
        else:
            rep.ok(desc, m)
        wrong = sorted({p[0] for p in used if p[0].split(".")[0] == other and not allowed_prim(p)})
        kind = prim_kind(env[name])
        if kind and kind != ("numpy" if mode == "numpy" else "math"):
            wrong.append(vrepr(env[name]))
        if name == "where" and mode == "numpy" and not wrong and not any(p[0].startswith("numpy.") for p in used) and kind is None:
            wrong.append("no NumPy function (a scalar version)")
        if wrong:
            rep.bad("numeric.%s belongs to the selected backend [%s]" % (name, label), NUMERIC_SITE, "uses %s" % wrong)
        else:
            rep.ok("numeric.%s belongs to the selected backend [%s]" % (name, label), "reached library functions")
    for nm, op in ROLE1.items():
        role(nm, [x], N.unary(op, x.n), op)
    role("atan2", [x, y], N.atan2(x.n, y.n), "two-argument arc tangent")
    role("where", [Num(b, "bool"), x, y], N.ite(b, x.n, y.n), "the conditional")
    lo, hi = N.num(-1), N.num(1)
    role("clip", [x, Num(lo, "float"), Num(hi, "float")], N.ite(N.lt(x.n, lo), lo, N.ite(N.lt(hi, x.n), hi, x.n)), "the limiter")
    D_ = DT(api.TS, TZ(api.OFF))
    role("tm_yday", [D_], N.cal("yday", N.days_of(api.TS)), "the UTC day of the year")
    role("tm_hour", [D_], N.floordiv(N.mod(api.TS, N.num(86400)), N.num(3600)), "the UTC hour")
    role("tm_min", [D_], N.floordiv(N.mod(api.TS, N.num(3600)), N.num(60)), "the UTC minute")
    for nm, want in (("pi", N.PI), ("e", N.E)):
        v = env.get(nm)
        desc = "numeric.%s is the constant [%s]" % (nm, label)
        if isinstance(v, Num) and D.proved_equal(v.n, want):
            rep.ok(desc, "normal form")
        elif nm in env:
            rep.bad(desc, NUMERIC_SITE, "bound to %s" % vrepr(v))


TRIG = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "arcsin", "arccos", "arctan", "arctan2", "radians", "degrees", "deg2rad", "rad2deg", "exp", "log",
        "where", "clip", "array", "asarray"}


def prim_kind(v):
    if isinstance(v, Prim):
        h = v.name.split(".")[0]
        return h if h in ("math", "numpy") else None
    return None


def wrong_backend(name, mode):
    h, _, t = name.partition(".")
    return h == ("math" if mode == "numpy" else "numpy")


def allowed_prim(p):
    """library functions whose use does not depend on the backend: constants and predicates, not mathematical functions"""
    return p[0].split(".")[-1] not in TRIG


def c04(rep):
    ch = _k()
    for fn in api.API:
        for bd in ch.bands(fn):
            for form in (["pos"] if rep.tier == "quick" else fn.forms()):
                desc = "%s(%s%s) math = numpy" % (fn.qual, form, ", " + bd if bd else "")
                if not rep.mine():
                    continue
                try:
                    a = ch.ctx("math").call(fn.qual, api.build(fn, form, band=bd))
                    b = ch.ctx("numpy").call(fn.qual, api.build(fn, form, band=bd))
                    if not a.returns or not b.returns:
                        if a.returns != b.returns:
                            x = (a if b.returns else b).raises[0]
                            rep.bad(desc, sitestr(x[3]) or ch.where(fn), "fails under one backend only: %s %s" % (x[1].name if x[1] else "?", x[2]))
                        else:
                            rep.undecided(desc, "fails under both backends")
                        continue
                    rs = "ignore" if fn.qual in NOZONE else "same"
                    bad, meth = K.compare(b, a, K.TOL, raises=rs)
                except Undecided as u:
                    rep.undecided(desc, u.reason, u.site)
                    continue
                for m in bad[:2]:
                    rep.bad(desc, sitestr(m.site) or ch.where(fn), "numpy differs from math: " + m.text)
                if not bad:
                    rep.ok(desc, K.worst(meth))
    from .checks3 import span_backends
    span_backends(rep)


ARRAY_EVENTS = ("mutates-argument", "iterates-array", "truth-of-array", "hash-of-array", "scalar-function-of-array", "reduces-array")


def strip(o):
    return o


def array_case(rep, fn, form, arrs, timearr=False, unit="us"):
    """elementwise: the call with arrays has the scalar call's term in every element"""
    if not rep.mine():
        return
    ch = _k()
    c = ch.ctx("numpy")
    desc = "%s(%s) elementwise in %s" % (fn.qual, form, ", ".join(arrs) + ("when" if timearr and not arrs else ", when" if timearr else ""))
    sec = api.TS if unit == "us" else N.mul(N.num({"s": 1, "m": 60, "h": 3600, "D": 86400}[unit]), N.floordiv(api.TS, N.num({"s": 1, "m": 60, "h": 3600, "D": 86400}[unit])))
    wh = (lambda ip: DT64(sec, unit, True, "when")) if timearr else None
    try:
        a = c.call(fn.qual, api.build(fn, form, arrs=arrs, when=wh))
        s = c.call(fn.qual, api.build(fn, form, when=(lambda ip: DT(sec, TZ(N.ZERO))) if timearr else None))
    except Undecided as u:
        rep.undecided(desc, u.reason, u.site)
        return
    if not a.returns:
        r = a.raises[0]
        rep.bad(desc, sitestr(r[3]) or ch.where(fn), "always fails for arrays: %s %s" % (r[1].name if r[1] else "?", r[2]))
        return
    for e in a.events:
        if e["kind"] in ARRAY_EVENTS and D.sat(e["guard"]) is not None:
            rep.bad(desc, sitestr(e["site"]), "%s: %s" % (e["kind"], e["detail"]))
            return
    for r in a.raises:
        if D.sat(r[0]) is not None:
            rep.bad(desc, sitestr(r[3]), "fails for arrays: %s %s" % (r[1].name if r[1] else "?", r[2]))
            return
    for path, d in K.merged(a).items():
        for k, v in d.items():
            for n in (v if isinstance(v, tuple) and k == "num" else [v] if isinstance(v, N.Node) else []):
                oth = [x for x in N.free_vars(n) if str(x.data).startswith("others!")]
                if oth:
                    m, df = D.equal(n, N.subst([n], {oth[0]: N.var("others!again") if oth[0].op == "var" else N.bvar("others!again")})[0])
                    if df:
                        rep.bad(desc, ch.where(fn), "an element's result depends on other elements (%s)" % oth[0].data)
                        return
    try:
        bad, meth = K.compare(a, s, K.TOL, raises="ignore")
    except Undecided as u:
        rep.undecided(desc, u.reason, u.site)
        return
    for m in bad[:2]:
        rep.bad(desc, sitestr(m.site) or ch.where(fn), "array element differs from the scalar call: " + m.text)
    if not bad:
        rep.ok(desc, K.worst(meth))


def c05(rep):
    n = 0
    for fn in api.API:
        if not fn.arrays and not fn.timearr:
            continue
        sets = [tuple(fn.arrays)] if fn.arrays else []
        if len(fn.arrays) > 1:
            sets += [(a,) for a in fn.arrays]
        if rep.tier == "thorough" and len(fn.arrays) > 2:
            import itertools
            for r in range(2, len(fn.arrays)):
                sets += list(itertools.combinations(fn.arrays, r))
        for s in sets:
            for form in ("pos", "kw") if rep.tier == "thorough" or len(s) == len(fn.arrays) else ("pos",):
                array_case(rep, fn, form, s)
                n += 1
        if fn.timearr:
            for u in ("us", "s", "m"):
                array_case(rep, fn, "pos", (), True, u)
            array_case(rep, fn, "pos", tuple(fn.arrays), True)
            array_case(rep, fn, "kw", tuple(fn.arrays), True)
            for a in fn.arrays:
                array_case(rep, fn, "pos", (a,), True)
            n += 5 + len(fn.arrays)
    rep.extra["array_calls_analysed"] = n
