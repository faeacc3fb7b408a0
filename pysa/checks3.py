"""History, ranges, totality, simulation, call consistency, units, stubs."""
import ast
import itertools
import os

import mpmath as mp
import numpy as np

from . import nodes as N
from . import canon as C
from . import api
from . import decide as D
from . import compare as K
from . import interval as I
from . import cases
from .ctx import Ctx, flatten, REPO, PKG
from .report import sitestr
from .absint import fork
from .values import *
from .checks2 import _k, span_args, numeric_env, shared, vrepr, NOZONE, OFF2

from .extlib import TMIN, TMAX, DATERANGE

NONDET = ("clock!", "random!", "localtz!", "env!", "file!")


# ------------------------------------------------------------------------------------ C06
def changed_ids(before, after):
    return [i for i in before if after.get(i) is not before[i] and after.get(i) != before[i]]


def result_nodes(o):
    out = []
    for path, d in K.merged(o).items():
        for k, v in d.items():
            if k == "num":
                out += [v[0], v[1]]
            elif isinstance(v, N.Node):
                out.append(v)
            elif k == "seg":
                for it, g in v[1]:
                    if isinstance(it, Seg):
                        out.append(it.count)
                        it = it.item
                    out += [p for _, _, kk, p in flatten(it, o.st) if kk == "num"]
    out += [r[0] for r in o.raises]
    return out


def nondet_var(nodes):
    for n in nodes:
        for v in N.free_vars(n):
            if str(v.data).startswith(NONDET):
                return n, v
    return None


def span_small(ip, form="pos", tag=""):
    a, k = span_args(ip, form, {"end_datetime": DT(N.add(N.var("TS" + tag), N.num(2500)), TZ(N.var("OFF" + tag))),
                                "start_datetime": DT(N.var("TS" + tag), TZ(N.var("OFF" + tag))), "step_minutes": Num(N.num(20), "int")})
    return a, k


class Callee:
    """something that can be called with freshly named arguments"""

    def __init__(self, qual, fn=None, form="pos", band=None, arrs=()):
        self.qual, self.fn, self.form, self.band, self.arrs = qual, fn, form, band, arrs

    def build(self, tag=""):
        if self.fn is None:
            for v, k in ((N.var("TS" + tag), "time"), (N.var("OFF" + tag), "offset")):
                api.VARKIND.setdefault(v, k)
            if self.qual == "simulate.simulate_span":
                return lambda ip: span_small(ip, "pos", tag)
            return lambda ip: ([], {})
        return api.build(self.fn, self.form, tag, self.arrs, self.band)

    @property
    def name(self):
        return self.qual + ("(%s)" % self.band if self.band else "") + (" with arrays" if self.arrs else "")


def callees(ch, mode):
    out = []
    for fn in api.API:
        for b in ch.bands(fn):
            out.append(Callee(fn.qual, fn, "pos", b))
    out.append(Callee("simulate.simulate_span"))
    out.append(Callee("constants.get_aberration_coeffs"))
    return out


def call_with_args(c, callee, tag="", reset=True):
    """-> outcome, {heap id: cell} just before the call (arguments included), argument refs"""
    box = {}

    def b(ip):
        a, k = callee.build(tag)(ip)
        box["st"] = fork(ip.st)
        box["args"] = list(a) + list(k.values())
        return a, k
    o = c.call(callee.qual, b, reset=reset)
    return o, box["st"], box["args"]


_fresh = {}


def fresh_outcome(c, callee, tag):
    k = (id(c), callee.name, callee.form, tag)
    if k not in _fresh:
        _fresh[k] = call_with_args(c, callee, tag)[0]
    return _fresh[k]


def history_pair(rep, c, f, states, g, mode, events=None, values=True):
    """g called after f gives what g gives in a fresh process"""
    desc = "%s after %s [%s]" % (g.name, f.name, mode)
    if not rep.mine():
        return
    try:
        ref = fresh_outcome(c, g, "'")
        if not ref.returns:
            return
        for st, guard, why in states:
            c.ip.st, c.ip.pc = fork(st), c.pc0
            o = call_with_args(c, g, "'", reset=False)[0]
            bad, meth = K.compare(o, ref, (1e-9, 1e-9), raises="same" if ref.raises else "none", assume=guard, events=events, values=values)
            if bad:
                m = bad[0]
                rep.bad(desc, sitestr(m.site) or "pysolar/%s.py %s" % tuple(g.qual.split(".")), "the earlier call%s changes the result: %s" % (why, m.text))
                return
            rep.ok(desc + why, K.worst(meth))
    except Undecided as u:
        rep.undecided(desc, u.reason, u.site)
    finally:
        c.reset()


def after_states(c, o):
    """states a caller can be left with after the call: normal return and each exception, if they differ from the initial state"""
    out = []
    if o.returns and changed_ids(c.st0, o.st):
        out.append((o.st, N.TRUE if not o.raises else K.orall([]) if False else returns_cond(o), ""))
    seen = []
    for r, full in zip(o.raises, c.ip.raises[0]):
        st = full[1]
        ch = changed_ids(c.st0, st)
        if ch:
            key = sorted((i, id(st[i])) for i in ch)
            if key not in seen and len(seen) < 3:
                seen.append(key)
                out.append((st, r[0], " (which raised)"))
    return out


def returns_cond(o):
    r = N.TRUE
    for x in o.raises:
        r = N.land(r, N.lnot(x[0]))
    return r


def changed_names(c, st):
    """readable names of the changed locations"""
    ids = {m.env.id: m.name for m in c.ip.modules.values()}
    out = []
    for i in changed_ids(c.st0, st):
        a, b = c.st0[i], st[i]
        if i in ids and a[0] == "env":
            out += ["%s.%s" % (ids[i], k) for k in b[1] if a[1].get(k) is not b[1].get(k)]
        else:
            owner = [m.name + "." + k for m in c.ip.modules.values() for k, v in c.st0[m.env.id][1].items() if isinstance(v, Ref) and v.id == i]
            out.append(owner[0] if owner else "%s object" % a[0])
    return tuple(sorted(set(out)))


def c06(rep):
    ch = _k()
    mutators = {}
    for mode in ("math", "numpy"):
        c = ch.ctx(mode)
        base_numeric = {k: vrepr(v) for k, v in c.st0[c.ip.modules["pysolar.numeric"].env.id][1].items()} if "pysolar.numeric" in c.ip.modules else {}
        muts = {}
        for f in callees(ch, mode):
            desc = "%s [%s]" % (f.name, mode)
            try:
                o, st, args = call_with_args(c, f)
            except Undecided as u:
                rep.undecided(desc + ": effects", u.reason, u.site)
                continue
            if not o.returns:
                continue
            # clock, randomness, environment
            hit = nondet_var(result_nodes(o))
            if hit:
                n, v = hit
                w = (N.var if v.op == "var" else N.bvar)(str(v.data) + "'")
                api.VARKIND.setdefault(w, api.VARKIND.get(v))
                n2 = N.subst([n], {v: w})[0]
                d = D.find_diff(n, n2)                 # a difference is the likely outcome, so look for one first
                m, d = ("refuted", d) if d else D.equal(n, n2)
                ev = [e for e in o.events + c.import_events if e["kind"] == "nondeterminism"]
                if d:
                    rep.bad(desc + ": deterministic", sitestr(ev[0]["site"]) if ev else ch.where(f), "the result depends on something outside the arguments (%s): %s" % (ev[0]["detail"] if ev else v.data, d.text()))
                else:
                    rep.ok(desc + ": deterministic", m)
            else:
                rep.ok(desc + ": deterministic", "no flow from clock, random, environment or files")
            # arguments unchanged
            argids = [a for a in args if isinstance(a, Ref)]
            bad = None
            for i, a in enumerate(argids):
                bad = bad or argument_changed(a, st, o.st)
            for e in o.events:
                if e["kind"] == "mutates-argument" and D.sat(e["guard"]) is not None:
                    bad = (e["detail"], e["site"])
            if bad:
                rep.bad(desc + ": arguments left alone", sitestr(bad[1]) or ch.where(f), "changes its argument: %s" % bad[0])
            elif argids:
                rep.ok(desc + ": arguments left alone", "heap comparison")
            # module state
            sts = after_states(c, o)
            for s, g, why in sts:
                env = {k: vrepr(v) for k, v in s[c.ip.modules["pysolar.numeric"].env.id][1].items()} if base_numeric else {}
                sw = [k for k in shared(env) if shared(base_numeric).get(k) not in (None, env[k])]
                if sw:
                    rep.bad(desc + ": leaves the backend alone", ch.where(f), "changes the numeric backend's %s" % ", ".join(sw[:4]))
            if sts:
                muts[f.name] = (f, sts, tuple(changed_names(c, s[0]) for s in sts))
            else:
                rep.ok(desc + ": leaves no state", "heap comparison")
        # second calls
        locs = {}
        for nm, (f, sts, names) in muts.items():
            locs.setdefault(names, []).append(nm)
        mutators[mode] = {"; ".join(",".join(x) for x in k): v for k, v in locs.items()}
        all_c = callees(ch, mode)
        for names, ms in locs.items():
            reps = [min(ms, key=lambda m: len(muts[m][0].fn.params) if muts[m][0].fn else 99)] + [m for m in ms if m in ("solar.get_position",)]
            if rep.tier == "thorough":
                reps = ms
            for m in dict.fromkeys(reps):
                for g in all_c:
                    if rep.tier == "quick" and mode == "math" and g.name not in muts:
                        continue
                    history_pair(rep, c, muts[m][0], muts[m][1], g, mode)
            for m in ms:
                if m not in reps:
                    history_pair(rep, c, muts[m][0], muts[m][1], muts[m][0], mode)
    # array arguments
    c = ch.ctx("numpy")
    for fn in api.API:
        if fn.arrays:
            f = Callee(fn.qual, fn, "pos", None, tuple(fn.arrays))
            desc = "%s: arrays left alone" % f.name
            try:
                o, st, args = call_with_args(c, f)
            except Undecided as u:
                rep.undecided(desc, u.reason, u.site)
                continue
            bad = None
            for a in args:
                if isinstance(a, Ref) and o.returns:
                    bad = bad or argument_changed(a, st, o.st)
            for e in o.events:
                if e["kind"] == "mutates-argument" and D.sat(e["guard"]) is not None:
                    bad = (e["detail"], e["site"])
            if bad:
                rep.bad(desc, sitestr(bad[1]) or ch.where(fn), "changes its argument: %s" % bad[0])
            else:
                rep.ok(desc, "heap comparison")
    rep.extra["state_written_by_calculations"] = mutators


def argument_changed(a, before, after):
    x, y = flatten(a, before), flatten(a, after)
    if len(x) != len(y):
        return ("its shape differs afterwards", None)
    for (p, g, k, v), (p2, g2, k2, v2) in zip(x, y):
        if p != p2 or k != k2:
            return ("%s differs afterwards" % (p or "its content"), None)
        if k == "num":
            if v is not v2:
                m, d = D.equal(v2, v)
                if d:
                    return ("%s %s" % (p or "content", d.text()), None)
        elif k == "const" and v != v2:
            return ("%s is %r afterwards" % (p, v2), None)
    return None


# ------------------------------------------------------------------------------------ C16
def c16(rep):
    ch = _k()
    jobs = []
    for fn in api.API:
        if fn.unit == "deg" and fn.rng and fn.qual != "solar.get_altitude":
            jobs.append((fn, "", fn.rng, None))
    jobs.append((api.BYNAME["solar.get_position"], "[0]", api.AZ, None))
    ref = api.BYNAME["solar.get_refraction_correction"]
    std = lambda ip: ([Num(N.num(101325), "int"), Num(N.num(288.15), "float"), Num(api.pvar("topocentric_elevation_angle", "alt"), "float")], {})
    jobs.append((ref, "", (-0.01, 1), std))
    for fn, path, rng, b in jobs:
        for mode in ch.modes(fn):
            for form in ("pos",) if b or rep.tier == "quick" else fn.forms():
                desc = "%s(%s)%s in %s [%s]" % (fn.qual, form, path, list(rng), mode)
                if not rep.mine():
                    continue
                try:
                    o = ch.ctx(mode).call(fn.qual, b or api.build(fn, form))
                    if not o.returns:
                        rep.bad(desc, sitestr(o.raises[0][3]) or ch.where(fn), "always fails: %s" % o.raises[0][2])
                        continue
                    m = K.merged(o).get(path, {}).get("num")
                    if m is None:
                        rep.bad(desc, ch.where(fn), "does not give a number")
                        continue
                    how, hit = D.out_of_range(m[1], rng[0], rng[1], m[0])
                except Undecided as u:
                    rep.undecided(desc, u.reason, u.site)
                    continue
                if hit:
                    s = [x.site for x in reversed(N.topo([m[1]])) if x.site and str(x.site[0]).startswith(REPO)]
                    rep.bad(desc, sitestr(s[0]) if s else ch.where(fn), "the result is %s at %s" % (D.fmt(hit[1]), D.show_point(hit[0])))
                else:
                    rep.ok(desc, how)


# ------------------------------------------------------------------------------------ C17
C17_PROPS = {"C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C18", "C21"}
ARC = "arc-"


def total_functions():
    return [f for f in api.API if f.total and (C17_PROPS & set(f.props) or f.qual.split(".")[0] == "util")]


_proved_arc = {}


def never_zero(h):
    """the divisor of a division cannot be zero, on the path that leads to it"""
    c = h["cond"]
    if h["kind"] != "ZeroDivisionError" or c.op != "eq":
        return False
    for x, y in (c.args, c.args[::-1]):
        if N.isnum(x) and x.data == 0 and not y.isbool:
            return I.nonzero(y, None, True) or I.nonzero(y, I.facts_of(h["pathcond"]) or None, True)
    return False


def hazards(rep, fn, form, mode, kinds=None, arrs=(), desc0=None):
    ch = _k()
    name = desc0 or "%s(%s) [%s]" % (fn.qual, form, mode)
    if not rep.mine():
        return
    try:
        o = ch.ctx(mode).call(fn.qual, api.build(fn, form, arrs=arrs))
    except Undecided as u:
        rep.undecided(name, u.reason, u.site)
        return
    if not o.returns:
        r = o.raises[0]
        rep.bad(name + " returns", sitestr(r[3]) or ch.where(fn), "always fails: %s %s" % (r[1].name if r[1] else "?", r[2]))
        return
    ok = returns_cond(o)
    for g, cls, msg, site, path in o.raises:
        p = D.sat(g)
        if p is not None:
            rep.bad(name + " returns", sitestr(site) or ch.where(fn), "%s (%s) at %s" % (cls.name if cls else "?", msg, D.show_point(p)))
        else:
            rep.ok(name + " no %s" % (cls.name if cls else "exception"), "path condition unsatisfiable" if D.impossible(g) else "no satisfying point found")
    groups = {}
    for h in o.hazards:
        groups.setdefault((h["kind"], h["detail"], sitestr(h["site"]), h["raising"]), []).append(h)
    res = [n for n in result_nodes(o)]
    vals = [v["num"][1] for v in K.merged(o).values() if "num" in v]
    for (kind, detail, site, raising), hs in groups.items():
        d = "%s: no %s (%s) at %s" % (name, kind, detail, site)
        if fn.qual in ("util.direct_underclear", "util.global_irradiance_clear") and kind == "OverflowError":
            continue                                   # follows from the recorded defect KF_DECLINATION_AS_DEPTH, outside this property's functions
        if detail.startswith(ARC):
            hit, how = None, "interval"
            for h in hs:
                k = (h["arg"].id, h["pathcond"].id)
                if k not in _proved_arc:
                    a, b = I.iv(h["arg"])
                    if a >= -1 and b <= 1:
                        _proved_arc[k] = ("interval", None)
                    else:
                        _proved_arc[k] = ("identity testing", D.rounding_escape(h["arg"], h["pathcond"]))
                m, e = _proved_arc[k]
                how = m if m != "interval" else how
                hit = hit or e
            if hit:
                rep.bad(d, site, "rounding takes the argument to %r at %s" % (hit[1], D.show_point(hit[0])))
            else:
                rep.ok(d, how)
            continue
        g = K.orall({h["guard"].id: h["guard"] for h in hs}.values())
        if detail == DATERANGE:
            if fn.qual.startswith("util.get_"):
                continue                               # sunrise may lie on the day before the first or after the last date
            p = first_or_last_date(g)
            if p:
                rep.bad(d, site, "happens at %s" % D.show_point(p))
            else:
                rep.ok(d, "first and last representable times")
            continue
        if all(I.truth(h["cond"]) is False or never_zero(h) for h in hs):
            rep.ok(d, "interval")
            continue
        if D.impossible(g):
            rep.ok(d, "path condition unsatisfiable")
            continue
        if not raising and kind == "ZeroDivisionError" and len(N.topo(vals + [g])) < 3000 and cases.harmless(N.land(g, ok), vals):
            rep.ok(d, "case distinction")
            continue
        ws = D.witnesses(N.land(g, ok), vals)
        if kind == "ZeroDivisionError":
            ws = [w for w in ws]
        if not raising:
            ws = [w for w in ws if any(not np.isfinite(float(x)) for x in w[1])] if kind != "complex" else ws
        if ws:
            rep.bad(d, site, "happens at %s" % D.show_point(ws[0][0]))
        else:
            rep.ok(d, "no satisfying point found")
    # finite results
    num = [v for v in vals if N.free_vars(v)]
    if num:
        try:
            lo_hi = [I.iv(v) for v in num]
        except RecursionError:
            lo_hi = [(-np.inf, np.inf)]
        if all(np.isfinite(a) and np.isfinite(b) for a, b in lo_hi):
            rep.ok(name + ": finite", "interval")
        else:
            E = D.Env(num + [ok], focus=num, n=D.SIZES[D.TIER[0]], seed=D.SEED[0])
            vv = E.ev(num + [ok])
            m = np.broadcast_to(vv[-1], (E.n,)).astype(bool)
            skip = np.zeros(E.n, bool)
            if o.hazards:
                hz = E.ev([h["guard"] for h in {h["guard"].id: h for h in o.hazards if h["detail"] != DATERANGE}.values()][:400])
                for x in hz:
                    skip |= np.broadcast_to(x, (E.n,)).astype(bool)
            for v, x in zip(num, vv):
                bad = np.nonzero(m & ~skip & ~np.isfinite(np.broadcast_to(x, (E.n,)).astype(float)))[0]
                if len(bad) and not (fn.qual in ("util.direct_underclear", "util.global_irradiance_clear")):
                    rep.bad(name + ": finite", ch.where(fn), "not a finite number at %s" % D.show_point(E.point(bad[0])))
                    break
            else:
                rep.ok(name + ": finite", "no non-finite value found")


def first_or_last_date(g):
    """a point among the first and last moments a datetime can hold where g is true, or None"""
    rng = np.random.default_rng(D.SEED[0])
    n = 600
    env = {}
    for v in N.free_vars(g):
        k = api.VARKIND.get(v)
        if k == "time":
            x = rng.choice([0, 1e-3, .25, 1, 30, 60, 3000, 80000, 3e6], n)
            env[v] = np.where(rng.random(n) < .5, float(TMIN) + x, float(TMAX) - x)
        elif k == "offset":
            env[v] = np.zeros(n)
        else:
            env[v] = D.var_samples(v, n, rng)
    (x,) = N.evalvec([g], env, n)
    for i in np.nonzero(np.broadcast_to(x, (n,)).astype(bool))[0][:20]:
        p = {v: a[i] for v, a in env.items()}
        if N.evalmp(g, D.mpenv(p)):
            return p
    return None


def c17(rep):
    ch = _k()
    fns = total_functions()
    for fn in fns:
        for mode in ch.modes(fn):
            for form in ("pos",) if rep.tier == "quick" else fn.forms():
                hazards(rep, fn, form, mode)
    # delegated validity: every module imports, every function can be called with its documented arguments
    for mode in ("math", "numpy"):
        for m, r, s in ch.ctx(mode).import_problems:
            if "import raises" in r:
                rep.bad("%s imports [%s]" % (m, mode), sitestr(s) or m, r)
    rep.extra["functions"] = [f.qual for f in fns]


# ------------------------------------------------------------------------------------ C18
def c18(rep):
    ch = _k()
    ch.formula_property(rep, "C18")
    fn = api.BYNAME["radiation.get_radiation_direct"]
    alt = api.pvar("altitude_deg", "alt")
    for mode in ("math", "numpy"):
        for form, arrs in (("pos", ()), ("kw", ())) + ((("pos", ("altitude_deg",)), ("kw", ("altitude_deg",))) if mode == "numpy" else ()):
            desc = "%s(%s%s) [%s]" % (fn.qual, form, ", array" if arrs else "", mode)
            try:
                o = ch.ctx(mode).call(fn.qual, api.build(fn, form, arrs=arrs))
                m = K.merged(o).get("", {}).get("num")
            except Undecided as u:
                rep.undecided(desc, u.reason, u.site)
                continue
            if m is None:
                rep.bad(desc, ch.where(fn), "does not give a number")
                continue
            for text, lo, hi, cond, slack in (("zero at night", 0, 0, N.le(alt, N.ZERO), 0), ("within [0, 1235]", 0, 1235, N.TRUE, 1e-9)):
                how, hit = D.out_of_range(m[1], lo, hi, N.land(m[0], cond), slack)
                if hit:
                    rep.bad(desc + " " + text, ch.where(fn), "the result is %s at %s" % (D.fmt(hit[1]), D.show_point(hit[0])))
                else:
                    rep.ok(desc + " " + text, how)
    for arrs in ((), ("altitude_deg",)):
        for mode in ("math", "numpy"):
            if not (arrs and mode == "math"):
                hazards(rep, fn, "pos", mode, arrs=arrs, desc0="%s(%s) [%s]" % (fn.qual, "array" if arrs else "scalar", mode))
    from .checks2 import array_case
    for a in (("altitude_deg",), ()):
        for t in (True, False):
            if a or t:
                array_case(rep, fn, "pos", a, t)
    for q in ("radiation.get_apparent_extraterrestrial_flux", "radiation.get_optical_depth"):
        array_case(rep, api.BYNAME[q], "pos", ("day",))


# ------------------------------------------------------------------------------------ C19
def fail_condition(o):
    """guards of ValueErrors (raised, or by library functions), and of anything else that can go wrong"""
    good, other = N.FALSE, []
    for g, cls, msg, site, path in o.raises:
        if cls is not None and cls.isa("ValueError"):
            good = N.lor(good, g)
        else:
            other.append((g, "%s %s" % (cls.name if cls else "?", msg), site))
    for h in o.hazards:
        if h["raising"] and h["kind"] == "ValueError":
            good = N.lor(good, h["guard"])
        elif h["raising"]:
            other.append((h["guard"], "%s %s" % (h["kind"], h["detail"]), h["site"]))
    return good, other


def c19(rep):
    ch = _k()
    fns = [f for f in api.API if "C19" in f.props]
    for fn in fns:
        for mode in ch.modes(fn):
            for form in ("pos", "kw"):
                desc = "%s(%s) [%s]" % (fn.qual, form, mode)
                if not rep.mine():
                    continue
                try:
                    o = ch.ctx(mode).call(fn.qual, api.build(fn, form))
                    ref = ch.spec_out((), fn, form, None)
                    if not o.returns:
                        rep.bad(desc, sitestr(o.raises[0][3]) or ch.where(fn), "always fails: %s" % o.raises[0][2])
                        continue
                    fc, other = fail_condition(o)
                    fr = K.orall(r[0] for r in ref.raises)
                    m, d = D.equal(fc, fr)
                    if d:
                        rep.bad(desc + " fails exactly where the sun does not rise or set", sitestr(o.raises[0][3]) if o.raises else ch.where(fn), "ValueError condition " + d.text())
                    else:
                        rep.ok(desc + " fails exactly where the sun does not rise or set", m)
                    day = N.lnot(fr)
                    for g, what, site in other:
                        p = None if D.impossible(g) or I.truth(g) is False else D.sat(g)
                        if p is not None:
                            rep.bad(desc + " fails only with ValueError", sitestr(site), "%s at %s" % (what, D.show_point(p)))
                            break
                    else:
                        rep.ok(desc + " fails only with ValueError", "no other failure")
                    bad, meth = K.compare(o, ref, K.TOL, raises="ignore", assume=day)
                    for b in bad[:3]:
                        rep.bad(desc + " value%s" % b.path, sitestr(b.site) or ch.where(fn), b.text)
                    if not bad:
                        rep.ok(desc + " value", K.worst(meth))
                    M = K.merged(o)
                    inst = {p: v["num"][1] for p, v in M.items() if p.endswith(".instant")}
                    # only the local day and the offset matter
                    r = N.var("second_of_day")
                    api.VARKIND[r] = "secofday"
                    api.KINDS.setdefault("secofday", (0, 86399.999, (0, 1, 43200, 86399), "none"))
                    start = N.sub(N.mul(N.num(86400), N.floor(N.div(N.add(api.TS, api.OFF), N.num(86400)))), api.OFF)
                    for p, x in inst.items():
                        (y,) = N.subst([x], {api.TS: N.add(start, r)})
                        m, d = D.equal(x, y, day, K.TOL_INSTANT)
                        if d:
                            rep.bad(desc + p + " depends on the local day only", ch.where(fn), "differs within one local day " + d.text())
                        else:
                            rep.ok(desc + p + " depends on the local day only", m)
                    if fn.qual == "util.get_sunrise_sunset_transit" and len(inst) == 3:
                        rise, sset, tr = inst["[0].instant"], inst["[1].instant"], inst["[2].instant"]
                        wrong = N.land(day, N.lor(N.lt(tr, rise), N.lt(sset, tr)))
                        p = D.sat(wrong)
                        if D.impossible(wrong):
                            rep.ok(desc + " order", "path condition unsatisfiable")
                        elif p is not None:
                            rep.bad(desc + " order", ch.where(fn), "not in the order sunrise, transit, sunset at %s" % D.show_point(p))
                        else:
                            rep.ok(desc + " order", "no satisfying point found")
                        m, d = D.equal(N.sub(sset, tr), N.sub(tr, rise), day, K.TOL_INSTANT)
                        if d:
                            rep.bad(desc + " symmetry", ch.where(fn), "not symmetric " + d.text())
                        else:
                            rep.ok(desc + " symmetry", m)
                except Undecided as u:
                    rep.undecided(desc, u.reason, u.site)


# ------------------------------------------------------------------------------------ C22
from fractions import Fraction as Fr

CELLS = [(3600, 30), (3600, 7), (3600, 60), (3600, 61), (3599, 60), (0, 30), (-3600, 30), (86400, 1440), (86400, 1439), (60, "0.1"), (3600, "0.5"), (3600, "2.5"),
         (42, "0.07"), (4.2, "0.07"), (3600, "0.7"), (90, "1.5"), (59.999999, 1), (60.000001, 1), (600, "0.3"), (7200, "7.25"), (1, "0.01"), (-1, "0.5"), (604800, 1440),
         (100000, 1000), (180, "0.9"), (3600, "0.1"), (1800, "0.6"), (86400 * 3 + 5, 1440), (2 * 86400, 720), (0.5, 1), (-0.5, 1), (-86400 * 2 - 5, 30)]
TE = N.var("TE")
api.VARKIND[TE] = "time"
OFFE = N.var("OFFE")
api.VARKIND[OFFE] = "offset"


def steps_expected(span, step):
    s = Fr(str(span)) * 1000000
    d = Fr(str(step)) * 60000000
    return max(0, s // d)


def step_value(step):
    return Num(N.num(Fr(str(step))), "int") if isinstance(step, int) else Num(N.num(Fr(step)), "float")


HZ = [(i * 97 + 13) % 381 for i in range(361)]


def c22(rep):
    ch = _k()
    # ---- count and spacing of the range, any start, any end, any step
    for mode in ("math", "numpy"):
        c = ch.ctx(mode)
        sv = api.pvar("step_minutes", "step")
        args = [DT(api.TS, TZ(api.OFF)), DT(TE, TZ(OFFE)), Num(sv, "float")]
        desc = "datetime_range, symbolic start, end and step [%s]" % mode
        try:
            o = c.call("simulate.datetime_range", lambda ip: (list(args), {}))
            seg = K.merged(o).get("", {}).get("seg")
            if not seg or len(seg[1]) != 1 or not isinstance(seg[1][0][0], Seg) or not isinstance(seg[1][0][0].item, DT):
                raise Undecided("not a single uniform stream")
            sg = seg[1][0][0]
            want = N.add(api.TS, N.mul(N.mul(sv, N.num(60)), sg.k))
            api.VARKIND[sg.k] = "kstep"
            api.KINDS.setdefault("kstep", (0, 500, (0, 1, 2), "none"))
            m, d = D.equal(sg.item.inst, want, N.TRUE, K.TOL_INSTANT)
            if d:
                rep.bad(desc + ": k-th time", "pysolar/simulate.py datetime_range", "not start + k*step " + d.text())
            else:
                rep.ok(desc + ": k-th time", m)
            if sg.item.tz is None or sg.item.tz.off is not api.OFF and D.equal(sg.item.tz.off, api.OFF)[1]:
                rep.bad(desc + ": zone", "pysolar/simulate.py datetime_range", "times are not in the start's zone")
            else:
                rep.ok(desc + ": zone", "normal form")
            # the count term, at cells and at random spans
            rng = np.random.default_rng(D.SEED[0])
            cells = [(Fr(str(a)), Fr(str(b))) for a, b in CELLS]
            for _ in range(400 if rep.tier == "quick" else 6000):
                step = Fr(int(rng.integers(1, 100000)), int(rng.choice([1, 10, 100, 1000])))
                n = int(rng.integers(0, 400))
                us = int(rng.choice([0, 0, 1, -1, 500000, int(step * 60) * 400000]))
                cells.append((Fr(round(step * 60000000) * n + us, 1000000), step))
            t0 = np.array([float(x) for x in rng.integers(-2 * 10 ** 9, 4 * 10 ** 9, len(cells))])
            env = {api.TS: t0, TE: t0 + np.array([float(a) for a, _ in cells]), sv: np.array([float(b) for _, b in cells])}
            for v in N.free_vars(sg.count) - set(env):
                env[v] = np.zeros(len(cells))
            # evaluate on exact differences: start at 0
            env0 = dict(env)
            env0[api.TS] = np.zeros(len(cells))
            env0[TE] = np.array([float(a) for a, _ in cells])
            (cnt,) = N.evalvec([sg.count], env0, len(cells))
            for (a, b), x in zip(cells, np.broadcast_to(cnt, (len(cells),))):
                w = steps_expected(a, b) if False else max(0, (a * 1000000) // round(b * 60000000))
                if max(0, float(x)) != w:
                    rep.bad(desc + ": count", "pysolar/simulate.py datetime_range", "span of %s s in steps of %s min gives %s times, expected %s" % (float(a), float(b), x, w))
                    break
            else:
                rep.ok(desc + ": count", "count term at %d span/step cells" % len(cells))
        except Undecided as u:
            rep.undecided(desc, u.reason, u.site)
        # ---- concrete cells, any start: unrolled
        for span, step in CELLS if rep.tier == "thorough" or mode == "numpy" else CELLS[::3]:
            w = steps_expected(span, step)
            desc = "datetime_range over %s s in steps of %s min [%s]" % (span, step, mode)
            if w > 700 or not rep.mine():
                continue
            try:
                o = c.call("simulate.datetime_range", lambda ip: ([DT(api.TS, TZ(api.OFF)), DT(N.add(api.TS, N.num(Fr(str(span)))), TZ(OFFE)), step_value(step)], {}))
                if not o.returns:
                    rep.bad(desc, sitestr(o.raises[0][3]) or "pysolar/simulate.py datetime_range", "fails: %s %s" % (o.raises[0][1].name, o.raises[0][2]))
                    continue
                items = stream_items(o)
                text = stream_diff(items, [N.add(api.TS, N.num(Fr(str(step)) * 60 * k)) for k in range(w)])
            except Undecided as u:
                rep.undecided(desc, u.reason, u.site)
                continue
            if text:
                rep.bad(desc, "pysolar/simulate.py datetime_range", text)
            else:
                rep.ok(desc, "unrolled, normal form")
    # ---- what each step reports
    for mode in ("math", "numpy"):
        c = ch.ctx(mode)
        for span, step, form in ((3000, 20, "pos"), (3600, 60, "kw"), (100, "0.5", "pos"), (3600, 30, "min"), (600, 30, "pos")):
            if rep.tier == "quick" and mode == "math" and form == "kw":
                continue
            w = steps_expected(span, step)
            desc = "simulate_span over %s s in steps of %s min (%s) [%s]" % (span, step, form, mode)
            if not rep.mine():
                continue
            try:
                span_report(rep, c, desc, span, step, form, w)
            except Undecided as u:
                rep.undecided(desc, u.reason, u.site)


def stream_items(o):
    out = []
    v = o.value
    c = o.st[v.id] if isinstance(v, Ref) else None
    if isinstance(v, tuple):
        return [(None, x) for x in v]
    if c is None or c[0] != "list":
        raise Undecided("not a stream")
    gs = c[2] or (None,) * len(c[1])
    for it, g in zip(c[1], gs):
        if isinstance(it, Seg):
            raise Undecided("stream of unknown length")
        out.append((g, it))
    return out


def stream_diff(items, want):
    i = 0
    for g, x in items:
        if g is not None and g is not N.TRUE:
            if D.impossible(g):
                continue
            p = D.sat(N.lnot(g))
            if p is not None and D.sat(g) is not None:
                return "the number of times depends on more than the span and step: one is left out at %s" % D.show_point(p)
            if p is not None:
                continue
        if not isinstance(x, DT) or x.tz is None:
            return "entry %d is not an aware datetime" % i
        if i >= len(want):
            return "more than the expected %d times" % len(want)
        m, d = D.equal(x.inst, want[i], N.TRUE, K.TOL_INSTANT)
        if d:
            return "time %d: %s" % (i, d.text())
        i += 1
    if i != len(want):
        return "%d times, expected %d" % (i, len(want))
    return None


def span_call(c, span, step, form):
    """simulate_span called on any start -> outcome, and the function giving what step i has to report"""
    lat, lon = Num(api.pvar("latitude_deg", "lat"), "float"), Num(api.pvar("longitude_deg", "lon"), "float")
    extra = {} if form == "min" else {"elevation": Num(api.pvar("elevation", "elev"), "float"), "temperature": Num(api.pvar("temperature", "temp"), "float"),
                                      "pressure": Num(api.pvar("pressure", "press"), "float")}
    hz = lambda ip: ip.newlist([Num(N.num(x), "int") for x in HZ])
    vals = {"start_datetime": DT(api.TS, TZ(api.OFF)), "end_datetime": DT(N.add(api.TS, N.num(span)), TZ(OFFE)), "step_minutes": step_value(step), "horizon": hz}

    def b(ip):
        a, k = span_args(ip, "kw", vals)
        if form == "min":
            for n in ("elevation", "temperature", "pressure"):
                k.pop(n)
        if form == "kw":
            return [], k
        return [k[n] for n in ("latitude_deg", "longitude_deg", "horizon", "start_datetime", "end_datetime", "step_minutes", "elevation", "temperature", "pressure") if n in k], {}
    o = c.call("simulate.simulate_span", b)

    def step_want(i):
        t = DT(N.add(api.TS, N.num(Fr(str(step)) * 60 * i)), TZ(api.OFF))
        alt = c.call("solar.get_altitude", lambda ip: ([lat, lon, t], dict(extra)))
        azi = c.call("solar.get_azimuth", lambda ip: ([lat, lon, t], {k: v for k, v in extra.items() if k == "elevation"}))
        A, Z = K.merged(alt)[""]["num"][1], K.merged(azi)[""]["num"][1]
        an = Num(N.var("altitude_of_step"), "float")
        api.VARKIND[an.n] = "alt"
        rad = c.call("radiation.get_radiation_direct", lambda ip: ([t, an], {}))
        R = N.subst([K.merged(rad)[""]["num"][1]], {an.n: A})[0]
        shade = N.sel(N.rnd(Z), [N.num(v) for v in HZ])
        below = N.lt(shade, N.sub(N.num(380), N.rnd(N.mul(N.num(380), N.unary("sin", N.unary("rad", A))))))
        # ties of round() and values on the edge of a horizon entry are decided by rounding: leave them out
        edge = N.land(away(N.add(Z, N.num(Fr(1, 2)))), away(N.add(N.mul(N.num(380), N.unary("sin", N.unary("rad", A))), N.num(Fr(1, 2)))))
        return {"[0].instant": (t.inst, N.TRUE), "[1]": (A, N.TRUE), "[2]": (Z, N.TRUE), "[3]": (N.ite(below, N.ZERO, R), edge), "[4]": (shade, edge)}
    return o, step_want


def step_got(x, st):
    got = {}
    for path, g, kind, pay in flatten(x, st):
        if kind == "num":
            got[path] = N.ite(g, pay, got[path]) if path in got else pay
    return got


SPAN_SITE = "pysolar/simulate.py simulate_span"


def span_zone(rep):
    """C02 for simulated spans: number, instants and values of the steps do not depend on the zones start and end are written in"""
    off3 = N.var("OFFE2")
    api.VARKIND.setdefault(off3, "offset")
    for mode in ("math", "numpy"):
        desc = "simulate.simulate_span does not depend on the zones [%s]" % mode
        if not rep.mine():
            continue
        try:
            o, _ = span_call(_k().ctx(mode), 3000, 20, "pos")
            if not o.returns:
                rep.bad(desc, sitestr(o.raises[0][3]) or SPAN_SITE, "fails: %s" % o.raises[0][2])
                continue
            nodes = [("raise %s" % r[2], r[0]) for r in o.raises]
            for i, (g, x) in enumerate(stream_items(o)):
                nodes += ([("step %d" % i, g)] if g is not None else []) + [("step %d%s" % (i, p), v) for p, v in step_got(x, o.st).items() if p in ("[0].instant", "[1]", "[2]", "[3]", "[4]")]
            meth = {"no flow from the zone"}
            for what, v in nodes:
                sub = {w: x for w, x in ((api.OFF, OFF2), (OFFE, off3)) if w in N.free_vars(v)}
                if not sub:
                    continue
                m, d = D.equal(v, N.subst([v], sub)[0], tol=K.TOL)
                meth.add(m)
                if d:
                    rep.bad(desc, SPAN_SITE, "two zones of one instant give different results in %s %s" % (what, d.text().replace("expected", "in the other zone")))
                    break
            else:
                rep.ok(desc, K.worst(meth))
        except Undecided as u:
            rep.undecided(desc, u.reason, u.site)


def span_backends(rep):
    """C04 for simulated spans: every step's values are the same terms under both backends"""
    desc = "simulate.simulate_span math = numpy"
    if not rep.mine():
        return
    try:
        got = []
        for mode in ("math", "numpy"):
            o, want = span_call(_k().ctx(mode), 3000, 20, "pos")
            if not o.returns:
                rep.bad(desc, sitestr(o.raises[0][3]) or SPAN_SITE, "fails under the %s backend: %s" % (mode, o.raises[0][2]))
                return
            got.append(([step_got(x, o.st) for g, x in stream_items(o)], want))
        (a, want), (b, _) = got
        if len(a) != len(b):
            rep.bad(desc, SPAN_SITE, "%d steps under numpy, %d under math" % (len(b), len(a)))
            return
        meth = set()
        for i, (x, y) in enumerate(zip(a, b)):
            for p, (_, edge) in want(i).items():
                m, d = D.equal(y[p], x[p], edge, K.TOL)
                meth.add(m)
                if d:
                    rep.bad(desc, sitestr(K.locate(y[p], x[p])) or SPAN_SITE, "step %d, item %s: numpy differs from math: %s" % (i, p, d.text()))
                    return
        rep.ok(desc, K.worst(meth))
    except Undecided as u:
        rep.undecided(desc, u.reason, u.site)


def span_report(rep, c, desc, span, step, form, w):
    site = "pysolar/simulate.py simulate_span"
    o, step_want = span_call(c, span, step, form)
    if not o.returns:
        rep.bad(desc, sitestr(o.raises[0][3]) or site, "fails: %s %s" % (o.raises[0][1].name, o.raises[0][2]))
        return
    for r in o.raises:
        p = D.sat(r[0])
        if p is not None:
            rep.bad(desc, sitestr(r[3]) or site, "fails: %s %s at %s" % (r[1].name, r[2], D.show_point(p)))
            return
    items = [x for g, x in stream_items(o) if g is None or not D.impossible(g)]
    if len(items) != w:
        rep.bad(desc + ": number of steps", site, "%d steps, expected %d" % (len(items), w))
        return
    for i, x in enumerate(items):
        got = step_got(x, o.st)
        for p, (wn, edge) in step_want(i).items():
            if p not in got:
                rep.bad("%s: step %d%s" % (desc, i, p), site, "missing")
                continue
            m, d = D.equal(got[p], wn, edge, K.TOL_INSTANT if p == "[0].instant" else K.TOL)
            if d:
                s = K.locate(got[p], wn)
                rep.bad("%s: step %d, item %s" % (desc, i, p), sitestr(s) or site, d.text())
            else:
                rep.ok("%s: step %d, item %s" % (desc, i, p), m)


def away(x):
    """x is not within 1e-7 of an integer"""
    f = N.sub(x, N.floor(x))
    return N.land(N.lt(N.num(1e-7), f), N.lt(f, N.num(1 - 1e-7)))
