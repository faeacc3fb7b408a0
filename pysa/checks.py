"""One function per property: obligations over the abstract outcomes of /repo's current source."""
import ast
import itertools
import os

from . import nodes as N
from . import canon as C
from . import api
from . import decide as D
from . import compare as K
from . import interval as I
from .ctx import Ctx, SpecCtx, flatten, REPO, PKG
from .report import sitestr
from .values import *

FLAGS = ("KF_SIDEREAL_COS_DEG", "KF_PARALLAX_INVERTED", "KF_AXIAL_IN_DENOMINATOR", "KF_DECLINATION_AS_DEPTH")
_ctx = {}
_spec = {}
_specout = {}


def ctx(mode):
    if mode not in _ctx:
        _ctx[mode] = Ctx(mode)
    return _ctx[mode]


def spec(flags):
    flags = tuple(sorted(flags))
    if flags not in _spec:
        _spec[flags] = SpecCtx(flags)
    return _spec[flags]


def spec_out(flags, fn, form, band, **kw):
    k = (tuple(sorted(flags)), fn.qual, form, band, repr(kw))
    if k not in _specout:
        s = spec(flags)
        _specout[k] = s.call(fn.qual, api.build(fn, form, band=band, **kw))
    return _specout[k]


def bands(fn):
    return api.BANDS if any(k == "band" for _, k, _ in fn.params) else (None,)


def modes(fn):
    return ("math", "numpy")


def where(fn, ip=None):
    """file:line of a function's definition"""
    mod, name = fn.qual.split(".") if hasattr(fn, "qual") else fn.split(".")
    return "pysolar/%s.py %s" % (mod, name)


JD = (1e-9, 0)
FINE = (1e-12, 1e-11)


def tolerance(fn):
    if fn.qual.startswith("solartime.get_julian_") and "day" in fn.qual:
        return JD
    if "C10" in fn.props or "C11" in fn.props:
        return (1e-11, 1e-11)
    return K.TOL


_relevant = {}


def relevant_flags(fn, form, band):
    """known-finding switches the reference for this function consults"""
    k = (fn.qual, form, band)
    if k not in _relevant:
        full = K.merged(spec_out(FLAGS, fn, form, band))
        rel = []
        for f in FLAGS:
            other = K.merged(spec_out([g for g in FLAGS if g != f], fn, form, band))
            if repr_out(full) != repr_out(other):
                rel.append(f)
        _relevant[k] = rel
    return _relevant[k]


def repr_out(m):
    return sorted((p, str(k), v[0].id, v[1].id) if k == "num" else (p, str(k), v.id if isinstance(v, N.Node) else 0, 0) for p, d in m.items() for k, v in d.items())


def check_formula(rep, fn, form, band, mode, raises="none", events=None, tol=None, own=True):
    """the outcome of fn equals the reference (under the recorded findings, if any)"""
    desc = "%s(%s%s) [%s]" % (fn.qual, form, ", " + band if band else "", mode)
    try:
        o = ctx(mode).call(fn.qual, api.build(fn, form, band=band))
        rel = relevant_flags(fn, form, band)
        first = None
        combos = [tuple(rel)] + [tuple(x for x in rel if x != y) for y in rel] + ([()] if len(rel) > 1 else []) if rel else [()]
        for i, on in enumerate(combos):
            flags = list(on)
            so = spec_out(flags, fn, form, band)
            bad, methods = K.compare(o, so, tol or tolerance(fn), raises=raises, events=events)
            if first is None:
                first = bad
            if not bad:
                if not own:                 # a recorded defect of the formula is another property's business
                    rep.ok(desc, K.worst(methods))
                    return
                miss = [f for f in on if not rep.known(f, desc)]
                if miss:
                    rep.bad(desc, where(fn), "matches the formula only with the defect %s, which is not recorded for this property" % miss)
                elif not on:
                    rep.ok(desc, K.worst(methods))
                return
        for b in first[:3]:
            rep.bad(desc + (" result%s" % b.path if b.path else ""), sitestr(b.site) or where(fn), b.text)
    except Undecided as u:
        rep.undecided(desc, u.reason, u.site)


def formula_property(rep, prop, raises="none", events=None, quick_forms=None):
    fns = [f for f in api.API if prop in f.props]
    count = 0
    for fn in fns:
        for form in fn.forms():
            for b in bands(fn):
                for m in modes(fn):
                    if rep.tier == "quick" and m == "numpy" and form.startswith("only:"):
                        continue
                    if rep.mine():
                        check_formula(rep, fn, form, b, m, raises, events)
                        count += 1
    if events:
        for fn in fns:
            warn_history(rep, fn, events)
    rep.extra["functions"] = [f.qual for f in fns]
    rep.extra["calls_analysed"] = count


def warn_history(rep, fn, events):
    """a call that leaves state behind does not change the value or the warnings of the next call"""
    for m in modes(fn):
        c = ctx(m)
        fs = [Callee(fn.qual, fn, "pos", b) for b in bands(fn)]
        for f in fs:
            try:
                o = call_with_args(c, f)[0]
            except Undecided as u:
                rep.undecided("%s [%s]: effects" % (f.name, m), u.reason, u.site)
                continue
            sts = after_states(c, o)
            for g in fs:
                if sts:
                    history_pair(rep, c, f, sts, g, m, events=events)
                elif rep.mine():
                    rep.ok("%s after %s [%s]" % (g.name, f.name, m), "the first call leaves no state")


EXPL = ("Each public function is interpreted abstractly from its current source (all branches, both numeric backends, every calling form) "
        "into a gated value graph over symbolic arguments; the graph is compared with the graph of the reference formula built by the same interpreter.")


ASSUMPTIONS = ["the reference formulas and tables of /verif/spec are the published ones",
               "the library models (math, numpy, datetime) in pysa/extlib.py describe those libraries",
               "an obligation decided by identity testing of terms (not by normal form) is tested, not proved"]


def stats(rep):
    rep.extra["analysis"] = {m: dict(call_sites=c.ip.callsites, functions_entered=len(c.ip.visited), library_primitives=len(c.ip.prims)) for m, c in _ctx.items()}
    rep.extra["terms"] = len(N._table)
    rep.extra["equality_methods"] = dict(D.STATS)


def c07(rep):
    formula_property(rep, "C07")


def c08(rep):
    formula_property(rep, "C08", events="warn")


def c09(rep):
    formula_property(rep, "C09")


def c10(rep):
    formula_property(rep, "C10")


def c11(rep):
    formula_property(rep, "C11")


def c12(rep):
    formula_property(rep, "C12")


def c13(rep):
    formula_property(rep, "C13")


def c14(rep):
    formula_property(rep, "C14")


def c15(rep):
    formula_property(rep, "C15")


def c20(rep):
    formula_property(rep, "C20")


def c21(rep):
    formula_property(rep, "C21", events="warn")


from .checks2 import *      # noqa
from .checks3 import *      # noqa
from .checks4 import *      # noqa


CHECKS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
