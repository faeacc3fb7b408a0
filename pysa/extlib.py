"""Models of builtins and of the library modules the analysed code may use (math, numpy, datetime, ...)."""
import ast
import math as _m
from fractions import Fraction

from . import nodes as N
from .values import *


def D(n):
    return N.num(n)


def constfold(n):
    """a number if the normal form of n is constant"""
    if N.isnum(n) or not N.free_vars(n):
        return n
    from . import canon as C
    try:
        c = C.canon(n).const()
    except (NotImplementedError, RecursionError):
        return n
    return n if c is None else N.num(c)


def usec(n):
    """a duration in whole microseconds"""
    c = constfold(n)
    if N.isnum(c):
        return N.num(round(c.data * 1000000))
    if n.isint:
        return N.mul(n, N.num(1000000))
    return N.rnd(N.mul(n, N.num(1000000)))


TMIN, TMAX = -62135596800, Fraction(253402300799999999, 1000000)
DATERANGE = "date value out of range"


class Ext_lib:
    MISSING = object()

    def __init__(self, ip):
        self.ip = ip
        self.red = {}
        self.tzcount = 0

    # ------------------------------------------------------------------ modules and names
    MODULES = {"math", "numpy", "datetime", "time", "warnings", "sys", "functools", "inspect", "itertools", "operator",
               "collections", "collections.abc", "calendar", "types", "typing", "copy", "os", "os.path", "random", "decimal", "bisect", "abc",
               "__future__", "dataclasses", "contextlib", "enum", "statistics", "cmath", "re", "logging", "threading",
               "string", "numbers", "zoneinfo", "builtins", "fractions", "json", "io", "numpy.typing", "weakref", "textwrap", "importlib", "traceback"}

    def has_module(self, name):
        return name in self.MODULES or name.split(".")[0] == "numpy"

    BUILTINS = {"abs", "min", "max", "sum", "len", "enumerate", "zip", "map", "filter", "sorted", "reversed", "repr", "round",
                "pow", "divmod", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "delattr", "callable", "print", "iter", "next",
                "any", "all", "globals", "locals", "vars", "id", "hash", "super", "__import__", "format", "chr", "ord", "dir",
                "input", "open", "exec", "eval", "compile", "__build_class__", "property", "staticmethod", "classmethod", "range", "type", "slice"}

    def builtin(self, name):
        from .absint import BTYPES, OBJECT, bexc
        if name in ("property", "staticmethod", "classmethod", "range", "type", "super", "slice"):
            return Prim("builtins." + name)
        if name in BTYPES:
            return BTYPES[name]
        if name == "object":
            return OBJECT
        if name in self.BUILTINS:
            return Prim("builtins." + name)
        import builtins
        x = getattr(builtins, name, None)
        if isinstance(x, type) and issubclass(x, BaseException):
            return bexc(name)
        if name == "NotImplemented":
            return Prim("NotImplemented")
        if name == "Ellipsis":
            return Ellipsis
        if name == "__debug__":
            return PyBool(True)
        if name in ("__name__", "__file__", "__doc__"):
            return ""
        return self.MISSING

    def as_class(self, b):
        if isinstance(b, Prim):
            if b.name in ("builtins.type", "typing.NamedTuple"):
                return None
            if b.name.startswith("typing.") or b.name in ("abc.ABC",):
                from .absint import OBJECT
                return OBJECT
        return None

    def typename(self, o):
        if isinstance(o, Ref):
            if o.kind == "obj":
                return self.ip.get(o)[1].name
            return {"arr": "numpy.ndarray", "env": "dict"}.get(o.kind, o.kind)
        if isinstance(o, Num):
            return {"np": "numpy.float64", "npb": "numpy.bool"}.get(o.k, o.k)
        if isinstance(o, (Mod, Ext)):
            return "module '%s'" % o.name
        return {"DT": "datetime.datetime", "TD": "datetime.timedelta", "TT": "time.struct_time", "Func": "function",
                "NoneType": "NoneType"}.get(type(o).__name__, type(o).__name__)

    # ------------------------------------------------------------------ helpers
    def und(self, r):
        self.ip.undecided(r)

    def te(self, msg):
        self.ip.throw("TypeError", msg)

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if v is None:
            return "None"
        if isinstance(v, Num) and N.isnum(v.n):
            if v.k == "int":
                return str(int(v.n.data))
            return repr(float(v.n.data))
        if isinstance(v, Num) and v.k == "bool" and v.n in (N.TRUE, N.FALSE):
            return str(v.n is N.TRUE)
        if isinstance(v, SymStr):
            return v
        return SymStr()

    def check_hash(self, k):
        if isinstance(k, Ref):
            if k.kind in ("list", "dict", "set"):
                self.te("unhashable type: '%s'" % k.kind)
            if k.kind == "arr":
                self.ip.event("hash-of-array", "an array is used as a key")
                self.te("unhashable type: 'numpy.ndarray'")
        if isinstance(k, tuple):
            for x in k:
                self.check_hash(x)

    def mkset(self, items):
        r = self.ip.alloc(("set", ()), "set")
        for x in items:
            self.set_add(r, x)
        return r

    def set_add(self, r, x, guard=None):
        self.check_hash(x)
        c = self.ip.get(r)
        new = guard or N.TRUE
        for k, _, g in c[1]:
            if self.ip.same_key(k, x) and g is None:
                return
            q = self.ip.key_eq(k, x)
            new = N.land(new, N.lnot(N.land(q, g or N.TRUE)))
            if new is N.FALSE:
                return
        self.ip.put(r, ("set", c[1] + ((x, None, None if new is N.TRUE else new),)))

    def list_extend(self, ref, v):
        ip = self.ip
        c = ip.get(ref)
        add = ip.iterate(v)
        items = c[1] + tuple(x for _, x in add)
        gs = (c[2] or (None,) * len(c[1])) + tuple(g for g, _ in add)
        ip.put(ref, ("list", items, gs if any(g is not None for g in gs) else None))

    def dict_items(self, v):
        c = self.ip.get(v)
        if c[0] == "env":
            return list(c[1].items())
        out = []
        for k, x, g in c[1]:
            if g is not None and self.ip.pc.decide(g) is not True:
                self.und("dict of unknown content")
            out.append((k, x))
        return out

    def dict_update(self, d, v):
        if isinstance(v, Ref) and self.ip.get(v)[0] in ("dict", "env"):
            for k, x in self.dict_items(v):
                self.ip.dict_set(d, k, x)
        else:
            for it in self.ip.concrete_items(v):
                a, b = self.ip.concrete_items(it)
                self.ip.dict_set(d, a, b)

    def enter(self, v):
        if isinstance(v, Rec):
            return v
        if isinstance(v, Ref) and v.kind == "obj":
            ip = self.ip
            m = ip.find_method(ip.get(v)[1], "__enter__")
            if m is not None:
                return ip.call(Bound(v, m), [], {})
        self.und("context manager")

    # ------------------------------------------------------------------ struct_time fields
    def tt_fields(self, t):
        L = t.sec
        day = N.days_of(L)
        s = N.mod(L, D(86400))
        return [N.cal("year", day), N.cal("month", day), N.cal("mday", day), N.floordiv(s, D(3600)),
                N.floordiv(N.mod(L, D(3600)), D(60)), N.floor(N.mod(L, D(60))), N.cal("wday", day), N.cal("yday", day), N.ZERO]

    TT_NAMES = ["tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec", "tm_wday", "tm_yday", "tm_isdst"]

    def dt_field(self, L, name):
        day = N.days_of(L)
        if name in ("year", "month"):
            return N.cal(name, day)
        if name == "day":
            return N.cal("mday", day)
        if name == "hour":
            return N.floordiv(N.mod(L, D(86400)), D(3600))
        if name == "minute":
            return N.floordiv(N.mod(L, D(3600)), D(60))
        if name == "second":
            return N.floor(N.mod(L, D(60)))
        if name == "microsecond":
            return N.floor(N.mul(D(1000000), N.mod(L, D(1))))

    # ------------------------------------------------------------------ attributes
    def really_has(self, o, name):
        """does the class this value stands for have the attribute, although it is not modelled here"""
        import datetime, functools, inspect, time, types
        import numpy
        c = {DT: datetime.datetime, TD: datetime.timedelta, TT: time.struct_time, Date: datetime.date, TZ: datetime.timezone,
             tuple: tuple, list: list, Bound: types.MethodType, type(None): type(None)}.get(type(o))
        if isinstance(o, Num):
            c = {"int": int, "float": float, "bool": bool, "np": numpy.float64, "npb": numpy.bool_}.get(o.k)
        elif isinstance(o, DT64):
            c = numpy.ndarray if o.arr else numpy.datetime64
        elif isinstance(o, TD64):
            c = numpy.ndarray if o.arr else numpy.timedelta64
        elif isinstance(o, Ref):
            c = {"list": list, "dict": dict, "set": set, "arr": numpy.ndarray}.get(o.kind)
        elif isinstance(o, Rec):
            c = {"time": datetime.time, "signature": inspect.Signature, "param": inspect.Parameter, "partial": functools.partial,
                 "boundargs": inspect.BoundArguments, "argspec": inspect.FullArgSpec, "code": types.CodeType}.get(o.name)
        return c is not None and hasattr(c, name)

    def attr(self, o, name):
        ip = self.ip
        M = self.MISSING
        if isinstance(o, Ext):
            return self.ext_attr(o.name, name)
        if isinstance(o, Num):
            if name in ("real",):
                return o
            if name == "imag":
                return Num(N.ZERO, o.k)
            if o.k in ("np", "npb"):
                if name == "shape":
                    return ()
                if name in ("ndim",):
                    return PyInt(0)
                if name == "size":
                    return PyInt(1)
                if name == "dtype":
                    return Rec("dtype", {})
                if name == "T":
                    return o
                if name in ("item", "astype", "any", "all", "max", "min", "sum", "mean", "copy", "round", "clip", "tolist", "is_integer", "reshape", "flatten", "ravel", "squeeze", "__float__"):
                    return Meth(o, name)
                return M
            if name in ("is_integer", "as_integer_ratio", "conjugate", "hex", "__float__", "__int__", "__abs__", "bit_length", "numerator"):
                return Meth(o, name)
            return M
        if isinstance(o, str):
            return Meth(o, name) if hasattr(str, name) else M
        if isinstance(o, bytes):
            return Meth(o, name) if hasattr(bytes, name) else M
        if isinstance(o, SymStr):
            return Meth(o, name) if hasattr(str, name) else M
        if isinstance(o, tuple):
            return Meth(o, name) if name in ("index", "count", "__len__", "__getitem__") else M
        if isinstance(o, Ref):
            k = ip.get(o)[0]
            if k == "arr":
                return self.arr_attr(o, name)
            if k == "list":
                if o.kind == "iter":
                    return Meth(o, name) if name in ("__next__", "__iter__", "close", "send") else M
                return Meth(o, name) if hasattr(list, name) or (o.kind == "deque" and name in ("appendleft", "popleft")) else M
            if k in ("dict", "env"):
                return Meth(o, name) if hasattr(dict, name) else M
            if k == "set":
                return Meth(o, name) if hasattr(set, name) else M
        if isinstance(o, DT):
            if name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
                return Num(self.dt_field(o.local, name), "int")
            if name == "tzinfo":
                return o.tz
            if name == "fold":
                return PyInt(0)
            if name in ("timestamp", "utctimetuple", "timetuple", "utcoffset", "dst", "tzname", "date", "time", "timetz", "toordinal",
                        "weekday", "isoweekday", "isocalendar", "isoformat", "strftime", "ctime", "replace", "astimezone", "__str__", "__hash__", "__add__", "__sub__", "__format__"):
                return Meth(o, name)
            if name == "__class__":
                return self.clsof(o)
            if name in ("min", "max", "resolution", "now", "today", "combine"):
                return self.cls_attr_name("datetime", name)
            return M
        if isinstance(o, Date):
            if name in ("year", "month", "day"):
                return Num(self.dt_field(N.mul(o.day, D(86400)), name), "int")
            if name in ("toordinal", "timetuple", "replace", "isoformat", "strftime", "weekday", "isoweekday", "ctime"):
                return Meth(o, name)
            return M
        if isinstance(o, TD):
            if name == "days":
                return Num(N.floordiv(o.sec, D(86400)), "int")
            if name == "seconds":
                return Num(N.floor(N.mod(o.sec, D(86400))), "int")
            if name == "microseconds":
                return Num(N.rnd(N.mul(D(1000000), N.mod(o.sec, D(1)))), "int")
            if name in ("total_seconds", "__abs__"):
                return Meth(o, name)
            return M
        if isinstance(o, TT):
            if name in self.TT_NAMES:
                return Num(self.tt_fields(o)[self.TT_NAMES.index(name)], "int")
            if name in ("count", "index"):
                return Meth(o, name)
            if name in ("tm_gmtoff", "tm_zone"):
                return None
            return M
        if isinstance(o, TZ):
            if name in ("utcoffset", "dst", "tzname", "fromutc"):
                return Meth(o, name)
            return M
        if isinstance(o, (DT64, TD64)):
            if o.arr:
                if name == "shape":
                    return Rec("shape", {})
                if name == "ndim":
                    return PyInt(1)
                if name == "size":
                    return Num(N.var("len!", True), "int")
                if name == "dtype":
                    return Rec("dtype", {"of": o})
                if name == "T":
                    return o
            else:
                if name == "shape":
                    return ()
                if name == "ndim":
                    return PyInt(0)
            if name in ("astype", "copy", "item", "tolist", "view", "reshape", "ravel", "flatten", "min", "max"):
                return Meth(o, name)
            return M
        if isinstance(o, Rec):
            if name in o.fields:
                return o.fields[name]
            if o.name == "lru":
                if name in ("cache_clear", "cache_info", "cache_parameters"):
                    return Meth(o, name)
                return ip.getattr0(o.fields["f"], name)
            if o.name == "property" and name in ("setter", "getter", "deleter"):
                return Meth(o, name)
            if o.name == "signature" and name in ("bind", "bind_partial"):
                return Meth(o, name)
            if o.name == "boundargs" and name == "apply_defaults":
                return Meth(o, name)
            if o.name == "dtype":
                return Meth(o, name)
            if o.name in ("count",):
                return Meth(o, name)
            if o.name == "super":
                for c in o.fields["mro"]:
                    if c.ns is not None:
                        d = ip.st[c.ns.id][1]
                        if name in d:
                            return ip.bind_attr(o.fields["obj"], c, d[name])
                return Meth(o, name)
            if o.name in ("lock", "neutral", "errstate", "logger"):
                return Meth(o, name)
            if o.name == "time" and name == "fold":
                return PyInt(0)
            if o.name == "time" and name == "replace":
                return Meth(o, name)
            return M
        if isinstance(o, Bound):
            if name == "__func__":
                return o.func
            if name == "__self__":
                return o.self
            return ip.getattr0(o.func, name)
        if isinstance(o, Prim):
            if name in ("__name__", "__qualname__"):
                return o.name.split(".")[-1]
            if name == "__module__":
                return o.name.rsplit(".", 1)[0]
            if name == "__doc__":
                return None
            if name == "from_iterable":
                return Prim(o.name + ".from_iterable")
            if o.name.startswith("numpy.") and name in ("reduce", "outer", "accumulate", "at"):
                return Prim(o.name + "." + name)
            if o.name.startswith("os.environ"):
                return Prim("os.environ." + name)
            return M
        if isinstance(o, NonDT) or o is None:
            return M
        if isinstance(o, SymRange):
            return M
        self.und("attribute %s of %s" % (name, type(o).__name__))

    def obj_attr(self, o, c, name):
        from .absint import OBJECT
        cls = c[1]
        if any(k.builtin and k.name == "BaseException" for k in cls.mro):
            if name == "args":
                return c[2].get("args", ())
            if name in ("__init__", "__str__", "with_traceback", "add_note"):
                return Meth(o, name)
            if name in ("__traceback__", "__cause__", "__context__"):
                return None
        if name in ("__init__", "__class__", "__str__", "__repr__", "__eq__", "__hash__"):
            return Meth(o, name)
        nt = getattr(cls, "nt", None)
        if nt and name in ("_asdict", "_replace", "index", "count"):
            return Meth(o, name)
        return self.MISSING

    def cls_attr(self, c, name):
        if c.builtin:
            return self.cls_attr_name(c.name, name)
        if name == "__mro__":
            return tuple(c.mro)
        if name == "__module__":
            return c.mod.name if c.mod else ""
        if name == "__doc__":
            return None
        if name == "_fields" and getattr(c, "nt", None):
            return tuple(c.nt)
        if name == "_make" and getattr(c, "nt", None):
            return Rec("partial", {"func": Prim("collections.ntmake"), "args": (c,), "kw": {}})
        for b in c.mro:
            if b.builtin and b.name != "object":
                r = self.cls_attr_name(b.name, name)
                if r is not self.MISSING:
                    return r
        if name in ("__init__", "__new__", "__setattr__"):
            return Prim("object." + name)
        return self.MISSING

    def cls_attr_name(self, cn, name):
        if cn in ("datetime", "date"):
            if cn == "datetime" and name in ("min", "max"):
                return DT(D(-62135596800 if name == "min" else 253402300799), None)
            if name in ("now", "utcnow", "today", "fromtimestamp", "utcfromtimestamp", "strptime", "combine", "fromordinal", "fromisoformat"):
                return Prim("datetime.%s.%s" % (cn, name))
            if name in ("timestamp", "utctimetuple", "timetuple", "toordinal", "date", "utcoffset"):
                return Prim("unbound." + name)
            if name == "resolution":
                return TD(N.num(Fraction(1, 1000000)))
            return self.MISSING
        if cn == "timezone" and name == "utc":
            return UTC
        if cn == "timedelta" and name in ("min", "max", "resolution"):
            return TD(N.num(Fraction(1, 1000000)))
        if cn == "dict" and name == "fromkeys":
            return Prim("dict.fromkeys")
        if cn == "float" and name in ("fromhex", "is_integer"):
            return Prim("unbound." + name)
        if cn == "str" and hasattr(str, name):
            return Prim("unbound." + name)
        if name in ("__init__", "__new__", "__name__"):
            return Prim("object." + name)
        return Prim("unbound." + name) if cn in ("list", "dict", "tuple", "set") else self.MISSING

    def func_attr(self, f, name):
        ip = self.ip
        if name in ("__name__", "__qualname__"):
            return f.name
        if name == "__module__":
            return f.mod.name
        if name == "__doc__":
            if isinstance(f.node, ast.Lambda):
                return None
            return ast.get_docstring(f.node)
        if name == "__dict__":
            return f.attrs
        if name == "__globals__":
            return f.mod.env
        if name == "__defaults__":
            return tuple(f.defaults) if f.defaults else None
        if name == "__kwdefaults__":
            return ip.newdict(list(f.kwdefaults.items())) if f.kwdefaults else None
        if name == "__annotations__":
            return ip.newdict()
        if name == "__code__":
            a = f.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            return Rec("code", {"co_varnames": tuple(pos + [x.arg for x in a.kwonlyargs]), "co_argcount": PyInt(len(pos)), "co_name": f.name,
                                "co_kwonlyargcount": PyInt(len(a.kwonlyargs)), "co_filename": f.mod.path, "co_firstlineno": PyInt(f.node.lineno)})
        if name == "__call__":
            return f
        if name == "__get__":
            return Meth(f, name)
        return self.MISSING

    CONSTS = {"math.pi": N.PI, "math.e": N.E, "math.tau": N.mul(D(2), N.PI), "math.inf": N.INF, "math.nan": N.NAN,
              "numpy.pi": N.PI, "numpy.e": N.E, "numpy.inf": N.INF, "numpy.nan": N.NAN, "numpy.NaN": N.NAN, "numpy.Inf": N.INF}

    def ext_attr(self, mod, name):
        from .absint import DTC, ND, BTYPES, OBJECT
        q = mod + "." + name
        if q in self.CONSTS:
            return Num(self.CONSTS[q], "float")
        if mod == "math":
            return Prim(q) if hasattr(_m, name) else self.MISSING
        if mod == "numpy":
            import numpy as np
            if name in ("ndarray", "generic", "datetime64", "timedelta64", "bool_"):
                return ND[name]
            if name in ("float64", "double", "float_", "longdouble", "float32", "int64", "int32", "int_", "intp"):
                return Prim(q) if name != "float64" else ND["float64"]
            if name == "newaxis":
                return None
            if name in ("random", "linalg", "typing", "testing"):
                return Ext(q)
            if not hasattr(np, name):
                return self.MISSING
            return Prim(q)
        if mod == "datetime":
            if name in DTC:
                return DTC[name]
            if name == "UTC":
                return UTC
            if name in ("MINYEAR", "MAXYEAR"):
                return PyInt(1 if name == "MINYEAR" else 9999)
            return self.MISSING
        if mod == "time" and name == "struct_time":
            return DTC["struct_time"]
        if mod == "time" and name in ("timezone", "altzone", "daylight"):
            self.ip.event("nondeterminism", "reads the system time zone (time.%s)" % name)
            return Num(N.var("localtz!" + name, True), "int")
        if mod == "sys":
            if name == "modules":
                return Prim("sys.modules")
            if name == "version_info":
                return (PyInt(3), PyInt(12), PyInt(3), "final", PyInt(0))
            if name in ("maxsize",):
                return PyInt(2 ** 63 - 1)
            if name == "float_info":
                return Rec("float_info", {"max": PyFloat(1.7976931348623157e308), "min": PyFloat(2.2250738585072014e-308), "epsilon": PyFloat(2.220446049250313e-16)})
            return Prim(q)
        if mod in ("collections.abc", "numbers", "abc", "typing", "types"):
            if mod == "numbers":
                return Rec("abc", {"name": name})
            if q == "types.FunctionType":
                return BTYPES["function"]
            return Prim(q)
        if mod == "os" and name == "environ":
            return Prim("os.environ")
        if mod == "os" and name == "path":
            return Ext("os.path")
        return Prim(q)

    # ------------------------------------------------------------------ arrays
    def arr_attr(self, o, name):
        node = self.ip.arrnode(o)
        if name == "shape":
            return Rec("shape", {})
        if name == "ndim":
            return PyInt(1)
        if name == "size":
            return Num(N.var("len!", True), "int")
        if name == "dtype":
            return Rec("dtype", {"kind": "b" if node.isbool else "f"})
        if name in ("T", "real", "flat"):
            return o
        import numpy as np
        if hasattr(np.ndarray, name):
            return Meth(o, name)
        return self.MISSING

    def reduce(self, kind, node):
        """reduction over all elements: this element combined with the unknown others"""
        ip = self.ip
        if kind in ("any", "all"):
            b = node if node.isbool else N.lnot(N.eq(node, N.ZERO))
            if kind == "any":
                key = ("any", b.id)
                v = self.red.setdefault(key, None)
                if v is None:
                    v = self.red[key] = N.bvar("others!any%d" % b.id)
                return N.lor(b, v)
            return N.lnot(self.reduce("any", N.lnot(b)))
        x = N.asnum(node)
        key = (kind, x.id)
        v = self.red.get(key)
        if v is None:
            v = self.red[key] = N.var("others!%s%d" % (kind, x.id))
        if kind == "max":
            return N.nmax(x, v)
        if kind == "min":
            return N.nmin(x, v)
        if kind == "sum":
            return N.add(x, v)
        if kind == "mean":
            return N.add(N.div(x, D(3)), v)
        return N.add(x, v)

    # ------------------------------------------------------------------ strings, sequences
    def binop(self, o, a, b):
        ip = self.ip
        A, B = type(a), type(b)
        if o == "Mod" and isinstance(a, (str, SymStr)):
            if isinstance(a, str) and not isinstance(b, Ref):
                vals = b if isinstance(b, tuple) else (b,)
                vs = []
                for v in vals:
                    if isinstance(v, str):
                        vs.append(v)
                    elif isinstance(v, Num) and N.isnum(v.n):
                        vs.append(int(v.n.data) if v.k == "int" else float(v.n.data))
                    else:
                        return SymStr()
                try:
                    return a % tuple(vs)
                except (TypeError, ValueError) as ex:
                    self.te(str(ex))
            return SymStr()
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and o == "Add":
            return a + b if isinstance(a, str) and isinstance(b, str) else SymStr()
        if isinstance(a, str) and isinstance(b, Num) and o == "Mult" and N.isnum(b.n):
            return a * int(b.n.data)
        if isinstance(a, tuple) and isinstance(b, tuple) and o == "Add":
            return a + b
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list" and o == "Add":
            r = ip.newlist(())
            self.list_extend(r, a)
            self.list_extend(r, b)
            return r
        if o == "Mult" and isinstance(b, (tuple, Ref)) and isinstance(a, Num):
            return self.binop(o, b, a)
        if o == "Mult" and isinstance(a, tuple) and isinstance(b, Num) and N.isnum(b.n):
            return a * int(b.n.data)
        if o == "Mult" and isinstance(a, Ref) and a.kind == "list" and isinstance(b, Num):
            if N.isnum(b.n):
                return ip.newlist(ip.concrete_items(a) * int(b.n.data))
            self.und("list repetition")
        if o == "BitOr" and isinstance(a, Ref) and isinstance(b, Ref) and a.kind in ("dict", "set"):
            if a.kind == "dict":
                r = ip.newdict(self.dict_items(a))
                self.dict_update(r, b)
                return r
            return self.mkset(ip.concrete_items(a) + ip.concrete_items(b))
        # dates
        na, nb = ip.node(a), ip.node(b)
        if isinstance(a, DT) and isinstance(b, TD) and o in ("Add", "Sub"):
            return self.dated(DT((N.add if o == "Add" else N.sub)(a.inst, b.sec), a.tz))
        if isinstance(a, TD) and isinstance(b, DT) and o == "Add":
            return self.dated(DT(N.add(b.inst, a.sec), b.tz))
        if isinstance(a, DT) and isinstance(b, DT) and o == "Sub":
            if (a.tz is None) != (b.tz is None):
                self.te("can't subtract offset-naive and offset-aware datetimes")
            return TD(N.sub(a.inst, b.inst))
        if isinstance(a, Date) and isinstance(b, Date) and o == "Sub":
            return TD(N.mul(D(86400), N.sub(a.day, b.day)))
        if isinstance(a, Date) and isinstance(b, TD):
            return Date(N.add(a.day, N.mul(D(1 if o == "Add" else -1), N.floordiv(b.sec, D(86400)))))
        if isinstance(a, TD) and isinstance(b, TD):
            if o in ("Add", "Sub"):
                return TD((N.add if o == "Add" else N.sub)(a.sec, b.sec))
            if o in ("Div", "FloorDiv", "Mod"):
                ip.hazard("ZeroDivisionError", N.eq(b.sec, N.ZERO), "division by a zero timedelta", arg=b.sec)
                x, y = usec(a.sec), usec(b.sec)          # whole microseconds, as Python keeps them
                if o == "Div":
                    return Num(N.div(x, y), "float")
                if o == "FloorDiv":
                    return Num(N.floordiv(x, y), "int")
                return TD(N.mod(a.sec, b.sec))
        if isinstance(a, TD) and isinstance(b, Num):
            if o == "Mult":
                return TD(N.mul(a.sec, b.n))
            if o in ("Div", "FloorDiv"):
                ip.hazard("ZeroDivisionError", N.eq(N.asnum(b.n), N.ZERO), "division by zero", arg=b.n)
                return TD(N.div(a.sec, b.n))
        if isinstance(a, Num) and isinstance(b, TD) and o == "Mult":
            return TD(N.mul(a.n, b.sec))
        if isinstance(a, DT64) and isinstance(b, DT64) and o == "Sub":
            return TD64(N.sub(a.sec, b.sec), self.finer(a.unit, b.unit), a.arr or b.arr)
        if isinstance(a, DT64) and isinstance(b, TD64) and o in ("Add", "Sub"):
            return DT64((N.add if o == "Add" else N.sub)(a.sec, b.sec), self.finer(a.unit, b.unit), a.arr or b.arr)
        if isinstance(a, DT64) and isinstance(b, TD) and o in ("Add", "Sub"):
            return DT64((N.add if o == "Add" else N.sub)(a.sec, b.sec), "us", a.arr)
        if isinstance(a, TD64) and isinstance(b, TD64):
            if o in ("Add", "Sub"):
                return TD64((N.add if o == "Add" else N.sub)(a.sec, b.sec), self.finer(a.unit, b.unit), a.arr or b.arr)
            if o in ("Div", "FloorDiv"):
                r = (N.div if o == "Div" else N.floordiv)(a.sec, b.sec)
                return ip.newarr(r) if a.arr or b.arr else Num(r, "np")
        if isinstance(a, TD64) and nb is not None and o == "Mult":
            return TD64(N.mul(a.sec, nb), a.unit, a.arr or ip.isarr(b))
        for x, y, d in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, Ref) and x.kind == "obj":
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv",
                      "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul"}[o]
                m = ip.find_method(ip.get(x)[1], d % nm)
                if m is not None:
                    return ip.call(Bound(x, m), [y], {})
        known = (Num, DT, TD, TT, Date, str, tuple, type(None), Func, Mod, NonDT, TZ)
        if (isinstance(a, known) or isinstance(a, Ref)) and (isinstance(b, known) or isinstance(b, Ref)):
            self.te("unsupported operand types for %s: '%s' and '%s'" % (o, self.typename(a), self.typename(b)))
        self.und("operator %s on %s, %s" % (o, A.__name__, B.__name__))

    def dated(self, d):
        """the sum of a date and a timedelta has to stay within the years 1 to 9999"""
        try:
            loc = N.add(d.inst, d.tz.off) if isinstance(d.tz, TZ) else d.inst
        except AttributeError:
            return d
        self.ip.hazard("OverflowError", N.lor(N.lt(loc, D(TMIN)), N.lt(D(TMAX), loc)), DATERANGE, arg=loc)
        return d

    FINE = ["Y", "M", "W", "D", "h", "m", "s", "ms", "us", "ns"]

    def finer(self, a, b):
        return max(a, b, key=self.FINE.index)

    def order(self, o, a, b):
        ip = self.ip
        OPS = {"Lt": N.lt, "LtE": N.le, "Gt": lambda x, y: N.lt(y, x), "GtE": lambda x, y: N.le(y, x)}
        f = OPS[o]
        if isinstance(a, DT) and isinstance(b, DT):
            if (a.tz is None) != (b.tz is None):
                self.te("can't compare offset-naive and offset-aware datetimes")
            return Num(f(a.inst, b.inst), "bool")
        if isinstance(a, TD) and isinstance(b, TD):
            return Num(f(a.sec, b.sec), "bool")
        if isinstance(a, Date) and isinstance(b, Date):
            return Num(f(a.day, b.day), "bool")
        if isinstance(a, (DT64, TD64)) and type(a) is type(b):
            r = f(a.sec, b.sec)
            return ip.newarr(r) if a.arr or b.arr else Num(r, "npb")
        if isinstance(a, str) and isinstance(b, str):
            return PyBool({"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o])
        if isinstance(a, TT):
            a = tuple(Num(n, "int") for n in self.tt_fields(a))
        if isinstance(b, TT):
            b = tuple(Num(n, "int") for n in self.tt_fields(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            strict = o in ("Lt", "Gt")
            n = min(len(a), len(b))
            r = N.bconst({"Lt": len(a) < len(b), "LtE": len(a) <= len(b), "Gt": len(a) > len(b), "GtE": len(a) >= len(b)}[o])
            for i in reversed(range(n)):
                e = ip.compare_eq(a[i], b[i])
                s = ip.compare({"Lt": ast.Lt, "LtE": ast.Lt, "Gt": ast.Gt, "GtE": ast.Gt}[o](), a[i], b[i])
                r = N.lor(s.n, N.land(e, r))
            return Num(r, "bool")
        if isinstance(a, Ref) and a.kind == "obj":
            m = ip.find_method(ip.get(a)[1], {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[o])
            if m is not None:
                return ip.call(Bound(a, m), [b], {})
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
            return self.order(o, tuple(ip.concrete_items(a)), tuple(ip.concrete_items(b)))
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            self.und("comparison of unknown strings")
        self.te("'%s' not supported between instances of '%s' and '%s'" % (o, self.typename(a), self.typename(b)))

    def clampidx(self, v, n, dflt):
        """slice bound -> concrete int or node"""
        if v is None:
            return dflt
        x = self.ip.node(v)
        if x is None:
            self.und("slice bound")
        x = N.asnum(x)
        if N.isnum(x):
            i = int(x.data)
            return max(0, min(n, i + n if i < 0 else i))
        return x

    def getslice(self, items, guards, s):
        ip = self.ip
        _, lo, hi, st = s
        n = len(items)
        if st is not None:
            sv = ip.node(st)
            if sv is None or not N.isnum(sv):
                self.und("slice step")
            for b in (lo, hi):
                if b is not None and not N.isnum(ip.node(b)):
                    self.und("slice with step and unknown bounds")
            sl = slice(None if lo is None else int(ip.node(lo).data), None if hi is None else int(ip.node(hi).data), int(sv.data))
            return items[sl], (guards[sl] if guards else None)
        a, b = self.clampidx(lo, n, 0), self.clampidx(hi, n, n)
        if isinstance(a, int) and isinstance(b, int):
            if guards and (lo is not None or hi is not None) and any(g is not None for g in guards):
                self.und("slice of a list of unknown content")
            return items[a:b], (guards[a:b] if guards else None)
        if guards or any(isinstance(x, Seg) for x in items):
            self.und("slice of a list of unknown content")
        out, gs = [], []
        for i, x in enumerate(items):
            g = N.TRUE
            if not isinstance(a, int):
                aa = N.ite(N.lt(a, N.ZERO), N.add(a, D(n)), a)
                g = N.land(g, N.le(aa, D(i)))
            elif i < a:
                continue
            if not isinstance(b, int):
                bb = N.ite(N.lt(b, N.ZERO), N.add(b, D(n)), b)
                g = N.land(g, N.lt(D(i), bb))
            elif i >= b:
                continue
            d = ip.pc.decide(g)
            if d is False:
                continue
            out.append(x)
            gs.append(None if d is True else g)
        return tuple(out), tuple(gs)

    def seqindex(self, items, i):
        ip = self.ip
        if not isinstance(i, Num):
            self.te("indices must be integers, not %s" % self.typename(i))
        if i.k == "float":
            self.te("indices must be integers, not float")
        idx = N.asnum(i.n)
        n = len(items)
        if N.isnum(idx):
            k = int(idx.data)
            if not -n <= k < n:
                ip.throw("IndexError", "index out of range")
            return items[k]
        lo, hi, _ = ip.pc.bnd(idx)
        bad = N.lor(N.lt(idx, D(-n)), N.le(D(n), idx))
        ip.hazard("IndexError", bad, "index out of range", arg=idx)
        if n == 0:
            ip.throw("IndexError", "index out of range")
        if any(isinstance(x, Seg) for x in items):
            self.und("index into a sequence of unknown length")
        if all(isinstance(x, Num) for x in items):
            ks = {x.k for x in items}
            return Num(N.sel(idx, [x.n for x in items]), ks.pop() if len(ks) == 1 else "float")
        k0 = 0 if lo is None or lo < 0 else int(lo)
        k1 = n - 1 if hi is None or hi > n - 1 else int(hi)
        negok = lo is None or lo < 0
        alts = []
        for k in range(0 if negok else k0, n if negok else k1 + 1):
            g = N.eq(idx, D(k))
            if negok:
                g = N.lor(g, N.eq(idx, D(k - n)))
            if ip.pc.decide(g) is False:
                continue
            alts.append((g, items[k]))
        if not alts:
            ip.throw("IndexError", "index out of range")
        v = alts[-1][1]
        for g, w in reversed(alts[:-1]):
            v = ip.mergeval(g, w, v)
        return v

    def getitem(self, o, i):
        ip = self.ip
        isslice = isinstance(i, tuple) and i and isinstance(i[0], str) and i[0] == "slice"
        if isinstance(o, tuple):
            if isslice:
                x, g = self.getslice(o, None, i)
                if g and any(q is not None for q in g):
                    return ip.newlist(x, g)
                return tuple(x)
            return self.seqindex(o, i)
        if isinstance(o, TT):
            return self.getitem(tuple(Num(n, "int") for n in self.tt_fields(o)), i)
        if isinstance(o, str):
            if isslice:
                x, _ = self.getslice(o, None, i)
                return x if isinstance(x, str) else "".join(x)
            if isinstance(i, Num) and N.isnum(i.n):
                k = int(i.n.data)
                if not -len(o) <= k < len(o):
                    ip.throw("IndexError", "string index out of range")
                return o[k]
            self.und("string index")
        if isinstance(o, Ref):
            c = ip.get(o)
            if c[0] == "list":
                if o.kind == "iter":
                    self.te("'generator' object is not subscriptable")
                if isslice:
                    x, g = self.getslice(c[1], c[2], i)
                    return ip.newlist(x, g)
                if c[2] and any(g is not None for g in c[2]):
                    if isinstance(i, Num) and N.isnum(i.n) and i.n.data >= 0 and all(g is None for g in c[2][:int(i.n.data) + 1]):
                        return c[1][int(i.n.data)]
                    return self.guarded_index(c, i)
                return self.seqindex(c[1], i)
            if c[0] in ("dict", "env"):
                self.check_hash(i)
                found, v = ip.dict_get(o, i)
                if found is not N.TRUE:
                    if "default" in getattr(o, "kind", "") :
                        pass
                    ip.throw_if(N.lnot(found), "KeyError", "%s" % (i if isinstance(i, str) else "key"))
                return v
            if c[0] == "arr":
                return self.arr_getitem(o, c, i, isslice)
            if c[0] == "obj":
                nt = getattr(c[1], "nt", None)
                if nt:
                    return self.getitem(tuple(c[2][k] for k in nt), i)
                m = ip.find_method(c[1], "__getitem__")
                if m is not None:
                    return ip.call(Bound(o, m), [i], {})
        if isinstance(o, DT64) and o.arr:
            if isslice or i is None or i is Ellipsis:
                return o
            if isinstance(i, Num):
                return DT64(N.var("others!elem%d" % o.sec.id), o.unit, False)
            return o
        if isinstance(o, SymRange):
            if isinstance(i, Num):
                return Num(N.add(o.start, N.mul(i.n, o.step)), "int")
        if isinstance(o, Prim):
            if o.name == "sys.modules":
                if isinstance(i, str):
                    if i in ip.modules:
                        return ip.modules[i]
                    return ip.import_module(i)
            if o.name == "os.environ":
                return self.environ(i)
            if o.name.startswith("typing.") or o.name.startswith("collections") or o.name.startswith("builtins.") or o.name.startswith("types."):
                return o
        if isinstance(o, Cls):
            return o
        if isinstance(o, SymStr):
            return SymStr()
        if isinstance(o, Rec) and o.name == "shape":
            return Num(N.var("len!", True), "int")
        if isinstance(o, Rec) and o.name == "params" :
            return o.fields[i]
        if isinstance(o, Num) and o.k in ("np", "npb") and (isslice or i is None or i is Ellipsis or i == ()):
            return o
        if isinstance(o, (Num, DT, TD, type(None), Func, NonDT)):
            self.te("'%s' object is not subscriptable" % self.typename(o))
        self.und("subscript of %s" % type(o).__name__)

    def guarded_index(self, c, i):
        """index into a list whose elements are conditionally present"""
        ip = self.ip
        if not (isinstance(i, Num) and N.isnum(i.n)) or any(isinstance(x, Seg) for x in c[1]):
            self.und("index into a list of unknown content")
        k = int(i.n.data)
        items = list(zip(c[2], c[1]))
        if k < 0:
            items.reverse()
            k = -k - 1
        # rank of each present element
        rank = N.ZERO
        val, found = None, N.FALSE
        alts = []
        sure = 0                  # elements passed that are certainly present
        for g, x in items:
            g = g or N.TRUE
            here = N.land(g, N.eq(rank, D(k)))
            if ip.pc.decide(here) is not False and here is not N.FALSE:
                alts.append((here, x))
                found = N.lor(found, here)
            rank = N.add(rank, N.asnum(g))
            sure += g is N.TRUE
            if sure > k:
                found = N.TRUE
                break
        ip.throw_if(N.lnot(found), "IndexError", "index out of range")
        if not alts:
            ip.throw("IndexError", "index out of range")
        v = alts[-1][1]
        for g, w in reversed(alts[:-1]):
            v = ip.mergeval(g, w, v)
        return v

    def arr_getitem(self, o, c, i, isslice):
        ip = self.ip
        node = c[1]
        if isslice:
            if i[1] is None and i[2] is None and i[3] is None:
                return o
            self.und("slice of an array")
        if i is None or i is Ellipsis or (isinstance(i, tuple) and i == ()):
            return o
        if isinstance(i, Num) and i.k == "int":
            return Num(N.var("others!elem%d" % node.id), "np")
        if ip.isarr(i) and ip.arrnode(i).isbool:
            return ip.newarr(node)
        self.und("array index")

    def setitem(self, o, i, v):
        ip = self.ip
        isslice = isinstance(i, tuple) and i and isinstance(i[0], str) and i[0] == "slice"
        if isinstance(o, Ref):
            c = ip.get(o)
            if c[0] == "list":
                if isslice:
                    if i[1] is None and i[2] is None and i[3] is None:
                        r = ip.newlist(())
                        self.list_extend(r, v)
                        ip.put(o, ip.get(r))
                        return
                    self.und("slice assignment")
                if not isinstance(i, Num):
                    self.te("list indices must be integers")
                idx = i.n
                n = len(c[1])
                if N.isnum(idx):
                    k = int(idx.data)
                    if not -n <= k < n:
                        ip.throw("IndexError", "list assignment index out of range")
                    items = list(c[1])
                    items[k] = v
                    ip.put(o, ("list", tuple(items), c[2]))
                    return
                ip.hazard("IndexError", N.lor(N.lt(idx, D(-n)), N.le(D(n), idx)), "list assignment index out of range", arg=idx)
                items = [ip.mergeval(N.lor(N.eq(idx, D(k)), N.eq(idx, D(k - n))), v, x) for k, x in enumerate(c[1])]
                ip.put(o, ("list", tuple(items), c[2]))
                return
            if c[0] in ("dict", "env"):
                ip.dict_set(o, i, v)
                return
            if c[0] == "arr":
                vn = ip.node(v)
                if vn is None:
                    self.und("array element assignment")
                if isslice or i is Ellipsis:
                    ip.write_arr(o, vn)
                elif ip.isarr(i) and ip.arrnode(i).isbool:
                    m = ip.arrnode(i)
                    ip.write_arr(o, N.ite(m, vn, c[1]))
                elif isinstance(i, Num) and i.n.isbool:
                    ip.write_arr(o, N.ite(i.n, vn, c[1]))
                else:
                    # one element by position: this element may or may not be it
                    b = N.bvar("others!pos%d" % (i.n.id if isinstance(i, Num) else 0))
                    ip.write_arr(o, N.ite(b, vn, c[1]))
                return
            if c[0] == "obj":
                m = ip.find_method(c[1], "__setitem__")
                if m is not None:
                    ip.call(Bound(o, m), [i, v], {})
                    return
        if isinstance(o, DT64):
            if o.owner:
                ip.event("mutates-argument", "in-place write to the caller's array %s" % o.owner)
            self.und("write to a datetime64 array")
        if isinstance(o, Num) and o.k in ("np", "npb"):
            self.und("write to a 0-d array")
        self.te("'%s' object does not support item assignment" % self.typename(o))

    def delitem(self, o, i):
        ip = self.ip
        c = ip.get(o) if isinstance(o, Ref) else None
        if c and c[0] == "dict":
            keep = []
            for k, v, g in c[1]:
                q = ip.key_eq(k, i)
                d = ip.pc.decide(q)
                if d is True:
                    continue
                keep.append((k, v, g if d is False else N.land(g or N.TRUE, N.lnot(q))))
            ip.put(o, ("dict", tuple(keep)))
            return
        if c and c[0] == "env":
            d = dict(c[1])
            d.pop(i, None)
            ip.put(o, ("env", d))
            return
        if c and c[0] == "list" and isinstance(i, Num) and N.isnum(i.n):
            items = list(c[1])
            del items[int(i.n.data)]
            ip.put(o, ("list", tuple(items), None))
            return
        self.und("del item")

    # ------------------------------------------------------------------ numeric primitives
    UN = {"sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan", "arcsin": "asin", "arccos": "acos",
          "arctan": "atan", "exp": "exp", "log": "log", "sqrt": "sqrt", "radians": "rad", "degrees": "deg", "deg2rad": "rad",
          "rad2deg": "deg", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh"}
    UN2 = {"floor", "ceil", "trunc", "fabs", "abs", "absolute", "fix", "rint", "square", "sign", "negative", "positive", "reciprocal",
           "log10", "log2", "log1p", "expm1", "cbrt", "exp2", "isnan", "isfinite", "isinf", "logical_not", "invert", "conj", "real", "nan_to_num"}
    BI = {"atan2", "arctan2", "pow", "power", "fmod", "mod", "remainder", "hypot", "minimum", "maximum", "fmin", "fmax", "add", "subtract", "multiply",
          "divide", "true_divide", "floor_divide", "logical_and", "logical_or", "logical_xor", "less", "less_equal", "greater", "greater_equal", "equal",
          "not_equal", "copysign", "float_power", "isclose", "heaviside", "bitwise_and", "bitwise_or"}

    def unary(self, name, x, py, a):
        """name, node -> node, with hazards"""
        ip = self.ip
        x = x if name in ("logical_not", "invert") else N.asnum(x)
        if name in self.UN:
            op = self.UN[name]
            if op in ("asin", "acos"):
                ip.hazard("ValueError", N.lor(N.lt(N.ONE, x), N.lt(x, N.NEG1)), "arc-%s of a value outside [-1, 1]" % ("sine" if op == "asin" else "cosine"), arg=x, raising=py)
                ip.hazards and ip.hazards[-1].setdefault("domain", op)
            elif op == "log":
                ip.hazard("ValueError", N.le(x, N.ZERO), "logarithm of a non-positive value", arg=x, raising=py)
            elif op == "sqrt":
                ip.hazard("ValueError", N.lt(x, N.ZERO), "square root of a negative value", arg=x, raising=py)
            elif op in ("exp", "sinh", "cosh"):
                ip.hazard("OverflowError", N.lt(N.num(Fraction(70978, 100)), x), "exponential overflow", arg=x, raising=py)
            elif op in ("sin", "cos", "tan"):
                if x.op in ("inf", "ninf"):
                    ip.hazard("ValueError", N.TRUE, "trigonometric function of infinity", arg=x, raising=py)
            return N.unary(op, x) if op != "sqrt" else (N.num(Fraction(int(_m.isqrt(x.data.numerator)), int(_m.isqrt(x.data.denominator)))) if N.isnum(x) and x.data >= 0 and _m.isqrt(x.data.numerator) ** 2 == x.data.numerator and _m.isqrt(x.data.denominator) ** 2 == x.data.denominator else N.unary("sqrt", x))
        if name == "floor":
            return N.floor(x)
        if name == "ceil":
            return N.ceil(x)
        if name in ("trunc", "fix"):
            return N.trunc(x)
        if name == "rint":
            return N.rnd(x)
        if name in ("fabs", "abs", "absolute"):
            return N.absn(x)
        if name == "square":
            return N.mul(x, x)
        if name == "sign":
            return N.ite(N.lt(x, N.ZERO), N.NEG1, N.ite(N.lt(N.ZERO, x), N.ONE, N.ZERO))
        if name == "negative":
            return N.neg(x)
        if name in ("positive", "conj", "real", "nan_to_num"):
            if name == "nan_to_num":
                return N.ite(N.mk("isnan", (x,)), N.ZERO, x)
            return x
        if name == "reciprocal":
            ip.hazard("ZeroDivisionError", N.eq(x, N.ZERO), "division by zero", arg=x, raising=False)
            return N.div(N.ONE, x)
        if name in ("log10", "log2", "log1p"):
            y = N.add(x, N.ONE) if name == "log1p" else x
            ip.hazard("ValueError", N.le(y, N.ZERO), "logarithm of a non-positive value", arg=y, raising=py)
            l = N.unary("log", y)
            return l if name == "log1p" else N.div(l, N.unary("log", D(10 if name == "log10" else 2)))
        if name == "expm1":
            return N.sub(N.unary("exp", x), N.ONE)
        if name == "exp2":
            return N.power(D(2), x)
        if name == "cbrt":
            return N.mul(N.ite(N.lt(x, N.ZERO), N.NEG1, N.ONE), N.power(N.absn(x), N.num(Fraction(1, 3))))
        if name == "isnan":
            return N.FALSE if N.isnum(x) else N.mk("isnan", (x,))
        if name == "isinf":
            return N.FALSE if N.isnum(x) else N.eq(N.absn(x), N.INF)
        if name == "isfinite":
            if N.isnum(x):
                return N.TRUE
            return N.land(N.lnot(N.mk("isnan", (x,))), N.lt(N.absn(x), N.INF))
        if name in ("logical_not", "invert"):
            return N.lnot(x if x.isbool else N.lnot(N.eq(x, N.ZERO)))
        self.und("function " + name)

    def tb(self, x):
        return x if x.isbool else N.lnot(N.eq(x, N.ZERO))

    def binary(self, name, x, y, py):
        ip = self.ip
        if name in ("atan2", "arctan2"):
            return N.atan2(x, y)
        if name in ("pow", "power", "float_power"):
            z = N.asnum(y)
            if not (N.isnum(z) and z.data >= 0 and z.data.denominator == 1):
                b = N.asnum(x)
                if not (N.isnum(b) and b.data > 0) and b not in (N.E, N.PI):
                    ip.hazard("ValueError", N.lt(b, N.ZERO), "power of a negative base", arg=b, raising=py)
            return N.power(x, y)
        if name == "fmod":
            ip.hazard("ValueError", N.eq(N.asnum(y), N.ZERO), "fmod by zero", arg=y, raising=py)
            return N.sub(x, N.mul(y, N.trunc(N.div(x, y))))
        if name in ("mod", "remainder"):
            if py and name == "remainder":
                return N.sub(x, N.mul(y, N.rnd(N.div(x, y))))
            return N.mod(x, y)
        if name == "hypot":
            return N.unary("sqrt", N.add(N.mul(x, x), N.mul(y, y)))
        if name in ("minimum", "fmin"):
            return N.nmin(x, y)
        if name in ("maximum", "fmax"):
            return N.nmax(x, y)
        if name == "add":
            return N.add(x, y)
        if name == "subtract":
            return N.sub(x, y)
        if name == "multiply":
            return N.mul(x, y)
        if name in ("divide", "true_divide"):
            ip.hazard("ZeroDivisionError", N.eq(N.asnum(y), N.ZERO), "division by zero", arg=y, raising=False)
            return N.div(x, y)
        if name == "floor_divide":
            return N.floordiv(x, y)
        if name in ("logical_and", "bitwise_and"):
            return N.land(self.tb(x), self.tb(y))
        if name in ("logical_or", "bitwise_or"):
            return N.lor(self.tb(x), self.tb(y))
        if name == "logical_xor":
            return N.lnot(N.eq(self.tb(x), self.tb(y)))
        if name == "less":
            return N.lt(x, y)
        if name == "less_equal":
            return N.le(x, y)
        if name == "greater":
            return N.lt(y, x)
        if name == "greater_equal":
            return N.le(y, x)
        if name == "equal":
            return N.eq(x, y)
        if name == "not_equal":
            return N.lnot(N.eq(x, y))
        if name == "copysign":
            return N.ite(N.lt(y, N.ZERO), N.neg(N.absn(x)), N.absn(x))
        if name == "isclose":
            return N.le(N.absn(N.sub(x, y)), N.mul(N.num(Fraction(1, 10 ** 9)), N.nmax(N.absn(x), N.absn(y))))
        if name == "heaviside":
            self.und("heaviside")
        self.und("function " + name)

    def numargs(self, args, what):
        out = []
        for a in args:
            n = self.ip.node(a)
            if n is None:
                if isinstance(a, Choice):
                    return None
                if isinstance(a, (DT64, TD64)):
                    self.und("%s of a datetime64" % what)
                self.te("must be real number, not %s (%s)" % (self.typename(a), what))
            out.append(n)
        return out

    def call_math(self, name, args, kw):
        ip = self.ip
        for a in args:
            if ip.isarr(a):
                ip.event("scalar-function-of-array", "math.%s applied to an array" % name)
                self.te("only length-1 arrays can be converted to Python scalars")
            if isinstance(a, SymStr) or isinstance(a, str) or a is None or isinstance(a, (DT, TD)):
                self.te("must be real number, not %s" % self.typename(a))
        if name == "fsum" or name == "prod":
            items = self.guarded_items(args[0])
            r = N.ZERO if name == "fsum" else N.ONE
            for g, x in items:
                n = N.asnum(ip.node(x))
                if g is not None:
                    n = N.ite(g, n, N.ZERO if name == "fsum" else N.ONE)
                r = N.add(r, n) if name == "fsum" else N.mul(r, n)
            return Num(r, "float")
        if name == "log" and len(args) == 2:
            x, b = self.numargs(args, "log")
            return Num(N.div(self.unary("log", x, True, None), self.unary("log", b, True, None)), "float")
        if name == "isclose":
            x, y = self.numargs(args[:2], name)
            rel = ip.node(kw["rel_tol"]) if "rel_tol" in kw else N.num(Fraction(1, 10 ** 9))
            ab = ip.node(kw["abs_tol"]) if "abs_tol" in kw else N.ZERO
            return Num(N.le(N.absn(N.sub(x, y)), N.nmax(N.mul(rel, N.nmax(N.absn(x), N.absn(y))), ab)), "bool")
        if name == "modf":
            x, = self.numargs(args, name)
            t = N.trunc(x)
            return (Num(N.sub(x, t), "float"), Num(t, "float"))
        if name in ("hypot", "dist") and len(args) != 2:
            self.und("math." + name)
        ns = self.numargs(args, "math." + name)
        if name in self.UN or name in self.UN2:
            if len(ns) != 1:
                self.te("math.%s() takes exactly one argument (%d given)" % (name, len(ns)))
            r = self.unary(name, ns[0], True, args[0])
            return Num(r, "int" if name in ("floor", "ceil", "trunc") else "bool" if r.isbool else "float")
        if name in self.BI:
            if len(ns) != 2:
                self.te("math.%s expected 2 arguments, got %d" % (name, len(ns)))
            r = self.binary(name, ns[0], ns[1], True)
            return Num(r, "float")
        self.und("math." + name)

    def npres(self, r, args):
        if any(self.ip.isarr(a) or isinstance(a, (DT64, TD64)) and a.arr for a in args):
            return self.ip.newarr(r)
        return Num(r, "npb" if r.isbool else "np")

    def npval(self, v):
        """value usable by a numpy function: lists of one kind are not arrays we model"""
        return v

    def dtype_unit(self, d):
        if isinstance(d, str):
            if d.startswith("datetime64["):
                return d[11:-1]
            if d.startswith("<M8["):
                return d[4:-1]
            if d.startswith("M8["):
                return d[3:-1]
        return None

    def trunc_unit(self, sec, unit):
        if unit == "Y":
            return N.mul(D(86400), N.cal("ystart", N.days_of(sec)))
        if unit == "M":
            return N.mul(D(86400), N.cal("mstart", N.days_of(sec)))
        if unit in ("us", "ns"):
            return sec
        u = N.num(UNIT_SEC[unit])
        if unit == "W":
            self.und("datetime64[W]")
        return N.mul(u, N.floordiv(sec, u))

    def to_dt64(self, x, unit):
        ip = self.ip
        if isinstance(x, DT):
            return DT64(self.trunc_unit(x.inst, unit), unit, False)
        if isinstance(x, DT64):
            if self.FINE.index(unit) < self.FINE.index(x.unit):
                return DT64(self.trunc_unit(x.sec, unit), unit, x.arr)
            return DT64(x.sec, unit, x.arr)
        if isinstance(x, Date):
            return DT64(self.trunc_unit(N.mul(D(86400), x.day), unit), unit, False)
        if ip.isarr(x):
            self.und("numeric array to datetime64")
        self.und("datetime64 of %s" % type(x).__name__)

    def call_numpy(self, name, args, kw):
        ip = self.ip
        args = list(args)
        if name in self.UN or name in self.UN2 or name in self.BI:
            out = kw.get("out")
            wh = kw.get("where")
            nin = 2 if name in self.BI else 1
            if len(args) > nin:
                out = args[nin]
                args = args[:nin]
            if isinstance(out, tuple):
                out = out[0]
            for a in args:
                if isinstance(a, Choice):
                    return ip.lift(lambda *aa: self.call_numpy(name, list(aa), kw), *args)
            if name in ("isnan",) and isinstance(args[0], DT64):
                return self.npres(N.FALSE, args)
            if nin == 2 and all(isinstance(a, (DT64, TD64, DT)) for a in args):
                opn = {"subtract": "Sub", "add": "Add", "divide": "Div", "true_divide": "Div", "floor_divide": "FloorDiv"}.get(name)
                if opn:
                    return self.binop(opn, args[0], args[1])
            if any(isinstance(a, Ref) and a.kind in ("list", "iter") or isinstance(a, tuple) for a in args):
                self.und("numpy.%s of a list" % name)
            ns = self.numargs(args, "numpy." + name)
            if len(ns) != nin:
                self.te("numpy.%s: invalid number of arguments" % name)
            r = self.unary(name, ns[0], False, args[0]) if nin == 1 else self.binary(name, ns[0], ns[1], False)
            if wh is not None and not (isinstance(wh, Num) and wh.n is N.TRUE):
                w = self.tb(ip.node(wh))
                old = ip.arrnode(out) if ip.isarr(out) else N.opaque("uninitialised array element")
                r = N.ite(w, r, old)
            if ip.isarr(out):
                ip.write_arr(out, r)
                return out
            return self.npres(r, args + ([wh] if wh is not None else []))
        f = getattr(self, "np_" + name, None)
        if f is None:
            if name.split(".")[0] == "random":
                return self.nondet("random", "numpy." + name)
            self.und("numpy." + name)
        for a in args:
            if isinstance(a, Choice):
                return ip.lift(lambda *aa: f(list(aa), kw), *args)
        return f(args, kw)

    def np_where(self, args, kw):
        ip = self.ip
        if len(args) != 3:
            if len(args) == 1:
                self.und("numpy.where with one argument")
            self.te("numpy.where takes 1 or 3 arguments")
        c, a, b = args
        if isinstance(a, DT64) and isinstance(b, DT64) and a.unit == b.unit:
            return DT64(N.ite(self.tb(ip.node(c)), a.sec, b.sec), a.unit, a.arr or b.arr or ip.isarr(c))
        if any(x is None or isinstance(x, (str, DT, Ref)) and not ip.isarr(x) for x in (a, b)):
            if isinstance(c, Num) and not ip.isarr(c):
                self.und("numpy.where on objects")
        ns = self.numargs(args, "numpy.where")
        r = N.ite(self.tb(ns[0]), ns[1], ns[2])
        return self.npres(r, args)

    def np_clip(self, args, kw):
        names = ["a", "a_min", "a_max"]
        v = dict(zip(names, args))
        v.update({k: x for k, x in kw.items() if k in names})
        if "min" in kw:
            v["a_min"] = kw["min"]
        if "max" in kw:
            v["a_max"] = kw["max"]
        x = self.numargs([v["a"]], "clip")[0]
        used = [v["a"]]
        for k, f in (("a_min", N.nmax), ("a_max", N.nmin)):
            if v.get(k) is not None:
                b = self.numargs([v[k]], "clip")[0]
                used.append(v[k])
                x = f(x, b)
        out = kw.get("out")
        if self.ip.isarr(out):
            self.ip.write_arr(out, x)
            return out
        return self.npres(x, used)

    def np_array(self, args, kw, copy=True):
        ip = self.ip
        x = args[0] if args else kw.get("a", kw.get("object"))
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        u = self.dtype_unit(dt)
        if isinstance(dt, Cls) and dt.name == "datetime64" or dt in ("datetime64",):
            u = "us" if isinstance(x, DT) else x.unit if isinstance(x, DT64) else "us"
        if u:
            return self.to_dt64(x, u)
        if isinstance(x, DT64):
            return x if not copy else DT64(x.sec, x.unit, x.arr)
        if isinstance(x, TD64):
            return x
        if isinstance(x, DT):
            return x
        if isinstance(x, Num):
            return self.astype(Num(x.n, "npb" if x.n.isbool else "np"), dt) if dt is not None else Num(x.n, "npb" if x.n.isbool else "np")
        if ip.isarr(x):
            if dt is not None:
                return self.astype(x, dt)
            return ip.newarr(ip.arrnode(x)) if copy else x
        self.und("numpy.array of %s" % self.typename(x))

    def np_asarray(self, args, kw):
        return self.np_array(args, kw, copy=False)
    np_asanyarray = np_ascontiguousarray = np_asarray

    def np_atleast_1d(self, args, kw):
        x = args[0]
        if isinstance(x, Num):
            return self.ip.newarr(x.n)
        return self.np_array([x], {}, copy=False)

    def np_copy(self, args, kw):
        return self.np_array(args, {}, copy=True)

    def np_float64(self, args, kw):
        n = self.numargs(args, "float64")
        return self.npres(N.asnum(n[0]), args)
    np_double = np_float_ = np_longdouble = np_float32 = np_float64

    def np_int64(self, args, kw):
        n = self.numargs(args, "int64")
        return self.npres(N.trunc(n[0]), args)
    np_int32 = np_int_ = np_intp = np_int64

    def np_isscalar(self, args, kw):
        return PyBool(isinstance(args[0], (Num, str)))

    def np_ndim(self, args, kw):
        x = args[0]
        if self.ip.isarr(x) or isinstance(x, (DT64, TD64)) and x.arr or isinstance(x, Ref) and x.kind == "list":
            return PyInt(1)
        return PyInt(0)

    def np_size(self, args, kw):
        return PyInt(1) if self.np_ndim(args, kw).n is N.ZERO else Num(N.var("len!", True), "int")

    def np_shape(self, args, kw):
        return () if self.np_ndim(args, kw).n is N.ZERO else Rec("shape", {})

    def _const(self, like, v, kw):
        ip = self.ip
        if isinstance(like, Rec) and like.name == "shape" or ip.isarr(like) or isinstance(like, (DT64,)) and like.arr:
            return ip.newarr(v)
        if like == () or isinstance(like, Num):
            return Num(v, "np")
        self.und("array of unknown shape")

    def np_zeros(self, args, kw):
        return self._const(args[0], N.ZERO, kw)
    np_zeros_like = np_zeros

    def np_ones(self, args, kw):
        return self._const(args[0], N.ONE, kw)
    np_ones_like = np_ones

    def np_empty(self, args, kw):
        return self._const(args[0], N.opaque("uninitialised array element"), kw)
    np_empty_like = np_empty

    def np_full(self, args, kw):
        return self._const(args[0], self.ip.node(args[1] if len(args) > 1 else kw["fill_value"]), kw)
    np_full_like = np_full

    def red_call(self, kind, args, kw):
        ip = self.ip
        x = args[0]
        if ip.isarr(x):
            return Num(self.reduce(kind, ip.arrnode(x)), "npb" if kind in ("any", "all") else "np")
        if isinstance(x, Num):
            return Num(self.tb(x.n), "npb") if kind in ("any", "all") else Num(x.n, "np")
        if isinstance(x, (Ref, tuple)):
            r = self.call_builtin({"any": "any", "all": "all", "max": "max", "min": "min", "sum": "sum"}.get(kind) or self.und("mean of a list"), [x], {})
            return Num(r.n, "np") if isinstance(r, Num) else r
        if isinstance(x, (DT64, TD64)) and x.arr and kind in ("max", "min"):
            r = self.reduce(kind, x.sec)
            return type(x)(r, x.unit, False)
        self.und("reduction of %s" % self.typename(x))

    for _n, _k in (("any", "any"), ("all", "all"), ("max", "max"), ("min", "min"), ("amax", "max"), ("amin", "min"), ("sum", "sum"),
                   ("mean", "mean"), ("median", "mean"), ("average", "mean"), ("nanmax", "max"), ("nanmin", "min"), ("nansum", "sum"), ("nanmean", "mean"),
                   ("prod", "sum"), ("std", "mean"), ("var", "mean"), ("ptp", "mean"), ("cumsum", "sum"), ("count_nonzero", "sum"), ("sometrue", "any"), ("alltrue", "all"),
                   ("argmax", "mean"), ("argmin", "mean")):
        exec("def np_%s(self, args, kw):\n    return self.red_call(%r, args, kw)" % (_n, _k))

    def np_array_equal(self, args, kw):
        return self.red_call("all", [self.ip.compare(ast.Eq(), args[0], args[1])], {})

    def np_allclose(self, args, kw):
        r = self.call_numpy("isclose", args[:2], {})
        return self.red_call("all", [r], {})

    def np_errstate(self, args, kw):
        return Rec("errstate", {})

    def np_seterr(self, args, kw):
        return Rec("neutral", {})

    def np_vectorize(self, args, kw):
        return Rec("vectorize", {"f": args[0]})

    def np_frompyfunc(self, args, kw):
        return Rec("vectorize", {"f": args[0]})

    def np_polyval(self, args, kw):
        p = self.ip.concrete_items(args[0])
        x = args[1]
        r = Num(N.ZERO, "np")
        for c in p:
            r = self.ip.binop(ast.Add(), self.ip.binop(ast.Mult(), r, x), c)
        return r

    def np_broadcast_arrays(self, args, kw):
        return self.ip.newlist(args)

    def np_round(self, args, kw):
        x = args[0]
        nd = args[1] if len(args) > 1 else kw.get("decimals")
        n = self.numargs([x], "round")[0]
        return self.npres(self.round_nd(n, nd), [x])
    np_around = np_round_ = np_round

    def np_datetime64(self, args, kw):
        return self.construct_dt64(args)

    def np_select(self, args, kw):
        ip = self.ip
        cs, vs = ip.concrete_items(args[0]), ip.concrete_items(args[1])
        d = args[2] if len(args) > 2 else kw.get("default", PyInt(0))
        r = ip.node(d)
        for c, v in reversed(list(zip(cs, vs))):
            r = N.ite(self.tb(ip.node(c)), ip.node(v), r)
        return self.npres(r, cs + vs + [d])

    def np_dot(self, args, kw):
        a, b = [self.ip.concrete_items(x) if isinstance(x, (tuple, Ref)) and not self.ip.isarr(x) else None for x in args]
        if a is None or b is None:
            self.und("numpy.dot")
        r = N.ZERO
        for x, y in zip(a, b):
            r = N.add(r, N.mul(self.ip.node(x), self.ip.node(y)))
        return Num(r, "np")

    def np_ravel(self, args, kw):
        return args[0]
    np_squeeze = np_ravel

    def np_reshape(self, args, kw):
        return args[0]

    def np_iscomplexobj(self, args, kw):
        return PyBool(False)

    def np_issubdtype(self, args, kw):
        a, b = args
        if isinstance(a, Rec) and a.name == "dtype":
            bn = getattr(b, "name", "").split(".")[-1] if not isinstance(b, str) else b
            isdt = "of" in a.fields
            return PyBool(isdt if "datetime64" in bn else (not isdt if bn in ("number", "floating") else False))
        self.und("issubdtype")

    def round_nd(self, n, nd):
        if nd is None:
            return N.rnd(n)
        d = self.ip.node(nd)
        if d is None or not N.isnum(d):
            self.und("round to unknown digits")
        s = N.num(Fraction(10) ** int(d.data))
        return N.div(N.rnd(N.mul(n, s)), s)

    def astype(self, x, dt):
        ip = self.ip
        u = self.dtype_unit(dt)
        if u:
            return self.to_dt64(x, u)
        nm = dt if isinstance(dt, str) else getattr(dt, "name", "")
        nm = nm.split(".")[-1]
        if isinstance(x, TD64):
            if nm.startswith("timedelta64["):
                unit = nm[12:-1]
                us = N.num(Fraction(UNIT_SEC[unit]).limit_denominator(10 ** 9))
                return TD64(N.mul(us, N.trunc(N.div(x.sec, us))), unit, x.arr)
            if nm in ("int", "int64", "int32", "i8", "float", "float64", "int_", "i4"):
                if x.unit in ("Y", "M"):
                    self.und("timedelta64[Y]")
                r = N.div(x.sec, N.num(Fraction(UNIT_SEC[x.unit]).limit_denominator(10 ** 9)))
                if nm.startswith("i"):
                    r = self.asint(r)
                return ip.newarr(r) if x.arr else Num(r, "np")
            self.und("timedelta64.astype(%s)" % nm)
        if isinstance(x, DT64):
            if nm in ("int", "int64", "float", "float64", "i8", "int_"):
                if x.unit == "Y":
                    r = N.sub(N.cal("year", N.days_of(x.sec)), D(1970))
                elif x.unit == "M":
                    r = N.add(N.mul(D(12), N.sub(N.cal("year", N.days_of(x.sec)), D(1970))), N.sub(N.cal("month", N.days_of(x.sec)), N.ONE))
                else:
                    r = N.div(x.sec, N.num(Fraction(UNIT_SEC[x.unit]).limit_denominator(10 ** 9)))
                    r = self.asint(r)
                return ip.newarr(r) if x.arr else Num(r, "np")
            if nm in ("object", "O", "datetime"):
                self.und("datetime64 to objects")
            self.und("datetime64.astype(%s)" % nm)
        n = ip.node(x)
        if n is None:
            self.und("astype")
        if nm in ("int", "int64", "int32", "i8", "i4", "int_", "intp", "long"):
            r = N.trunc(n)
        elif nm in ("float", "float64", "f8", "double", "float_", "longdouble", "complex"):
            r = N.asnum(n)
        elif nm in ("float32", "f4", "float16"):
            r = N.asnum(n)
            ip.event("precision", "conversion to %s" % nm)
        elif nm in ("bool", "bool_", "?"):
            r = self.tb(n)
        else:
            self.und("astype(%s)" % nm)
        return ip.newarr(r) if ip.isarr(x) else Num(r, "npb" if r.isbool else "np")

    def asint(self, r):
        """a quotient known to be whole"""
        from . import canon as C
        if r.isint:
            return r
        f = N.floor(r)
        return f

    # ------------------------------------------------------------------ nondeterminism
    def nondet(self, kind, what):
        self.ip.event("nondeterminism", "%s (%s)" % (what, kind))
        self.ip.fresh += 1
        return Num(N.var("%s!%d" % (kind, self.ip.fresh)), "float")

    def environ(self, key, default=None):
        self.ip.event("nondeterminism", "reads the environment variable %s" % (key if isinstance(key, str) else "?"))
        b = N.bvar("env!%s" % (key if isinstance(key, str) else "?"))
        return Choice([(b, SymStr()), (N.lnot(b), default)])

    # ------------------------------------------------------------------ calls
    def call_prim(self, f, args, kw):
        ip = self.ip
        name = f.name
        mod, _, fn = name.partition(".")
        for i, a in enumerate(args):
            if isinstance(a, Choice) and (mod in ("math", "numpy") or fn in ("float", "int", "abs", "round", "divmod", "pow", "len", "sorted", "min", "max", "sum", "isinstance", "hasattr", "iter")):
                return ip.lift(lambda w: self.call_prim(f, list(args[:i]) + [w] + list(args[i + 1:]), kw), a)
        if mod == "math":
            return self.call_math(fn, args, kw)
        if mod == "numpy":
            if fn.endswith(".reduce") or fn.endswith(".accumulate") or fn.endswith(".outer") or fn.endswith(".at"):
                if fn.endswith(".reduce"):
                    k = {"logical_or": "any", "logical_and": "all", "maximum": "max", "minimum": "min", "add": "sum"}.get(fn.split(".")[0])
                    if k:
                        return self.red_call(k, args, kw)
                self.und("numpy." + fn)
            return self.call_numpy(fn, args, kw)
        if mod == "builtins":
            return self.call_builtin(fn, args, kw)
        m = getattr(self, "c_" + name.replace(".", "_"), None)
        if m is not None:
            return m(args, kw)
        if mod == "unbound":
            return ip.call(ip.getattr(args[0], fn), list(args[1:]), kw)
        if mod == "object":
            return None
        if mod in ("logging", "typing", "abc", "types", "contextlib", "traceback"):
            if fn in ("cast",):
                return args[1]
            if name in ("types.MappingProxyType", "types.SimpleNamespace"):
                if name.endswith("Proxy") or name.endswith("Type"):
                    return args[0]
                self.und(name)
            if name == "contextlib.suppress":
                self.und("contextlib.suppress")
            if name in ("abc.abstractmethod", "typing.overload", "typing.final", "typing.no_type_check", "typing.runtime_checkable"):
                return args[0]
            return Rec("neutral", {})
        if mod in ("random", "secrets", "uuid"):
            return self.nondet("random", name)
        if mod == "threading":
            return Rec("lock", {})
        if mod == "os":
            if name.startswith("os.environ") or name == "os.getenv":
                if name in ("os.environ.get", "os.getenv"):
                    return self.environ(args[0], args[1] if len(args) > 1 else None)
            ip.event("nondeterminism", "calls " + name)
            self.und(name)
        if mod == "time":
            if fn in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "thread_time"):
                return self.nondet("clock", name)
            if fn == "sleep":
                return None
            if fn in ("gmtime", "localtime"):
                if args and fn == "gmtime":
                    return TT(N.floor(ip.node(args[0])))
                if args:
                    ip.event("nondeterminism", "time.localtime uses the system time zone")
                    return TT(N.floor(N.add(ip.node(args[0]), N.var("localtz!off"))))
                return TT(self.nondet("clock", name).n)
            if fn == "mktime":
                ip.event("nondeterminism", "time.mktime uses the system time zone")
                return Num(N.sub(self.tt_sec(args[0]), N.var("localtz!off")), "float")
            if fn == "strftime":
                return self.strftime(args[0], args[1].sec) if len(args) > 1 else SymStr()
        if mod == "sys":
            if fn in ("getsizeof", "getrecursionlimit"):
                return PyInt(64)
            return None
        if mod == "re":
            self.und("regular expression")
        if mod == "decimal" or mod == "fractions":
            if name in ("decimal.Decimal", "fractions.Fraction") and len(args) == 1:
                n = ip.node(args[0])
                if n is not None:
                    return Num(N.asnum(n), "float")
            self.und(name)
        self.und("call of " + name)

    def tt_sec(self, v):
        ip = self.ip
        if isinstance(v, TT):
            return v.sec
        xs = [ip.node(x) for x in ip.concrete_items(v)]
        d = N.ymd2days(xs[0], xs[1], xs[2])
        s = N.mul(d, D(86400))
        for k, x in zip((3600, 60, 1), xs[3:6]):
            s = N.add(s, N.mul(D(k), x))
        return s

    # --- calendar, warnings, functools, ...
    def c_calendar_timegm(self, args, kw):
        return Num(self.tt_sec(args[0]), "int")

    def c_calendar_isleap(self, args, kw):
        y = self.ip.node(args[0])
        f = lambda k: N.eq(N.mod(y, D(k)), N.ZERO)
        return Num(N.land(f(4), N.lor(N.lnot(f(100)), f(400))), "bool")

    def c_warnings_warn(self, args, kw):
        msg = args[0] if args else kw.get("message")
        self.ip.event("warn", msg if isinstance(msg, str) else "warning")
        return None

    def c_warnings_warn_explicit(self, args, kw):
        return self.c_warnings_warn(args, kw)

    def c_warnings_simplefilter(self, args, kw):
        self.ip.event("warnfilter", "changes the warning filters")
        return None
    c_warnings_filterwarnings = c_warnings_resetwarnings = c_warnings_simplefilter

    def c_warnings_catch_warnings(self, args, kw):
        return Rec("neutral", {})

    def c_functools_wraps(self, args, kw):
        return Rec("partial", {"func": Prim("functools.update_wrapper"), "args": (), "kw": {"wrapped": args[0]}})

    def c_functools_update_wrapper(self, args, kw):
        ip = self.ip
        w = args[0] if args else kw["wrapper"]
        f = kw.get("wrapped") or args[1]
        if isinstance(w, Func):
            ip.setvar_env(w.attrs, "__wrapped__", f)
            for a in ("__name__", "__doc__", "__module__", "__qualname__"):
                v = ip.getattr0(f, a) if not isinstance(f, Rec) else self.MISSING
                if v is not self.MISSING:
                    ip.setvar_env(w.attrs, a, v)
            if isinstance(f, Func):
                for k, v in ip.st[f.attrs.id][1].items():
                    if not k.startswith("__"):
                        ip.setvar_env(w.attrs, k, v)
        return w

    def c_functools_partial(self, args, kw):
        return Rec("partial", {"func": args[0], "args": tuple(args[1:]), "kw": dict(kw)})

    def c_functools_reduce(self, args, kw):
        ip = self.ip
        items = ip.concrete_items(args[1])
        if len(args) > 2:
            acc = args[2]
        else:
            if not items:
                self.te("reduce() of empty iterable with no initial value")
            acc, items = items[0], items[1:]
        for x in items:
            acc = ip.call(args[0], [acc, x], {})
        return acc

    def c_functools_lru_cache(self, args, kw):
        if args and isinstance(args[0], (Func, Bound, Rec)):
            return self.mklru(args[0])
        return Prim("mklru")

    def c_functools_cache(self, args, kw):
        return self.mklru(args[0])

    def c_mklru(self, args, kw):
        return self.mklru(args[0])

    def mklru(self, f):
        return Rec("lru", {"f": f, "cache": self.ip.newdict(), "__wrapped__": f})

    def c_operator_itemgetter(self, args, kw):
        return Rec("partial", {"func": Prim("itemget"), "args": (tuple(args),), "kw": {}})

    def c_itemget(self, args, kw):
        ks, o = args
        r = tuple(self.ip.getitem(o, k) for k in ks)
        return r[0] if len(r) == 1 else r

    def c_operator_attrgetter(self, args, kw):
        return Rec("partial", {"func": Prim("attrget"), "args": (tuple(args),), "kw": {}})

    def c_attrget(self, args, kw):
        ks, o = args
        r = tuple(self.ip.getattr(o, k) for k in ks)
        return r[0] if len(r) == 1 else r

    def _op(name, node):
        def f(self, args, kw):
            return self.ip.binop(node, args[0], args[1])
        return f
    for _n, _o in (("add", ast.Add()), ("sub", ast.Sub()), ("mul", ast.Mult()), ("truediv", ast.Div()), ("mod", ast.Mod()),
                   ("floordiv", ast.FloorDiv()), ("pow", ast.Pow()), ("and_", ast.BitAnd()), ("or_", ast.BitOr())):
        locals()["c_operator_" + _n] = _op(_n, _o)
    del _n, _o

    def c_operator_neg(self, args, kw):
        return self.ip.unop(ast.USub(), args[0])

    def c_operator_getitem(self, args, kw):
        return self.ip.getitem(args[0], args[1])

    def c_itertools_chain(self, args, kw):
        r = self.ip.newlist((), None, "iter")
        for a in args:
            items = self.ip.iterate(a)
            c = self.ip.get(r)
            gs = (c[2] or (None,) * len(c[1])) + tuple(g for g, _ in items)
            self.ip.put(r, ("list", c[1] + tuple(x for _, x in items), gs if any(gs) else None))
        return r

    def c_itertools_chain_from_iterable(self, args, kw):
        return self.c_itertools_chain([x for _, x in self.ip.iterate(args[0])], {})

    def c_itertools_accumulate(self, args, kw):
        ip = self.ip
        items = ip.concrete_items(args[0])
        f = args[1] if len(args) > 1 else kw.get("func")
        out = []
        acc = kw.get("initial")
        if acc is not None:
            out.append(acc)
        for x in items:
            if acc is None:
                acc = x
            else:
                acc = ip.call(f, [acc, x], {}) if f is not None else ip.binop(ast.Add(), acc, x)
            out.append(acc)
        return ip.newlist(out, None, "iter")

    def c_itertools_product(self, args, kw):
        import itertools
        rep = int(kw["repeat"].n.data) if "repeat" in kw else 1
        return self.ip.newlist(list(itertools.product(*[self.ip.concrete_items(a) for a in args], repeat=rep)), None, "iter")

    def c_itertools_starmap(self, args, kw):
        return self.ip.newlist([self.ip.call(args[0], self.ip.concrete_items(x), {}) for x in self.ip.concrete_items(args[1])], None, "iter")

    def c_itertools_repeat(self, args, kw):
        if len(args) > 1:
            return self.ip.newlist([args[0]] * int(self.ip.node(args[1]).data), None, "iter")
        return Rec("count", {"gen": lambda i: args[0]})

    def c_itertools_count(self, args, kw):
        st = args[0] if args else kw.get("start", PyInt(0))
        step = args[1] if len(args) > 1 else kw.get("step", PyInt(1))
        return Rec("count", {"gen": lambda i: self.ip.binop(ast.Add(), st, self.ip.binop(ast.Mult(), PyInt(i), step)), "start": st, "step": step})

    def c_itertools_islice(self, args, kw):
        ip = self.ip
        if isinstance(args[0], Rec) and args[0].name == "count":
            n = int(ip.node(args[1]).data)
            return ip.newlist([args[0].fields["gen"](i) for i in range(n)], None, "iter")
        items = ip.concrete_items(args[0])
        b = [None if a is None else int(ip.node(a).data) for a in args[1:]]
        return ip.newlist(items[slice(*b)], None, "iter")

    def c_itertools_takewhile(self, args, kw):
        ip = self.ip
        out, gs = [], []
        g = N.TRUE
        for x in ip.concrete_items(args[1]):
            g = N.land(g, ip.truth(ip.call(args[0], [x], {})))
            if ip.pc.decide(g) is False:
                break
            out.append(x)
            gs.append(None if ip.pc.decide(g) is True else g)
        return ip.newlist(out, gs, "iter")

    def c_itertools_zip_longest(self, args, kw):
        ip = self.ip
        cols = [ip.concrete_items(a) for a in args]
        n = max(len(c) for c in cols)
        fv = kw.get("fillvalue")
        return ip.newlist([tuple(c[i] if i < len(c) else fv for c in cols) for i in range(n)], None, "iter")

    def c_itertools_pairwise(self, args, kw):
        x = self.ip.concrete_items(args[0])
        return self.ip.newlist(list(zip(x, x[1:])), None, "iter")

    def c_bisect_bisect_right(self, args, kw):
        return self._bisect(args, kw, "LtE")
    c_bisect_bisect = c_bisect_bisect_right

    def c_bisect_bisect_left(self, args, kw):
        return self._bisect(args, kw, "Lt")

    def _bisect(self, args, kw, op):
        ip = self.ip
        r = N.ZERO
        key = kw.get("key")
        for x in ip.concrete_items(args[0]):
            if key is not None:
                x = ip.call(key, [x], {})
            c = ip.compare({"Lt": ast.Lt, "LtE": ast.LtE}[op](), x, args[1])
            r = N.add(r, N.asnum(ip.truth(c)))
        return Num(r, "int")

    def c_copy_copy(self, args, kw):
        return self.copyval(args[0], False, {})

    def c_copy_deepcopy(self, args, kw):
        return self.copyval(args[0], True, {})

    def copyval(self, v, deep, memo):
        ip = self.ip
        if isinstance(v, tuple) and deep:
            return tuple(self.copyval(x, deep, memo) for x in v)
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            c = ip.get(v)
            r = ip.alloc(c, v.kind)
            memo[v.id] = r
            if c[0] == "arr":
                ip.put(r, ("arr", c[1], frozenset()))
            elif deep:
                if c[0] == "list":
                    ip.put(r, ("list", tuple(self.copyval(x, deep, memo) for x in c[1]), c[2]))
                elif c[0] in ("dict", "set"):
                    ip.put(r, (c[0], tuple((k, self.copyval(x, deep, memo), g) for k, x, g in c[1])))
                elif c[0] == "obj":
                    ip.put(r, ("obj", c[1], {k: self.copyval(x, deep, memo) for k, x in c[2].items()}))
            return r
        return v

    def c_collections_OrderedDict(self, args, kw):
        return self.construct_dict(args, kw)

    def c_collections_deque(self, args, kw):
        return self.ip.newlist(self.ip.concrete_items(args[0]) if args else (), None, "deque")

    def c_collections_defaultdict(self, args, kw):
        self.und("defaultdict")

    def c_collections_namedtuple(self, args, kw):
        fs = args[1] if len(args) > 1 else kw["field_names"]
        names = fs.replace(",", " ").split() if isinstance(fs, str) else self.ip.concrete_items(fs)
        return self.namedtuple(args[0], names, self.ip.concrete_items(kw["defaults"]) if "defaults" in kw else [])

    def namedtuple(self, name, names, defaults):
        from .absint import BTYPES
        c = Cls(name, [BTYPES["tuple"]], self.ip.alloc(("env", {}), "env"))
        c.nt, c.ntdef = names, defaults
        return c

    def c_collections_ntmake(self, args, kw):
        return self.ip.call(args[0], self.ip.concrete_items(args[1]), {})

    def c_typing_NamedTuple(self, args, kw):
        return self.namedtuple(args[0], [self.ip.concrete_items(x)[0] for x in self.ip.concrete_items(args[1])], [])

    def c_dataclasses_dataclass(self, args, kw):
        ip = self.ip
        if not args:
            return Rec("partial", {"func": Prim("dataclasses.dataclass"), "args": (), "kw": dict(kw)})
        c = args[0]
        if not isinstance(c, Cls) or not hasattr(c, "anns") or set(kw) - {"frozen", "slots", "eq", "repr", "order", "kw_only"}:
            self.und("dataclass")
        fs = []
        for b in reversed(c.mro[1:]):
            fs = [f for f in fs if f[0] not in {x[0] for x in getattr(b, "dc", None) or []}] + list(getattr(b, "dc", None) or [])
        d = ip.st[c.ns.id][1]
        for n, ann in c.anns.items():
            if "ClassVar" in ann:
                continue
            if "InitVar" in ann or "KW_ONLY" in ann:
                self.und("dataclass")
            v, made, init = d.get(n, self.MISSING), False, True
            if isinstance(v, Rec) and v.name == "field":
                kws = v.fields["kw"]
                if set(kws) - {"default", "default_factory", "repr", "compare", "hash", "metadata", "init"}:
                    self.und("dataclass field")
                init = "init" not in kws or ip.truth(kws["init"]) is not N.FALSE
                v, made = (kws["default_factory"], True) if "default_factory" in kws else (kws.get("default", self.MISSING), False)
                if "default" in kws:
                    ip.setvar_env(c.ns, n, v)
            fs = [f for f in fs if f[0] != n] + [(n, v, made, init)]
        c.dc = fs
        c.kwonly = "kw_only" in kw and ip.truth(kw["kw_only"]) is not N.FALSE
        c.frozen = "frozen" in kw and ip.truth(kw["frozen"]) is not N.FALSE or any(getattr(b, "frozen", False) for b in c.mro[1:])
        return c

    def dc_fields(self, cls, args, kw):
        """the attributes of a new instance of a dataclass"""
        ip = self.ip
        names = [f[0] for f in cls.dc if f[3]]
        if len(args) > (0 if cls.kwonly else len(names)):
            self.te("%s.__init__() takes %d positional arguments but %d were given" % (cls.name, len(names) + 1, len(args) + 1))
        d = dict(zip(names, args))
        for k, v in kw.items():
            if k in d or k not in names:
                self.te("%s.__init__() got an unexpected argument '%s'" % (cls.name, k))
            d[k] = v
        for n, v, made, init in cls.dc:
            if n not in d:
                if v is self.MISSING:
                    if not init:
                        continue
                    self.te("%s.__init__() missing required argument: '%s'" % (cls.name, n))
                d[n] = ip.call(v, [], {}) if made else v
        return {n: d[n] for n, _, _, _ in cls.dc if n in d}

    def dc_of(self, v):
        if isinstance(v, Ref) and v.kind == "obj" and getattr(self.ip.get(v)[1], "dc", None) is not None:
            return self.ip.get(v)
        self.und("dataclass")

    def c_dataclasses_field(self, args, kw):
        return Rec("field", {"kw": dict(kw)})

    def c_dataclasses_astuple(self, args, kw):
        c = self.dc_of(args[0])
        return tuple(c[2][f[0]] for f in c[1].dc)

    def c_dataclasses_asdict(self, args, kw):
        c = self.dc_of(args[0])
        return self.ip.newdict([(f[0], c[2][f[0]]) for f in c[1].dc])

    def c_dataclasses_replace(self, args, kw):
        c = self.dc_of(args[0])
        return self.ip.instantiate(c[1], [], dict({f[0]: c[2][f[0]] for f in c[1].dc}, **kw))

    def c_functools_cached_property(self, args, kw):
        return Rec("property", {"fget": args[0], "cached": True})

    def c_inspect_unwrap(self, args, kw):
        return self.unwrap(args[0])

    def unwrap(self, f):
        ip = self.ip
        n = 0
        while n < 20:
            w = ip.getattr0(f, "__wrapped__") if isinstance(f, (Func, Rec)) else self.MISSING
            if w is self.MISSING:
                return f
            f = w
            n += 1
        return f

    def c_inspect_getfullargspec(self, args, kw):
        f = self.unwrap(args[0]) if False else args[0]
        if isinstance(f, Bound):
            f = f.func
        if isinstance(f, Rec) and f.name == "lru":
            f = f.fields["f"]
        if not isinstance(f, Func):
            self.te("unsupported callable")
        a = f.node.args
        ip = self.ip
        return Rec("argspec", {"args": ip.newlist([x.arg for x in a.posonlyargs + a.args]),
                               "varargs": a.vararg.arg if a.vararg else None, "varkw": a.kwarg.arg if a.kwarg else None,
                               "defaults": tuple(f.defaults) if f.defaults else None,
                               "kwonlyargs": ip.newlist([x.arg for x in a.kwonlyargs]),
                               "kwonlydefaults": ip.newdict(list(f.kwdefaults.items())) if f.kwdefaults else None, "annotations": ip.newdict()})

    def c_inspect_signature(self, args, kw):
        f = args[0]
        if not (isinstance(kw.get("follow_wrapped"), Num) and kw["follow_wrapped"].n is N.FALSE):
            f = self.unwrap(f)
        if isinstance(f, Bound):
            f = f.func
        if not isinstance(f, Func):
            self.und("signature of %s" % type(f).__name__)
        a = f.node.args
        ip = self.ip
        pos = [x.arg for x in a.posonlyargs + a.args]
        empty = Prim("inspect._empty")
        ps = []
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            d = f.defaults[i - (len(pos) - nd)] if i >= len(pos) - nd else empty
            ps.append((n, Rec("param", {"name": n, "default": d, "kind": "POSITIONAL_OR_KEYWORD", "empty": empty})))
        if a.vararg:
            ps.append((a.vararg.arg, Rec("param", {"name": a.vararg.arg, "default": empty, "kind": "VAR_POSITIONAL", "empty": empty})))
        for x in a.kwonlyargs:
            ps.append((x.arg, Rec("param", {"name": x.arg, "default": f.kwdefaults.get(x.arg, empty), "kind": "KEYWORD_ONLY", "empty": empty})))
        if a.kwarg:
            ps.append((a.kwarg.arg, Rec("param", {"name": a.kwarg.arg, "default": empty, "kind": "VAR_KEYWORD", "empty": empty})))
        return Rec("signature", {"parameters": ip.newdict(ps), "_f": f, "empty": empty})

    def c_inspect_getcallargs(self, args, kw):
        f = self.unwrap(args[0]) if not isinstance(args[0], Func) else args[0]
        return self.ip.newdict(list(self.ip.bind_args(f, args[1:], kw).items()))

    def c_inspect_isfunction(self, args, kw):
        return PyBool(isinstance(args[0], Func))

    def c_datetime_datetime_now(self, args, kw):
        ip = self.ip
        tz = args[0] if args else kw.get("tz")
        v = self.nondet("clock", "datetime.now").n
        if tz is None:
            return DT(N.add(v, N.var("localtz!off")), None)
        return DT(v, tz)

    def c_datetime_datetime_today(self, args, kw):
        return self.c_datetime_datetime_now([], {})

    def c_datetime_date_today(self, args, kw):
        return Date(N.days_of(self.nondet("clock", "date.today").n))

    def c_datetime_datetime_utcnow(self, args, kw):
        return DT(self.nondet("clock", "datetime.utcnow").n, None)

    def c_datetime_datetime_fromtimestamp(self, args, kw):
        tz = args[1] if len(args) > 1 else kw.get("tz")
        n = self.numargs(args[:1], "fromtimestamp")[0]
        if tz is None:
            self.ip.event("nondeterminism", "datetime.fromtimestamp uses the system time zone")
            return DT(N.add(n, N.var("localtz!off")), None)
        return DT(n, tz)

    def c_datetime_datetime_utcfromtimestamp(self, args, kw):
        return DT(self.numargs(args[:1], "fromtimestamp")[0], None)

    def c_datetime_datetime_fromordinal(self, args, kw):
        return DT(N.mul(D(86400), N.sub(self.ip.node(args[0]), D(719163))), None)

    def c_datetime_date_fromordinal(self, args, kw):
        return Date(N.sub(self.ip.node(args[0]), D(719163)))

    def c_datetime_datetime_combine(self, args, kw):
        d, t = args[0], args[1]
        tz = args[2] if len(args) > 2 else kw.get("tzinfo", t.fields.get("tz") if isinstance(t, Rec) else None)
        day = d.day if isinstance(d, Date) else N.days_of(d.local)
        if not isinstance(t, Rec) or t.name != "time":
            self.und("datetime.combine")
        L = N.add(N.mul(D(86400), day), t.fields["sec"])
        return DT(N.sub(L, tz.off) if tz is not None else L, tz)

    def c_dict_fromkeys(self, args, kw):
        v = args[1] if len(args) > 1 else None
        return self.ip.newdict([(k, v) for k in self.ip.concrete_items(args[0])])

    def c_zoneinfo_ZoneInfo(self, args, kw):
        if args and args[0] in ("UTC", "Etc/UTC", "GMT"):
            return UTC
        self.tzcount += 1
        return TZ(N.var("zone%d" % self.tzcount), "zone")

    # ------------------------------------------------------------------ builtin functions
    def guarded_items(self, v):
        its = self.ip.iterate(v)
        for g, x in its:
            if isinstance(x, Seg):
                self.und("sequence of unknown length")
        return its

    def call_builtin(self, fn, args, kw):
        ip = self.ip
        m = getattr(self, "b_" + fn, None)
        if m is None:
            self.und("builtin " + fn)
        return m(args, kw)

    def b_abs(self, args, kw):
        x = args[0]
        if isinstance(x, TD):
            return TD(N.absn(x.sec))
        n = self.numargs([x], "abs")[0]
        r = N.absn(n)
        if self.ip.isarr(x):
            return self.ip.newarr(r)
        return Num(r, "int" if x.k == "bool" else x.k)

    def _minmax(self, args, kw, which):
        ip = self.ip
        items = [(None, a) for a in args] if len(args) > 1 else self.guarded_items(args[0])
        key = kw.get("key")
        if not items:
            if "default" in kw:
                return kw["default"]
            ip.throw("ValueError", "%s() arg is an empty sequence" % which)
        if len(args) == 1 and ip.isarr(args[0]):
            ip.event("reduces-array", "builtin %s over an array" % which)
        best = None
        bk = None
        have = N.FALSE
        for g, x in items:
            if ip.isarr(x):
                ip.event("truth-of-array", "builtin %s compares arrays" % which)
                ip.throw("ValueError", "The truth value of an array with more than one element is ambiguous")
            k = ip.call(key, [x], {}) if key is not None else x
            if best is None:
                best, bk, have = x, k, g or N.TRUE
                continue
            c = ip.truth(ip.compare(ast.Lt() if which == "min" else ast.Gt(), k, bk))
            if g is not None or have is not N.TRUE:
                c = N.land(g or N.TRUE, N.lor(N.lnot(have), c))
                have = N.lor(have, g or N.TRUE)
            best = ip.mergeval(c, x, best)
            bk = ip.mergeval(c, k, bk)
        if have is not N.TRUE and "default" in kw:
            best = ip.mergeval(have, best, kw["default"])
        elif have is not N.TRUE:
            ip.throw_if(N.lnot(have), "ValueError", "%s() arg is an empty sequence" % which)
        return best

    def b_min(self, args, kw):
        return self._minmax(args, kw, "min")

    def b_max(self, args, kw):
        return self._minmax(args, kw, "max")

    def b_sum(self, args, kw):
        ip = self.ip
        acc = args[1] if len(args) > 1 else kw.get("start", PyInt(0))
        if ip.isarr(args[0]):
            return Num(self.reduce("sum", ip.arrnode(args[0])), "np")
        for g, x in self.guarded_items(args[0]):
            if g is None:
                acc = ip.binop(ast.Add(), acc, x)
            else:
                n = ip.node(x)
                if n is None:
                    self.und("sum of conditional objects")
                acc = ip.binop(ast.Add(), acc, Num(N.ite(g, N.asnum(n), N.ZERO), x.k if isinstance(x, Num) else "float"))
        return acc

    def b_len(self, args, kw):
        ip = self.ip
        v = args[0]
        if isinstance(v, (str, bytes, tuple)):
            return PyInt(len(v))
        if isinstance(v, TT):
            return PyInt(9)
        if isinstance(v, Ref):
            c = ip.get(v)
            if c[0] == "list" and v.kind != "iter":
                r = N.ZERO
                for i, x in enumerate(c[1]):
                    g = c[2][i] if c[2] else None
                    n = x.count if isinstance(x, Seg) else N.ONE
                    r = N.add(r, n if g is None else N.ite(g, n, N.ZERO))
                return Num(r, "int")
            if c[0] in ("dict", "set"):
                r = N.ZERO
                for ent in c[1]:
                    r = N.add(r, N.ONE if ent[2] is None else N.asnum(ent[2]))
                return Num(r, "int")
            if c[0] == "env":
                return PyInt(len(c[1]))
            if c[0] == "arr":
                return Num(N.var("len!", True), "int")
            if c[0] == "obj":
                if getattr(c[1], "nt", None):
                    return PyInt(len(c[1].nt))
                m = ip.find_method(c[1], "__len__")
                if m is not None:
                    return ip.call(Bound(v, m), [], {})
        if isinstance(v, SymRange):
            return Num(N.nmax(v.count, N.ZERO), "int")
        if isinstance(v, DT64) and v.arr:
            return Num(N.var("len!", True), "int")
        if isinstance(v, Rec) and v.name == "shape":
            return PyInt(1)
        if isinstance(v, SymStr):
            self.und("len of unknown string")
        self.te("object of type '%s' has no len()" % self.typename(v))

    def b_range(self, args, kw):
        ip = self.ip
        ns = []
        for a in args:
            if not isinstance(a, Num):
                self.te("'%s' object cannot be interpreted as an integer" % self.typename(a))
            if a.k in ("float",):
                if not N.isnum(a.n) or True:
                    self.te("'float' object cannot be interpreted as an integer")
            ns.append(constfold(N.asnum(a.n)))
        lo, hi, st = (N.ZERO, ns[0], N.ONE) if len(ns) == 1 else (ns[0], ns[1], ns[2] if len(ns) > 2 else N.ONE)
        if N.isnum(lo) and N.isnum(hi) and N.isnum(st):
            if st.data == 0:
                ip.throw("ValueError", "range() arg 3 must not be zero")
            r = range(int(lo.data), int(hi.data), int(st.data))
            if len(r) > 20000:
                self.und("very long range")
            return ip.newlist([PyInt(i) for i in r], None, "list")
        d = N.sub(hi, lo)
        cnt = N.ceil(N.div(d, st)) if st is not N.ONE else d
        # bounded from the path condition: unroll with guards
        l0, h0, _ = ip.pc.bnd(cnt)
        if N.isnum(lo) and st is N.ONE and None not in (l0, h0) and abs(l0) < 20000 and abs(h0) < 20000 and h0 - l0 <= 4:
            a, b = max(0, int(_m.floor(l0))), max(0, int(_m.ceil(h0)))
            if b > a:
                gs = [None if i < a else N.lt(D(i), cnt) for i in range(b)]
                return ip.newlist([PyInt(int(lo.data) + i) for i in range(b)], tuple(gs), "list")
        return SymRange(cnt, lo, st)

    def b_enumerate(self, args, kw):
        ip = self.ip
        st = args[1] if len(args) > 1 else kw.get("start", PyInt(0))
        items = ip.iterate(args[0])
        out, gs = [], []
        for i, (g, x) in enumerate(items):
            if isinstance(x, Seg):
                if len(items) == 1:
                    x = Seg(x.k, x.count, (Num(N.add(st.n, x.k), "int"), x.item))
                    out.append(x)
                    gs.append(g)
                    continue
                self.und("enumerate of a sequence of unknown length")
            if g is not None and any(q is not None for q, _ in items[:i]):
                # position depends on which earlier items are present
                cnt = N.ZERO
                for q, _ in items[:i]:
                    cnt = N.add(cnt, N.ONE if q is None else N.asnum(q))
                out.append((Num(N.add(st.n, cnt), "int"), x))
            else:
                out.append((ip.binop(ast.Add(), st, PyInt(i)), x))
            gs.append(g)
        return ip.newlist(out, gs, "iter")

    def b_zip(self, args, kw):
        ip = self.ip
        cols = []
        for a in args:
            if isinstance(a, Rec) and a.name == "count":
                cols.append(a)
            else:
                cols.append(ip.iterate(a))
        lens = [len(c) for c in cols if not isinstance(c, Rec)]
        if not lens:
            self.und("infinite zip")
        segs = [c for c in cols if not isinstance(c, Rec) and any(isinstance(x, Seg) for _, x in c)]
        if segs:
            if len(segs) == 1 and len(segs[0]) == 1 and all(isinstance(c, Rec) and "start" in c.fields or c is segs[0] for c in cols):
                s = segs[0][0][1]
                item = tuple(s.item if c is segs[0] else ip.binop(ast.Add(), c.fields["start"], ip.binop(ast.Mult(), Num(s.k, "int"), c.fields["step"])) for c in cols)
                return ip.newlist([Seg(s.k, s.count, item)], None, "iter")
            self.und("zip of sequences of unknown length")
        n = min(lens)
        out, gs = [], []
        for i in range(n):
            g = N.TRUE
            row = []
            for c in cols:
                if isinstance(c, Rec):
                    row.append(c.fields["gen"](i))
                else:
                    h, x = c[i]
                    g = N.land(g, h or N.TRUE)
                    row.append(x)
            out.append(tuple(row))
            gs.append(None if g is N.TRUE else g)
        return ip.newlist(out, gs, "iter")

    def b_map(self, args, kw):
        ip = self.ip
        if len(args) == 2:
            out, gs = [], []
            for g, x in ip.iterate(args[1]):
                if isinstance(x, Seg):
                    x = Seg(x.k, x.count, ip.call(args[0], [x.item], {}))
                else:
                    x = ip.call(args[0], [x], {})
                out.append(x)
                gs.append(g)
            return ip.newlist(out, gs, "iter")
        z = self.b_zip(args[1:], {})
        c = ip.get(z)
        return ip.newlist([ip.call(args[0], list(t), {}) for t in c[1]], c[2], "iter")

    def b_filter(self, args, kw):
        ip = self.ip
        out, gs = [], []
        for g, x in self.guarded_items(args[1]):
            c = ip.truth(ip.call(args[0], [x], {}) if args[0] is not None else x)
            q = N.land(g or N.TRUE, c)
            d = ip.pc.decide(q)
            if d is False:
                continue
            out.append(x)
            gs.append(None if d else q)
        return ip.newlist(out, gs, "iter")

    def b_sorted(self, args, kw):
        ip = self.ip
        items = ip.concrete_items(args[0])
        key = kw.get("key")
        rev = "reverse" in kw and ip.truth(kw["reverse"]) is N.TRUE
        ks = [ip.call(key, [x], {}) if key is not None else x for x in items]
        import functools
        if key is None and 1 < len(items) <= 5 and all(isinstance(x, Num) for x in items) and not all(N.isnum(x.n) for x in items):
            xs = list(items)                           # a few numbers: exchange sort with min and max
            for i in range(len(xs)):
                for j in range(len(xs) - 1 - i):
                    a, b = xs[j], xs[j + 1]
                    k = "int" if a.k == b.k == "int" else "float"
                    lo, hi = Num(N.nmin(a.n, b.n), k), Num(N.nmax(a.n, b.n), k)
                    xs[j], xs[j + 1] = (hi, lo) if rev else (lo, hi)
            return ip.newlist(xs)

        def cmp(i, j):
            c = ip.truth(ip.compare(ast.Lt(), ks[i], ks[j]))
            d = ip.pc.decide(c)
            if d is None:
                self.und("sort of unknown values")
            if d:
                return -1
            c = ip.truth(ip.compare(ast.Lt(), ks[j], ks[i]))
            d = ip.pc.decide(c)
            if d is None:
                self.und("sort of unknown values")
            return 1 if d else 0
        if len(items) == 2 and key is None and all(isinstance(x, Num) for x in items):
            lo, hi = self._minmax(items, {}, "min"), self._minmax(items, {}, "max")
            return ip.newlist([hi, lo] if rev else [lo, hi])
        idx = sorted(range(len(items)), key=functools.cmp_to_key(cmp), reverse=rev)
        return ip.newlist([items[i] for i in idx])

    def b_reversed(self, args, kw):
        its = self.guarded_items(args[0])
        its = its[::-1]
        return self.ip.newlist([x for _, x in its], [g for g, _ in its], "iter")

    def b_repr(self, args, kw):
        r = self.to_str(args[0])
        return r if not isinstance(args[0], str) else repr(args[0])

    def b_format(self, args, kw):
        return SymStr()

    def b_round(self, args, kw):
        x = args[0]
        nd = args[1] if len(args) > 1 else kw.get("ndigits")
        if self.ip.isarr(x):
            self.ip.event("scalar-function-of-array", "builtin round of an array")
        n = self.numargs([x], "round")[0]
        if nd is None:
            return Num(N.rnd(n), "int")
        return Num(self.round_nd(n, nd), x.k if x.k != "bool" else "int") if isinstance(x, Num) else self.ip.newarr(self.round_nd(n, nd))

    def b_pow(self, args, kw):
        if len(args) == 3:
            return self.ip.binop(ast.Mod(), self.ip.binop(ast.Pow(), args[0], args[1]), args[2])
        return self.ip.binop(ast.Pow(), args[0], args[1])

    def b_divmod(self, args, kw):
        ip = self.ip
        a, b = args
        return (ip.binop(ast.FloorDiv(), a, b), ip.binop(ast.Mod(), a, b))

    def isinst(self, v, c):
        from .absint import BTYPES, DTC, ND, OBJECT
        if isinstance(c, tuple):
            r = N.FALSE
            for x in c:
                r = N.lor(r, self.isinst(v, x))
            return r
        if isinstance(v, Choice):
            r = N.FALSE
            for g, w in v.alts:
                r = N.lor(r, N.land(g, self.isinst(w, c)))
            return r
        if isinstance(c, Rec) and c.name == "abc":
            return N.bconst(isinstance(v, Num))
        if isinstance(c, Prim):
            nm = c.name.split(".")[-1]
            if c.name.startswith("numpy."):
                if nm in ("floating", "number", "float64", "inexact", "generic"):
                    return N.bconst(isinstance(v, Num) and v.k in ("np", "npb"))
                if nm in ("integer", "int64"):
                    return N.bconst(isinstance(v, Num) and v.k == "np" and v.n.isint)
                return N.FALSE
            if nm in ("Iterable", "Sequence", "Sized", "Container", "Collection"):
                return N.bconst(isinstance(v, (tuple, str)) or isinstance(v, Ref) and v.kind in ("list", "dict", "set", "arr"))
            if nm in ("Mapping", "MutableMapping", "Dict"):
                return N.bconst(isinstance(v, Ref) and v.kind == "dict")
            if nm == "Callable":
                return N.bconst(isinstance(v, (Func, Bound, Prim, Cls, Rec)))
            if nm == "type":
                return N.bconst(isinstance(v, Cls))
            if nm == "range":
                return N.bconst(isinstance(v, SymRange))
            self.und("isinstance of %s" % c.name)
        if not isinstance(c, Cls):
            self.te("isinstance() arg 2 must be a type")
        k = self.clsof(v)
        return N.bconst(c in k.mro or c is OBJECT)

    def clsof(self, v):
        from .absint import BTYPES, DTC, ND, OBJECT
        if isinstance(v, Num):
            return {"int": BTYPES["int"], "float": BTYPES["float"], "bool": BTYPES["bool"], "np": ND["float64"], "npb": ND["bool_"]}[v.k]
        if isinstance(v, (str, SymStr)):
            return BTYPES["str"]
        if isinstance(v, bytes):
            return BTYPES["bytes"]
        if isinstance(v, tuple):
            return BTYPES["tuple"]
        if v is None:
            return BTYPES["NoneType"]
        if isinstance(v, DT):
            return getattr(v, "cls", None) or DTC["datetime"]
        if isinstance(v, TD):
            return DTC["timedelta"]
        if isinstance(v, Date):
            return DTC["date"]
        if isinstance(v, TZ):
            return DTC["tzinfo"]
        if isinstance(v, TT):
            return DTC["struct_time"]
        if isinstance(v, DT64):
            return ND["ndarray"] if v.arr else ND["datetime64"]
        if isinstance(v, TD64):
            return ND["ndarray"] if v.arr else ND["timedelta64"]
        if isinstance(v, Ref):
            c = self.ip.get(v)
            if c[0] == "obj":
                return c[1]
            return {"list": BTYPES["list"] if v.kind != "iter" else BTYPES["generator"], "dict": BTYPES["dict"], "env": BTYPES["dict"],
                    "set": BTYPES["set"], "arr": ND["ndarray"]}[c[0]]
        if isinstance(v, (Func, Bound)):
            return BTYPES["function"]
        if isinstance(v, Cls):
            return BTYPES["type"]
        return OBJECT

    def b_isinstance(self, args, kw):
        return Num(self.isinst(args[0], args[1]), "bool")

    def b_issubclass(self, args, kw):
        a, b = args
        bs = b if isinstance(b, tuple) else (b,)
        return PyBool(any(x in a.mro for x in bs))

    def b_type(self, args, kw):
        return self.clsof(args[0])

    def b_hasattr(self, args, kw):
        o, n = args
        if not isinstance(n, str):
            self.und("hasattr")
        r = self.ip.getattr0(o, n)
        return PyBool(r is not self.MISSING)

    def b_getattr(self, args, kw):
        o, n = args[0], args[1]
        if not isinstance(n, str):
            self.und("getattr with unknown name")
        if isinstance(o, Choice):
            return self.ip.lift(lambda x: self.b_getattr([x] + list(args[1:]), kw), o)
        r = self.ip.getattr0(o, n)
        if r is self.MISSING:
            if len(args) > 2:
                return args[2]
            self.ip.throw("AttributeError", "%s has no attribute '%s'" % (self.typename(o), n))
        return r

    def b_setattr(self, args, kw):
        self.ip.setattr(args[0], args[1], args[2])

    def b_callable(self, args, kw):
        return PyBool(isinstance(args[0], (Func, Bound, Prim, Meth, Cls)) or isinstance(args[0], Rec) and args[0].name in ("partial", "lru", "vectorize"))

    def b_print(self, args, kw):
        return None

    def b_iter(self, args, kw):
        if isinstance(args[0], Ref) and args[0].kind == "iter":
            return args[0]
        if isinstance(args[0], Rec) and args[0].name == "count":
            return args[0]
        its = self.ip.iterate(args[0])
        return self.ip.newlist([x for _, x in its], [g for g, _ in its], "iter")

    def b_next(self, args, kw):
        ip = self.ip
        v = args[0]
        if isinstance(v, Ref) and v.kind == "iter":
            c = ip.get(v)
            if not c[1]:
                if len(args) > 1:
                    return args[1]
                ip.throw("StopIteration", None)
            if isinstance(c[1][0], Seg):
                self.und("next on a sequence of unknown length")
            if c[2] and c[2][0] is not None:
                # first present element
                gs = c[2]
                val, found = (args[1] if len(args) > 1 else None), N.FALSE
                for g, x in reversed(list(zip(gs, c[1]))):
                    val = ip.mergeval(g or N.TRUE, x, val) if (found is not N.FALSE or len(args) > 1) else x
                    found = N.lor(found, g or N.TRUE)
                if len(args) < 2:
                    ip.throw_if(N.lnot(found), "StopIteration", None)
                ip.put(v, ("list", (), None))
                return val
            ip.put(v, ("list", c[1][1:], c[2][1:] if c[2] else None))
            return c[1][0]
        if isinstance(v, Rec) and v.name == "count":
            self.und("next of itertools.count")
        if isinstance(v, Ref) and v.kind == "obj":
            m = ip.find_method(ip.get(v)[1], "__next__")
            if m is not None:
                return ip.call(Bound(v, m), [], {})
        self.te("object is not an iterator")

    def b_any(self, args, kw):
        ip = self.ip
        if ip.isarr(args[0]):
            return Num(self.reduce("any", ip.arrnode(args[0])), "bool")
        r = N.FALSE
        for g, x in self.guarded_items(args[0]):
            r = N.lor(r, N.land(g or N.TRUE, ip.truth(x)))
        return Num(r, "bool")

    def b_all(self, args, kw):
        ip = self.ip
        if ip.isarr(args[0]):
            return Num(self.reduce("all", ip.arrnode(args[0])), "bool")
        r = N.TRUE
        for g, x in self.guarded_items(args[0]):
            t = ip.truth(x)
            r = N.land(r, t if g is None else N.lor(N.lnot(g), t))
        return Num(r, "bool")

    def b_globals(self, args, kw):
        return self.ip.fns[-1].mod.env

    def b_locals(self, args, kw):
        fr = self.ip.fns[-1]
        c = self.ip.st[fr.env.id][1]
        return self.ip.newdict(list(c.items())) if fr.isfn else fr.env

    def b_vars(self, args, kw):
        if not args:
            return self.b_locals(args, kw)
        o = args[0]
        if isinstance(o, Mod):
            return o.env
        if isinstance(o, Func):
            return o.attrs
        if isinstance(o, Ref) and o.kind == "obj":
            return self.ip.newdict(list(self.ip.get(o)[2].items()))
        self.und("vars")

    def b_dir(self, args, kw):
        if args and isinstance(args[0], Mod):
            return self.ip.newlist(sorted(self.ip.st[args[0].env.id][1]))
        self.und("dir")

    def b_id(self, args, kw):
        self.und("id()")

    def b_hash(self, args, kw):
        self.check_hash(args[0])
        v = args[0]
        # a hash is an unknown function of the value; equal values give equal hashes
        n = v.inst if isinstance(v, DT) else self.ip.node(v)
        if n is None:
            self.und("hash()")
        return Num(N.asnum(n), "int")

    def b_super(self, args, kw):
        if len(args) == 2:
            cls, obj = args
            oc = self.ip.get(obj)[1]
            mro = oc.mro[oc.mro.index(cls) + 1:]
            return Rec("super", {"obj": obj, "mro": mro})
        return self.make_super(self.ip.fns[-1].fn())

    def make_super(self, fr):
        ip = self.ip
        obj = fr.args0[0] if fr.args0 else None
        oc = ip.get(obj)[1] if isinstance(obj, Ref) and obj.kind == "obj" else obj
        # class that defines the running function
        for i, c in enumerate(oc.mro):
            if c.ns is not None and any(v is fr.func or isinstance(v, Rec) and fr.func in v.fields.values() for v in ip.st[c.ns.id][1].values()):
                return Rec("super", {"obj": obj, "mro": oc.mro[i + 1:]})
        self.und("super()")

    def b___import__(self, args, kw):
        name = args[0]
        if not isinstance(name, str):
            self.und("__import__ of unknown name")
        m = self.ip.import_module(name)
        if "." in name and not (kw.get("fromlist") or len(args) > 3):
            return self.ip.import_module(name.split(".")[0])
        return m

    def c_importlib_import_module(self, args, kw):
        return self.ip.import_module(args[0])

    def b_property(self, args, kw):
        return Rec("property", {"fget": args[0] if args else kw.get("fget")})

    def b_staticmethod(self, args, kw):
        return Rec("staticmethod", {"f": args[0]})

    def b_classmethod(self, args, kw):
        return Rec("classmethod", {"f": args[0]})

    def b_slice(self, args, kw):
        if len(args) == 1:
            return ("slice", None, args[0], None)
        return ("slice", args[0], args[1], args[2] if len(args) > 2 else None)

    def b_chr(self, args, kw):
        return chr(int(self.ip.node(args[0]).data))

    def b_ord(self, args, kw):
        return PyInt(ord(args[0]))

    def b_open(self, args, kw):
        self.ip.event("nondeterminism", "opens a file")
        self.und("open")

    def b_input(self, args, kw):
        self.ip.event("nondeterminism", "reads standard input")
        self.und("input")

    # ------------------------------------------------------------------ Rec calls
    def call_rec(self, f, args, kw):
        ip = self.ip
        if f.name == "partial":
            k = dict(f.fields["kw"])
            k.update(kw)
            return ip.call(f.fields["func"], list(f.fields["args"]) + list(args), k)
        if f.name == "staticmethod":
            return ip.call(f.fields["f"], args, kw)
        if f.name == "lru":
            key = tuple(args)
            for k in sorted(kw):
                key += (k, kw[k])
            self.check_hash(key)
            cache = f.fields["cache"]
            found, v = ip.dict_get(cache, key)

            def miss():
                r = ip.call(f.fields["f"], args, kw)
                ip.dict_set(cache, key, r)
                return r
            if found is N.TRUE:
                return v
            if found is N.FALSE:
                return miss()
            return ip.branch([(found, lambda: v), (N.lnot(found), miss)])
        if f.name == "vectorize":
            arr = any(ip.isarr(a) or isinstance(a, DT64) and a.arr for a in args)
            sc = []
            for a in args:
                if ip.isarr(a):
                    n = ip.arrnode(a)
                    sc.append(Num(n, "npb" if n.isbool else "np"))
                elif isinstance(a, DT64) and a.arr:
                    sc.append(DT64(a.sec, a.unit, False))
                else:
                    sc.append(a)
            r = ip.call(f.fields["f"], sc, kw)
            if arr and isinstance(r, Num):
                return ip.newarr(r.n)
            return r
        self.und("call of " + f.name)

    # ------------------------------------------------------------------ constructors
    def construct(self, cls, args, kw):
        ip = self.ip
        n = cls.name
        if getattr(cls, "nt", None):
            d = dict(zip(cls.nt, args))
            d.update(kw)
            miss = [x for x in cls.nt if x not in d]
            for x, v in zip(cls.nt[len(cls.nt) - len(cls.ntdef):], cls.ntdef):
                d.setdefault(x, v)
            if len(args) > len(cls.nt) or [x for x in d if x not in cls.nt] or [x for x in cls.nt if x not in d]:
                self.te("%s.__new__() argument mismatch" % n)
            return ip.alloc(("obj", cls, d), "obj")
        if not cls.builtin:
            b = [c for c in cls.mro if c.builtin]
            if any(c.name == "BaseException" for c in b):
                return self.MISSING
            if all(c.name == "object" for c in b):
                return self.MISSING
            if any(c.name == "datetime" for c in b):
                self.und("subclass of datetime")
            self.und("instance of a subclass of %s" % b[0].name)
        if any(c.name == "BaseException" for c in cls.mro):
            return self.MISSING
        if cls.name == "object":
            return ip.alloc(("obj", cls, {}), "obj")
        m = getattr(self, "k_" + n, None)
        if m is None:
            self.und("construction of " + n)
        for i, a in enumerate(args):
            if isinstance(a, Choice):
                return ip.lift(lambda w: self.construct(cls, list(args[:i]) + [w] + list(args[i + 1:]), kw), a)
        return m(args, kw)

    def k_int(self, args, kw):
        ip = self.ip
        if not args:
            return PyInt(0)
        v = args[0]
        if isinstance(v, Num):
            return Num(N.trunc(v.n), "int")
        if isinstance(v, str):
            try:
                return PyInt(int(v, *[int(ip.node(a).data) for a in args[1:]]))
            except ValueError:
                ip.throw("ValueError", "invalid literal for int()")
        if isinstance(v, SymStr) and v.num is not None:
            return Num(v.num, "int")
        if ip.isarr(v):
            ip.event("scalar-function-of-array", "int() of an array")
            self.te("only length-1 arrays can be converted to Python scalars")
        if isinstance(v, TD64) and not v.arr:
            return Num(self.asint(N.div(v.sec, N.num(Fraction(UNIT_SEC[v.unit]).limit_denominator(10 ** 9)))), "int")
        if isinstance(v, SymStr):
            self.und("int of unknown string")
        self.te("int() argument must be a string or a real number, not '%s'" % self.typename(v))

    def k_float(self, args, kw):
        ip = self.ip
        if not args:
            return PyFloat(0.0)
        v = args[0]
        if isinstance(v, Num):
            return Num(N.asnum(v.n), "float")
        if isinstance(v, str):
            try:
                return PyFloat(float(v))
            except ValueError:
                ip.throw("ValueError", "could not convert string to float")
        if isinstance(v, SymStr) and v.num is not None:
            return Num(v.num, "float")
        if ip.isarr(v):
            ip.event("scalar-function-of-array", "float() of an array")
            self.te("only length-1 arrays can be converted to Python scalars")
        if isinstance(v, SymStr):
            self.und("float of unknown string")
        if isinstance(v, Ref) and v.kind == "obj":
            m = ip.find_method(ip.get(v)[1], "__float__")
            if m is not None:
                return ip.call(Bound(v, m), [], {})
        self.te("float() argument must be a string or a real number, not '%s'" % self.typename(v))

    def k_float64(self, args, kw):
        return self.np_float64(args, kw)

    def k_bool_(self, args, kw):
        return Num(self.ip.truth(args[0]), "npb")

    def k_bool(self, args, kw):
        return Num(self.ip.truth(args[0]), "bool") if args else PyBool(False)

    def k_str(self, args, kw):
        return self.to_str(args[0]) if args else ""

    def k_complex(self, args, kw):
        self.und("complex")

    def k_list(self, args, kw):
        its = self.ip.iterate(args[0]) if args else []
        return self.ip.newlist([x for _, x in its], [g for g, _ in its])

    def k_tuple(self, args, kw):
        ip = self.ip
        its = ip.iterate(args[0]) if args else []
        if any(g is not None and ip.pc.decide(g) is not True or isinstance(x, Seg) for g, x in its):
            return ip.newlist([x for _, x in its], [g for g, _ in its])
        return tuple(x for _, x in its)

    def construct_dict(self, args, kw):
        d = self.ip.newdict()
        if args:
            self.dict_update(d, args[0])
        for k, v in kw.items():
            self.ip.dict_set(d, k, v)
        return d

    def k_dict(self, args, kw):
        return self.construct_dict(args, kw)

    def k_set(self, args, kw):
        return self.mkset(self.ip.concrete_items(args[0]) if args else [])
    k_frozenset = k_set

    def k_datetime(self, args, kw):
        names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
        v = dict(zip(names, args))
        for k, x in kw.items():
            v[k] = x
        ip = self.ip
        g = lambda k, d: N.asnum(self.numargs([v[k]], "datetime")[0]) if k in v else d
        for k in ("year", "month", "day"):
            if k not in v:
                self.te("datetime() missing required argument '%s'" % k)
        day = N.ymd2days(g("year", None), g("month", None), g("day", None))
        s = N.mul(D(86400), day)
        for k, m in (("hour", 3600), ("minute", 60), ("second", 1)):
            s = N.add(s, N.mul(D(m), g(k, N.ZERO)))
        s = N.add(s, N.mul(N.num(Fraction(1, 1000000)), g("microsecond", N.ZERO)))
        tz = v.get("tzinfo")
        return DT(N.sub(s, tz.off) if tz is not None else s, tz)

    def k_date(self, args, kw):
        v = dict(zip(["year", "month", "day"], args))
        v.update(kw)
        return Date(N.ymd2days(*[N.asnum(self.ip.node(v[k])) for k in ("year", "month", "day")]))

    def k_time(self, args, kw):
        names = ["hour", "minute", "second", "microsecond", "tzinfo"]
        v = dict(zip(names, args))
        v.update(kw)
        s = N.ZERO
        for k, m in (("hour", Fraction(3600)), ("minute", Fraction(60)), ("second", Fraction(1)), ("microsecond", Fraction(1, 1000000))):
            if k in v:
                s = N.add(s, N.mul(N.num(m), self.ip.node(v[k])))
        return Rec("time", dict({k: Num(self.dt_field(s, k), "int") for k in names[:4]}, sec=s, tz=v.get("tzinfo"), tzinfo=v.get("tzinfo")))

    def k_timedelta(self, args, kw):
        names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
        w = {"days": Fraction(86400), "seconds": Fraction(1), "microseconds": Fraction(1, 10 ** 6), "milliseconds": Fraction(1, 1000),
             "minutes": Fraction(60), "hours": Fraction(3600), "weeks": Fraction(604800)}
        v = dict(zip(names, args))
        for k, x in kw.items():
            if k not in names:
                self.te("'%s' is an invalid keyword argument for timedelta" % k)
            v[k] = x
        s = N.ZERO
        for k, x in v.items():
            n = N.asnum(self.numargs([x], "timedelta")[0])
            if not n.isint:
                self.ip.hazard("ValueError", N.mk("isnan", (n,)) if not N.isnum(n) else N.FALSE, "cannot convert float NaN to integer", arg=n)
            s = N.add(s, N.mul(N.num(w[k]), n))
        return TD(s)

    def k_timezone(self, args, kw):
        return TZ(args[0].sec, "timezone")

    def k_tzinfo(self, args, kw):
        self.und("tzinfo")

    def construct_dt64(self, args):
        x = args[0]
        u = args[1] if len(args) > 1 else None
        if isinstance(x, DT):
            return self.to_dt64(x, u or "us")
        if isinstance(x, Date):
            return self.to_dt64(x, u or "D")
        if isinstance(x, DT64):
            return self.to_dt64(x, u or x.unit)
        if isinstance(x, Num) and isinstance(u, str):
            return DT64(N.mul(N.num(Fraction(UNIT_SEC[u]).limit_denominator(10 ** 9)), x.n), u, False)
        self.und("datetime64 construction")

    def k_datetime64(self, args, kw):
        return self.construct_dt64(args)

    def k_timedelta64(self, args, kw):
        x = args[0]
        u = args[1] if len(args) > 1 else "s"
        if isinstance(x, TD):
            return TD64(x.sec, "us" if len(args) < 2 else u, False)
        n = self.ip.node(x)
        if u in ("Y", "M"):
            self.und("timedelta64[%s]" % u)
        return TD64(N.mul(N.num(Fraction(UNIT_SEC[u]).limit_denominator(10 ** 9)), n), u, self.ip.isarr(x))

    def k_ndarray(self, args, kw):
        self.und("ndarray()")

    def k_struct_time(self, args, kw):
        return TT(self.tt_sec(args[0]))

    def k_function(self, args, kw):
        self.und("function()")

    # ------------------------------------------------------------------ methods
    def strftime(self, fmt, sec):
        day = N.days_of(sec)
        f = {"%j": N.cal("yday", day), "%Y": N.cal("year", day), "%m": N.cal("month", day), "%d": N.cal("mday", day),
             "%H": self.dt_field(sec, "hour"), "%M": self.dt_field(sec, "minute"), "%S": self.dt_field(sec, "second")}
        return SymStr(f.get(fmt))

    def call_meth(self, o, name, args, kw):
        ip = self.ip
        if isinstance(o, DT):
            return self.dt_meth(o, name, args, kw)
        if isinstance(o, TD):
            if name == "total_seconds":
                return Num(o.sec, "float")
            if name == "__abs__":
                return TD(N.absn(o.sec))
        if isinstance(o, Date):
            s = N.mul(D(86400), o.day)
            if name == "toordinal":
                return Num(N.add(o.day, D(719163)), "int")
            if name == "timetuple":
                return TT(s)
            if name == "weekday":
                return Num(N.cal("wday", o.day), "int")
            if name == "strftime":
                return self.strftime(args[0], s)
            if name == "replace":
                v = dict(zip(["year", "month", "day"], args))
                v.update(kw)
                g = lambda k: N.asnum(ip.node(v[k])) if k in v else self.dt_field(s, k)
                return Date(N.ymd2days(g("year"), g("month"), g("day")))
            return SymStr()
        if isinstance(o, TZ):
            if name == "utcoffset":
                return TD(o.off)
            if name == "dst":
                return TD(N.ZERO)
            if name == "tzname":
                return SymStr()
            if name == "fromutc":
                return args[0]
        if isinstance(o, (str, bytes)):
            return self.str_meth(o, name, args, kw)
        if isinstance(o, SymStr):
            if name in ("split", "strip", "lower", "upper", "format", "join", "replace", "rstrip", "lstrip", "zfill", "title"):
                return SymStr(o.num if name in ("strip", "rstrip", "lstrip", "zfill") else None)
            self.und("method of an unknown string")
        if isinstance(o, Num):
            return self.num_meth(o, name, args, kw)
        if isinstance(o, (DT64, TD64)):
            if name == "astype":
                return self.astype(o, args[0] if args else kw["dtype"])
            if name in ("copy", "ravel", "flatten", "reshape", "view"):
                return type(o)(o.sec, o.unit, o.arr)
            if name in ("min", "max"):
                return self.red_call(name, [o], {})
            if name in ("item", "tolist") and isinstance(o, DT64) and not o.arr:
                return DT(o.sec, None)
            self.und("method %s of datetime64" % name)
        if isinstance(o, tuple):
            if name == "index":
                return self.seq_index_of([(None, x) for x in o], args)
            if name == "count":
                return self.seq_count([(None, x) for x in o], args[0])
            if name == "__len__":
                return PyInt(len(o))
            if name == "__getitem__":
                return ip.getitem(o, args[0])
        if isinstance(o, Ref):
            c = ip.get(o)
            if c[0] == "arr":
                return self.arr_meth(o, name, args, kw)
            if c[0] == "list":
                return self.list_meth(o, name, args, kw)
            if c[0] in ("dict", "env"):
                return self.dict_meth(o, name, args, kw)
            if c[0] == "set":
                return self.set_meth(o, name, args, kw)
            if c[0] == "obj":
                if name == "__init__":
                    ip.put(o, ("obj", c[1], dict(c[2], args=tuple(args)) if any(k.name == "BaseException" for k in c[1].mro) else c[2]))
                    return None
                if name == "_asdict":
                    return ip.newdict([(k, c[2][k]) for k in c[1].nt])
                if name == "_replace":
                    return ip.alloc(("obj", c[1], dict(c[2], **kw)), "obj")
                if name in ("__str__", "__repr__"):
                    return SymStr()
                if name == "with_traceback":
                    return o
        if isinstance(o, Rec):
            if o.name == "time":
                names = ["hour", "minute", "second", "microsecond", "tzinfo", "fold"]
                v = dict(zip(names, args))
                v.update(kw)
                d = {k: Num(self.dt_field(o.fields["sec"], k), "int") for k in names[:4]}
                d["tzinfo"] = o.fields["tzinfo"]
                d.update(v)
                return self.k_time([d[k] for k in names[:5]], {})
            if o.name == "super":
                obj = o.fields["obj"]
                if name in ("__init__", "__new__", "__init_subclass__", "__setattr__"):
                    if isinstance(obj, Ref) and obj.kind == "obj" and name == "__init__":
                        c = ip.get(obj)
                        if any(k.name == "BaseException" for k in c[1].mro):
                            ip.put(obj, ("obj", c[1], dict(c[2], args=tuple(args))))
                    if name == "__setattr__":
                        c = ip.get(obj)
                        ip.put(obj, ("obj", c[1], dict(c[2], **{args[0]: args[1]})))
                    return None
                if name in ("__str__", "__repr__"):
                    return SymStr()
                self.und("super().%s" % name)
            if o.name == "lru":
                if name == "cache_clear":
                    ip.put(o.fields["cache"], ("dict", ()))
                return None
            if o.name == "signature":
                d = ip.bind_args(o.fields["_f"], args, kw) if name == "bind" else self.bind_partial(o.fields["_f"], args, kw)
                f = o.fields["_f"]
                a = f.node.args
                given = set(x.arg for x in (a.posonlyargs + a.args)[:len(args)]) | set(kw)
                dd = [(k, v) for k, v in d.items() if k in given or (a.vararg and k == a.vararg.arg and v != ())]
                return Rec("boundargs", {"arguments": ip.newdict(dd), "_all": d, "args": tuple(args), "kwargs": ip.newdict(list(kw.items()))})
            if o.name == "boundargs":
                for k, v in o.fields["_all"].items():
                    if ip.dict_get(o.fields["arguments"], k)[0] is N.FALSE:
                        ip.dict_set(o.fields["arguments"], k, v)
                return None
            if o.name == "property":
                return o
            if o.name in ("lock", "neutral", "errstate", "logger", "dtype", "count"):
                if o.name == "count" and name == "__next__":
                    self.und("itertools.count")
                return Rec("neutral", {}) if name not in ("acquire",) else PyBool(True)
        self.und("method %s of %s" % (name, self.typename(o)))

    def bind_partial(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(pos, args))
        d.update(kw)
        return d

    def dt_meth(self, o, name, args, kw):
        ip = self.ip
        L = o.local
        if name == "timestamp":
            if o.tz is None:
                ip.event("nondeterminism", "timestamp() of a naive datetime uses the system time zone")
                return Num(N.sub(o.inst, N.var("localtz!off")), "float")
            return Num(o.inst, "float")
        if name == "utctimetuple":
            return TT(o.inst)
        if name == "timetuple":
            return TT(L)
        if name == "utcoffset":
            return TD(o.tz.off) if o.tz is not None else None
        if name == "dst":
            return TD(N.ZERO) if o.tz is not None else None
        if name == "tzname":
            return SymStr() if o.tz is not None else None
        if name == "date":
            return Date(N.days_of(L))
        if name in ("time", "timetz"):
            return Rec("time", {"sec": N.mod(L, D(86400)), "tz": o.tz if name == "timetz" else None, "tzinfo": o.tz if name == "timetz" else None,
                                "hour": Num(self.dt_field(L, "hour"), "int"), "minute": Num(self.dt_field(L, "minute"), "int"),
                                "second": Num(self.dt_field(L, "second"), "int"), "microsecond": Num(self.dt_field(L, "microsecond"), "int")})
        if name == "toordinal":
            return Num(N.add(N.days_of(L), D(719163)), "int")
        if name in ("weekday", "isoweekday"):
            return Num(N.add(N.cal("wday", N.days_of(L)), D(0 if name == "weekday" else 1)), "int")
        if name == "strftime":
            return self.strftime(args[0], L)
        if name in ("isoformat", "ctime", "__str__", "__format__"):
            return SymStr()
        if name == "astimezone":
            tz = args[0] if args else kw.get("tz")
            if tz is None:
                ip.event("nondeterminism", "astimezone() uses the system time zone")
                return DT(o.inst, TZ(N.var("localtz!off"), "local"))
            if o.tz is None:
                ip.event("nondeterminism", "astimezone of a naive datetime uses the system time zone")
                return DT(N.sub(o.inst, N.var("localtz!off")), tz)
            return DT(o.inst, tz)
        if name == "replace":
            names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
            v = dict(zip(names, args))
            v.update(kw)
            tz = v.get("tzinfo", o.tz) if "tzinfo" in v else o.tz
            day = N.days_of(L)
            if any(k in v for k in ("year", "month", "day")):
                g = lambda k: N.asnum(ip.node(v[k])) if k in v else self.dt_field(L, k)
                day = N.ymd2days(g("year"), g("month"), g("day"))
            tod = [k for k in ("hour", "minute", "second", "microsecond") if k in v]
            if not tod:
                s = N.mod(L, D(86400))
            elif len(tod) == 4:
                s = N.ZERO
                for k, m in (("hour", Fraction(3600)), ("minute", Fraction(60)), ("second", Fraction(1)), ("microsecond", Fraction(1, 10 ** 6))):
                    s = N.add(s, N.mul(N.num(m), N.asnum(ip.node(v[k]))))
            else:
                s = N.ZERO
                for k, m in (("hour", Fraction(3600)), ("minute", Fraction(60)), ("second", Fraction(1))):
                    s = N.add(s, N.mul(N.num(m), N.asnum(ip.node(v[k])) if k in v else self.dt_field(L, k)))
                s = N.add(s, N.mul(N.num(Fraction(1, 10 ** 6)), N.asnum(ip.node(v["microsecond"]))) if "microsecond" in v else N.mod(L, N.ONE))
            if not tod and not any(k in v for k in ("year", "month", "day")):
                nl = L
            else:
                nl = N.add(N.mul(D(86400), day), s)
            return DT(N.sub(nl, tz.off) if tz is not None else nl, tz)
        if name == "__hash__":
            return Num(o.inst, "int")
        if name == "__add__":
            return ip.binop(ast.Add(), o, args[0])
        if name == "__sub__":
            return ip.binop(ast.Sub(), o, args[0])
        if name == "isocalendar":
            self.und("isocalendar")
        self.und("datetime." + name)

    def str_meth(self, o, name, args, kw):
        if all(isinstance(a, (str, bytes)) for a in args) and not kw and name not in ("format", "join"):
            try:
                r = getattr(o, name)(*args)
            except Exception as ex:
                self.ip.throw(type(ex).__name__, str(ex))
            return self.pyval(r)
        if name == "join":
            xs = self.ip.concrete_items(args[0])
            if all(isinstance(x, str) for x in xs):
                return o.join(xs)
            return SymStr()
        if name == "format":
            vals = [self.to_str(a) for a in args]
            kws = {k: self.to_str(v) for k, v in kw.items()}
            if all(isinstance(x, str) for x in vals) and all(isinstance(x, str) for x in kws.values()) and ":" not in o:
                try:
                    return o.format(*vals, **kws)
                except (IndexError, KeyError, ValueError) as ex:
                    self.ip.throw(type(ex).__name__, str(ex))
            return SymStr()
        conc = []
        for a in args:
            if isinstance(a, Num) and N.isnum(a.n):
                conc.append(int(a.n.data))
            elif isinstance(a, str):
                conc.append(a)
            elif isinstance(a, tuple) and all(isinstance(x, str) for x in a):
                conc.append(a)
            else:
                return SymStr()
        return self.pyval(getattr(o, name)(*conc))

    def pyval(self, r):
        if isinstance(r, bool):
            return PyBool(r)
        if isinstance(r, int):
            return PyInt(r)
        if isinstance(r, float):
            return PyFloat(r)
        if isinstance(r, list):
            return self.ip.newlist([self.pyval(x) for x in r])
        if isinstance(r, tuple):
            return tuple(self.pyval(x) for x in r)
        return r

    def num_meth(self, o, name, args, kw):
        ip = self.ip
        if name == "is_integer":
            return Num(N.eq(N.asnum(o.n), N.floor(o.n)), "bool")
        if name == "astype":
            return self.astype(o, args[0] if args else kw["dtype"])
        if name in ("item", "tolist", "__float__"):
            return Num(o.n, "bool" if o.n.isbool else "float")
        if name in ("any", "all"):
            return Num(self.tb(o.n), "npb")
        if name in ("max", "min", "sum", "mean", "copy", "conjugate", "reshape", "flatten", "ravel", "squeeze"):
            return o
        if name == "round":
            return Num(self.round_nd(o.n, args[0] if args else None), "np")
        if name == "clip":
            return self.np_clip([o] + list(args), kw)
        if name == "__abs__":
            return Num(N.absn(o.n), o.k)
        if name == "__int__":
            return Num(N.trunc(o.n), "int")
        self.und("number method " + name)

    def arr_meth(self, o, name, args, kw):
        ip = self.ip
        n = ip.arrnode(o)
        if name in ("any", "all", "max", "min", "sum", "mean", "prod", "std", "var", "ptp", "argmax", "argmin"):
            return self.red_call({"prod": "sum", "std": "mean", "var": "mean", "ptp": "mean", "argmax": "mean", "argmin": "mean"}.get(name, name), [o], {})
        if name in ("copy", "flatten"):
            return ip.newarr(n)
        if name in ("ravel", "reshape", "view", "squeeze", "transpose"):
            return o
        if name == "astype":
            return self.astype(o, args[0] if args else kw["dtype"])
        if name == "clip":
            return self.np_clip([o] + list(args), kw)
        if name == "round":
            return ip.newarr(self.round_nd(n, args[0] if args else kw.get("decimals")))
        if name == "fill":
            ip.write_arr(o, ip.node(args[0]))
            return None
        if name in ("sort", "resize", "put", "itemset", "partition", "setflags"):
            if ip.get(o)[2]:
                ip.event("mutates-argument", "array method %s on the caller's array" % name)
            self.und("array method " + name)
        if name == "item":
            if args:
                return Num(N.var("others!elem%d" % n.id), "float")
            ip.event("scalar-function-of-array", "item() of an array")
            ip.throw("ValueError", "can only convert an array of size 1 to a Python scalar")
        if name.startswith("__i") and name.endswith("__"):
            op = {"__iadd__": ast.Add(), "__isub__": ast.Sub(), "__imul__": ast.Mult(), "__itruediv__": ast.Div()}.get(name)
            if op:
                return ip.augop(op, o, args[0])
        self.und("array method " + name)

    def seq_index_of(self, its, args):
        ip = self.ip
        for i, (g, x) in enumerate(its):
            c = ip.compare_eq(x, args[0])
            d = ip.pc.decide(c)
            if d is True:
                return PyInt(i)
            if d is None:
                # first match among unknowns
                r = D(len(its) - 1)
                found = N.FALSE
                for j in reversed(range(len(its))):
                    q = ip.compare_eq(its[j][1], args[0])
                    found = N.lor(found, q)
                    r = N.ite(q, D(j), r)
                ip.throw_if(N.lnot(found), "ValueError", "value not in list")
                return Num(r, "int")
        ip.throw("ValueError", "value not in list")

    def seq_count(self, its, x):
        r = N.ZERO
        for g, y in its:
            r = N.add(r, N.asnum(N.land(g or N.TRUE, self.ip.compare_eq(y, x))))
        return Num(r, "int")

    def list_meth(self, o, name, args, kw):
        ip = self.ip
        c = ip.get(o)
        if name == "append":
            ip.put(o, ("list", c[1] + (args[0],), c[2] + (None,) if c[2] else None))
            return None
        if name == "extend":
            self.list_extend(o, args[0])
            return None
        if name == "__next__":
            return self.b_next([o], {})
        if name == "__iter__":
            return o
        if name == "close":
            return None
        if name == "index":
            return self.seq_index_of(list(zip(c[2] or (None,) * len(c[1]), c[1])), args)
        if name == "count":
            return self.seq_count(list(zip(c[2] or (None,) * len(c[1]), c[1])), args[0])
        if name == "copy":
            return ip.newlist(c[1], c[2])
        if name == "clear":
            ip.put(o, ("list", (), None))
            return None
        if name in ("pop", "popleft"):
            if c[2] and any(g is not None for g in c[2]):
                if any(isinstance(x, Seg) for x in c[1]) or len(c[1]) > 400:
                    self.und("pop from a list of unknown content")
                k = 0 if name == "popleft" else -1
                if args:
                    n = ip.node(args[0])
                    k = int(n.data) if N.isnum(n) else None
                if k not in (0, -1):
                    self.und("pop from a list of unknown content")
                v = self.guarded_index(c, PyInt(k))
                rows = list(zip(c[1], c[2]))
                if k == -1:
                    rows.reverse()
                out, seen = [], N.FALSE        # an element stays where one nearer to the end is taken
                for x, g in rows:
                    g = g or N.TRUE
                    out.append((x, N.land(g, seen)))
                    seen = N.lor(seen, g)
                out = [(x, None if g is N.TRUE else g) for x, g in out if g is not N.FALSE]
                if k == -1:
                    out.reverse()
                ip.put(o, ("list", tuple(x for x, _ in out), tuple(g for _, g in out) if any(g is not None for _, g in out) else None))
                return v
            if not c[1]:
                ip.throw("IndexError", "pop from empty list")
            i = 0 if name == "popleft" else -1
            if args:
                n = ip.node(args[0])
                if not N.isnum(n):
                    self.und("pop of unknown index")
                i = int(n.data)
            items = list(c[1])
            try:
                v = items.pop(i)
            except IndexError:
                ip.throw("IndexError", "pop index out of range")
            ip.put(o, ("list", tuple(items), None))
            return v
        if name in ("insert", "appendleft"):
            if c[2]:
                self.und("insert into a list of unknown content")
            items = list(c[1])
            items.insert(0 if name == "appendleft" else int(ip.node(args[0]).data), args[-1])
            ip.put(o, ("list", tuple(items), None))
            return None
        if name == "reverse":
            ip.put(o, ("list", c[1][::-1], c[2][::-1] if c[2] else None))
            return None
        if name == "sort":
            r = self.b_sorted([o], kw)
            ip.put(o, ip.get(r))
            return None
        if name == "__getitem__":
            return ip.getitem(o, args[0])
        if name == "__len__":
            return self.b_len([o], {})
        self.und("list." + name)

    def dict_meth(self, o, name, args, kw):
        ip = self.ip
        if name == "get":
            self.check_hash(args[0])
            d = args[1] if len(args) > 1 else None
            if isinstance(args[0], Choice):
                return ip.lift(lambda k: self.dict_meth(o, name, [k] + list(args[1:]), kw), args[0])
            found, v = ip.dict_get(o, args[0])
            if found is N.TRUE:
                return v
            if found is N.FALSE:
                return d
            return ip.mergeval(found, v, d)
        if name in ("items", "keys", "values"):
            c = ip.get(o)
            if c[0] == "env":
                ents = [(k, v, None) for k, v in c[1].items()]
            else:
                ents = c[1]
            out = [(k, v) if name == "items" else k if name == "keys" else v for k, v, g in ents]
            return ip.newlist(out, [g for _, _, g in ents], "list")
        if name == "update":
            if args:
                self.dict_update(o, args[0])
            for k, v in kw.items():
                ip.dict_set(o, k, v)
            return None
        if name == "setdefault":
            found, v = ip.dict_get(o, args[0])
            d = args[1] if len(args) > 1 else None
            if found is N.TRUE:
                return v
            r = d if found is N.FALSE else ip.mergeval(found, v, d)
            ip.dict_set(o, args[0], r)
            return r
        if name == "pop":
            found, v = ip.dict_get(o, args[0])
            if found is N.FALSE:
                if len(args) > 1:
                    return args[1]
                ip.throw("KeyError", str(args[0]))
            if found is not N.TRUE:
                if len(args) < 2:
                    ip.throw_if(N.lnot(found), "KeyError", "key")
                else:
                    v = ip.mergeval(found, v, args[1])
            self.delitem(o, args[0])
            return v
        if name == "copy":
            c = ip.get(o)
            return ip.alloc(c, "dict") if c[0] == "dict" else ip.newdict(list(c[1].items()))
        if name == "clear":
            ip.put(o, ("dict", ()))
            return None
        if name == "__getitem__":
            return ip.getitem(o, args[0])
        if name == "__contains__":
            return Num(ip.contains(o, args[0]), "bool")
        if name == "popitem":
            c = ip.get(o)
            if c[1] and c[1][-1][2] is None:
                ip.put(o, ("dict", c[1][:-1]))
                return (c[1][-1][0], c[1][-1][1])
        self.und("dict." + name)

    def set_meth(self, o, name, args, kw):
        ip = self.ip
        if name == "add":
            self.set_add(o, args[0])
            return None
        if name in ("union", "intersection", "difference"):
            a, b = ip.concrete_items(o), ip.concrete_items(args[0])
            if name == "union":
                return self.mkset(a + b)
            r = []
            for x in a:
                c = ip.contains(args[0], x)
                d = ip.pc.decide(c)
                if d is None:
                    self.und("set operation")
                if d == (name == "intersection"):
                    r.append(x)
            return self.mkset(r)
        if name in ("discard", "remove"):
            c = ip.get(o)
            ip.put(o, ("set", tuple(e for e in c[1] if not ip.same_key(e[0], args[0]))))
            return None
        if name == "issubset":
            r = N.TRUE
            for x in ip.concrete_items(o):
                r = N.land(r, ip.contains(args[0], x))
            return Num(r, "bool")
        if name == "clear":
            ip.put(o, ("set", ()))
            return None
        self.und("set." + name)


UTC = TZ(N.ZERO, "UTC")
