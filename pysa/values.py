"""Abstract values other than numbers (numbers are Num around a value-graph node)."""
from . import nodes as N


class Undecided(Exception):
    """the analysis cannot model this construct"""
    def __init__(self, reason, site=None):
        super().__init__(reason)
        self.reason, self.site = reason, site


class Dead(Exception):
    """no execution continues past this point"""


class Num:
    """scalar number or bool. kind: int, float, bool (Python objects), np, npb (NumPy scalars)"""
    __slots__ = ("n", "k")

    def __init__(self, n, k):
        self.n, self.k = n, k

    def __repr__(self):
        return "Num(%r,%s)" % (self.n, self.k)


class Ref:
    """mutable heap object: list, dict, set, instance, array"""
    __slots__ = ("id", "kind")

    def __init__(self, id, kind):
        self.id, self.kind = id, kind

    def __repr__(self):
        return "<%s #%d>" % (self.kind, self.id)


class Seg:
    """k = 0..count-1 copies of item (which may mention var k) inside a list"""
    def __init__(self, k, count, item):
        self.k, self.count, self.item = k, count, item


class Func:
    __slots__ = ("name", "node", "mod", "env", "defaults", "kwdefaults", "attrs", "qual", "is_gen", "locals")

    def __repr__(self):
        return "<function %s>" % self.qual


class Bound:
    __slots__ = ("self", "func")

    def __init__(self, s, f):
        self.self, self.func = s, f


class Prim:
    """function of an external module or builtin"""
    __slots__ = ("name", "data")

    def __init__(self, name, data=None):
        self.name, self.data = name, data

    def __repr__(self):
        return "<prim %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Prim) and o.name == self.name and o.data is self.data

    def __hash__(self):
        return hash(self.name)


class Meth:
    """method of a modelled object"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Cls:
    def __init__(self, name, bases, ns, mod=None, builtin=False):
        self.name, self.bases, self.ns, self.mod, self.builtin = name, bases, ns, mod, builtin
        self.mro = [self]
        for b in bases:
            for c in b.mro:
                if c not in self.mro:
                    self.mro.append(c)

    def __repr__(self):
        return "<class %s>" % self.name

    def isa(self, name):
        return any(c.name == name and c.builtin for c in self.mro)


class Mod:
    def __init__(self, name, env, path):
        self.name, self.env, self.path = name, env, path

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext module %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class TZ:
    """a tzinfo with a constant utc offset (seconds)"""
    def __init__(self, off, name="tz"):
        self.off, self.name = off, name


class DT:
    """datetime: aware (off node) or naive (off None, inst = wall clock seconds)"""
    def __init__(self, inst, tz):
        self.inst, self.tz = inst, tz

    @property
    def local(self):
        return N.add(self.inst, self.tz.off) if self.tz is not None else self.inst


class Date:
    def __init__(self, day):
        self.day = day


class TD:
    def __init__(self, sec):
        self.sec = sec


class TT:
    """struct_time"""
    def __init__(self, sec):
        self.sec = sec


class DT64:
    """numpy datetime64 scalar or array (elementwise): seconds since epoch, truncated to unit"""
    def __init__(self, sec, unit, arr, owner=None):
        self.sec, self.unit, self.arr, self.owner = sec, unit, arr, owner


class TD64:
    def __init__(self, sec, unit, arr):
        self.sec, self.unit, self.arr = sec, unit, arr


class SymStr:
    """string that is not known; num: the number it spells, if modelled"""
    def __init__(self, num=None):
        self.num = num


class Choice:
    """one of several values; alts = [(guard node, value)], exclusive and exhaustive"""
    def __init__(self, alts):
        self.alts = alts


class NonDT:
    """an object that is not a datetime (no tzinfo, no shape)"""
    def __repr__(self):
        return "<non-datetime>"


class SymRange:
    def __init__(self, count, start, step):
        self.count, self.start, self.step = count, start, step


class Gen:
    """consumed generator / iterator: list of items"""
    def __init__(self, ref):
        self.ref = ref


class Rec:
    """record with named fields (argspec, signature...)"""
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


def PyInt(i):
    return Num(N.num(i), "int")


def PyFloat(x):
    return Num(N.num(x), "float")


def PyBool(b):
    return Num(N.TRUE if b else N.FALSE, "bool")


UNIT_SEC = {"W": 604800, "D": 86400, "h": 3600, "m": 60, "s": 1, "ms": 0.001, "us": 0.000001, "ns": 1e-9}
