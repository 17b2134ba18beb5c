"""Abstract values and stores."""
from collections import namedtuple
from terms import *

Tup = namedtuple("Tup", "items")
Struct = namedtuple("Struct", "adt fields")            # fields: tuple of (name, value)
Enum = namedtuple("Enum", "adt variant fields")        # fields: tuple of (name, value)
Ref = namedtuple("Ref", "place mut")
Place = namedtuple("Place", "cell path")
Clo = namedtuple("Clo", "id env frame")                # env: tuple of (var, Place)
FnV = namedtuple("FnV", "callee crate tenv")           # callee: index into engine.callees
ArrV = namedtuple("ArrV", "arr dims")
View = namedtuple("View", "place dims exprs")          # exprs: base index terms over $0,$1
It = namedtuple("It", "kind args")                     # iterators
Str = namedtuple("Str", "s")
Top = namedtuple("Top", "why")
Typ = namedtuple("Typ", "ty")

UNIT = Tup(())
OPT, RES, CF = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"


def some(v): return Enum(OPT, "Some", (("0", v),))
NONE = Enum(OPT, "None", ())
def ok(v): return Enum(RES, "Ok", (("0", v),))
def err(v): return Enum(RES, "Err", (("0", v),))
def pay(e): return e.fields[0][1]


def is_bool(v):
    return v is True or v is False or (type(v) is tuple and v and v[0] in ("le", "lt", "eq", "b", "not", "and", "or", "q"))


def fget(v, n):
    for k, x in v.fields:
        if k == n:
            return x
    return Top("no field " + str(n))


def fset(v, n, x):
    return v._replace(fields=tuple((k, x if k == n else o) for k, o in v.fields))


class State:
    __slots__ = ("store", "facts", "ghost")

    def __init__(self, store, facts=(), ghost=None):
        self.store, self.facts, self.ghost = store, facts, ghost if ghost is not None else {}

    def with_fact(self, c):
        if c is True or c in self.facts:
            return self
        if type(c) is tuple and c[0] == 'and':
            s = self
            for x in c[1]:
                s = s.with_fact(x)
            return s
        return State(self.store, self.facts + (c,), self.ghost)

    def setcell(self, cell, v):
        d = dict(self.store)
        d[cell] = v
        return State(d, self.facts, self.ghost)

    def setghost(self, **kw):
        g = dict(self.ghost)
        g.update(kw)
        return State(self.store, self.facts, g)


class NoMerge(Exception):
    pass


def merge_val(c, a, b):
    """value equal to a when c holds, b otherwise"""
    if a is b or (type(a) is type(b) and a == b):
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if is_bool(a) and is_bool(b):
        return c_ite(c, a, b)
    if type(a) is not type(b):
        raise NoMerge()
    if isinstance(a, Tup) and len(a.items) == len(b.items):
        return Tup(tuple(merge_val(c, x, y) for x, y in zip(a.items, b.items)))
    if isinstance(a, (Struct, Enum)):
        if a.adt != b.adt or (isinstance(a, Enum) and a.variant != b.variant) or len(a.fields) != len(b.fields):
            raise NoMerge()
        return a._replace(fields=tuple((k, merge_val(c, x, y)) for (k, x), (k2, y) in zip(a.fields, b.fields)))
    if isinstance(a, ArrV) and a.dims == b.dims:
        return ArrV(merge_arr(c, a.arr, b.arr), a.dims)
    if isinstance(a, Top):
        return a
    raise NoMerge()


def merge_arr(c, a, b):
    if a.base == b.base:
        n = 0
        while n < len(a.nodes) and n < len(b.nodes) and a.nodes[n] == b.nodes[n]:
            n += 1
        r = Arr(a.base, a.nd, a.kind, a.nodes[:n])
        for g, v in a.nodes[n:]:
            r = r.update(c_and(c, g), v)
        for g, v in b.nodes[n:]:
            r = r.update(c_and(c_not(c), g), v)
        return r
    idx = tuple(bv(i) for i in range(a.nd))
    return Arr(("undef",), a.nd, a.kind, [(True, ite(c, a.get(idx), b.get(idx)))])


def lam(nd, kind, term):
    return Arr(("undef",), nd, kind, [(True, term)])


def leaves(v, path=()):
    """yield (path, leaf value) for scalar/array leaves of a value"""
    if isinstance(v, Tup):
        for i, x in enumerate(v.items):
            yield from leaves(x, path + (("f", str(i)),))
    elif isinstance(v, Struct):
        for k, x in v.fields:
            yield from leaves(x, path + (("f", k),))
    elif isinstance(v, Enum):
        for k, x in v.fields:
            yield from leaves(x, path + (("d", v.variant, k),))
    elif isinstance(v, It):
        for i, x in enumerate(v.args):
            yield from leaves(x, path + (("i", i),))
    else:
        yield path, v


def get_path(v, path):
    for p in path:
        if p[0] == "f":
            if isinstance(v, Tup):
                v = v.items[int(p[1])]
            elif isinstance(v, Struct):
                v = fget(v, p[1])
            else:
                return Top("field of non-struct")
        elif p[0] == "d":
            if isinstance(v, Enum) and v.variant == p[1]:
                v = fget(v, p[2])
            else:
                return Top("payload")
        elif p[0] == "i":
            v = v.args[p[1]]
        else:
            return Top("path")
    return v


def set_path(v, path, x):
    if not path:
        return x
    p = path[0]
    if p[0] == "f":
        if isinstance(v, Tup):
            i = int(p[1])
            return Tup(v.items[:i] + (set_path(v.items[i], path[1:], x),) + v.items[i + 1:])
        if isinstance(v, Struct):
            return fset(v, p[1], set_path(fget(v, p[1]), path[1:], x))
    elif p[0] == "d" and isinstance(v, Enum) and v.variant == p[1]:
        return fset(v, p[2], set_path(fget(v, p[2]), path[1:], x))
    elif p[0] == "i" and isinstance(v, It):
        i = p[1]
        return It(v.kind, v.args[:i] + (set_path(v.args[i], path[1:], x),) + v.args[i + 1:])
    return Top("store through unknown")


def skel(v):
    """value with numeric/array leaves blanked: used to see whether two values have the same shape"""
    if isinstance(v, Tup):
        return Tup(tuple(skel(x) for x in v.items))
    if isinstance(v, (Struct, Enum)):
        return v._replace(fields=tuple((k, skel(x)) for k, x in v.fields))
    if isinstance(v, It):
        return It(v.kind, tuple(skel(x) for x in v.args))
    if isinstance(v, Poly):
        return "num"
    if is_bool(v):
        return "bool"
    if isinstance(v, ArrV):
        return ("arr", v.dims)
    return v
