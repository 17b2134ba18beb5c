"""Meaning of the library operations the analysed code uses (core, num-traits, simba, nalgebra)."""
from values import *
import loops

ORD = "core::cmp::Ordering"


def ordv(n): return Enum(ORD, n, ())


# --------------------------------------------------------------------------------------------- helpers

def deref(E, st, v, n=8):
    while isinstance(v, Ref) and n:
        v = E.read(st, v.place)
        n -= 1
    return v


def num(E, st, v):
    v = deref(E, st, v)
    return v if isinstance(v, Poly) else None


def ret(st, v):
    return [(st, "val", v)]


def rty(E, fr, e):
    t = e.get("ty") if e else None
    return E.ty(fr, t) if isinstance(t, int) else None


def esplit(E, st, v, adt=None):
    """[(state, Enum)] for an option/result value"""
    v = deref(E, st, v)
    if isinstance(v, Enum):
        return [(st, v)]
    if adt == OPT or (adt is None and False):
        return [(st, NONE), (st, some(Top("payload")))]
    return [(st, ok(Top("payload"))), (st, err(Top("payload")))]


def materialise(E, st, fr, e, v, tag="m"):
    E.fresh_n += 1
    c = ("t", fr.id, "%s%d" % (tag, e["n"] if e and "n" in e else E.fresh_n))
    return st.setcell(c, v), Place(c, ())


def asplace(E, st, fr, e, v, tag="m"):
    """place holding the value v denotes (references are followed once)"""
    if isinstance(v, Ref):
        return st, v.place
    return materialise(E, st, fr, e, v, tag)


def callf(E, f, args, st, fr, e):
    return E.call_value(f, list(args), st, fr, e)


def mat(E, st, v):
    return E.mat(st, v)


def mview(m):
    return View(m.place, m.dims, m.exprs)


def elem_at(E, st, m, idx):
    return m.val.arr.get(E.midx(m, idx), st.facts)


def arrv(kind, term, dims):
    return ArrV(lam(2, kind, term), dims)


B0, B1 = bv(0), bv(1)


def mterm(E, m):
    """generic element of a matrix at ($0,$1)"""
    return m.val.arr.get(m.exprs)


def shape_ob(E, st, a, b, fr, e, what="shapes agree"):
    for x, y in zip(a, b):
        if x != y:
            E.oblige("shape", st, c_eq(x - y), fr, e, "%s: %s vs %s" % (what, show(x), show(y)))


def type_dims(E, fr, e):
    t = rty(E, fr, e)
    if t is None:
        return None
    t = E.strip_ref(t)
    if t["k"] == "adt" and t["path"] == "nalgebra::base::matrix::Matrix":
        return (E.dim_of(E.sub(t, t["args"][1])), E.dim_of(E.sub(t, t["args"][2]))), E.scalar_kind(E.sub(t, t["args"][0]))
    return None


def linear_index(dims, i):
    if dims[1] == ONE:
        return (i, ZERO)
    if dims[0] == ONE:
        return (ZERO, i)
    return (app("lrow", i, dims[0], kind="i"), app("lcol", i, dims[0], kind="i"))


def index_place(E, st, m, iv, fr, e):
    """place of element iv of matrix m, with its bounds obligation; None if not understood"""
    if isinstance(iv, Poly):
        if m.dims[1] == ONE or m.dims[0] == ONE:
            idx = linear_index(m.dims, iv)
            E.bounds(st, None, idx, fr, e, m.dims)
        else:
            E.bounds(st, None, (iv,), fr, e, (m.dims[0] * m.dims[1],))
            idx = linear_index(m.dims, iv)
    elif isinstance(iv, Tup) and len(iv.items) == 2 and all(isinstance(x, Poly) for x in iv.items):
        idx = iv.items
        E.bounds(st, None, idx, fr, e, m.dims)
    else:
        return None
    bi = E.midx(m, idx)
    return Place(m.place.cell, m.place.path + (("el", bi),))


def range_of(E, st, v, full):
    """(lo, hi) of a range value over 0..full"""
    v = deref(E, st, v)
    if isinstance(v, It) and v.kind == "range":
        return v.args
    if isinstance(v, Struct):
        n = v.adt.split("::")[-1]
        if n == "Range":
            return fget(v, "start"), fget(v, "end")
        if n == "RangeTo":
            return ZERO, fget(v, "end")
        if n == "RangeFrom":
            return fget(v, "start"), full
        if n == "RangeFull":
            return ZERO, full
        if n == "RangeInclusive":
            return fget(v, "start"), fget(v, "end") + 1
        if n == "RangeToInclusive":
            return ZERO, fget(v, "end") + 1
    if isinstance(v, Poly):
        return v, v + 1
    return None


# --------------------------------------------------------------------------------------------- iterators

class NeedUnroll(Exception):
    """the elements of this iterator exist only for constant positions"""


class Spec:
    """iterator as count + element function: elem(st, j) -> outs of Option values"""

    def __init__(self, count, elem, pure=True):
        self.count, self.elem, self.pure = count, elem, pure


def obind(outs, f):
    """continue only where the produced Option is Some"""
    res = []
    for s, k, v in outs:
        if k != "val":
            res.append((s, k, v))
        elif isinstance(v, Enum) and v.variant == "Some":
            res += f(s, pay(v))
        else:
            res.append((s, k, v))
    return res


def nz(E, st, c):
    return c


def spec(E, st, v, fr, e):
    if isinstance(v, Ref):
        x = E.read(st, v.place)
        if isinstance(x, It):
            return spec(E, st, x, fr, e)
        m = E.mat(st, v)
        if m is not None:
            return spec(E, st, It("mat", (mview(m), v.mut)), fr, e)
        if isinstance(x, Tup):
            return spec(E, st, It("slice", (v,)), fr, e)
        if isinstance(x, Ref):
            return spec(E, st, x, fr, e)
        return None
    if isinstance(v, Struct) and v.adt.startswith("core::ops::range::"):
        n = v.adt.split("::")[-1]
        if n == "Range":
            return spec(E, st, It("range", (fget(v, "start"), fget(v, "end"))), fr, e)
        if n == "RangeInclusive":
            return spec(E, st, It("range", (fget(v, "start"), fget(v, "end") + 1)), fr, e)
        return None
    if isinstance(v, View):
        m = E.mat(st, v)
        return None if m is None else spec(E, st, It("mat", (mview(m), True)), fr, e)
    if isinstance(v, Tup):
        return spec(E, st, It("items", (v,)), fr, e)
    if not isinstance(v, It):
        return None
    k, a = v.kind, v.args
    if k in ("items", "slice"):
        src = a[0]
        n = len((src if k == "items" else E.read(st, src.place)).items)

        def el0(s, j):
            if not j.is_const():
                raise NeedUnroll()
            i = int(j.const())
            if k == "items":
                return ret(s, some(src.items[i]))
            return ret(s, some(Ref(Place(src.place.cell, src.place.path + (("f", str(i)),)), src.mut)))
        return Spec(P(n), el0)
    if k == "range":
        lo, hi = a
        if not (isinstance(lo, Poly) and isinstance(hi, Poly)):
            return None
        return Spec(hi - lo, lambda s, j: ret(s, some(lo + j)))
    if k == "mat":
        view, mut = a
        m = E.mat(st, view)
        if m is None:
            return None
        d = m.dims
        if len(d) == 1:
            def el1(s, j):
                mm = E.mat(s, view)
                return ret(s, some(Ref(Place(mm.place.cell, mm.place.path + (("el", E.midx(mm, (j,))),)), mut)))
            return Spec(d[0], el1)
        if d[1] == ONE or d[0] == ONE:
            cnt = d[0] if d[1] == ONE else d[1]
        else:
            cnt = d[0] * d[1]

        def el(s, j):
            mm = E.mat(s, view)
            bi = E.midx(mm, linear_index(mm.dims, j))
            return ret(s, some(Ref(Place(mm.place.cell, mm.place.path + (("el", bi),)), mut)))
        return Spec(cnt, el)
    if k in ("colit", "rowit"):
        view = a[0]
        m = E.mat(st, view)
        if m is None:
            return None

        def el(s, j):
            mm = E.mat(s, view)
            if k == "colit":
                mp = {('s', '$0', 'i'): B0, ('s', '$1', 'i'): j}
                dims = (mm.dims[0], ONE)
            else:
                mp = {('s', '$0', 'i'): j, ('s', '$1', 'i'): B1}
                dims = (ONE, mm.dims[1])
            return ret(s, some(View(mm.place, dims, tuple(subst(x, mp) for x in mm.exprs))))
        return Spec(m.dims[1] if k == "colit" else m.dims[0], el)
    if k == "vals":          # elements of an owned vector, by value
        return Spec(a[0].dims[0], lambda s, j: ret(s, some(a[0].arr.get((j, ZERO)))))
    if k == "rev":
        i = spec(E, st, a[0], fr, e)
        return i and Spec(i.count, lambda s, j: i.elem(s, i.count - 1 - j), i.pure)
    if k == "enumerate":
        i = spec(E, st, a[0], fr, e)
        return i and Spec(i.count, lambda s, j: obind(i.elem(s, j), lambda s2, x: ret(s2, some(Tup((j, x))))), i.pure)
    if k == "take":
        i = spec(E, st, a[0], fr, e)
        if i is None or not isinstance(a[1], Poly):
            return None
        c = i.count
        if entails(st.facts, c_le(c - a[1])):
            cnt = c
        elif entails(st.facts, c_le(a[1] - c)):
            cnt = a[1]
        else:
            cnt = pmin(c, a[1])
        return Spec(cnt, i.elem, i.pure)
    if k == "skip":
        i = spec(E, st, a[0], fr, e)
        if i is None or not isinstance(a[1], Poly):
            return None
        return Spec(i.count - a[1], lambda s, j: i.elem(s, j + a[1]), i.pure)
    if k == "zip":
        x, y = spec(E, st, a[0], fr, e), spec(E, st, a[1], fr, e)
        if x is None or y is None:
            return None
        if x.count is None:
            cnt = y.count
        elif y.count is None:
            cnt = x.count
        elif entails(st.facts, c_le(x.count - y.count)):
            cnt = x.count
        elif entails(st.facts, c_le(y.count - x.count)):
            cnt = y.count
        else:
            cnt = pmin(x.count, y.count)
        return Spec(cnt, lambda s, j: obind(x.elem(s, j), lambda s2, p: obind(y.elem(s2, j), lambda s3, q: ret(s3, some(Tup((p, q)))))))
    if k == "map":
        i = spec(E, st, a[0], fr, e)
        return i and Spec(i.count, lambda s, j: obind(i.elem(s, j), lambda s2, x: E.bind(callf(E, a[1], [x], s2, fr, e), lambda s3, y: ret(s3, some(y)))), False)
    if k in ("cloned", "copied"):
        i = spec(E, st, a[0], fr, e)
        return i and Spec(i.count, lambda s, j: obind(i.elem(s, j), lambda s2, x: ret(s2, some(deref(E, s2, x)))), i.pure)
    if k == "filter":
        i = spec(E, st, a[0], fr, e)
        if i is None:
            return None

        def el(s, j):
            def f(s2, x):
                s3, p = materialise(E, s2, fr, e, x, "flt")

                def g(s4, c):
                    return [(s5, "val", some(x) if b else NONE) for s5, b in E.split(s4, E.cond(c))]
                return E.bind(callf(E, a[1], [Ref(p, False)], s3, fr, e), g)
            return obind(i.elem(s, j), f)
        return Spec(i.count, el, False)
    if k == "inspect":
        i = spec(E, st, a[0], fr, e)
        return i and Spec(i.count, lambda s, j: obind(i.elem(s, j), lambda s2, x: ret(s2, some(x))), i.pure)
    if k == "step_by":
        i = spec(E, st, a[0], fr, e)
        if i is None or not (isinstance(a[1], Poly) and a[1].is_const() and a[1].const() == 1):
            return None
        return i
    if k == "from":          # RangeFrom: unbounded
        return Spec(None, lambda s, j: ret(s, some(a[0] + j)))
    if k == "ndrows":
        view, ax = a
        m = E.mat(st, view)
        import nd
        return None if m is None else Spec(m.dims[ax], lambda s, j: ret(s, some(nd.axis_drop(E, s, E.mat(s, view), ax, j, fr, e, False))))
    return None


ITER_ADAPT = {"rev", "enumerate", "cloned", "copied"}


def toit(E, st, v):
    """iterator value for into_iter"""
    if isinstance(v, It):
        return v
    if isinstance(v, Ref):
        x = E.read(st, v.place)
        if isinstance(x, It):
            return x
        m = E.mat(st, v)
        if m is not None:
            return It("mat", (mview(m), v.mut))
        if isinstance(x, Ref):
            return toit(E, st, x)
        if isinstance(x, Struct):
            return toit(E, st, x)
        if isinstance(x, Tup) and x.items:
            return It("slice", (v,))
        return None
    if isinstance(v, Tup) and v.items:
        return It("items", (v,))
    if isinstance(v, ArrV) and v.dims[-1] == ONE:
        return It("vals", (v,))
    if isinstance(v, View):
        return It("mat", (v, True))
    if isinstance(v, Struct) and v.adt.startswith("core::ops::range::"):
        n = v.adt.split("::")[-1]
        if n == "Range":
            return It("range", (fget(v, "start"), fget(v, "end")))
        if n == "RangeInclusive":
            return It("range", (fget(v, "start"), fget(v, "end") + 1))
        if n == "RangeFrom":
            return It("from", (fget(v, "start"),))
    return None


def range_next(E, name, place, st, fr, e):
    """one step of a numeric range held in a variable"""
    v = E.read(st, place)
    while isinstance(v, Ref):
        place = v.place
        v = E.read(st, place)
    rev = False
    path = ()
    while isinstance(v, It) and v.kind == "rev":
        rev, v, path = not rev, v.args[0], path + (("i", 0),)
    if isinstance(v, It) and v.kind == "range":
        (lo, hi), kl, kh = v.args, ("i", 0), ("i", 1)
    elif isinstance(v, Struct) and v.adt.split("::")[-1] == "Range" and "ops::range" in v.adt:
        lo, hi, kl, kh = fget(v, "start"), fget(v, "end"), ("f", "start"), ("f", "end")
    else:
        return None
    if not (isinstance(lo, Poly) and isinstance(hi, Poly)):
        return None
    back = (name == "next_back") != rev
    outs = []
    for s, b in E.split(st, c_lt(lo - hi, True)):
        if not b:
            outs.append((s, "val", NONE))
        elif back:
            outs.append((E.write(s, Place(place.cell, place.path + path + (kh,)), hi - 1), "val", some(hi - 1)))
        else:
            outs.append((E.write(s, Place(place.cell, place.path + path + (kl,)), lo + 1), "val", some(lo)))
    return outs


def try_method(E, name, sp, args, st, fr, e):
    """try_for_each / try_fold: the first failing element ends the traversal with its residual"""
    cell = ("t", fr.id, "fold%d" % e["n"])
    P0 = Place(cell, ())
    lab = ("try", e["n"])
    st1 = st.setcell(cell, args[1] if name == "try_fold" else UNIT)
    good = {}

    def step(s, j):
        def g(s2, x):
            def h(s3, r):
                outs = []
                for s4, v in esplit(E, s3, r):
                    if v.variant in ("Ok", "Some", "Continue"):
                        good[v.adt] = v.variant
                        outs.append((s4.setcell(cell, pay(v)) if name == "try_fold" else s4, "val", UNIT))
                    else:
                        outs.append((s4, "brk", (lab, v)))
                return outs
            a = [E.read(s2, P0), x] if name == "try_fold" else [x]
            return E.bind(callf(E, args[-1], a, s2, fr, e), h)
        return loops.opt_step(E, sp.elem(s, j), g)
    outs = loops.run(E, st1, fr, e, sp.count, step, name, lab)
    # outcomes that broke out carry the residual
    t = rty(E, fr, e)
    adt = t["path"] if t and t["k"] == "adt" else next(iter(good), RES)
    var = {OPT: "Some", RES: "Ok"}.get(adt, "Continue")
    res = []
    for s, k, v in outs:
        if k == "val" and not isinstance(v, Enum):
            v = Enum(adt, var, (("0", E.read(s, P0)),))
        res.append((s, k, v))
    return res


def iter_method(E, name, args, st, fr, e):
    if name in ("next", "next_back") and isinstance(args[0], Ref):
        return range_next(E, name, args[0].place, st, fr, e)
    v = toit(E, st, args[0])
    if v is None or name == "by_ref":
        return None
    if isinstance(args[0], Ref) and name not in ("iter", "len"):
        # an iterator used through a reference is left advanced
        x = E.read(st, args[0].place)
        if isinstance(x, (It, Struct)):
            st = E.write(st, args[0].place, Top("advanced iterator"))
    if name in ("into_iter", "iter"):
        return ret(st, v)
    if name in ITER_ADAPT:
        return ret(st, It(name, (v,)))
    if name in ("take", "skip", "step_by"):
        return ret(st, It(name, (v, args[1])))
    if name in ("map", "filter"):
        return ret(st, It(name, (v, args[1])))
    if name == "zip":
        w = toit(E, st, args[1])
        return None if w is None else ret(st, It("zip", (v, w)))
    if name == "flat_map":
        return ret(st, It("flat_map", (v, args[1])))
    if v.kind == "flat_map" and name == "for_each":
        return loops.nested(E, st, fr, e, v, lambda s, x: callf(E, args[1], [x], s, fr, e), "for_each", None)
    sp = spec(E, st, v, fr, e)
    if sp is None or sp.count is None:
        return None
    if name == "collect":
        return snapshot_vec(E, sp, st, fr, e)
    if name == "len" or name == "count" and sp.pure:
        return ret(st, sp.count)
    if name == "for_each":
        f = args[1]
        return loops.run(E, st, fr, e, sp.count, lambda s, j: loops.opt_step(E, sp.elem(s, j), lambda s2, x: callf(E, f, [x], s2, fr, e)), "for_each")
    if name in ("sum", "product", "fold", "max_by", "min_by", "reduce"):
        return fold_method(E, name, sp, args, st, fr, e)
    if name in ("try_for_each", "try_fold"):
        return try_method(E, name, sp, args, st, fr, e)
    if name in ("any", "all"):
        f = args[1]
        cell = ("t", fr.id, "fold%d" % e["n"])
        st1 = st.setcell(cell, name == "all")

        def step(s, j):
            def g(s2, x):
                def h(s3, c):
                    cur = E.read(s3, Place(cell, ()))
                    c = E.cond(c)
                    nv = c_or(cur, c) if name == "any" else c_and(cur, c)
                    return ret(s3.setcell(cell, nv), UNIT)
                return E.bind(callf(E, f, [x], s2, fr, e), h)
            return loops.opt_step(E, sp.elem(s, j), g)
        outs = loops.run(E, st1, fr, e, sp.count, step, name)
        return E.bind(outs, lambda s, _: ret(s, E.read(s, Place(cell, ()))))
    if name == "position":
        # result is an unknown index satisfying the predicate, or none
        f = args[1]
        j = E.fresh("pos")
        ATOM_FACTS[j.single()] = [c_le(-j), c_lt(j - sp.count)]
        outs = []
        s1 = st.with_fact(c_and(c_le(-j), c_lt(j - sp.count)))
        for s, k, v in loops.opt_step(E, sp.elem(s1, j), lambda s2, x: callf(E, f, [x], s2, fr, e), keep=True):
            if k == "val":
                for s3, b in E.split(s, E.cond(v)):
                    if b:
                        outs.append((s3, "val", some(j)))
            else:
                outs.append((s, k, v))
        outs.append((st, "val", NONE))
        return outs
    return None


def snapshot_vec(E, sp, st, fr, e):
    """collect() of numbers into a Vec: the vector whose element j is the j-th produced value"""
    t = rty(E, fr, e)
    if not t or t.get("k") != "adt" or not t["path"].endswith("::Vec"):
        return None
    s = st.with_fact(c_and(c_le(-B0), c_lt(B0 - sp.count)))
    outs = E.join(sp.elem(s, B0), s)
    if len(outs) != 1 or outs[0][1] != "val":
        return None
    s2, _, v = outs[0]
    if not isinstance(v, Enum) or v.variant != "Some":
        return None
    x = num(E, s2, pay(v))
    if x is None or any(s2.store.get(c) != y for c, y in st.store.items()):
        return None
    return ret(st, arrv('i' if x.kind() == 'i' else 'r', x, (sp.count, ONE)))


def fold_method(E, name, sp, args, st, fr, e):
    cell = ("t", fr.id, "fold%d" % e["n"])
    P0 = Place(cell, ())
    if name == "sum":
        init = ZERO
    elif name == "product":
        init = ONE
    elif name == "fold":
        init = args[1]
    else:
        # max_by / min_by / reduce: peel the first element
        outs = []
        for s0, b in E.split(st, c_lt(-sp.count)):
            if not b:
                outs.append((s0, "val", NONE))
                continue

            def first(s1, x0):
                s1 = s1.setcell(cell, x0)

                def step(s, j):
                    def g(s2, x):
                        cur = E.read(s2, P0)
                        if name == "reduce":
                            return E.bind(callf(E, args[1], [cur, x], s2, fr, e), lambda s3, y: ret(s3.setcell(cell, y), UNIT))
                        s2, pa = materialise(E, s2, fr, e, cur, "mxa")
                        s2, pb = materialise(E, s2, fr, e, x, "mxb")

                        def h(s3, o):
                            if not isinstance(o, Enum) or o.adt != ORD:
                                return ret(s3.setcell(cell, Top("ordering")), UNIT)
                            take = o.variant in ("Less", "Equal") if name == "max_by" else o.variant == "Greater"
                            return ret(s3.setcell(cell, x) if take else s3, UNIT)
                        return E.join(E.bind(callf(E, args[1], [Ref(pa, False), Ref(pb, False)], s2, fr, e), h), s2)
                    return loops.opt_step(E, sp.elem(s, j + 1), g)
                o2 = loops.run(E, s1, fr, e, sp.count - 1, step, name)
                return E.bind(o2, lambda s, _: ret(s, some(E.read(s, P0))))
            outs += obind(sp.elem(s0, ZERO), first)
        return outs
    st1 = st.setcell(cell, init)

    def step(s, j):
        def g(s2, x):
            cur = E.read(s2, P0)
            if name == "fold":
                return E.bind(callf(E, args[2], [cur, x], s2, fr, e), lambda s3, y: ret(s3.setcell(cell, y), UNIT))
            x = num(E, s2, x)
            if x is None or not isinstance(cur, Poly):
                return ret(s2.setcell(cell, Top("sum")), UNIT)
            return ret(s2.setcell(cell, cur + x if name == "sum" else cur * x), UNIT)
        return loops.opt_step(E, sp.elem(s, j), g)
    outs = loops.run(E, st1, fr, e, sp.count, step, name)
    return E.bind(outs, lambda s, _: ret(s, E.read(s, P0)))


# --------------------------------------------------------------------------------------------- option / result

def opt_method(E, name, v, args, st, fr, e):
    """v: an Enum of Option/Result; args: all arguments (args[0] the receiver)"""
    isopt = v.adt == OPT
    good = v.variant in ("Some", "Ok")
    x = pay(v) if v.fields else None
    if name in ("is_some", "is_ok"):
        return ret(st, good)
    if name in ("is_none", "is_err"):
        return ret(st, not good)
    if name in ("unwrap", "expect"):
        if good:
            return ret(st, x)
        E.reach_panic(st, fr, e, name + " on " + v.variant)
        return []
    if name in ("unwrap_err", "expect_err"):
        if not good:
            return ret(st, x)
        E.reach_panic(st, fr, e, name + " on " + v.variant)
        return []
    if name == "unwrap_or":
        return ret(st, x if good else args[1])
    if name == "unwrap_or_default":
        if good:
            return ret(st, x)
        t = rty(E, fr, e)
        if t and t["k"] in ("uint", "int", "float", "param"):
            return ret(st, ZERO)
        if t and t["k"] == "bool":
            return ret(st, False)
        return None
    if name == "unwrap_or_else":
        return ret(st, x) if good else callf(E, args[1], [] if isopt else [x], st, fr, e)
    if name == "map":
        if not good:
            return ret(st, v)
        return E.bind(callf(E, args[1], [x], st, fr, e), lambda s, y: ret(s, v._replace(fields=(("0", y),))))
    if name == "map_err":
        if good:
            return ret(st, v)
        return E.bind(callf(E, args[1], [x], st, fr, e), lambda s, y: ret(s, err(y)))
    if name == "and_then":
        return callf(E, args[1], [x], st, fr, e) if good else ret(st, v)
    if name == "and":
        return ret(st, args[1] if good else v)
    if name == "or":
        return ret(st, v if good else args[1])
    if name == "or_else":
        return ret(st, v) if good else callf(E, args[1], [] if isopt else [x], st, fr, e)
    if name == "ok":
        return ret(st, some(x) if good else NONE)
    if name == "err":
        return ret(st, NONE if good else some(x))
    if name == "ok_or":
        return ret(st, ok(x) if good else err(args[1]))
    if name == "ok_or_else":
        return ret(st, ok(x)) if good else E.bind(callf(E, args[1], [], st, fr, e), lambda s, y: ret(s, err(y)))
    if name == "map_or":
        return callf(E, args[2], [x], st, fr, e) if good else ret(st, args[1])
    if name == "map_or_else":
        return callf(E, args[2], [x], st, fr, e) if good else callf(E, args[1], [] if isopt else [x], st, fr, e)
    if name in ("is_some_and", "is_ok_and"):
        return callf(E, args[1], [x], st, fr, e) if good else ret(st, False)
    if name == "is_none_or":
        return callf(E, args[1], [x], st, fr, e) if good else ret(st, True)
    if name == "is_err_and":
        return callf(E, args[1], [x], st, fr, e) if not good else ret(st, False)
    if name in ("inspect", "inspect_err"):
        if good == (name == "inspect"):
            s, p = materialise(E, st, fr, e, x, "insp")
            return E.bind(callf(E, args[1], [Ref(p, False)], s, fr, e), lambda s2, _: ret(s2, v))
        return ret(st, v)
    if name in ("copied", "cloned"):
        return ret(st, v._replace(fields=(("0", deref(E, st, x)),)) if good else v)
    if name in ("as_ref", "as_mut"):
        r = args[0]
        if isinstance(r, Ref):
            p = r.place
            while isinstance(E.read(st, p), Ref):
                p = E.read(st, p).place
            if v.fields:
                return ret(st, v._replace(fields=(("0", Ref(Place(p.cell, p.path + (("d", v.variant, "0"),)), name == "as_mut")),)))
            return ret(st, v)
        return None
    if name == "filter" and isopt:
        if not good:
            return ret(st, v)
        s, p = materialise(E, st, fr, e, x, "flt")
        return E.bind(callf(E, args[1], [Ref(p, False)], s, fr, e),
                      lambda s2, c: [(s3, "val", v if b else NONE) for s3, b in E.split(s2, E.cond(c))])
    if name in ("take", "replace") and isopt and isinstance(args[0], Ref):
        s = E.write(st, args[0].place, NONE if name == "take" else some(args[1]))
        return ret(s, v)
    if name == "flatten":
        return ret(st, x if good else v)
    if name == "transpose":
        return None
    if name == "zip" and isopt:
        w = deref(E, st, args[1])
        if not good:
            return ret(st, NONE)
        if isinstance(w, Enum):
            return ret(st, some(Tup((x, pay(w)))) if w.variant == "Some" else NONE)
    if name == "xor":
        return None
    return None


def conv_error(E, st, fr, e, x):
    """convert a propagated error payload to the error type of the enclosing function"""
    t = rty(E, fr, e)
    tgt = None
    if t is not None and t["k"] == "adt" and t["path"] == RES:
        et = E.sub(t, t["args"][1])
        tgt = et["path"] if et["k"] == "adt" else None
    adt = x.adt if isinstance(x, (Enum, Struct)) else None
    if tgt is None or adt is None or tgt == adt or tgt.startswith("failure::"):
        return ret(st, x)
    return convert(E, st, fr, e, x, adt, tgt)


def convert(E, st, fr, e, x, adt, tgt):
    for uid, (crate, b) in E.bodies.items():
        if b.get("name") != "from" and not b["path"].endswith("::from"):
            continue
        if not b["params"] or len(b["params"]) != 1:
            continue
        tys = E.types[crate]
        pt = tys[b["params"][0]["ty"]]
        rt = b.get("ret")
        rt = tys[rt] if isinstance(rt, int) else None
        if pt["k"] == "adt" and pt["path"] == adt and (rt is None or (rt["k"] == "adt" and rt["path"] == tgt)):
            nf = E.frame(fr.id, e["n"], uid, crate, {}, None, fr.depth + 1, b["path"], e.get("sp", "?"))
            return E.enter(b, nf, [x], st, e)
    E.note_unmodelled("conversion %s -> %s" % (adt, tgt), fr, e)
    return ret(st, Top("conversion"))


# --------------------------------------------------------------------------------------------- main dispatch

BIN = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem",
       "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}
CMP = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne"}

NOOP_PATHS = ("core::fmt", "std::fmt", "alloc::fmt", "std::io::stdio", "log::", "core::hint", "tracing")


def opk(E, fr, e, i=0):
    try:
        if e["k"] == "Call":
            return E.opkind(e["args"][i], fr)
    except (KeyError, IndexError):
        pass
    return "r"


def arith(E, op, a, b, st, fr, e, kd):
    a, b = deref(E, st, a), deref(E, st, b)
    if isinstance(a, Poly) and isinstance(b, Poly) or (is_bool(a) and is_bool(b)):
        return st, E.binop(op, a, b, st, fr, e, kd)
    return st, None


def mat_arith(E, op, a, b, st, fr, e):
    ma, mb = mat(E, st, a), mat(E, st, b)
    na, nb = num(E, st, a), num(E, st, b)
    if ma is not None and mb is not None:
        if op in ("Add", "Sub"):
            shape_ob(E, st, ma.dims, mb.dims, fr, e)
            x, y = mterm(E, ma), mterm(E, mb)
            return arrv(ma.val.arr.kind, E.cancels((x, y), x + y if op == "Add" else x - y, fr, e), ma.dims)
        if op == "Mul":
            shape_ob(E, st, (ma.dims[1],), (mb.dims[0],), fr, e)
            t = ('s', '%mm', 'i')
            x = ma.val.arr.get(E.midx(ma, (B0, atom(t))))
            y = mb.val.arr.get(E.midx(mb, (atom(t), B1)))
            return arrv(ma.val.arr.kind, mk_sum(ZERO, ma.dims[1], x * y, t), (ma.dims[0], mb.dims[1]))
    if ma is not None and nb is not None:
        x = mterm(E, ma)
        if op == "Mul":
            return arrv(ma.val.arr.kind, E.cancels((x,), x * nb, fr, e), ma.dims)
        if op == "Div":
            return arrv(ma.val.arr.kind, x.div(nb), ma.dims)
    if na is not None and mb is not None and op == "Mul":
        x = mterm(E, mb)
        return arrv(mb.val.arr.kind, E.cancels((x,), x * na, fr, e), mb.dims)
    return None


def order3(E, a, b, st):
    """[(state, Ordering)] for numbers"""
    outs = []
    isint = a.kind() == 'i' and b.kind() == 'i'
    for s, t in E.split(st, c_lt(a - b, isint)):
        if t:
            outs.append((s, ordv("Less")))
        else:
            for s2, t2 in E.split(s, c_eq(a - b)):
                outs.append((s2, ordv("Equal" if t2 else "Greater")))
    return outs


def call(E, c, args, st, fr, e):
    path, name = c["path"], c.get("name") or c["path"].split("::")[-1]
    uid = c["uid"]
    trait = c.get("trait") or ""
    # --- panics
    if uid.startswith("core::panicking") or uid.startswith("std::panicking") or name in ("panic_fmt", "panic_display", "begin_panic", "panic", "unreachable_display", "assert_failed", "panic_explicit", "unimplemented"):
        E.reach_panic(st, fr, e, "panic reached")
        return []
    # --- formatting, printing, logging: no effect on the analysed state
    if any(uid.startswith(p) or path.startswith(p) for p in NOOP_PATHS):
        t = rty(E, fr, e)
        return ret(st, UNIT if t and t["k"] == "tuple" and not t["args"] else (ok(UNIT) if t and t["k"] == "adt" and t["path"] == RES else Str("fmt")))
    if name in ("discriminant_value", "discriminant") and len(args) == 1:
        v = deref(E, st, args[0])
        d = E.adts.get(v.adt) if isinstance(v, Enum) else None
        if d:
            return ret(st, P([x["name"] for x in d["variants"]].index(v.variant)))
        if isinstance(v, Enum):
            return ret(st, P({"None": 0, "Some": 1, "Ok": 0, "Err": 1}.get(v.variant, 0)))
    if name == "drop" and uid.startswith("core::mem"):
        return ret(st, UNIT)
    if uid.startswith("core::mem") and name in ("swap", "replace", "take") and isinstance(args[0], Ref):
        a = E.read(st, args[0].place)
        if name == "swap" and isinstance(args[1], Ref):
            b = E.read(st, args[1].place)
            s = E.store(st, args[0].place, b, fr, e)
            return ret(E.store(s, args[1].place, a, fr, e), UNIT)
        if name == "replace":
            return ret(E.store(st, args[0].place, args[1], fr, e), a)
        if name == "take":
            z = ZERO if isinstance(a, Poly) else (False if is_bool(a) else (NONE if isinstance(a, Enum) and a.adt == OPT else None))
            if z is None:
                return None
            return ret(E.store(st, args[0].place, z, fr, e), a)
    # --- calling closures through the Fn traits
    if name in ("call", "call_mut", "call_once") and trait.startswith("core::ops::function") or name in ("call", "call_mut", "call_once") and "ops::Fn" in path:
        a = args[1].items if isinstance(args[1], Tup) else (args[1],)
        return callf(E, args[0], a, st, fr, e)
    # --- ? operator
    if name == "branch":
        outs = []
        for s, v in esplit(E, st, args[0]):
            if v.adt == OPT:
                outs.append((s, "val", Enum(CF, "Continue", v.fields) if v.variant == "Some" else Enum(CF, "Break", (("0", NONE),))))
            elif v.adt == RES:
                outs.append((s, "val", Enum(CF, "Continue", v.fields) if v.variant == "Ok" else Enum(CF, "Break", (("0", v),))))
            else:
                return None
        return outs
    if name == "from_residual":
        v = deref(E, st, args[0])
        if isinstance(v, Enum) and v.adt == RES and v.variant == "Err":
            return E.bind(conv_error(E, st, fr, e, pay(v)), lambda s, x: ret(s, err(x)))
        return ret(st, v)
    if name == "from_output":
        t = rty(E, fr, e)
        return ret(st, some(args[0]) if t and t.get("path") == OPT else ok(args[0]))
    # --- options and results
    if args:
        t0 = uid.split("::")
        v = deref(E, st, args[0])
        isoptcall = uid.startswith("core::option::") or uid.startswith("core::result::")
        if isoptcall:
            outs = []
            for s, w in esplit(E, st, v, OPT if uid.startswith("core::option") else RES):
                r = opt_method(E, name, w, args, s, fr, e)
                if r is None:
                    return None
                outs += r
            return E.join(outs, st)
    r = iter_call(E, uid, path, name, trait, args, st, fr, e)
    if r is not None:
        return r
    r = scalar_call(E, c, uid, path, name, trait, args, st, fr, e)
    if r is not None:
        return r
    r = matrix_call(E, c, uid, path, name, trait, args, st, fr, e)
    if r is not None:
        return r
    return None


def iter_call(E, uid, path, name, trait, args, st, fr, e):
    if trait.startswith("std::iter") or trait.startswith("core::iter") or uid.startswith("core::iter") or (name in ("iter", "iter_mut") and ("slice" in uid or "array" in uid)):
        r = iter_method(E, name, args, st, fr, e)
        if r is not None:
            return r
    if uid.startswith("core::ops::range") and args:
        v = deref(E, st, args[0])
        if isinstance(v, Struct) and name == "contains":
            x = num(E, st, args[1])
            r = range_of(E, st, v, None)
            if r and x is not None:
                lo, hi = r
                return ret(st, c_and(c_le(lo - x), c_lt(x - hi, True) if "Inclusive" not in v.adt else c_le(x - hi + 1)))
        if name == "is_empty":
            r = range_of(E, st, v, None)
            if r:
                return ret(st, c_le(r[1] - r[0]))
        if name == "new" and "range" in uid and len(args) == 2:
            return ret(st, Struct("core::ops::range::RangeInclusive", (("start", args[0]), ("end", args[1]))))
    return None


def scalar_call(E, c, uid, path, name, trait, args, st, fr, e):
    n0 = num(E, st, args[0]) if args else None
    # constructors of numbers
    if name in ("zero", "one") and not args:
        d = type_dims(E, fr, e)
        if d:
            return ret(st, arrv(d[1], ZERO, d[0])) if name == "zero" else None
        return ret(st, ZERO if name == "zero" else ONE)
    if name == "default" and not args:
        t = rty(E, fr, e)
        if t and t["k"] in ("uint", "int", "float", "param"):
            return ret(st, ZERO)
        if t and t["k"] == "bool":
            return ret(st, False)
        d = type_dims(E, fr, e)
        if d:
            return ret(st, arrv(d[1], ZERO, d[0]))
    if name in ("try_to_usize", "dim", "USIZE", "value") and (c.get("self_ty") is not None):
        t = E.rty(fr.crate, c["self_ty"], fr.tenv)
        if name == "value" and args:
            if isinstance(n0, Poly):
                return ret(st, n0)
        d = E.dim_of(t)
        return ret(st, some(d) if name == "try_to_usize" else d)
    if n0 is not None:
        a = n0
        b = num(E, st, args[1]) if len(args) > 1 else None
        kind = a.kind()
        un = {"abs": pabs, "norm1": pabs, "modulus": pabs, "magnitude": pabs, "sqrt": lambda x: x.half() if x.kind() == 'r' or True else x,
              "recip": lambda x: x.inv(), "neg": lambda x: -x, "clone": lambda x: x, "into": lambda x: x, "from": lambda x: x, "to_owned": lambda x: x,
              "real": lambda x: x, "conjugate": lambda x: x, "from_real": lambda x: x, "convert": lambda x: x, "inv": lambda x: x.inv(),
              "borrow": None, "cast": lambda x: x, "to_subset": None, "modulus_squared": lambda x: x * x, "copied": lambda x: x, "convert_unchecked": lambda x: x,
              "from_usize": None, "subset_cast": lambda x: x, "from_superset_unchecked": lambda x: x}
        if len(args) == 1 and name in un and un[name]:
            if name in ("from", "into"):
                t = rty(E, fr, e)
                if t and t["k"] == "adt":
                    return None
            if name == "recip" or name == "inv":
                return ret(st, a.inv())
            return ret(st, un[name](a))
        if len(args) == 1:
            if name in ("is_zero",):
                return ret(st, c_eq(a))
            if name == "is_one":
                return ret(st, c_eq(a - 1))
            if name in ("is_sign_negative", "is_negative"):
                return ret(st, c_lt(a))
            if name in ("is_sign_positive", "is_positive"):
                return ret(st, c_lt(-a) if name == "is_positive" else c_le(-a))
            if name == "signum":
                return ret(st, ite(c_lt(a), P(-1), ite(c_lt(-a), ONE, ONE if kind == 'r' else ZERO)))
            if name in ("from_usize", "from_u32", "from_f64", "from_i32", "from_u64", "from_i64", "from_f32", "from_u8", "from_u16", "from_i8", "from_i16", "to_usize", "to_f64", "to_u32", "to_i32", "to_u64", "to_i64", "try_from", "try_into"):
                t = rty(E, fr, e)
                if t and t["k"] == "adt":
                    if t["path"] == OPT:
                        return ret(st, some(a))
                    if t["path"] == RES:
                        return ret(st, ok(a))
                    return None
                return ret(st, a)
            if name == "powi" or name == "powf":
                return None
            if name in ("is_nan", "is_infinite"):
                return ret(st, False)
            if name == "is_finite":
                return ret(st, True)
            if name == "is_power_of_two":
                return None
        if b is not None and len(args) == 2:
            if name in CMP and ("cmp" in uid or "cmp" in trait):
                return ret(st, E.binop(CMP[name], a, b, st, fr, e, "i" if a.kind() == 'i' and b.kind() == 'i' else "r"))
            if name in BIN and ("ops" in uid or "ops" in trait):
                return ret(st, E.binop(BIN[name], a, b, st, fr, e, opk(E, fr, e)))
            if name in ("max", "simd_max", "fmax"):
                return ret(st, pmax(a, b))
            if name in ("min", "simd_min", "fmin"):
                return ret(st, pmin(a, b))
            if name in ("partial_cmp", "cmp", "total_cmp"):
                return [(s, "val", some(o) if name == "partial_cmp" else o) for s, o in order3(E, a, b, st)]
            if name == "powi" or name == "pow":
                if b.is_const() and b.const().denominator == 1 and abs(b.const()) <= 16:
                    return ret(st, a.pow(int(b.const())))
                return ret(st, app("pow", a, b))
            if name == "powf":
                if b.is_const():
                    x = Fraction(b.const())
                    if x.denominator == 1 and abs(x) <= 16:
                        return ret(st, a.pow(int(x)))
                    if x == Fraction(1, 2):
                        return ret(st, a.half())
                    if x == Fraction(-1, 2):
                        return ret(st, a.half().inv())
                return ret(st, app("pow", a, b))
            if name == "abs_diff":
                return ret(st, pabs(a - b))
            if name == "saturating_sub":
                return ret(st, pmax(a - b, ZERO)) if not entails(st.facts, c_le(b - a)) else ret(st, a - b)
            if name in ("saturating_add", "wrapping_add"):
                return ret(st, a + b)
            if name == "wrapping_sub":
                if entails(st.facts, c_le(b - a)):
                    return ret(st, a - b)
                return ret(st, app("wrap", a - b, kind="i"))
            if name == "checked_sub":
                return [(s, "val", some(a - b) if t else NONE) for s, t in E.split(st, c_le(b - a))]
            if name == "checked_add":
                return ret(st, some(a + b))
            if name == "hypot":
                return ret(st, (a * a + b * b).half())
            if name == "copysign":
                return ret(st, app("copysign", a, b))
            if name == "div_ceil" or name == "rem_euclid":
                return None
        if len(args) == 3:
            b, d = num(E, st, args[1]), num(E, st, args[2])
            if name == "mul_add" and b is not None and d is not None:
                return ret(st, a * b + d)
            if name == "clamp" and b is not None and d is not None:
                return ret(st, pmin(pmax(a, b), d))
        # compound assignment through a reference
        if name.endswith("_assign") and name[:-7] in BIN and isinstance(args[0], Ref) and b is not None:
            p = args[0].place
            while isinstance(E.read(st, p), Ref):
                p = E.read(st, p).place
            v = E.binop(BIN[name[:-7]], a, b, st, fr, e, opk(E, fr, e))
            return ret(E.store(st, p, v, fr, e), UNIT)
        if name == "set_zero" and isinstance(args[0], Ref):
            return ret(E.store(st, args[0].place, ZERO, fr, e), UNIT)
        if name in ("as_ref", "borrow", "as_mut", "deref", "deref_mut", "by_ref"):
            return ret(st, args[0])
    # equality / ordering of structured values
    if name in ("eq", "ne") and len(args) == 2:
        r = E.eqval(deref(E, st, args[0]), deref(E, st, args[1]))
        if r is not None:
            return ret(st, r if name == "eq" else c_not(r))
    if args and is_bool(deref(E, st, args[0])):
        a = deref(E, st, args[0])
        if name in ("clone", "into", "from"):
            return ret(st, a)
        if name == "not":
            return ret(st, c_not(a))
        if name in BIN and len(args) == 2:
            b = deref(E, st, args[1])
            if is_bool(b):
                return ret(st, E.binop(BIN[name], a, b, st, fr, e, "b"))
        if name.endswith("_assign") and isinstance(args[0], Ref):
            b = deref(E, st, args[1])
            if is_bool(b):
                return ret(E.store(st, args[0].place, E.binop(BIN[name[:-7]], a, b, st, fr, e, "b"), fr, e), UNIT)
        if name in ("then", "then_some"):
            outs = []
            for s, t in E.split(st, a):
                if not t:
                    outs.append((s, "val", NONE))
                elif name == "then":
                    outs += E.bind(callf(E, args[1], [], s, fr, e), lambda s2, x: ret(s2, some(x)))
                else:
                    outs.append((s, "val", some(args[1])))
            return outs
    if args:
        v = deref(E, st, args[0])
        if isinstance(v, Enum):
            if v.adt == ORD:
                m = {"is_gt": ("Greater",), "is_lt": ("Less",), "is_eq": ("Equal",), "is_ge": ("Greater", "Equal"), "is_le": ("Less", "Equal"), "is_ne": ("Less", "Greater")}
                if name in m:
                    return ret(st, v.variant in m[name])
                if name == "reverse":
                    return ret(st, ordv({"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[v.variant]))
            if name == "clone":
                return ret(st, v)
            if name in ("into", "from") and len(args) == 1:
                t = rty(E, fr, e)
                if t and t["k"] == "adt":
                    if t["path"] == v.adt:
                        return ret(st, v)
                    if name == "into" or True:
                        return convert(E, st, fr, e, v, v.adt, t["path"])
        if isinstance(v, (Tup, Struct, Str, It)) and name in ("clone", "to_owned"):
            return ret(st, v)
        if isinstance(v, Tup) and name in ("iter", "len", "into_iter"):
            if name == "len":
                return ret(st, P(len(v.items)))
        if name in ("as_ref", "borrow", "borrow_mut", "as_mut", "deref", "deref_mut") and isinstance(args[0], Ref):
            return ret(st, args[0])
    return None


def named_const(E, e, st, fr):
    name = e.get("name") or e["path"].split("::")[-1]
    if name in ("USIZE", "DIM"):
        t = e.get("self_ty")
        if t is not None:
            return ret(st, E.dim_of(E.rty(fr.crate, t, fr.tenv)))
    t = rty(E, fr, e)
    if t and t["k"] in ("float", "param"):
        return ret(st, app("const_" + name))
    if t and t["k"] in ("uint", "int"):
        x = app("const_" + name, kind="i")
        return ret(st, x)
    return ret(st, Top("constant " + e.get("path", name)))


# --------------------------------------------------------------------------------------------- matrices

def sub_view(E, st, m, lo, n, fr, e, what):
    """rectangular part: first index lo=(r0,c0), size n=(nr,nc)"""
    for l, s, d in zip(lo, n, m.dims):
        E.oblige("bounds", st, c_and(c_le(-l), c_le(-s), c_le(l + s - d)), fr, e, "%s: %s..+%s within 0..%s" % (what, show(l), show(s), show(d)))
    mp = {('s', '$0', 'i'): B0 + lo[0], ('s', '$1', 'i'): B1 + lo[1]}
    if n[1] == ONE:
        mp[('s', '$1', 'i')] = lo[1]
    if n[0] == ONE:
        mp[('s', '$0', 'i')] = lo[0]
    return View(m.place, n, tuple(subst(x, mp) for x in m.exprs))


def vec_sum(E, m, f):
    """sum over all elements of f(element)"""
    t0, t1 = ('s', '%v0', 'i'), ('s', '%v1', 'i')
    x = m.val.arr.get(E.midx(m, (atom(t0), atom(t1) if m.dims[1] != ONE else ZERO)))
    r = mk_sum(ZERO, m.dims[0], f(x, atom(t0), atom(t1)), t0)
    return mk_sum(ZERO, m.dims[1], r, t1) if m.dims[1] != ONE else r


def matrix_call(E, c, uid, path, name, trait, args, st, fr, e):
    # ----- constructors
    d = None
    if name in ("zeros", "from_element", "repeat", "identity", "from_fn", "zeros_generic", "from_element_generic", "new_uninitialized") and ("Matrix" in path or "construction" in uid):
        d = type_dims(E, fr, e)
        if d is None:
            return None
        dims, kind = d
        if name in ("zeros_generic", "from_element_generic"):
            a = [num(E, st, x) for x in args[:2]]
            if all(x is not None for x in a):
                dims = tuple(a)
        elif name in ("zeros", "from_element", "repeat", "from_fn"):
            nd = len(args) - (0 if name == "zeros" else 1)
            given = [num(E, st, x) for x in args[:nd]]
            if given:
                if any(x is None for x in given):
                    return None
                dims = (given[0], dims[1]) if nd == 1 else tuple(given)
        if name == "zeros" or name == "zeros_generic":
            return ret(st, arrv(kind, ZERO, dims))
        if name in ("from_element", "repeat", "from_element_generic"):
            v = num(E, st, args[-1])
            return None if v is None else ret(st, arrv(kind, v, dims))
        if name == "identity":
            return ret(st, arrv(kind, ite(c_eq(B0 - B1), ONE, ZERO), dims))
        if name == "from_fn":
            outs = callf(E, args[-1], [B0, B1], st, fr, e)
            outs = [o for o in outs if o[1] == "val"]
            if len(outs) == 1 and isinstance(outs[0][2], Poly) and outs[0][0].store == st.store:
                return ret(st, arrv(kind, outs[0][2], dims))
            return None
        return None
    if not args:
        return None
    m = mat(E, st, args[0])
    if m is None:
        if name in BIN and len(args) == 2:
            r = mat_arith(E, BIN[name], args[0], args[1], st, fr, e)
            return None if r is None else ret(st, r)
        return None
    dims = m.dims
    kind = m.val.arr.kind
    X = mterm(E, m)
    if m.place is None:
        st, pl = materialise(E, st, fr, e, m.val, "own")
        m.place = pl
    if name in ("nrows",):
        return ret(st, dims[0])
    if name == "ncols":
        return ret(st, dims[1])
    if name == "len":
        return ret(st, dims[0] * dims[1] if dims[1] != ONE else dims[0])
    if name == "shape":
        return ret(st, Tup(dims))
    if name == "shape_generic":
        return ret(st, Tup(dims))
    if name == "is_empty":
        return ret(st, c_or(c_eq(dims[0]), c_eq(dims[1])))
    if name == "is_square":
        return ret(st, c_eq(dims[0] - dims[1]))
    # ----- element access
    if name in ("index", "index_mut", "get_unchecked", "get_unchecked_mut"):
        iv = deref(E, st, args[1])
        if isinstance(iv, Tup):
            iv = Tup(tuple(deref(E, st, x) for x in iv.items))
        p = index_place(E, st, m, iv, fr, e)
        if p is None:
            return None
        return ret(st, Ref(p, name.endswith("mut")))
    if name in ("vget_unchecked", "vget_unchecked_mut"):
        p = index_place(E, st, m, num(E, st, args[1]), fr, e)
        return ret(st, Ref(p, name.endswith("mut")))
    if name in ("get", "get_mut"):
        iv = deref(E, st, args[1])
        if isinstance(iv, Poly):
            idx = linear_index(dims, iv) if ONE in dims else None
        elif isinstance(iv, Tup) and len(iv.items) == 2 and all(isinstance(x, Poly) for x in iv.items):
            idx = iv.items
        else:
            idx = None
        if idx is None:
            return None
        g = c_and(*[c_and(c_le(-i), c_lt(i - dd)) for i, dd in zip(idx, dims)])
        outs = []
        for s, b in E.split(st, g):
            if b:
                bi = E.midx(m, idx)
                outs.append((s, "val", some(Ref(Place(m.place.cell, m.place.path + (("el", bi),)), name == "get_mut"))))
            else:
                outs.append((s, "val", NONE))
        return outs
    if name in ("swap", "swap_unchecked"):
        i1, i2 = deref(E, st, args[1]), deref(E, st, args[2])
        i1 = Tup(tuple(deref(E, st, x) for x in i1.items)) if isinstance(i1, Tup) else i1
        i2 = Tup(tuple(deref(E, st, x) for x in i2.items)) if isinstance(i2, Tup) else i2
        p1, p2 = index_place(E, st, m, i1, fr, e), index_place(E, st, m, i2, fr, e)
        if p1 is None or p2 is None:
            return None
        v1, v2 = E.read(st, p1), E.read(st, p2)
        s = E.store(st, p1, v2, fr, e)
        return ret(E.store(s, p2, v1, fr, e), UNIT)
    if name in ("swap_rows", "swap_columns"):
        a, b = num(E, st, args[1]), num(E, st, args[2])
        if a is None or b is None:
            return None
        ax = 0 if name == "swap_rows" else 1
        for i in (a, b):
            E.oblige("bounds", st, c_and(c_le(-i), c_lt(i - dims[ax])), fr, e, "%s %s within 0..%s" % (name, show(i), show(dims[ax])))
        o = (B0, B1)
        at = lambda i: m.val.arr.get(E.midx(m, (i, B1) if ax == 0 else (B0, i)))
        v = o[ax]
        t = ite(c_eq(v - a), at(b), at(a))
        return ret(E.mfill(st, m, t, c_or(c_eq(v - a), c_eq(v - b))), UNIT)
    # ----- views
    if name in ("column", "column_mut"):
        j = num(E, st, args[1])
        if j is None:
            return None
        E.oblige("bounds", st, c_and(c_le(-j), c_lt(j - dims[1])), fr, e, "column %s within 0..%s" % (show(j), show(dims[1])))
        mp = {('s', '$1', 'i'): j}
        return ret(st, View(m.place, (dims[0], ONE), tuple(subst(x, mp) for x in m.exprs)))
    if name in ("columns_range_pair", "columns_range_pair_mut", "rows_range_pair", "rows_range_pair_mut"):
        ax = 1 if name.startswith("col") else 0
        rs = [range_of(E, st, a, dims[ax]) for a in args[1:3]]
        if None in rs:
            return None
        vs = []
        for lo, hi in rs:
            E.oblige("bounds", st, c_and(c_le(-lo), c_le(lo - hi), c_le(hi - dims[ax])), fr, e, "%s: %s..%s within 0..%s" % (name, show(lo), show(hi), show(dims[ax])))
            one = (hi - lo) == ONE
            mp = {('s', '$%d' % ax, 'i'): lo if one else bv(ax) + lo}
            vs.append(View(m.place, (dims[0], hi - lo) if ax else (hi - lo, dims[1]), tuple(subst(x, mp) for x in m.exprs)))
        E.oblige("bounds", st, c_le(rs[0][1] - rs[1][0]), fr, e, "%s: the ranges are disjoint and in order" % name)
        return ret(st, Tup(tuple(vs)))
    if name in ("row", "row_mut"):
        i = num(E, st, args[1])
        if i is None:
            return None
        E.oblige("bounds", st, c_and(c_le(-i), c_lt(i - dims[0])), fr, e, "row %s within 0..%s" % (show(i), show(dims[0])))
        mp = {('s', '$0', 'i'): i}
        return ret(st, View(m.place, (ONE, dims[1]), tuple(subst(x, mp) for x in m.exprs)))
    base = name[:-4] if name.endswith("_mut") else name
    if base in ("rows", "columns", "rows_range", "columns_range"):
        ax = 0 if base.startswith("rows") else 1
        if base.endswith("range"):
            r = range_of(E, st, args[1], dims[ax])
            if r is None:
                return None
            lo, n = r[0], r[1] - r[0]
        else:
            lo, n = num(E, st, args[1]), num(E, st, args[2])
        if lo is None or n is None:
            return None
        los = (lo, ZERO) if ax == 0 else (ZERO, lo)
        ns = (n, dims[1]) if ax == 0 else (dims[0], n)
        mp = {('s', '$%d' % ax, 'i'): bv(ax) + lo}
        E.oblige("bounds", st, c_and(c_le(-lo), c_le(-n), c_le(lo + n - dims[ax])), fr, e, "%s: %s..+%s within 0..%s" % (base, show(lo), show(n), show(dims[ax])))
        return ret(st, View(m.place, ns, tuple(subst(x, mp) for x in m.exprs)))
    if base in ("view", "slice"):
        a, b = deref(E, st, args[1]), deref(E, st, args[2])
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == 2:
            return ret(st, sub_view(E, st, m, a.items, b.items, fr, e, base))
        return None
    if base in ("view_range", "slice_range"):
        r0, r1 = range_of(E, st, args[1], dims[0]), range_of(E, st, args[2], dims[1])
        if r0 and r1:
            return ret(st, sub_view(E, st, m, (r0[0], r1[0]), (r0[1] - r0[0], r1[1] - r1[0]), fr, e, base))
        return None
    if base in ("column_part", "row_part"):
        i, n = num(E, st, args[1]), num(E, st, args[2])
        if i is None or n is None:
            return None
        return ret(st, sub_view(E, st, m, (ZERO, i) if base == "column_part" else (i, ZERO), (n, ONE) if base == "column_part" else (ONE, n), fr, e, base))
    if name in ("as_view", "as_view_mut", "into_owned_sum"):
        return ret(st, mview(m))
    if base in ("column_iter", "row_iter"):
        return ret(st, It("colit" if base == "column_iter" else "rowit", (mview(m),)))
    if name in ("iter", "iter_mut", "into_iter"):
        return ret(st, It("mat", (mview(m), name == "iter_mut")))
    if name == "as_slice" or name == "as_mut_slice":
        return ret(st, mview(m)) if dims[1] == ONE else None
    # ----- copies
    if name in ("clone", "clone_owned", "into_owned", "to_owned"):
        return ret(st, ArrV(m.val.arr, dims) if m.exprs == (B0, B1) else arrv(kind, X, dims))
    if name in ("transpose",):
        mp = {('s', '$0', 'i'): B1, ('s', '$1', 'i'): B0}
        return ret(st, arrv(kind, m.val.arr.get(tuple(subst(x, mp) for x in m.exprs)), (dims[1], dims[0])))
    if name in ("transpose_mut",) and len(args) == 1:
        mp = {('s', '$0', 'i'): B1, ('s', '$1', 'i'): B0}
        return ret(E.mfill(st, m, m.val.arr.get(tuple(subst(x, mp) for x in m.exprs))), UNIT)
    # ----- whole-matrix updates

    def fill(term, cond=True):
        inv = ATOM_FACTS.get(m.val.arr.base)
        if inv:
            E.oblige("elem", st, False, fr, e, "bulk store into an index array")
        return ret(E.mfill(st, m, term, cond), UNIT)
    if name in ("copy_from", "tr_copy_from", "clone_from") and len(args) == 2:
        o = mat(E, st, args[1])
        if o is None:
            return None
        if name == "tr_copy_from":
            mp = {('s', '$0', 'i'): B1, ('s', '$1', 'i'): B0}
            return fill(o.val.arr.get(tuple(subst(x, mp) for x in o.exprs)))
        shape_ob(E, st, dims, o.dims, fr, e, name)
        return fill(mterm(E, o))
    if name in ("set_column", "set_row"):
        j = num(E, st, args[1])
        o = mat(E, st, args[2])
        if o is None or j is None:
            return None
        ax = 1 if name == "set_column" else 0
        E.oblige("bounds", st, c_and(c_le(-j), c_lt(j - dims[ax])), fr, e, "%s %s within 0..%s" % (name, show(j), show(dims[ax])))
        if dims[ax] == ONE and j == ZERO:
            return fill(mterm(E, o))
        mp = {('s', '$%d' % ax, 'i'): ZERO}
        return fill(subst(mterm(E, o), mp), c_eq(bv(ax) - j))
    if name in ("fill",):
        v = num(E, st, args[1])
        return None if v is None else fill(v)
    if name in ("fill_column", "fill_row"):
        j, v = num(E, st, args[1]), num(E, st, args[2])
        return None if v is None or j is None else fill(v, c_eq(bv(1 if name == "fill_column" else 0) - j))
    if name == "set_zero":
        return fill(ZERO)
    if name in ("neg_mut",):
        return fill(-X)
    if name in ("scale_mut", "apply_scale"):
        v = num(E, st, args[1])
        return None if v is None else fill(E.cancels((X,), X * v, fr, e))
    if name in ("unscale_mut",):
        v = num(E, st, args[1])
        return None if v is None else fill(X.div(v))
    if name in ("add_scalar_mut",):
        v = num(E, st, args[1])
        return None if v is None else fill(X + v)
    if name.endswith("_assign") and name[:-7] in BIN:
        op = BIN[name[:-7]]
        r = mat_arith(E, op, Ref(m.place, True) if E.whole(m) else mview(m), args[1], st, fr, e)
        if r is None:
            return None
        return fill(r.arr.get((B0, B1)))
    if name in ("component_mul", "component_div", "component_mul_assign", "component_div_assign", "component_mul_mut"):
        o = mat(E, st, args[1])
        if o is None:
            return None
        shape_ob(E, st, dims, o.dims, fr, e, name)
        Y = mterm(E, o)
        t = E.cancels((X, Y), X * Y if "mul" in name else X.div(Y), fr, e)
        return ret(st, arrv(kind, t, dims)) if not (name.endswith("assign") or name.endswith("mut")) else fill(t)
    if name in ("axpy", "axcpy", "cmpy", "cdpy"):
        if name == "axpy":
            a, o, b = num(E, st, args[1]), mat(E, st, args[2]), num(E, st, args[3])
            if a is None or o is None or b is None:
                return None
            shape_ob(E, st, dims, o.dims, fr, e, name)
            Y = mterm(E, o)
            if not (b.is_zero()):
                E.cancels((X, Y), a * Y + b * X, fr, e)
            return fill(a * Y + b * X)
        return None
    if name in ("ger",):
        a, x, y, b = num(E, st, args[1]), mat(E, st, args[2]), mat(E, st, args[3]), num(E, st, args[4])
        if None in (a, x, y, b):
            return None
        shape_ob(E, st, dims, (x.dims[0], y.dims[0]), fr, e, name)
        xt = x.val.arr.get(E.midx(x, (B0, ZERO)))
        yt = y.val.arr.get(E.midx(y, (B1, ZERO)))
        return fill(a * xt * yt + b * X)
    if name in ("map", "apply", "zip_map", "zip_apply", "map_with_location"):
        f = args[-1]
        o = mat(E, st, args[1]) if name.startswith("zip") else None
        if name.startswith("zip") and o is None:
            return None
        s, p = materialise(E, st, fr, e, X, "ap")
        extra = [mterm(E, o)] if o is not None else []
        # the closure is applied to a generic element
        a0 = [Ref(p, True)] if "apply" in name else [X]
        s = s.with_fact(E.in_dims(dims))
        outs = callf(E, f, a0 + extra, s, fr, e)
        outs = E.join(outs, s)
        if len(outs) != 1 or outs[0][1] != "val":
            return None
        s2, _, v = outs[0]
        if any(s2.store.get(cc) != x for cc, x in st.store.items() if cc in s2.store):
            return None
        if "apply" in name:
            v = E.read(s2, p)
        if not isinstance(v, Poly):
            return None
        return fill(v) if "apply" in name else ret(st, arrv(v.kind() if v.kind() == 'i' else 'r', v, dims))
    if name in ("zip_fold", "fold") and ONE in dims:
        a = It("mat", (mview(m), False))
        if name == "zip_fold":
            o = mat(E, st, args[1])
            if o is None:
                return None
            shape_ob(E, st, dims, o.dims, fr, e, name)
            a = It("zip", (a, It("mat", (mview(o), False))))
            init, f = args[2], args[3]
        else:
            init, f = args[1], args[2]
        sp = spec(E, st, a, fr, e)
        vals = (lambda s, x: [num(E, s, y) for y in x.items]) if name == "zip_fold" else (lambda s, x: [num(E, s, x)])
        cell = ("t", fr.id, "fold%d" % e["n"])
        P0 = Place(cell, ())

        def zstep(s, j):
            return loops.opt_step(E, sp.elem(s, j), lambda s2, x: E.bind(callf(E, f, [E.read(s2, P0)] + vals(s2, x), s2, fr, e), lambda s3, y: ret(s3.setcell(cell, y), UNIT)))
        outs = loops.run(E, st.setcell(cell, init), fr, e, sp.count, zstep, name)
        return E.bind(outs, lambda s, _: ret(s, E.read(s, P0)))
    if name in BIN and len(args) == 2:
        r = mat_arith(E, BIN[name], args[0], args[1], st, fr, e)
        return None if r is None else ret(st, r)
    if name == "neg":
        return ret(st, arrv(kind, -X, dims))
    if name in ("scale", "unscale"):
        v = num(E, st, args[1])
        return None if v is None else ret(st, arrv(kind, E.cancels((X,), X * v, fr, e) if name == "scale" else X.div(v), dims))
    if name == "abs":
        return ret(st, arrv(kind, pabs(X), dims))
    if name in ("add_scalar",):
        v = num(E, st, args[1])
        return None if v is None else ret(st, arrv(kind, X + v, dims))
    # ----- reductions
    if name == "sum":
        return ret(st, vec_sum(E, m, lambda x, a, b: x))
    if name == "mean":
        return ret(st, vec_sum(E, m, lambda x, a, b: x).div(dims[0] * dims[1]))
    if name in ("norm", "magnitude", "norm_squared", "magnitude_squared"):
        s = vec_sum(E, m, lambda x, a, b: x * x)
        return ret(st, s if "squared" in name else s.half())
    if name in ("dot", "dotc", "tr_dot"):
        o = mat(E, st, args[1])
        if o is None:
            return None
        shape_ob(E, st, dims, o.dims, fr, e, name)
        return ret(st, vec_sum(E, m, lambda x, a, b: x * o.val.arr.get(E.midx(o, (a, b if dims[1] != ONE else ZERO)))))
    if name in ("icamax", "iamax", "icamax_full", "iamax_full", "imax") and dims[1] == ONE:
        l = E.fresh("amax")
        key = (lambda i: pabs(elem_at(E, st, m, (i, ZERO)))) if name != "imax" else (lambda i: elem_at(E, st, m, (i, ZERO)))
        E.oblige("bounds", st, c_lt(-dims[0]), fr, e, "%s of a non-empty vector" % name)
        E.argmax[l.single()] = dict(lo=ZERO, hi=dims[0], init=None, key=key, facts=st.facts, sp=e.get("sp"))
        ATOM_FACTS[l.single()] = [c_le(-l), c_lt(l - dims[0])]
        return ret(st, l)
    if name in ("amax", "camax", "max") and dims[1] == ONE:
        l = E.fresh("amax")
        key = (lambda i: pabs(elem_at(E, st, m, (i, ZERO)))) if name != "max" else (lambda i: elem_at(E, st, m, (i, ZERO)))
        E.argmax[l.single()] = dict(lo=ZERO, hi=dims[0], init=None, key=key, facts=st.facts, sp=e.get("sp"))
        ATOM_FACTS[l.single()] = [c_le(-l), c_lt(l - dims[0])]
        return ret(st, key(l))
    if name in ("as_ref", "borrow", "as_mut", "deref", "deref_mut"):
        return ret(st, args[0])
    if name in ("eq", "ne"):
        return ret(st, E.freshb("mateq"))
    return None


def nd_symbolic(E, st, t, name):
    import nd
    return nd.symbolic(E, st, t, name)
