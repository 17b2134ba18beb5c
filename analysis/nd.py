"""Meaning of the ndarray, num-traits, failure and log operations the integrator sources (/repo/src) use."""
from values import *
import models, loops
from models import deref, ret, num, callf, materialise, mview, rty

AB = "ndarray::ArrayBase"
FW = "ndarray::zip::FoldWhile"
EPS = sym("eps~mach", "r")
ATOM_FACTS[EPS.single()] = [c_lt(-EPS)]


def mk(kind, term, dims):
    return ArrV(lam(len(dims), kind, term), tuple(dims))


def nd_of(E, t):
    """number of dimensions of an ArrayBase type"""
    import re
    s = E.sub(t, t["args"][1])["s"]
    m = re.search(r"\[usize; (\d+)\]", s)
    return int(m.group(1)) if m else 1


def elem_kind(E, t):
    s = E.sub(t, t["args"][0])
    x = s["s"]
    import re
    m = re.search(r"Repr<\s*&?(?:'\w+ )?(?:mut )?(.*)>$", x)
    y = m.group(1) if m else x
    if y == "bool":
        return "B"
    return "i" if y in ("u8", "u32", "usize", "i8", "i32", "isize", "u64", "i64") else "r"


def symbolic(E, st, t, name, dims=None):
    n = nd_of(E, t)
    if dims is None and getattr(E, "nd_dim", None) is not None:
        dims = tuple([E.nd_dim] * n)
    if dims is None:
        dims = []
        for i in range(n):
            d = sym("%s.dim%d" % (name, i))
            ATOM_FACTS.setdefault(d.single(), [c_le(-d)])
            dims.append(d)
    v = ArrV(Arr(("base", name), n, elem_kind(E, t)), tuple(dims))
    sto = E.sub(t, t["args"][0])
    # storage chosen by the caller: the array may be a view, and an output is one
    if "ViewRepr" in sto["s"] or sto["k"] == "param":
        cell = ("p", name + "~data")
        return st.setcell(cell, v), View(Place(cell, ()), v.dims, tuple(bv(i) for i in range(n)))
    return st, v


def sized(E, st, fr, e, v):
    """dimension tuple denoted by a shape argument"""
    v = deref(E, st, v)
    if isinstance(v, Poly):
        return (v,)
    if isinstance(v, Tup):
        r = []
        for x in v.items:
            x = deref(E, st, x)
            if not isinstance(x, Poly):
                return None
            r.append(x)
        return tuple(r)
    return None


def axis(E, st, v):
    v = deref(E, st, v)
    if isinstance(v, Struct) and v.fields:
        v = v.fields[0][1]
    return int(v.const()) if isinstance(v, Poly) and v.is_const() else None


def as_mat(E, st, fr, e, v):
    """(state, matrix with a place)"""
    m = E.mat(st, v)
    if m is None:
        return st, None
    if m.place is None:
        st, p = materialise(E, st, fr, e, m.val, "nd")
        m = E.mat(st, Ref(p, False))
    return st, m


def at(E, m, idx):
    """element at indices known to be inside the view"""
    f = []
    for x, d in zip(idx, m.dims):
        if not x.is_const():
            f += [c_le(-x), c_lt(x - d)]
    return m.val.arr.get(E.midx(m, idx), tuple(x for x in f if x is not True))


def bterm(E, m, dims):
    """element of m broadcast to the shape dims, at the bound indices"""
    off = len(dims) - len(m.dims)
    idx = []
    for i, d in enumerate(m.dims):
        idx.append(ZERO if d == ONE and dims[i + off] != ONE else bv(i + off))
    return at(E, m, idx)


def bshape(E, st, to, fr_m, fr, e, what):
    off = len(to) - len(fr_m.dims)
    for i, d in enumerate(fr_m.dims):
        if d != ONE and d != to[i + off]:
            E.oblige("shape", st, c_eq(d - to[i + off]), fr, e, "%s: %s vs %s" % (what, show(d), show(to[i + off])))


def slice_of(E, st, v):
    """(lo, hi or None, step) of a Slice value"""
    v = deref(E, st, v)
    if isinstance(v, It) and v.kind == "slice3":
        return v.args
    if isinstance(v, Struct) and v.adt.endswith("Slice"):
        en = deref(E, st, fget(v, "end"))
        if isinstance(en, Enum):
            en = pay(en) if en.variant == "Some" else None
        return fget(v, "start"), en, fget(v, "step")
    return None


def axis_view(E, st, m, k, lo, hi, step, fr, e):
    d = m.dims[k]
    if hi is None:
        hi = d
    if not (isinstance(lo, Poly) and isinstance(hi, Poly) and isinstance(step, Poly) and step.is_const() and abs(step.const()) == 1):
        return None
    if lo.is_const() and lo.const() < 0:
        lo = d + lo
    if hi.is_const() and hi.const() < 0:
        hi = d + hi
    E.oblige("bounds", st, c_and(c_le(-lo), c_le(lo - hi), c_le(hi - d)), fr, e, "slice %s..%s within 0..%s" % (show(lo), show(hi), show(d)))
    x = lo + bv(k) if step.const() == 1 else hi - 1 - bv(k)
    dims = m.dims[:k] + (hi - lo,) + m.dims[k + 1:]
    return View(m.place, dims, tuple(subst(y, {('s', '$%d' % k, 'i'): x}) for y in m.exprs))


def axis_drop(E, st, m, k, j, fr, e, oblige=True):
    if oblige:
        E.oblige("bounds", st, c_and(c_le(-j), c_lt(j - m.dims[k])), fr, e, "index %s within 0..%s" % (show(j), show(m.dims[k])))
    mp = {('s', '$%d' % k, 'i'): j}
    for i in range(k + 1, len(m.dims)):
        mp[('s', '$%d' % i, 'i')] = bv(i - 1)
    return View(m.place, m.dims[:k] + m.dims[k + 1:], tuple(subst(y, mp) for y in m.exprs))


def part(E, st, fr, e, v):
    """producer of a Zip: ('arr', view, mut) or an iterator"""
    if isinstance(v, It):
        return st, v
    mut = isinstance(v, Ref) and v.mut or isinstance(v, View)
    st, m = as_mat(E, st, fr, e, v)
    if m is None:
        return st, None
    return st, It("mat", (mview(m), mut))


def zip_call(E, name, args, st, fr, e):
    if name in ("from", "indexed"):
        st, p = part(E, st, fr, e, args[0])
        return None if p is None else ret(st, It("ndzip", (name == "indexed", p)))
    z = deref(E, st, args[0])
    if not (isinstance(z, It) and z.kind == "ndzip"):
        return None
    if name == "and":
        st, p = part(E, st, fr, e, args[1])
        return None if p is None else ret(st, It("ndzip", z.args + (p,)))
    if name == "into_tuple":
        return None
    sps = [models.spec(E, st, p, fr, e) for p in z.args[1:]]
    if any(s is None or s.count is None for s in sps):
        return None
    cnt = sps[0].count
    for s in sps[1:]:
        if s.count != cnt:
            E.oblige("shape", st, c_eq(s.count - cnt), fr, e, "zip: %s vs %s" % (show(cnt), show(s.count)))

    def elems(s, j, i, acc, k):
        if i == len(sps):
            return k(s, acc)
        return loops.opt_step(E, sps[i].elem(s, j), lambda s2, x: elems(s2, j, i + 1, acc + [x], k))
    if name in ("apply", "for_each"):
        return loops.run(E, st, fr, e, cnt, lambda s, j: elems(s, j, 0, [j] if z.args[0] else [], lambda s2, a: callf(E, args[1], a, s2, fr, e)), "apply")
    if name == "fold_while":
        cell = ("t", fr.id, "fold%d" % e["n"])
        P0, lab = Place(cell, ()), ("fw", e["n"])
        st1 = st.setcell(cell, args[1])

        def step(s, j):
            def body(s2, a):
                def h(s3, r):
                    r = deref(E, s3, r)
                    if not isinstance(r, Enum):
                        E.note_unmodelled("fold_while result", fr, e)
                        return [(s3.setcell(cell, E.havoc_value(E.read(s3, P0))), "val", UNIT)]
                    if r.variant == "Continue":
                        return [(s3.setcell(cell, pay(r)), "val", UNIT)]
                    return [(s3, "brk", (lab, r))]
                return E.bind(callf(E, args[2], [E.read(s2, P0)] + a, s2, fr, e), h)
            return elems(s, j, 0, [j] if z.args[0] else [], body)
        outs = loops.run(E, st1, fr, e, cnt, step, "fold_while", lab)
        return [(s, k, v if k != "val" or isinstance(v, Enum) else Enum(FW, "Continue", (("0", E.read(s, P0)),))) for s, k, v in outs]
    return None


def elementwise(E, st, v, f, fr, e):
    """apply f (state, element value) -> outs to the generic element; merged into one term"""
    st, m = as_mat(E, st, fr, e, v)
    x = E.mterm(m)
    if m.val.arr.kind == "B":
        x = c_eq(x - 1)
    s2, p = materialise(E, st, fr, e, x, "mapel")
    return merged_term(f(s2, Ref(p, False)), m.dims, E, st, st)


def merged_term(outs, dims, E, st, base):
    """the outcomes for the generic element as one array term; base: the state whose facts do not distinguish them"""
    outs = E.join(outs, base)
    outs = [o for o in outs if o[1] == "val"]
    if not outs or not all(isinstance(o[2], Poly) or is_bool(o[2]) for o in outs):
        return None
    kind = "B" if is_bool(outs[0][2]) else outs[0][2].kind()
    val = lambda o: o[2] if isinstance(o[2], Poly) else ite(o[2], ONE, ZERO)
    t = val(outs[-1])
    for o in reversed(outs[:-1]):
        t = ite(c_and(*[c for c in o[0].facts if c not in base.facts]), val(o), t)
    return ret(st, mk(kind, t, dims))


def array_call(E, c, uid, name, args, st, fr, e):
    if name in ("zeros", "ones", "default"):
        d = sized(E, st, fr, e, args[0])
        if d is None:
            return None
        t = rty(E, fr, e)
        kind = elem_kind(E, t) if t and t["k"] == "adt" and t["path"] == AB else "r"
        return ret(st, mk(kind, ONE if name == "ones" else ZERO, d))
    if name == "from_elem":
        d, x = sized(E, st, fr, e, args[0]), deref(E, st, args[1])
        if d is None:
            return None
        if is_bool(x):
            return ret(st, mk("B", ite(x, ONE, ZERO), d))
        return ret(st, mk(x.kind() if not x.is_const() else "r", x, d)) if isinstance(x, Poly) else None
    if name == "from_shape_fn":
        d = sized(E, st, fr, e, args[0])
        if d is None:
            return None
        idx = [bv(k) for k in range(len(d))]
        s2 = st
        for i, n in zip(idx, d):
            s2 = s2.with_fact(c_le(-i)).with_fact(c_lt(i - n))
        return merged_term(callf(E, args[1], [idx[0] if len(d) == 1 else Tup(tuple(idx))], s2, fr, e), d, E, st, s2)
    if name == "from_vec":
        v = deref(E, st, args[0])
        return ret(st, v) if isinstance(v, ArrV) and len(v.dims) == 1 else None
    if not args:
        return None
    st, m = as_mat(E, st, fr, e, args[0])
    if m is None:
        return None
    nd = len(m.dims)
    if name in ("view", "view_mut", "reborrow"):
        return ret(st, mview(m))
    if name in ("to_owned", "clone", "into_owned", "to_vec"):
        return ret(st, mk(m.val.arr.kind, E.mterm(m), m.dims) if not E.whole(m) else ArrV(m.val.arr, m.dims))
    if name in ("len", "is_empty"):
        t = ONE
        for d in m.dims:
            t = t * d
        return ret(st, t if name == "len" else c_eq(t))
    if name in ("nrows", "ncols"):
        return ret(st, m.dims[0 if name == "nrows" else 1])
    if name == "dim" or name == "raw_dim":
        return ret(st, m.dims[0] if nd == 1 else Tup(m.dims))
    if name == "ndim":
        return ret(st, P(nd))
    if name == "shape":
        st, p = materialise(E, st, fr, e, Tup(m.dims), "shape")
        return ret(st, Ref(p, False))
    if name == "len_of":
        k = axis(E, st, args[1])
        return None if k is None else ret(st, m.dims[k])
    if name in ("iter", "iter_mut"):
        if nd == 2:
            return ret(st, It("flat_map", (It("ndrows", (mview(m), 0)), None)))
        return ret(st, It("mat", (mview(m), name == "iter_mut"))) if nd == 1 else None
    if name in ("genrows", "genrows_mut", "outer_iter", "outer_iter_mut", "rows", "rows_mut") and nd == 2:
        return ret(st, It("ndrows", (mview(m), 0)))
    if name in ("axis_iter", "axis_iter_mut") and nd == 2:
        k = axis(E, st, args[1])
        return None if k is None else ret(st, It("ndrows", (mview(m), k)))
    if name in ("index_axis", "index_axis_mut", "subview", "row", "column", "row_mut", "column_mut", "index_axis_move"):
        k = axis(E, st, args[1]) if not name.startswith(("row", "col")) else (0 if name.startswith("row") else 1)
        j = num(E, st, args[-1])
        return None if k is None or j is None else ret(st, axis_drop(E, st, m, k, j, fr, e))
    if name in ("slice_axis", "slice_axis_mut"):
        k, sl = axis(E, st, args[1]), slice_of(E, st, args[2])
        if k is None or sl is None:
            return None
        v = axis_view(E, st, m, k, sl[0], sl[1], sl[2], fr, e)
        return None if v is None else ret(st, v)
    if name in ("slice", "slice_mut", "slice_move"):
        spec = deref(E, st, args[1])
        if isinstance(spec, Struct):
            spec = deref(E, st, spec.fields[0][1])
        if not isinstance(spec, Tup) or len(spec.items) != nd:
            return None
        v = mview(m)
        k = 0
        for x in spec.items:
            x = deref(E, st, x)
            mm = E.mat(st, v)
            if isinstance(x, Poly):
                v = axis_drop(E, st, mm, k, x, fr, e)
                continue
            sl = slice_of(E, st, x)
            if sl is None:
                r = models.range_of(E, st, x, mm.dims[k])
                if r is None:
                    return None
                sl = (r[0], r[1], ONE)
            v = axis_view(E, st, mm, k, sl[0], sl[1], sl[2], fr, e)
            if v is None:
                return None
            k += 1
        return ret(st, v)
    if name == "broadcast":
        d = sized(E, st, fr, e, args[1])
        if d is None:
            return None
        bshape(E, st, d, m, fr, e, "broadcast")
        off = len(d) - nd
        mp = {('s', '$%d' % i, 'i'): (ZERO if x == ONE and d[i + off] != ONE else bv(i + off)) for i, x in enumerate(m.dims)}
        return ret(st, some(View(m.place, d, tuple(subst(y, mp) for y in m.exprs))))
    if name in ("into_dimensionality",):
        return ret(st, ok(args[0]))
    if name in ("reversed_axes", "t") and nd <= 2:
        if nd == 1:
            return ret(st, mview(m))
        mp = {('s', '$0', 'i'): bv(1), ('s', '$1', 'i'): bv(0)}
        return ret(st, View(m.place, m.dims[::-1], tuple(subst(y, mp) for y in m.exprs)))
    if name == "fill":
        x = deref(E, st, args[1])
        if is_bool(x):
            x = ite(x, ONE, ZERO)
        return ret(E.mfill(st, m, x), UNIT) if isinstance(x, Poly) else None
    if name == "assign":
        st, b = as_mat(E, st, fr, e, args[1])
        if b is None:
            return None
        bshape(E, st, m.dims, b, fr, e, "assign")
        return ret(E.mfill(st, m, bterm(E, b, m.dims)), UNIT)
    if name == "scaled_add":
        a = num(E, st, args[1])
        st, b = as_mat(E, st, fr, e, args[2])
        if b is None or a is None:
            return None
        bshape(E, st, m.dims, b, fr, e, "scaled_add")
        X, Y = E.mterm(m), bterm(E, b, m.dims)
        return ret(E.mfill(st, m, E.cancels((X, Y), X + a * Y, fr, e)), UNIT)
    if name in ("sum", "scalar_sum", "sum_axis", "product"):
        t0, t1 = ('s', '%v0', 'i'), ('s', '%v1', 'i')
        if name == "sum_axis":
            k = axis(E, st, args[1])
            if nd == 1:
                return None
            o = 1 - k
            idx = [None, None]
            idx[k], idx[o] = atom(t0), bv(0)
            if m.dims[k].is_const() and m.dims[k].const() <= 12:
                t = ZERO
                for j in range(int(m.dims[k].const())):
                    idx[k] = P(j)
                    t = t + at(E, m, idx)
            else:
                t = mk_sum(ZERO, m.dims[k], at(E, m, idx), t0)
            return ret(st, mk(m.val.arr.kind, t, (m.dims[o],)))
        if name == "product":
            return None
        if nd == 1:
            return ret(st, mk_sum(ZERO, m.dims[0], at(E, m, (atom(t0),)), t0))
        return ret(st, mk_sum(ZERO, m.dims[1], mk_sum(ZERO, m.dims[0], at(E, m, (atom(t0), atom(t1))), t0), t1))
    if name == "dot" and nd == 1:
        st, b = as_mat(E, st, fr, e, args[1])
        if b is None or len(b.dims) != 1:
            return None
        t0 = ('s', '%v0', 'i')
        return ret(st, mk_sum(ZERO, m.dims[0], at(E, m, (atom(t0),)) * at(E, b, (atom(t0),)), t0))
    if name in ("map", "mapv", "mapv_into"):
        f = args[1]
        return elementwise(E, st, args[0], lambda s, r: callf(E, f, [r if name == "map" else E.read(s, r.place)], s, fr, e), fr, e)
    if name in ("mapv_inplace", "map_inplace"):
        if name == "mapv_inplace":
            r = elementwise(E, st, args[0], lambda s, q: callf(E, args[1], [E.read(s, q.place)], s, fr, e), fr, e)
            if r is None:
                return None
            s, _, a = r[0]
            return ret(E.mfill(s, E.mat(s, mview(m)), E.mterm(E.mat(s, a))), UNIT)
        if nd == 1:
            sp = models.spec(E, st, It("mat", (mview(m), True)), fr, e)
            return loops.run(E, st, fr, e, sp.count, lambda s, j: loops.opt_step(E, sp.elem(s, j), lambda s2, x: callf(E, args[1], [x], s2, fr, e)), "map_inplace")
    if name in ("zip_mut_with",) and nd == 1:
        return E.bind(zip_call(E, "from", [mview(m)], st, fr, e), lambda s, z: E.bind(zip_call(E, "and", [z, args[1]], s, fr, e),
                      lambda s2, z2: zip_call(E, "apply", [z2, args[2]], s2, fr, e)))
    return None


def operator(E, name, args, st, fr, e):
    """arithmetic with at least one array operand"""
    asg = name.endswith("_assign")
    op = name[:-7] if asg else name
    if op == "neg" and not asg:
        st, m = as_mat(E, st, fr, e, args[0])
        return None if m is None else ret(st, mk(m.val.arr.kind, -E.mterm(m), m.dims))
    if op not in ("add", "sub", "mul", "div") or len(args) != 2:
        return None
    fn = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x.div(y)}[op]
    na, nb = num(E, st, args[0]), num(E, st, args[1])
    st, a = (st, None) if na is not None else as_mat(E, st, fr, e, args[0])
    st, b = (st, None) if nb is not None else as_mat(E, st, fr, e, args[1])
    if a is None and b is None:
        return None
    if a is not None and b is not None:
        if asg or len(a.dims) >= len(b.dims):
            dims = a.dims
        else:
            dims = b.dims
        bshape(E, st, dims, b, fr, e, name)
        X, Y = E.mterm(a) if dims == a.dims else bterm(E, a, dims), bterm(E, b, dims)
        t = E.cancels((X, Y), fn(X, Y), fr, e)
        kind = a.val.arr.kind
    elif a is not None and nb is not None:
        t, dims, kind = E.cancels((E.mterm(a), nb), fn(E.mterm(a), nb), fr, e), a.dims, a.val.arr.kind
    elif b is not None and na is not None and not asg:
        t, dims, kind = E.cancels((na, E.mterm(b)), fn(na, E.mterm(b)), fr, e), b.dims, b.val.arr.kind
    else:
        return None
    if asg:
        return ret(E.mfill(st, a, t), UNIT)
    return ret(st, mk(kind, t, dims))


def call(E, c, args, st, fr, e):
    uid, name = c.get("ruid") or c["uid"], c.get("name") or c["path"].split("::")[-1]
    trait = c.get("trait") or ""
    # --- formatting and logging values compare as disabled
    if name in models.CMP and len(args) == 2 and any(isinstance(x, Str) or isinstance(x, Enum) and x.adt.startswith("log::") for x in (deref(E, st, a) for a in args)):
        return ret(st, name == "ne")
    if c["uid"].startswith("log::"):
        return ret(st, Str("log") if name == "max_level" else UNIT)
    if c["uid"].startswith("alloc::fmt") or c["uid"].startswith("core::hint"):
        return ret(st, args[0] if c["uid"].startswith("core::hint") and args else Str("fmt"))
    # --- failure
    if uid.startswith("failure::"):
        if name == "from":
            return ret(st, args[0])
        if name == "err_msg":
            return ret(st, Struct("failure::Message", ()))
        if name == "as_fail":
            return ret(st, args[0])
        if name == "downcast" or name == "downcast_ref":
            ts = [E.rty(fr.crate, a, fr.tenv) for a in c["args"] if isinstance(a, int)]
            x = deref(E, st, args[0])
            if ts and isinstance(x, (Enum, Struct)):
                hit = ts[0].get("path") == x.adt
                return ret(st, (ok(x) if hit else err(x)) if name == "downcast" else (some(args[0]) if hit else NONE))
            return [(st, "val", ok(Top("downcast"))), (st, "val", err(x))]
    if c["uid"].startswith("core::convert::From::from") or trait.endswith("convert::From"):
        t = rty(E, fr, e)
        if t and t["k"] == "adt" and t["path"].startswith("ndarray") and t["path"].endswith("Slice"):
            v = deref(E, st, args[0])
            r = models.range_of(E, st, v, None)
            return None if r is None else ret(st, It("slice3", (r[0], r[1], ONE)))
        if t and t["k"] == "adt" and t["path"].startswith("failure::"):
            return ret(st, args[0])
    if trait.endswith("convert::Into"):
        t = rty(E, fr, e)
        if t and t["k"] == "adt" and t["path"].startswith("failure::"):
            return ret(st, args[0])
        if t and t["k"] == "adt" and t["path"].endswith("Slice"):
            r = models.range_of(E, st, args[0], None)
            return None if r is None else ret(st, It("slice3", (r[0], r[1], ONE)))
    # --- num-traits
    if name == "from" and trait.endswith("NumCast") and len(args) == 1:
        x = num(E, st, args[0])
        return None if x is None else ret(st, some(x))
    if name in ("epsilon",) and not args:
        return ret(st, EPS)
    if name in ("sin", "cos", "tan", "exp", "ln", "log10", "atan2") and args:
        xs = [num(E, st, a) for a in args]
        if all(x is not None for x in xs):
            return ret(st, app(name, *xs))
    if name == "sin_cos" and len(args) == 1:
        x = num(E, st, args[0])
        if x is not None:
            return ret(st, Tup((app("sin", x), app("cos", x))))
    if uid.startswith("alloc::slice") and name == "concat":
        v = deref(E, st, args[0])
        if isinstance(v, Tup):
            items = ()
            for x in v.items:
                x = deref(E, st, x)
                if not isinstance(x, Tup):
                    return None
                items += x.items
            return ret(st, Tup(tuple(deref(E, st, x) for x in items)))
    # --- ndarray
    if uid.startswith("ndarray::"):
        if name == "axis_spec":
            return ret(st, args[0])
        if name == "step_by":
            sl, k = slice_of(E, st, args[0]), num(E, st, args[1])
            return None if sl is None or k is None else ret(st, It("slice3", (sl[0], sl[1], sl[2] * k)))
        if name in ("into_inner", "is_done"):
            v = deref(E, st, args[0])
            if isinstance(v, Enum) and v.adt.endswith("FoldWhile"):
                return ret(st, pay(v) if name == "into_inner" else v.variant == "Done")
        if name in ("index", "index_mut") and len(args) == 2:
            st, m = as_mat(E, st, fr, e, args[0])
            idx = sized(E, st, fr, e, args[1])
            if m is None or idx is None or len(idx) != len(m.dims):
                return None
            E.bounds(st, None, idx, fr, e, m.dims)
            return ret(st, Ref(Place(m.place.cell, m.place.path + (("el", E.midx(m, idx)),)), name == "index_mut"))
        if "::zip::" in uid:
            r = zip_call(E, name, args, st, fr, e)
            if r is not None:
                return r
        if name == "into_iter":
            v = deref(E, st, args[0])
            if isinstance(v, It):
                return ret(st, v)
            st, m = as_mat(E, st, fr, e, args[0])
            if m is not None and len(m.dims) == 1:
                return ret(st, It("mat", (mview(m), True)))
            return None
        r = operator(E, name, args, st, fr, e) if "::ops::" in uid or trait.startswith("std::ops") else None
        if r is not None:
            return r
        return array_call(E, c, uid, name, args, st, fr, e)
    # array operands reached through an unresolved operator trait
    if trait.startswith(("std::ops", "core::ops")) and args and any(num(E, st, a) is None and E.mat(st, a) is not None for a in args):
        if name in ("index", "index_mut") and len(args) == 2:
            st, m = as_mat(E, st, fr, e, args[0])
            idx = sized(E, st, fr, e, args[1])
            if m is not None and idx is not None and len(idx) == len(m.dims):
                E.bounds(st, None, idx, fr, e, m.dims)
                return ret(st, Ref(Place(m.place.cell, m.place.path + (("el", E.midx(m, idx)),)), name == "index_mut"))
        return operator(E, name, args, st, fr, e)
    if name in ("clone", "to_owned") and len(args) == 1 and E.mat(st, args[0]) is not None and num(E, st, args[0]) is None:
        return array_call(E, c, uid, "clone", args, st, fr, e)
    return None
