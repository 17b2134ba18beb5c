"""Loops: closed forms where an iteration is independent of earlier ones, LoopNodes where it is not,
and a widening fixpoint over abstract head states for control-oriented analyses."""
from values import *

VOID = ("undef",)


# ------------------------------------------------------------------------------------------- helpers

def opt_step(E, outs, f, keep=False):
    """continue with f for the produced elements; filtered-out elements count as a finished iteration"""
    res = []
    for s, k, v in outs:
        if k != "val":
            res.append((s, k, v))
        elif isinstance(v, Enum) and v.variant == "Some":
            res += f(s, v.fields[0][1])
        else:
            res.append((s, "val", UNIT))
    return res


def referenced(st):
    out = set()

    def go(v):
        if isinstance(v, (Ref, View)):
            out.add(v.place.cell)
        elif isinstance(v, Place):
            out.add(v.cell)
        elif isinstance(v, Tup):
            for x in v.items:
                go(x)
        elif isinstance(v, (Struct, Enum)):
            for _, x in v.fields:
                go(x)
        elif isinstance(v, It):
            for x in v.args:
                go(x)
        elif isinstance(v, Clo):
            for _, p in v.env:
                out.add(p.cell)
    for v in st.store.values():
        go(v)
    return out


def restrict(s, st):
    """drop cells that did not exist in st"""
    d = {c: v for c, v in s.store.items() if c in st.store}
    return State(d, s.facts, s.ghost)


def modified(a, b):
    """leaf keys (cell,path) that differ between two states (cells of a only)"""
    out = []
    ref = None
    for c, v in a.store.items():
        w = b.store.get(c, v)
        if v is w or v == w:
            continue
        if c[0] == "t" and not str(c[2]).startswith("fold"):
            # temporaries nothing refers to are rewritten before they are read
            if ref is None:
                ref = referenced(a)
            if c not in ref:
                continue
        out += [(c, p) for p in diff(v, w)]
    return out


def diff(v, w, path=()):
    if v is w or (type(v) is type(w) and v == w):
        return []
    if isinstance(v, Tup) and isinstance(w, Tup) and len(v.items) == len(w.items):
        r = []
        for i, (x, y) in enumerate(zip(v.items, w.items)):
            r += diff(x, y, path + (("f", str(i)),))
        return r
    if isinstance(v, Struct) and isinstance(w, Struct) and v.adt == w.adt:
        r = []
        for (k, x), (_, y) in zip(v.fields, w.fields):
            r += diff(x, y, path + (("f", k),))
        return r
    if isinstance(v, Enum) and isinstance(w, Enum) and v.adt == w.adt and v.variant == w.variant:
        r = []
        for (k, x), (_, y) in zip(v.fields, w.fields):
            r += diff(x, y, path + (("d", v.variant, k),))
        return r
    if isinstance(v, It) and isinstance(w, It) and v.kind == w.kind:
        r = []
        for i, (x, y) in enumerate(zip(v.args, w.args)):
            r += diff(x, y, path + (("i", i),))
        return r
    return [path]


def leafname(k):
    c, p = k
    return "%s%s" % (str(c[-1]).split("::")[-1], "".join("." + str(x[-1]) for x in p))


# ------------------------------------------------------------------------------------------- entry points

def parse_for(e):
    """-> (iterator expr, label, pattern, body)"""
    body = e["arms"][0]["body"]
    label = None
    while body["k"] in ("Scope", "Use"):
        if body["k"] == "Scope":
            label = body["scope"]
        body = body["e"]
    assert body["k"] == "Loop"
    b = body["body"]
    while b["k"] in ("Scope", "Use"):
        b = b["e"]
    x = b["b"]["stmts"][0]["e"] if b["b"]["stmts"] else b["b"]["expr"]
    while x["k"] in ("Scope", "Use"):
        x = x["e"]
    for a in x["arms"]:
        if a["pat"]["k"] == "Variant" and a["pat"]["variant"] == "Some":
            return e["e"], label, a["pat"]["sub"][0][1], a["body"]
    raise ValueError("for loop shape")


def for_loop(E, e, st, fr):
    import models
    it, label, pat, body = parse_for(e)

    def f(s, itv):
        if isinstance(itv, It) and itv.kind == "flat_map":
            def elem(s3, x):
                cell = ("t", fr.id, "for%d" % e["n"])
                s3 = s3.setcell(cell, x)
                res = []
                for s4, ok_ in E.match(pat, Place(cell, ()), s3, fr):
                    if ok_:
                        res += E.ev(body, s4, fr)
                return res
            outs = nested(E, s, fr, e, itv, elem, "for", label)
            if outs is not None:
                return outs
        sp = models.spec(E, s, itv, fr, e)
        if sp is None:
            E.note_unmodelled("iterator %s" % (itv.kind if isinstance(itv, It) else type(itv).__name__), fr, e)
            return havoc_loop(E, s, fr, e, body, label)
        if sp.count is None:
            E.note_unmodelled("unbounded iterator", fr, e)
            return havoc_loop(E, s, fr, e, body, label)

        def step(s2, j):
            def g(s3, x):
                cell = ("t", fr.id, "for%d" % e["n"])
                s3 = s3.setcell(cell, x)
                res = []
                for s4, ok_ in E.match(pat, Place(cell, ()), s3, fr):
                    if ok_:
                        res += E.ev(body, s4, fr)
                return res
            return opt_step(E, sp.elem(s2, j), g)
        return run(E, s, fr, e, sp.count, step, "for", label)
    return E.join(E.bind(E.ev(it, st, fr), f), st)


def nested(E, st, fr, e, it, elem, name, label):
    """traversal of it.flat_map(f): for each outer element, the elements of f(outer)"""
    import models
    outer = models.spec(E, st, it.args[0], fr, e)
    if outer is None or outer.count is None:
        return None
    lab2 = ("fm", e["n"])
    e2 = dict(e, n=-1 - e["n"])

    class Give(Exception):
        pass

    def one(s, x):
        def go(s2, y):
            inner = models.spec(E, s2, models.toit(E, s2, y) or y, fr, e)
            if inner is None or inner.count is None:
                raise Give()

            def istep(s3, j):
                res = []
                for o in opt_step(E, inner.elem(s3, j), elem):
                    if o[1] == "cont" and o[2] == label:
                        o = (o[0], "val", UNIT)
                    elif o[1] == "brk" and o[2][0] == label:
                        o = (o[0], "brk", (lab2, o[2][1]))
                    res.append(o)
                return res
            return run(E, s2, fr, e2, inner.count, istep, name, None)
        if it.args[1] is None:      # the rows of a matrix, element by element
            return go(s, It("mat", (x, True)))
        return E.bind(models.callf(E, it.args[1], [x], s, fr, e), go)
    try:
        return run(E, st, fr, e, outer.count, lambda s, j: opt_step(E, outer.elem(s, j), one), name, lab2)
    except Give:
        return None


def havoc_loop(E, st, fr, e, body, label):
    """a loop that is not understood: forget everything it may write"""
    s = st
    for _ in range(3):
        E.quiet += 1
        try:
            outs = E.ev(body, s, fr)
        finally:
            E.quiet -= 1
        ks = set()
        for o in outs:
            ks.update(modified(s, o[0]))
        n = s
        for c, p in ks:
            n = E.write(n, Place(c, p), E.havoc_value(E.read(s, Place(c, p))))
        s = n
        if not ks:
            break
    return [(restrict(s, st), "val", UNIT)]


# ------------------------------------------------------------------------------------------- counted loops

def run(E, st, fr, e, count, step, name, label=None):
    """execute `step(state, j)` for j = 0..count"""
    import models
    if entails(st.facts, c_le(count)):
        return [(st, "val", UNIT)]
    try:
        if E.mode == "ctl":
            return run_ctl(E, st, fr, e, count, step, name, label)
        if count.is_const() and 0 < count.const() <= E.unroll and count.const().denominator == 1:
            return unrolled(E, st, fr, e, int(count.const()), step, label)
        return summarise(E, st, fr, e, count, step, name, label)
    except models.NeedUnroll:
        # the elements of an array literal exist one by one
        if not count.is_const() or count.const() > 64:
            raise
        return unrolled(E, st, fr, e, int(count.const()), step, label)


def classify(outs, label):
    """split outcomes of one iteration into continuing states and exits"""
    nxt, exits = [], []
    for s, k, v in outs:
        if k == "val" or (k == "cont" and v == label):
            nxt.append(s)
        elif k == "brk" and v[0] == label:
            exits.append((s, "done", v[1]))
        else:
            exits.append((s, k, v))
    return nxt, exits


def unrolled(E, st, fr, e, n, step, label):
    work, res = [st], []
    for j in range(n):
        new = []
        for s in work:
            nx, ex = classify(step(s, P(j)), label)
            new += nx
            res += [(x[0], "val" if x[1] == "done" else x[1], x[2]) for x in ex]
        outs = E.join([(s, "val", UNIT) for s in new], st)
        work = [restrict(o[0], st) for o in outs]
    return E.join([(s, "val", UNIT) for s in work] + res, st)


class Pre:
    """symbols standing for the leaves at the start of a generic iteration"""

    def __init__(self):
        self.init = {}     # key -> initial value
        self.val = {}      # key -> symbolic value
        self.kind = {}     # 'num' | 'bool' | 'arr' | 'other'


def havoc_leaves(E, st, keys, tag):
    pre = Pre()
    s = st
    for k in keys:
        v = E.read(st, Place(*k))
        pre.init[k] = v
        if isinstance(v, Poly):
            x = E.fresh(tag + "." + leafname(k), v.kind())
            pre.kind[k] = "num"
        elif is_bool(v):
            x = E.freshb(tag + "." + leafname(k))
            pre.kind[k] = "bool"
        elif isinstance(v, ArrV):
            E.fresh_n += 1
            b = ("base", "%s.%s~%d" % (tag, leafname(k), E.fresh_n))
            if v.arr.base in ATOM_FACTS:
                ATOM_FACTS[b] = ATOM_FACTS[v.arr.base]
            x = ArrV(Arr(b, v.arr.nd, v.arr.kind), v.dims)
            pre.kind[k] = "arr"
        else:
            x = Top("loop-carried " + leafname(k))
            pre.kind[k] = "other"
        pre.val[k] = x
        s = E.write(s, Place(*k), x)
    return s, pre


def discover(E, st, step, label, j):
    """leaves an iteration may modify"""
    keys = []
    E.quiet += 1
    unm = dict(E.unmodelled)
    try:
        for _ in range(8):
            s, pre = havoc_leaves(E, st, keys, "h")
            nxt, ex = classify(step(s, j), label)
            new = []
            for t in nxt:
                for k in modified(s, t):
                    if k not in keys and k not in new:
                        new.append(k)
            if not new:
                return keys
            keys = merge_keys(keys + new)
    finally:
        E.quiet -= 1
        E.unmodelled.clear()
        E.unmodelled.update(unm)
    return keys


def merge_keys(keys):
    """drop keys below another key"""
    out = []
    for k in keys:
        if any(k != o and k[0] == o[0] and k[1][:len(o[1])] == o[1] for o in keys):
            continue
        if k not in out:
            out.append(k)
    return out


def summarise(E, st, fr, e, count, step, name, label):
    j = E.fresh("j")
    ja = j.single()
    inner = st.with_fact(c_le(-j)).with_fact(c_lt(j - count))
    keys = discover(E, inner, step, label, j)
    if not E.peeling and any(isinstance(E.read(inner, Place(*k)), Enum) for k in keys):
        return peel(E, st, fr, e, count, step, name, label)
    # --- classification run
    s1, pre = havoc_leaves(E, inner, keys, "p")
    E.quiet += 1
    unm = dict(E.unmodelled)
    try:
        nxt, exits = classify(step(s1, j), label)
        nxt = [o[0] for o in E.join([(s, "val", UNIT) for s in nxt], inner)]
    finally:
        E.quiet -= 1
        E.unmodelled.clear()
        E.unmodelled.update(unm)
    info = solve(E, inner, pre, nxt, exits, j, count)
    # --- final run with the closed forms known, recording obligations
    s2 = inner
    pre2 = Pre()
    for k in keys:
        pre2.init[k], pre2.kind[k] = pre.init[k], pre.kind[k]
        cf = info.closed.get(k)
        v = cf if cf is not None and pre.kind[k] in ("num", "bool") else pre.val[k]
        pre2.val[k] = v
        s2 = E.write(s2, Place(*k), v)
    nxt2, exits2 = classify(step(s2, j), label)
    nxt2 = [o[0] for o in E.join([(s, "val", UNIT) for s in nxt2], inner)]
    # --- result
    cnt = count if entails(st.facts, c_le(-count)) else pmax(count, ZERO)
    out = st
    unresolved = [k for k in keys if k not in info.out]
    node = None
    if unresolved or exits2:
        node = LoopNode(len(E.loopnodes), j, count, inner.facts, e.get("sp"), fr.fn, name)
        node.exits = exits2
        node.multi = len(nxt2) != 1
        node.entry = st
        node.next = nxt2
    for k in keys:
        post = [E.read(s, Place(*k)) for s in nxt2]
        if k in info.out:
            v = info.out[k]
        else:
            iv = pre.init[k]
            if isinstance(iv, Poly):
                v = E.fresh("o%d.%s" % (node.id, leafname(k)), iv.kind())
            elif is_bool(iv):
                v = E.freshb("o%d.%s" % (node.id, leafname(k)))
            elif isinstance(iv, ArrV):
                b = ("base", "o%d.%s" % (node.id, leafname(k)))
                if iv.arr.base in ATOM_FACTS:
                    ATOM_FACTS[b] = ATOM_FACTS[iv.arr.base]
                v = ArrV(Arr(b, iv.arr.nd, iv.arr.kind), iv.dims)
            else:
                v = Top("loop result " + leafname(k))
        out = E.write(out, Place(*k), v)
        if node is not None:
            node.leaves[k] = dict(pre=pre2.val[k], init=pre.init[k], post=post[0] if len(post) == 1 else None, out=v, closed=k in info.out)
    if node is not None:
        node.unresolved = unresolved
        node.j_closed = info.closed
        if E.quiet == 0:
            node.out_state = out
            E.loopnodes.append(node)
            E.events += 1
    res = [(out, "val", UNIT)]
    if nxt2 == [] and exits2:
        # every iteration exits: completion only if the loop body never runs
        res = [(st.with_fact(c_le(count)), "val", UNIT)]
    for s, k, v in exits2:
        s = restrict(s, st)
        res.append((s, "val" if k == "done" else k, v))
    return res


def peel(E, st, fr, e, count, step, name, label):
    """a carried option changes its variant in the first iteration: take that one separately"""
    res = []
    for s, b in E.split(st, c_lt(-count)):
        if not b:
            res.append((s, "val", UNIT))
            continue
        nxt, exits = classify(step(s, ZERO), label)
        for x, k, v in exits:
            res.append((restrict(x, st), "val" if k == "done" else k, v))
        E.peeling += 1
        try:
            for o in E.join([(x, "val", UNIT) for x in nxt], s):
                res += run(E, restrict(o[0], st), fr, e, count - 1, lambda s2, j: step(s2, j + 1), name, label)
        finally:
            E.peeling -= 1
    return E.join(res, st)


class LoopNode:
    """an order-dependent loop: one generic iteration from an arbitrary state"""

    def __init__(self, id, j, count, facts, sp, fn, name):
        self.id, self.j, self.count, self.facts, self.sp, self.fn, self.name = id, j, count, facts, sp, fn, name
        self.leaves = {}
        self.exits = []
        self.multi = False
        self.unresolved = []


class Info:
    def __init__(self):
        self.closed = {}    # key -> value of the leaf before iteration j, as a function of j
        self.out = {}       # key -> value after the loop


def presyms(pre, keys):
    """atoms/bases of unresolved pre-values -> key"""
    d = {}
    for k in keys:
        v = pre.val[k]
        if isinstance(v, Poly):
            d[v.single()] = k
        elif isinstance(v, ArrV):
            d[v.arr.base] = k
        elif is_bool(v):
            d[("b", v[1], "b")] = k
    return d


def deps_of(x, syms):
    out = set()
    for a in atoms_of(x):
        if a in syms:
            out.add(syms[a])
        if a[0] == 'arr' and a[1] in syms:
            out.add(syms[a[1]])
    return out


def solve(E, st, pre, nxt, exits, j, count):
    info = Info()
    if len(nxt) != 1:
        return info
    ja = j.single()
    keys = list(pre.val)
    post = {k: E.read(nxt[0], Place(*k)) for k in keys}
    hasexit = bool(exits)
    cnt = count if entails(tuple(f for f in st.facts if ja not in atoms_of(f)), c_le(-count)) else pmax(count, ZERO)
    outer = tuple(f for f in st.facts if ja not in atoms_of(f))
    todo = list(keys)
    sub = {}              # substitution of closed pre-values
    maps = {}             # array keys proven to be independent updates: key -> [(guard, value, jexpr)]

    def sb(x):
        return subst(x, sb_map())

    def sb_map():
        return sub

    progress = True
    while progress and todo:
        progress = False
        for k in list(todo):
            if pre.kind[k] == "num" and isinstance(post[k], Poly):
                p0 = pre.val[k]
                q = subst(post[k], sub)
                syms = presyms(pre, todo)
                d = increment(q, p0)
                dep = deps_of(d, syms)
                dep = settle(E, pre, maps, dep, d, st, j, syms)
                if not dep:
                    d = subst(d, array_init(pre, maps))
                    if ja not in atoms_of(d):
                        cf = pre.init[k] + d * j
                        o = pre.init[k] + d * cnt
                    else:
                        t = ('s', '%jj', 'i')
                        dd = subst(d, {ja: atom(t)})
                        cf = pre.init[k] + mk_sum(ZERO, j, dd, t)
                        o = pre.init[k] + mk_sum(ZERO, cnt, dd, t)
                    info.closed[k] = cf
                    sub[p0.single()] = cf
                    if not hasexit:
                        info.out[k] = o
                    todo.remove(k)
                    progress = True
                    continue
                depq = settle(E, pre, maps, deps_of(q, syms), q, st, j, syms)
                if not depq:
                    # value of the last iteration
                    q = subst(q, array_init(pre, maps))
                    prev = subst(q, {ja: j - 1})
                    cf = ite(c_eq(j), pre.init[k], prev)
                    info.closed[k] = cf
                    sub[p0.single()] = cf
                    if not hasexit:
                        last = subst(q, {ja: count - 1})
                        info.out[k] = last if entails(outer, c_lt(-count)) else ite(c_le(count), pre.init[k], last)
                    todo.remove(k)
                    progress = True
                    continue
                if not hasexit and argmax(E, st, outer, pre, post, todo, sub, info, k, j, count, cnt, maps):
                    progress = True
                    break
            elif pre.kind[k] == "bool" and is_bool(post[k]):
                q = subst_c(post[k], sub)
                syms = presyms(pre, todo)
                if not deps_of(q, syms):
                    if ja not in atoms_of(q):
                        info.closed[k] = c_ite(c_eq(j), pre.init[k], q)
                        sub[pre.val[k]] = info.closed[k]
                        if not hasexit:
                            info.out[k] = c_ite(c_le(count), pre.init[k], q)
                        todo.remove(k)
                        progress = True
                elif not hasexit and not (deps_of(q, syms) - {k}):
                    # a flag set (or cleared) once some iteration meets a condition: the number of those is not zero
                    p = ("b", pre.val[k][1])
                    t, f = subst_c(q, {p: True}), subst_c(q, {p: False})
                    c = f if t is True else c_not(t) if f is False else None
                    if c is not None and p not in atoms_c(c):
                        v = ('s', '%jj', 'i')
                        some_ = c_lt(-mk_sum(ZERO, cnt, ite(subst_c(c, {ja: atom(v)}), ONE, ZERO), v))
                        info.out[k] = c_or(pre.init[k], some_) if t is True else c_and(pre.init[k], c_not(some_))
                        so_far = c_lt(-mk_sum(ZERO, j, ite(subst_c(c, {ja: atom(v)}), ONE, ZERO), v))
                        info.closed[k] = c_or(pre.init[k], so_far) if t is True else c_and(pre.init[k], c_not(so_far))
                        sub[pre.val[k]] = info.closed[k]
                        todo.remove(k)
                        progress = True
            elif pre.kind[k] == "arr" and isinstance(post[k], ArrV) and k not in maps:
                r = array_map(E, pre, post, todo, maps, sub, k, st, j, count, outer)
                if r is not None:
                    maps[k] = r
                    if not hasexit:
                        info.out[k] = r
                    todo.remove(k)
                    progress = True
    return info


def atoms_c(c):
    return {("b", a[1]) for a in atoms_of(c) if a[0] == 'b' or a[-1] == 'b'}


def increment(q, p0):
    """what an iteration adds; under a condition, the increments of the two cases"""
    a = q.single()
    if a is not None and a[0] == 'ite' and a != p0.single() and p0.single() in atoms_of(q):
        return ite(a[1], increment(a[2], p0), increment(a[3], p0))
    return q - p0


def array_init(pre, maps):
    return {pre.val[k].arr.base: pre.init[k].arr for k in maps}


def settle(E, pre, maps, dep, term, st, j, syms):
    """array dependencies on arrays already shown to be independently updated may be read at their initial
    value when no earlier iteration writes the place read -- maps are resolved arrays, so nothing is left here
    unless the array is still pending"""
    return dep


def guard_parts(g):
    if g is True:
        return []
    if g[0] == 'and':
        return list(g[1])
    return [g]


def pin(g, ja):
    """solve an equality conjunct for j: returns Poly or None"""
    for c in guard_parts(g):
        if c is False or c is True:
            continue
        if c[0] == 'eq':
            p = c[1]
            for m, co in p.t:
                if len(m) == 1 and m[0] == (ja, 1) and abs(co) == 1:
                    rest = p - Poly({m: co})
                    if ja in atoms_of(rest):
                        continue
                    return rest.scale(-1 / Fraction(co))
    return None


def idx_map(idx):
    return {('s', '$%d' % i, 'i'): x for i, x in enumerate(idx)}


def array_map(E, pre, post, todo, maps, sub, k, st, j, count, outer):
    ja = j.single()
    base = pre.val[k].arr.base
    arr = subst_arr(post[k].arr, sub)
    if arr.base != base:
        return None
    nodes = list(arr.nodes)
    if not nodes:
        return None
    syms = presyms(pre, todo)
    dims = pre.init[k].dims
    rng = []
    for i in range(arr.nd):
        rng.append(c_le(-bv(i)))
        if i < len(dims) and pre.init[k].arr.nd == len(dims):
            rng.append(c_lt(bv(i) - dims[i]))
    j2 = E.fresh("jj")
    earlier = (c_le(-j2), c_lt(j2 - j))
    anyother = (c_le(-j2), c_lt(j2 - count), c_not(c_eq(j2 - j)))
    pins = [pin(g, ja) for g, v in nodes]

    def writes(jx, idx):
        m = dict(idx_map(idx))
        m[ja] = jx
        return [subst_c(g, m) for g, v in nodes]

    def reads_ok(term_conds):
        """every read of this array (at its pre-iteration content) sees the initial content"""
        for g, v in term_conds:
            for a in atoms_of((g, v)) if not isinstance(v, tuple) else ():
                if a[0] == 'sel' and a[1].base == base:
                    for w in writes(j2, a[2]):
                        if w is False:
                            continue
                        if not unsat(tuple(st.facts) + earlier + tuple(rng) + tuple(guard_parts(g)) + (w,)):
                            return False
        return True

    # other pending leaves may not be read (except this array)
    for g, v in nodes:
        d = deps_of(g, syms) | deps_of(v, syms)
        d.discard(k)
        if d:
            return None
    if all(p is not None for p in pins):
        if not reads_ok(nodes):
            return reduction(E, pre, k, nodes, st, j, count, outer, rng, reads_ok) if False else None
        # write/write order between different nodes
        for x in range(len(nodes)):
            for y in range(len(nodes)):
                if x == y:
                    continue
                g1 = nodes[x][0]
                g2 = subst_c(nodes[y][0], {ja: j2})
                if not unsat(tuple(st.facts) + anyother + tuple(rng) + tuple(guard_parts(g1)) + tuple(guard_parts(g2))):
                    return None
        m0 = {base: pre.init[k].arr}
        out = pre.init[k].arr
        for (g, v), jx in zip(nodes, pins):
            g2 = subst_c(g, {ja: jx})
            v2 = subst(v, {ja: jx})
            g2 = subst_c(g2, m0)
            v2 = subst(v2, m0)
            rg = c_and(c_le(-jx), c_lt(jx - count))
            out = out.update(simp_guard(c_and(rg, g2)), v2)
        return ArrV(out, pre.init[k].dims)
    if all(p is None for p in pins) and len(nodes) == 1:
        g, v = nodes[0]
        if ja in atoms_of(g):
            return None
        own = atom(('sel', Arr(base, arr.nd, arr.kind), tuple(bv(i) for i in range(arr.nd)), arr.kind))
        # the location may be written with its own index terms: normalise $i by the guard equalities
        eqs = {}
        for c in guard_parts(g):
            if c[0] == 'eq':
                p = c[1]
                for i in range(arr.nd):
                    bi = ('s', '$%d' % i, 'i')
                    for m, co in p.t:
                        if m == ((bi, 1),) and abs(co) == 1 and bi not in eqs:
                            rest = (p - Poly({m: co})).scale(-1 / Fraction(co))
                            if not any(a[0] == 's' and a[1].startswith('$') for a in atoms_of(rest)):
                                eqs[bi] = rest
        v1 = subst(v, eqs)
        own1 = subst(own, eqs)
        delta = v1 - own1
        if own1.single() in atoms_of(delta):
            return None
        # reads of the array elsewhere must not touch the accumulated location
        for a in atoms_of(delta):
            if a[0] == 'sel' and a[1].base == base:
                m = idx_map(a[2])
                w = subst_c(g, m)
                if w is not False and not unsat(tuple(st.facts) + tuple(rng) + tuple(guard_parts(g)) + (w,)):
                    return None
        m0 = {base: pre.init[k].arr}
        t = ('s', '%jj', 'i')
        cnt = count if entails(outer, c_le(-count)) else pmax(count, ZERO)
        s = mk_sum(ZERO, cnt, subst(subst(delta, m0), {ja: atom(t)}), t)
        out = pre.init[k].arr.update(subst_c(g, m0), subst(own1, m0) + s)
        return ArrV(out, pre.init[k].dims)
    return None


def simp_guard(g):
    ps = guard_parts(g)
    out = []
    for i, p in enumerate(ps):
        rest = tuple(out + ps[i + 1:])
        if p[0] in ('le', 'lt') and entails(rest, p):
            continue
        out.append(p)
    return c_and(*out)


def argmax(E, st, outer, pre, post, todo, sub, info, k, j, count, cnt, maps):
    """recognise the search for an index of an extreme key (with or without a running best value)"""
    ja = j.single()
    lp = pre.val[k]
    q = subst(post[k], sub)
    s = q.single()
    if s is None or s[0] != 'ite' or akind(s) != 'i':
        return False
    c, a = taken(q, lp)
    if a is None or lp.single() in atoms_of(a):
        return False
    for p in compared(c):
        # replaced whenever the new key is larger, never when it is smaller
        if decide(outer + (c_lt(p),), c) is True and decide(outer + (c_lt(-p),), c) is False:
            if argmax_key(E, st, outer, pre, post, todo, sub, info, k, j, count, maps, c, a, p):
                return True
    return False


def taken(q, lp):
    """(condition, value) if q is `lp` unless one other value replaces it"""
    if q == lp:
        return False, None
    s = q.single()
    if s is None or s[0] != 'ite':
        return True, q
    c1, a1 = taken(s[2], lp)
    c2, a2 = taken(s[3], lp)
    a = a1 if a1 is not None else a2
    if a1 is not None and a2 is not None and a1 != a2:
        return None, None
    if c1 is None or c2 is None:
        return None, None
    return c_or(c_and(s[1], c1), c_and(c_not(s[1]), c2)), a


def compared(c):
    """the comparison terms inside a condition, either sign"""
    out = []

    def go(x):
        if not isinstance(x, tuple):
            return
        if x[0] in ('lt', 'le', 'eq'):
            for p in (x[1], -x[1]):
                if p not in out:
                    out.append(p)
        elif x[0] in ('and', 'or'):
            for y in x[1]:
                go(y)
        elif x[0] == 'not':
            go(x[1])
    go(c)
    return out


def argmax_key(E, st, outer, pre, post, todo, sub, info, k, j, count, maps, c, a, p):
    ja = j.single()
    lp = pre.val[k]
    # a = +-j + off
    co = None
    for m, x in a.t:
        if m == ((ja, 1),):
            co = x
    if co not in (1, -1) or ja in atoms_of(a - j.scale(co)):
        return False
    off = a - j.scale(co)
    syms = presyms(pre, todo)
    deps = deps_of(p, syms)
    # every array read must not be modified in the loop
    mxk = [x for x in deps if x != k]
    la = lp.single()
    if not mxk:
        # p == key(l) - key(a), up to a positive factor
        jp = sum_of(p, lambda at: ja in atoms_of(atom(at)))
        lpart = p - jp
        if la not in atoms_of(lpart) or la in atoms_of(jp) or subst(lpart, {la: a}) != -jp:
            return False
        if not sane_key(lpart, la):
            return False
        key = lambda i, lpart=lpart: subst(lpart, {la: i})
        init, incov = pre.init[k], True
        rel = [k]
    elif len(mxk) == 1 and pre.kind[mxk[0]] == "num":
        mk = mxk[0]
        mp = pre.val[mk]
        ma = mp.single()
        # p == mx - g(j)
        f = None
        for m, x in p.t:
            if m == ((ma, 1),):
                f = x
        if f is None or f <= 0:
            return False
        g = (mp.scale(f) - p).scale(1 / Fraction(f))
        if ma in atoms_of(g) or la in atoms_of(g) or deps_of(g, syms):
            return False
        pm = subst(post[mk], sub)
        if pm != pmax(mp, g):
            cm, gm = taken(pm, mp)
            if gm != g or cm is None or not (cm == c or all(decide(outer + (f,), cm) is decide(outer + (f,), c) is not None for f in (c_lt(p), c_lt(-p)))):
                return False
        # express the key through the index
        jx = (sym("?i") - off).scale(co)
        gi = subst(g, {ja: jx})
        key = lambda i, gi=gi: subst(gi, {('s', '?i', 'i'): i})
        init = pre.init[k]
        mi = pre.init[mk]
        if isinstance(init, Poly) and mi == key(init):
            incov = True
        elif isinstance(mi, Poly) and mi.is_const() and mi.const() <= 0 and nonneg_key(g):
            incov = False
        else:
            return False
        rel = [k, mk]
    else:
        return False
    # candidate index range
    lo, hi = (off, off + count) if co == 1 else (off - count + 1, off + 1)
    l = E.fresh("amax." + leafname(k))
    lat = l.single()
    init = pre.init[k]
    inr = c_and(c_le(lo - l), c_lt(l - hi))
    ATOM_FACTS[lat] = [c_or(c_eq(l - init), inr)]
    hull(lat, l, init, lo, hi, outer, count)
    ATOM_FACTS[la] = [c_or(c_eq(lp - init), c_and(c_le(lo - lp), c_lt(lp - hi)))]
    hull(la, lp, init, lo, hi, outer, count)
    if not incov:
        incov2 = entails(outer, c_or(c_le(count), c_and(c_le(lo - init), c_lt(init - hi))))
    else:
        incov2 = True
    E.argmax[lat] = dict(lo=lo, hi=hi, init=init if incov else None, initidx=init, incov=incov2, key=key, facts=outer, pre=la)
    info.out[k] = l
    info.closed[k] = lp
    sub[la] = lp
    todo.remove(k)
    if len(rel) == 2:
        mk = rel[1]
        o = key(l) if incov2 else E.fresh("max", "r")
        info.out[mk] = o
        info.closed[mk] = pre.val[mk]
        todo.remove(mk)
    return True


def hull(at, s, init, lo, hi, outer, count):
    """interval hull of {init} u [lo,hi) where the order of the bounds is known"""
    ne = tuple(outer) + (c_lt(-count),)
    f = list(ATOM_FACTS[at])
    if entails(tuple(outer), c_le(lo - init)) or entails(ne, c_le(lo - init)):
        f.append(c_or(c_le(lo - s), c_eq(s - init)))
        if entails(outer, c_le(lo - init)):
            f.append(c_le(lo - s))
    elif entails(outer, c_le(init - lo)):
        f.append(c_le(init - s))
    ATOM_FACTS[at] = f


def sum_of(p, pred):
    return Poly({m: c for m, c in p.t if any(pred(a) for a, e in m)})


def sane_key(p, la):
    return True


def nonneg_key(p):
    if not p.is_mono():
        return False
    m, c = p.t[0]
    return c > 0 and all(nonneg_atom(a) or (Fraction(e).denominator == 1 and int(e) % 2 == 0) for a, e in m)


# ------------------------------------------------------------------------------------------- while / loop

def loop(E, e, st, fr, label):
    body = e["body"]
    step0 = lambda s: E.ev(body, s, fr)
    if E.mode == "ctl":
        import ctl
        r = ctl.numeric_loop(E, st, fr, e, body, label)
        return r if r is not None else fix_ctl(E, st, fr, e, step0, label)
    # --- find the induction variable and the head test
    j = E.fresh("w")
    keys = discover(E, st, lambda s, _: step0(s), label, j)
    s1, pre = havoc_leaves(E, st, keys, "q")
    unm = dict(E.unmodelled)
    E.quiet += 1
    try:
        nxt, exits = classify(step0(s1), label)
        nxt = [o[0] for o in E.join([(s, "val", UNIT) for s in nxt], st)]
    finally:
        E.quiet -= 1
    ind = {}
    if len(nxt) == 1:
        for k in keys:
            if pre.kind[k] == "num":
                q = E.read(nxt[0], Place(*k))
                if isinstance(q, Poly):
                    d = q - pre.val[k]
                    if d.is_const() and d.const() != 0:
                        ind[pre.val[k].single()] = (k, d.const())
    # the head exit: leaves the loop with the state unchanged
    for i, (s, kd, v) in enumerate(exits):
        if kd != "done" or [k for k in keys if E.read(s, Place(*k)) != pre.val[k]]:
            continue
        fs = [f for f in s.facts if f not in st.facts]
        if len(fs) != 1:
            continue
        go = c_not(fs[0])
        cnt = trip_count(E, st, go, ind, pre)
        if cnt is None:
            continue
        E.unmodelled.clear()
        E.unmodelled.update(unm)

        def step(s2, jv, go=go):
            res = []
            cur = {a: E.read(s2, Place(*k)) for a, (k, d) in ind.items()}
            m = {pre.val[k].single() if isinstance(pre.val[k], Poly) else None: E.read(s2, Place(*k)) for k in keys if isinstance(pre.val[k], Poly) and isinstance(E.read(s2, Place(*k)), Poly)}
            g = subst_c(go, m)
            for o in step0(s2.with_fact(g) if g is not False else s2):
                res.append(o)
            # drop the head exit: excluded by the trip count
            out = []
            for o in res:
                if o[1] == "brk" and o[2][0] == label and unsat(o[0].facts):
                    continue
                out.append(o)
            return out
        return run(E, st, fr, e, cnt, step, "while", label)
    E.note_unmodelled("loop without a recognised trip count", fr, e)
    s = s1
    res = []
    for x, kd, v in exits:
        res.append((restrict(x, st), "val" if kd == "done" else kd, v))
    return res


def trip_count(E, st, go, ind, pre):
    """iterations of `while go`"""
    if go is True or go is False or go[0] not in ('le', 'not', 'eq', 'lt'):
        return None
    neq = go[0] == 'not' and go[1][0] == 'eq'
    if go[0] == 'not' and not neq or go[0] in ('eq', 'lt'):
        return None
    p = go[1][1] if neq else go[1]
    m = {}
    beta = Fraction(0)
    for mono, c in p.t:
        for a, ex in mono:
            if a in ind:
                if len(mono) != 1 or ex != 1:
                    return None
                beta += c * ind[a][1]
                m[a] = pre.init[ind[a][0]]
    # no other loop-carried symbol may occur
    syms = presyms(pre, [k for k in pre.val])
    for a in atoms_of(p):
        if a in syms and a not in ind:
            return None
        if a[0] == 'arr' and a[1] in syms:
            return None
    alpha = subst(p, m)
    if neq:
        # runs until p == 0
        if beta == -1 and entails(st.facts, c_le(-alpha)):
            return alpha
        if beta == 1 and entails(st.facts, c_le(alpha)):
            return -alpha
        return None
    if beta == 1:
        return 1 - alpha
    return None


# ------------------------------------------------------------------------------------------- control-oriented mode

def run_ctl(E, st, fr, e, count, step, name, label):
    # closed form if the body has no events and no exits
    import models
    ev0 = E.events
    E.mode = "num"
    E.quiet += 1
    ok_ = False
    unm = dict(E.unmodelled)
    try:
        outs = summarise(E, st, fr, e, count, step, name, label)
        ok_ = E.events == ev0 and len(outs) == 1 and outs[0][1] == "val"
    except models.NeedUnroll:
        raise
    except Exception:
        ok_ = False
    finally:
        E.mode = "ctl"
        E.quiet -= 1
        if not ok_:
            E.unmodelled = unm
    if ok_:
        return outs
    # explicit counter
    cell = ("t", fr.id, "foldctr%d" % e["n"])
    s0 = st.setcell(cell, ZERO)

    def step0(s):
        j = E.read(s, Place(cell, ()))
        res = []
        for s2, b in E.split(s, c_lt(j - count)):
            if not b:
                res.append((s2, "brk", (("ctl", e["n"]), UNIT)))
                continue
            for o in step(s2, j):
                if o[1] == "val" or (o[1] == "cont" and o[2] == label):
                    cur = E.read(o[0], Place(cell, ()))
                    res.append((o[0].setcell(cell, cur + 1), "val", UNIT))
                elif o[1] == "brk" and o[2][0] == label:
                    res.append((o[0], "brk", (("ctl", e["n"]), o[2][1])))
                else:
                    res.append(o)
        return res
    return fix_ctl(E, s0, fr, e, step0, ("ctl", e["n"]), True)


def fix_ctl(E, st, fr, e, step0, label, counted=False):
    import ctl
    return ctl.fix_ctl(E, st, fr, e, step0, label, counted)
