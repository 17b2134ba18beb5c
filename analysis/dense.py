"""Dense LU: factorisation and triangular solves, decided by comparing the abstract effect of each loop
iteration with the reference elimination / substitution step on every region of the index space."""
from interp import *
import loops, models

D = "linear::dense::"
ERR = "linear::Error"


def find_method(E, adt, trait, name):
    """uid of the method `name` of `impl trait for adt`"""
    for uid, (c, b) in E.bodies.items():
        if b.get("name", b["path"].split("::")[-1]) == name and ("<%s" % adt) in b["path"] and trait in b["path"] and "{closure" not in uid:
            return uid
    return None


def enter(E, uid, names=None, setup=None):
    crate, b = E.bodies[uid]
    fr = E.frame(None, "root", uid, crate, {}, None, 0, b["path"], b.get("sp", "?"))
    st = State({})
    args = []
    for i, p in enumerate(b["params"]):
        nm = names[i] if names else (p["pat"]["name"] if p["pat"] and p["pat"]["k"] == "Binding" else "arg%d" % i)
        t = E.rty(crate, p["ty"], {})
        st, v = E.sym_of(st, t, nm)
        args.append(v)
    if setup:
        st = setup(st, args)
    outs = E.enter(b, fr, args, st, {"n": 0, "sp": "entry"})
    return st, args, outs


def the_array(v):
    """the single array inside a value, with its path"""
    r = [(p, x) for p, x in leaves(v) if isinstance(x, ArrV)]
    return r[0] if len(r) == 1 else None


def same(region, a, b, limit=3000):
    """a == b on every sub-region; returns a counterexample region or None"""
    def f(r):
        return (r.simp(a), r.simp(b))
    for r, (x, y) in for_regions(region, f, limit):
        if x != y and not r_equal(r, x, y):
            return r, x, y
    return None


def r_equal(r, x, y):
    d = x - y
    if d.is_zero():
        return True
    try:
        d = r.simp(d)
        return d.is_zero() or ratzero(d)
    except Split:
        return False


def regions_of(facts):
    rs = [Region()]
    for f in facts:
        rs = [r2 for r in rs for r2 in r.assume(f)]
    return rs


def check_eq(facts, a, b):
    if a == b:
        return None
    for r in regions_of(facts):
        x = same(r, a, b)
        if x is not None:
            return x
    return None


def facts_text(r):
    return ", ".join(sorted(show_c(f) for f in (r if isinstance(r, (tuple, list)) else r.facts)))[:400]


def short(x, n=240):
    s = show(x)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------------------------------------- setup

def check_setup(E, R, want=("L01", "L02", "L03", "L06")):
    props = ("L01", "L02", "L03", "L06")
    uid = find_method(E, "dense::Dense", "LSolver", "setup")
    if uid is None:
        for p in props:
            R.bad(p, "anchor:setup", "no LSolver::setup implementation for Dense found")
        return
    names = ["self", "A"]

    # pivot entries are row numbers k..n
    n = E.dim_of({"k": "param", "name": "D"})
    ATOM_FACTS[("base", "self.pivots")] = None
    E.obls, E.loopnodes = [], []
    pname = pivot_base(E)
    if pname is None:
        for p in props:
            R.bad(p, "anchor:pivots", "Dense has no single index array field")
        return
    ATOM_FACTS[pname] = lambda v, idx: [c_le(idx[0] - v), c_lt(v - n)]
    crate, body = E.bodies[uid]
    gen = body.get("generics")
    fn = body["path"]
    # any size, including none: no panic, and nothing to report for an empty matrix
    st0, args, outs = enter(E, uid, names)
    obligations(E, R, "L06", dict(E.unmodelled), fn)
    if not set(want) & set(props[:3]):
        return
    for s, kd, v in outs:
        if not unsat(tuple(s.facts) + (c_le(n), c_le(-n))) and not (isinstance(v, Enum) and v.variant == "Ok"):
            R.bad("L03", "setup:empty", "the factorisation of an empty matrix can return %s" % (v,), fn)
    # the algorithm itself, for at least one row
    E.obls, E.loopnodes, E.unmodelled = [], [], {}
    st0, args, outs = enter(E, uid, names, lambda st, a: st.with_fact(c_le(1 - n)))
    A0 = E.mat(st0, args[1])
    pv = the_array(E.read(st0, args[0].place))
    n = A0.dims[0]
    unmod = dict(E.unmodelled)
    nodes = list(E.loopnodes)
    kA = (args[1].place.cell, args[1].place.path)
    kP = (args[0].place.cell, args[0].place.path + pv[0])
    main = [x for x in nodes if kA in x.unresolved]
    # closed-form changes of A outside the elimination loop are not part of the algorithm
    if len(main) != 1:
        for p in props[:3]:
            R.bad(p, "setup:loop", "expected one elimination loop over the matrix in %s, found %d%s" % (fn, len(main), why(unmod)), fn)
    else:
        check_elimination(E, R, main[0], kA, kP, A0, n, st0, outs, unmod)


def pivot_base(E):
    d = E.adts.get("linear::dense::Dense")
    if not d:
        return None
    fs = d["variants"][0]["fields"]
    return ("base", "self." + fs[0]) if len(fs) == 1 else None


def why(unmod):
    return "" if not unmod else " (not understood: %s)" % "; ".join(sorted(unmod)[:4])


def obligations(E, R, prop, unmod, fn):
    nok = 0
    for o in E.obls:
        if o.ok:
            nok += 1
            R.ok(prop, "%s: %s" % (o.kind, o.text), o.sp)
        else:
            R.bad(prop, "%s:%s:%s" % (o.kind, o.fn, norm_text(o.text)), "%s obligation not met in %s: %s" % (o.kind, o.fn, o.text), o.sp)
    for w, (f, sp) in sorted(unmod.items()):
        R.bad(prop, "unmodelled:" + w, "%s in %s may panic (no model)" % (w, f), sp)
    return nok


def norm_text(t):
    import re
    return re.sub(r"~\d+", "", t)


def check_elimination(E, R, N, kA, kP, A0, n, st0, outs, unmod):
    fn = N.fn
    k = N.j
    facts = tuple(N.facts)
    props = ("L01", "L02", "L03")
    bad = lambda p, key, msg: R.bad(p, "setup:" + key, "%s%s" % (msg, why(unmod)), N.sp)
    lf = N.leaves[kA]
    if lf["init"].arr != E.read(st0, Place(*kA)).arr:
        bad("L01", "init", "the matrix is modified before the elimination loop of %s" % fn)
    d = check_eq((c_le(-n),), pmax(N.count, ZERO), n)
    if d is not None:
        for p in props:
            bad(p, "count", "elimination loop runs %s times instead of once per column (0..n) [%s]" % (show(N.count), facts_text(d[0])))
        return
    R.ok("L01", "elimination loop covers steps 0..n in ascending order", N.sp)
    if N.multi or lf["post"] is None:
        for p in props:
            bad(p, "paths", "elimination step has control paths that cannot be merged")
        return
    pre = lf["pre"].arr
    post = lf["post"].arr
    nxt = N.next[0]
    nfacts = tuple(nxt.facts)
    # --- pivot recorded for step k
    pl = N.leaves.get(kP)
    if pl is None or pl["post"] is None:
        for p in props:
            bad(p, "pivot-store", "elimination step does not record its pivot row")
        return
    P1 = pl["post"].arr
    pk = P1.get((k, ZERO), nfacts)
    frees = ("s", "r?", "i"), ("s", "c?", "i")
    r, c = atom(frees[0]), atom(frees[1])
    box = (c_le(-r), c_lt(r - n), c_le(-c), c_lt(c - n))
    Ak = lambda i, j: atom(("sel", pre, (i, j), pre.kind))
    nreg = 0
    pivots = {}
    # other pivot entries must stay
    q = atom(("s", "q?", "i"))
    try:
        dd = check_eq(nfacts + (c_le(-q), c_lt(q - n), c_not(c_eq(q - k))), P1.get((q, ZERO)), atom(("sel", pl["pre"].arr, (q, ZERO), "i")))
        if dd is not None:
            bad("L02", "pivot-other", "step k also changes the recorded pivot of another step: P[q] becomes %s [%s]" % (short(dd[1]), facts_text(dd[0])))
        for reg in regions_of(nfacts):
            for rg, pterm in for_regions(reg, lambda x: x.simp(pk)):
                check_pivot(E, bad, R, rg, pterm, k, n, Ak, N)
                # --- the elimination step itself
                S = lambda i, j: Ak(ite(c_eq(i - k), pterm, ite(c_eq(i - pterm), k, i)), j)
                piv = Ak(pterm, k)
                low = S(r, k).div(piv)
                ref = ite(c_le(r - k), S(r, c), ite(c_lt(c - k, True), S(r, c), ite(c_eq(c - k), low, S(r, c) - low * S(k, c))))
                for r2 in regions_of(tuple(rg.facts) + box):
                    def cmp(x):
                        return x.simp(post.get((r, c))), x.simp(ref)
                    for r3, (x, y) in for_regions(r2, cmp, 6000):
                        nreg += 1
                        if x != y and not r_equal(r3, x, y):
                            where = loc_text(r3, r, c, k)
                            bad("L01", "step:" + where, "elimination step k gives %s for entry (r,c) with %s, expected %s" % (short(x), where, short(y)))
    except Budget:
        bad("L01", "budget", "elimination step too complex to decide")
    R.ok("L01", "elimination step equals swap, scale and rank-one update on all %d index regions" % nreg, N.sp)
    # --- failure report
    pvterm = lambda: None
    for rg in regions_of(nfacts):
        for r1, pterm in for_regions(rg, lambda x: x.simp(pk)):
            z = c_eq(Ak(pterm, k))
            zz = r1.simp_c(z)
            if not entails(tuple(r1.facts), c_not(z)) and zz is not False:
                bad("L03", "nonzero", "elimination step continues although the pivot entry %s may be zero" % show(Ak(pterm, k)))
            else:
                R.ok("L03", "step continues only with a non-zero pivot", N.sp)
    errs = [o for o in outs if isinstance(o[2], Enum) and o[2].variant == "Err"]
    oks = [o for o in outs if isinstance(o[2], Enum) and o[2].variant == "Ok"]
    if len(errs) + len(oks) != len(outs):
        bad("L03", "results", "setup returns a result that is neither Ok nor Err on some path")
    nexit = 0
    for s, kd, v in N.exits:
        if kd not in ("ret", "done", "brk") or unsat(tuple(s.facts)):
            continue
        nexit += 1
        # the pivot row at the exit: the argmax symbol of this run
        ent = exit_zero(E, s, k, n, Ak, pk, N)
        if not ent:
            bad("L03", "exit-cond", "the elimination loop is left although the pivot entry need not be zero: %s" % ", ".join(show_c(f) for f in s.facts if f not in facts))
        else:
            R.ok("L03", "loop exit implies a zero pivot", N.sp)
        a = E.read(s, Place(*kA))
        if isinstance(a, ArrV) and has_inverse(a.arr):
            bad("L03", "div-first", "the pivot is divided by before the zero test")
    if nexit == 0:
        bad("L03", "no-exit", "no failure exit for a zero pivot in the elimination loop")
    for s, kd, v in errs:
        e = v.fields[0][1]
        col = fget(e, "col") if isinstance(e, Enum) else None
        if not isinstance(e, Enum) or e.adt != ERR or e.variant != "LUFactFail" or not isinstance(col, Poly):
            bad("L03", "err-kind", "setup fails with %s instead of LUFactFail" % (e,))
            continue
        if check_eq(tuple(s.facts), col, k + 1) is not None:
            bad("L03", "err-col", "setup reports column %s for a zero pivot in step k (expected k+1)" % show(col))
        else:
            R.ok("L03", "reported column is k+1", N.sp)
        if k.single() not in set().union(*[atoms_of(f) for f in s.facts]) if s.facts else True:
            bad("L03", "err-path", "setup fails on a path that does not come from the zero-pivot exit")
    if not errs:
        bad("L03", "err-lost", "a zero pivot does not make setup fail")
    for s, kd, v in oks:
        a, p = E.read(s, Place(*kA)), E.read(s, Place(*kP))
        if a == lf["out"] and p == pl["out"]:
            R.ok("L01", "matrix and pivots returned unchanged after the loop", N.sp)
            R.ok("L03", "success only after all steps", N.sp)
            if k.single() in set().union(set(), *[atoms_of(f) for f in s.facts]):
                bad("L03", "ok-exit", "setup reports success from inside the elimination loop")
            continue
        if entails(tuple(s.facts) + (c_le(-n),), c_le(n)) or (not any(True for f in s.facts) and False):
            continue
        inloop = k.single() in set().union(set(), *[atoms_of(f) for f in s.facts])
        bad("L03" if inloop or a == lf["init"] else "L01", "ok-state", "setup reports success with a matrix that is not the result of all elimination steps")
        if p != pl["out"]:
            bad("L02", "ok-pivots", "the recorded pivots are changed after the elimination loop")


def loc_text(reg, r, c, k):
    t = []
    for a, b, nm in ((r, k, "r?k"), (c, k, "c?k")):
        if entails(tuple(reg.facts), c_lt(a - b, True)):
            t.append(nm.replace("?", "<"))
        elif entails(tuple(reg.facts), c_lt(b - a, True)):
            t.append(nm.replace("?", ">"))
        elif reg.simp(a - b).is_zero():
            t.append(nm.replace("?", "="))
    return " ".join(t) or "any position"


def has_inverse(arr):
    for a in atoms_of(arr):
        pass
    def go(x):
        if isinstance(x, Poly):
            return any(e < 0 for m, co in x.t for a, e in m) or any(go(y) for m, co in x.t for a, e in m for y in a[1:-1])
        if isinstance(x, Arr):
            return any(go(v) for g, v in x.nodes)
        if isinstance(x, tuple):
            return any(go(y) for y in x if isinstance(y, (Poly, Arr, tuple)))
        return False
    return go(arr)


def argmax_row(E, p):
    """(search atom, offset) of a row number"""
    for m, c in p.t:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in E.argmax:
            off = p - Poly({m: c})
            if not any(a in E.argmax for a in atoms_of(off)):
                return m[0][0], off
    return None, None


def covers(E, rg, pterm, k, n, Ak):
    """does pterm denote a row of largest |A(.,k)| in [k,n)?  -> None or reason"""
    a, off = argmax_row(E, pterm)
    f = tuple(rg.facts)
    if a is None:
        if entails(f, c_le(n - k - 1)) and rg.simp(pterm - k).is_zero():
            return None
        return "pivot row %s is not a maximum over the remaining rows" % short(pterm)
    d = E.argmax[a]
    lo, hi, init = d["lo"] + off, d["hi"] + off, d.get("init")
    init = init + off if isinstance(init, Poly) else init
    low_ok = entails(f, c_le(lo - k)) or (init is not None and d.get("incov", True) and entails(f, c_le(lo - k - 1)) and rg.simp(init - k).is_zero())
    if not low_ok:
        return "pivot search starts at row %s, leaving out rows from k" % show(lo)
    if not entails(f, c_le(n - hi)):
        return "pivot search ends before row %s instead of the last row" % show(hi)
    if not entails(f, c_le(k - lo)) or not entails(f, c_le(hi - n)):
        return "pivot search covers rows outside k..n"
    ii = d.get("initidx")
    ii = ii + off if isinstance(ii, Poly) else ii
    if ii is not None and not (entails(f, c_le(k - ii)) and entails(f, c_lt(ii - n, True))):
        return "pivot search starts from row %s outside k..n" % show(ii)
    x = sym("x?")
    key = d["key"](x - off)
    want = pabs(Ak(x, k))
    for r2 in regions_of(f + (c_le(k - x), c_lt(x - n))):
        if r2.simp(key) not in (r2.simp(want), r2.simp(want * want)):
            return "pivot search compares %s instead of |A(i,k)|" % short(key)
    return None


def check_pivot(E, bad, R, rg, pterm, k, n, Ak, N):
    w = covers(E, rg, pterm, k, n, Ak)
    if w:
        bad("L02", "search:" + norm_text(w)[:60], w)
    else:
        R.ok("L02", "recorded pivot row is an argmax of |A(i,k)| over i in k..n", N.sp)


def exit_zero(E, s, k, n, Ak, pk, N):
    """the facts of the exit imply that the pivot entry is zero"""
    f = tuple(s.facts)
    for rg in regions_of(tuple(N.next[0].facts)):
        try:
            ps = [p for _, p in for_regions(rg, lambda x: x.simp(pk))]
        except Budget:
            return False
        for p in ps:
            if entails(f, c_eq(Ak(p, k))):
                return True
    # largest entry tested through its value
    for x in f:
        if x[0] == 'eq' and x[1].is_mono():
            at = x[1].single()
            if at and at[0] == 'sel' and at[1].base == Ak(k, k).single()[1].base and argmax_row(E, at[2][0])[0] is not None and at[2][1] == k:
                if covers(E, Region(f), at[2][0], k, n, Ak) is None:
                    return True
    return False


# ------------------------------------------------------------------------------------------------- solve

class Ref:
    pass


def ref_stages(n, LU, Pv):
    """reference stages: name -> step(t, x) returning the new element function of the row variable"""
    V0 = ZERO

    def perm(t, X, i):
        p = atom(("sel", Pv, (t, V0), "i"))
        return X(ite(c_eq(i - t), p, ite(c_eq(i - p), t, i)))

    def fwd_col(t, X, i):
        return ite(c_le(i - t), X(i), X(i) - LU(i, t) * X(t))

    def fwd_row(t, X, i):
        s = ('s', '%rr', 'i')
        return ite(c_eq(i - t), X(t) - mk_sum(ZERO, t, LU(t, atom(s)) * X(atom(s)), s), X(i))

    def bwd_col(t, X, i):
        k = n - 1 - t
        xk = X(k).div(LU(k, k))
        return ite(c_lt(i - k, True), X(i) - LU(i, k) * xk, ite(c_eq(i - k), xk, X(i)))

    def bwd_row(t, X, i):
        k = n - 1 - t
        s = ('s', '%rr', 'i')
        return ite(c_eq(i - k), (X(k) - mk_sum(ZERO, n - k - 1, LU(k, k + 1 + atom(s)) * X(k + 1 + atom(s)), s)).div(LU(k, k)), X(i))
    return [("row interchanges", [perm]), ("forward substitution", [fwd_col, fwd_row]), ("back substitution", [bwd_col, bwd_row])]


def check_solve(E, R, want=("L04", "L05", "L06")):
    props = ("L04", "L05", "L06")
    uid = find_method(E, "dense::Dense", "LSolver", "solve")
    if uid is None:
        for p in props:
            R.bad(p, "anchor:solve", "no LSolver::solve implementation for Dense found")
        return
    pname = pivot_base(E)
    n = E.dim_of({"k": "param", "name": "D"})
    if pname:
        ATOM_FACTS[pname] = lambda v, idx: [c_le(idx[0] - v), c_lt(v - n)]
    E.obls, E.loopnodes, E.unmodelled = [], [], {}
    crate, body = E.bodies[uid]
    fn = body["path"]
    names = ["self", "A", "x", "b", "tol"]
    # any size, including none: no panic, no failure
    st0, args, outs = enter(E, uid, names)
    obligations(E, R, "L06", dict(E.unmodelled), fn)
    for s, kd, v in outs:
        if not unsat(s.facts) and not (isinstance(v, Enum) and v.variant == "Ok"):
            R.bad("L04", "solve:fails", "the dense solve can return %s" % (v,), fn)
    if not set(want) & set(props[:2]):
        return
    # the solution, for at least one row
    E.obls, E.loopnodes, E.unmodelled = [], [], {}
    E.stale_hits = {}

    def prep(st, a):
        v = E.read(st, a[2].place)
        E.stale = frozenset([v.arr.base]) if isinstance(v, ArrV) else frozenset()
        return st.with_fact(c_le(1 - n))
    st0, args, outs = enter(E, uid, names, prep)
    E.stale = frozenset()
    for (f, sp), l in sorted(E.stale_hits.items(), key=str):
        R.bad("L05", "solve:stale-arithmetic:" + f, "an element of the output vector from before the call enters the arithmetic and vanishes only by cancellation (not if it is NaN or infinite)", sp)
    if not E.stale_hits:
        R.ok("L05", "no arithmetic uses an element the output vector held before the call", fn)
    unmod = dict(E.unmodelled)
    kx = (args[2].place.cell, args[2].place.path)
    ka = (args[1].place.cell, args[1].place.path)
    kb = (args[3].place.cell, args[3].place.path)
    ks = (args[0].place.cell, args[0].place.path)
    A = E.read(st0, Place(*ka)).arr
    b = E.read(st0, Place(*kb)).arr
    x0 = E.read(st0, Place(*kx)).arr
    pp = the_array(E.read(st0, Place(*ks)))
    if pp is None:
        R.bad("L04", "anchor:pivots", "no pivot array")
        return
    Pv = pp[1].arr
    bad = lambda p, key, msg, sp=None: R.bad(p, "solve:" + key, msg + why(unmod), sp or fn)
    oks = 0
    for s, kd, v in outs:
        if not (isinstance(v, Enum) and v.variant == "Ok"):
            bad("L04", "fails", "the dense solve can return %s" % (v,))
            continue
        oks += 1
        for nm, key, val in (("matrix", ka, E.read(st0, Place(*ka))), ("right-hand side", kb, E.read(st0, Place(*kb))), ("solver (pivots)", ks, E.read(st0, Place(*ks)))):
            if E.read(s, Place(*key)) != val:
                bad("L05", "modifies:" + nm, "the solve modifies the %s" % nm)
            else:
                R.ok("L05", "%s unchanged" % nm, fn)
        match_solve(E, R, bad, s, kx, A, b, x0, Pv, n)
    if not oks:
        bad("L04", "no-success", "the dense solve never succeeds")


def segments(E, s, kx, x0):
    """sequence of ('upd', arr, base) / ('loop', node) that produces the final x, oldest first"""
    cur = E.read(s, Place(*kx))
    nodes = {}
    for N in E.loopnodes:
        for key, l in N.leaves.items():
            if isinstance(l["out"], ArrV):
                nodes[l["out"].arr.base] = (N, key)
    seq = []
    guard = 0
    while True:
        guard += 1
        if guard > 50 or not isinstance(cur, ArrV):
            return None
        a = cur.arr
        if a.nodes:
            seq.append(("upd", a))
        if a.base in nodes:
            N, key = nodes[a.base]
            if N.leaves[key]["closed"]:
                return None
            seq.append(("loop", N, key))
            cur = N.leaves[key]["init"]
            continue
        seq.append(("start", a.base))
        break
    seq.reverse()
    return seq


def match_solve(E, R, bad, s, kx, A, b, x0, Pv, n):
    seq = segments(E, s, kx, x0)
    if seq is None:
        bad("L04", "shape", "the solution is not produced by a recognisable sequence of loops")
        return
    i = atom(("s", "i?", "i"))
    box = (c_le(-i), c_lt(i - n), c_le(-n))
    LU = lambda r, c: atom(("sel", A, (r, c), A.kind))
    start = seq[0][1]
    rest = seq[1:]
    # initial content must be b
    first = None
    if start == b.base:
        pass
    elif rest and rest[0][0] == "upd":
        a = rest[0][1]
        d = None
        try:
            d = check_eq(box, a.get((i, ZERO)), atom(("sel", b, (i, ZERO), b.kind)))
        except Budget:
            d = (Region(), ZERO, ZERO)
        if d is not None:
            # maybe a copy combined with the first update; decide what is wrong
            stale = x0.base in bases_of(d[1]) or start == x0.base and d[1] is not None and x0.base in bases_of(d[1])
            bad("L05" if stale else "L04", "copy", "before the substitutions entry i of the output holds %s instead of b[i] [%s]" % (short(d[1]), facts_text(d[0])))
            if stale:
                bad("L04", "copy", "the right-hand side is not completely copied into the output")
            return
        R.ok("L05", "every entry of the output is overwritten with the right-hand side first", "")
        rest = rest[1:]
    else:
        bad("L05", "copy", "the output vector is used before it is overwritten with the right-hand side")
        bad("L04", "copy", "the output vector is used before it is overwritten with the right-hand side")
        return
    stages = ref_stages(n, LU, Pv)
    si, t = 0, ZERO
    # normalise: walk the code's segments through the reference iterations
    for seg in rest:
        if seg[0] == "loop":
            N, key = seg[1], seg[2]
            if N.multi or N.exits or N.leaves[key]["post"] is None:
                bad("L04", "paths", "a substitution loop has exits or paths that cannot be merged", N.sp)
                return
            pre, post = N.leaves[key]["pre"].arr, N.leaves[key]["post"].arr
            j, C, facts, sp = N.j, N.count, tuple(N.facts), N.sp
        else:
            a = seg[1]
            pre, post = Arr(a.base, a.nd, a.kind), a
            j, C, facts, sp = ZERO, ONE, (), None
        others = [kk for kk in (seg[1].unresolved if seg[0] == "loop" else []) if kk != seg[2]]
        got = None
        fails = []
        for sj in range(si, len(stages)):
            t0 = t if sj == si else ZERO
            ok_skip = sj == si or (identity_rest(stages[si], t, n, A, Pv) and all(identity_rest(stages[q], ZERO, n, A, Pv) for q in range(si + 1, sj)))
            if not ok_skip:
                fails.append("the %s is incomplete (steps from %s to n are missing)" % (stages[si][0], show(t)))
                break
            for dt in (0, 1):
                tt = t0 + dt
                if dt and not identity_steps(stages[sj], t0, tt, n, A, Pv):
                    continue
                for step in stages[sj][1]:
                    w = match_step(step, pre, post, facts, j, C, tt, n, i, seg[0] == "upd")
                    if w is None:
                        got = (sj, tt + C)
                        break
                    fails.append("%s, %s" % (stages[sj][0], w))
                if got:
                    break
            if got:
                break
        if not got:
            f = best(fails, stages, si)
            bad("L04", "stage:%s" % stages[si][0], "substitution segment does not perform the expected step: %s" % f, sp)
            return
        si, t = got
        R.ok("L04", "segment matches %s up to step %s" % (stages[si][0], show(t)), sp or "")
    for q in range(si, len(stages)):
        if not identity_rest(stages[q], t if q == si else ZERO, n, A, Pv):
            bad("L04", "incomplete:%s" % stages[q][0], "the %s stops after step %s of n" % (stages[q][0], show(t if q == si else ZERO)))
            return
    R.ok("L04", "all three stages complete", "")
    R.ok("L05", "result depends only on matrix, pivots and right-hand side", "")


def best(fails, stages, si):
    return fails[0] if fails else "?"


def sel1(base_arr):
    return lambda idx: atom(("sel", base_arr, (idx, ZERO), base_arr.kind))


def match_step(step, pre, post, facts, j, C, t0, n, i, single):
    """None if iteration j of the code equals reference iteration t0+j for all j in [0,C)"""
    X = sel1(pre)
    box = facts + (c_le(-i), c_lt(i - n), c_le(-n))
    tj = t0 + j
    # the reference must have this iteration (or the code's iteration must be the identity)
    ref = ite(c_lt(tj - n, True), step(tj, X, i), X(i))
    try:
        d = check_eq(box, post.get((i, ZERO)), ref)
    except Budget:
        return "too complex to decide"
    if d is None:
        return None
    return "entry i becomes %s, expected %s [%s]" % (short(d[1]), short(d[2]), facts_text(d[0]))


def identity_steps(stage, a, b, n, A, Pv):
    """reference iterations a..b (within 0..n) change nothing"""
    t = atom(("s", "t?", "i"))
    i = atom(("s", "i?", "i"))
    xb = Arr(("base", "x?"), 2, "r")
    X = sel1(xb)
    f = (c_le(a - t), c_lt(t - b), c_lt(t - n), c_le(-t), c_le(-i), c_lt(i - n), c_le(-n))
    if unsat(f):
        return True
    for step in stage[1]:
        try:
            if check_eq(f, step(t, X, i), X(i)) is None:
                return True
        except Budget:
            pass
    return False


def identity_rest(stage, t, n, A, Pv):
    return identity_steps(stage, t, n, n, A, Pv)
