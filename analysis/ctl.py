"""Fixpoint over loop-head states for control-oriented analyses (the Newton solver).

A head state is a discrete part (control bits, enum variants, closures, which vector holds which value number)
plus a conjunction of difference constraints over the integer leaves that change in the loop.  States with
different discrete parts are kept apart, states with equal discrete parts are joined, so the number of heads is
finite and the iteration ends."""
from loops import *


class EventInNum(Exception):
    """a callback was reached while a loop was being summarised numerically"""


class Head:
    __slots__ = ("state", "gen", "cons", "fam", "vals", "joins", "key", "sfacts")


TICK = "tk"


def slots(st):
    out = {}
    for c, v in st.store.items():
        for p, x in leaves(v):
            out[("st", c, p)] = x
    for k, v in st.ghost.items():
        if isinstance(v, (Poly, ArrV)):
            out[("g", k, ())] = v
    return out


def setslot(E, st, slot, v):
    if slot[0] == "g":
        return st.setghost(**{slot[1]: v})
    root = st.store[slot[1]]
    return st.setcell(slot[1], set_path(root, slot[2], v))


def sname(slot):
    if slot[0] == "g":
        return "g:" + slot[1]
    return leafname(slot[1:])


def bool_split(E, st):
    """case split until every boolean leaf is a constant"""
    work, out = [st], []
    while work:
        s = work.pop()
        for sl, v in slots(s).items():
            if is_bool(v) and v is not True and v is not False:
                d = decide(s.facts, v)
                if d is not None:
                    work.append(setslot(E, s, sl, d))
                else:
                    q, E.quiet = E.quiet, 0
                    E.history_check(s, v)
                    E.quiet = q
                    for b in (True, False):
                        f = v if b else c_not(v)
                        s2 = s.with_fact(f)
                        if not unsat(s2.facts):
                            work.append(setslot(E, s2, sl, b))
                break
        else:
            out.append(s)
    return out


def clean_temps(s, st):
    ref = referenced(st)
    d = dict(s.store)
    for c in list(d):
        if c not in st.store:
            del d[c]
        elif c[0] == "t" and c not in ref and not str(c[2]).startswith("fold"):
            d[c] = st.store[c]
    return State(d, s.facts, s.ghost)


def content(E, st, av):
    """normalised element term of a column vector at a generic index"""
    i = atom(("s", "i!", "i"))
    idx = (i,) + (ZERO,) * (av.arr.nd - 1)
    t = av.arr.get(idx)
    f = (c_le(-i), c_lt(i - av.dims[0], True))
    r = Region()
    try:
        for c in f:
            rs = r.add(c)
            r = rs[0]
        xs = for_regions(r, lambda x: x.simp(t), 40)
        vals = {x for _, x in xs}
        if len(vals) == 1:
            return vals.pop()
    except (Budget, Split, IndexError):
        pass
    return t


def init_atoms(E, st):
    """atoms and array bases that exist when the loop is entered"""
    out = set()
    for v in slots(st).values():
        if isinstance(v, Poly):
            out |= atoms_of(v)
        elif isinstance(v, ArrV):
            out |= atoms_of(v.arr)
            out.add(v.arr.base)
    for f in st.facts:
        out |= atoms_of(f)
    for t in E.ctl_terms:
        out |= atoms_of(t)
    out |= E.ctl_stable
    return out


def canon(E, s, st, loopid, stable):
    """-> (discrete key, state with canonical arrays, {slot: int value}, {slot: real value})"""
    s = clean_temps(s, st)
    sl = slots(s)
    order = sorted(sl, key=str)
    # ---- arrays: value numbers
    cls, names = {}, {}
    ren = {}

    def classify_arr(t, dims, kind, nd):
        a = t.single()
        i = atom(("s", "i!", "i"))
        if a is not None and a[0] == 'sel' and a[2][0] == i and not a[1].nodes:
            b = a[1].base
            if b in E.fcontent:
                inner = classify_arr(E.fcontent[b], dims, kind, nd)
                return ("F", inner)
            if b in stable:
                return ("init", b)
        if not (atoms_of(t) - stable - {("s", "i!", "i")}) and all(b in stable for b in bases_of(t)):
            return ("term", t)
        if t not in names:
            names[t] = len(names)
        return ("C", names[t])

    def build(c):
        """canonical content term of a class"""
        i = atom(("s", "i!", "i"))
        if c[0] == "init":
            return atom(("sel", Arr(c[1], 2, "r"), (i, ZERO), "r"))
        if c[0] == "term":
            return c[1]
        if c[0] == "F":
            return atom(("sel", Arr(E.fbase(build(c[1])), 2, "r"), (i, ZERO), "r"))
        return atom(("sel", Arr(("base", "h%s.V%d" % (loopid, c[1])), 2, "r"), (i, ZERO), "r"))

    s2 = s
    key = []
    ints, reals = {}, {}
    for k in order:
        v = sl[k]
        if isinstance(v, ArrV):
            if v.arr.nd != 2 or v.arr.kind != "r":
                key.append((k, "arr", v))
                continue
            c = classify_arr(content(E, s, v), v.dims, v.arr.kind, v.arr.nd)
            key.append((k, c))
            if c[0] == "init":
                na = Arr(c[1], 2, "r")
            elif c[0] == "F":
                na = Arr(E.fbase(build(c[1])), 2, "r")
            elif c[0] == "C":
                na = Arr(("base", "h%s.V%d" % (loopid, c[1])), 2, "r")
            else:
                na = lam(2, "r", subst(c[1], {("s", "i!", "i"): bv(0)}))
            s2 = setslot(E, s2, k, ArrV(na, v.dims))
        elif isinstance(v, Poly):
            if v.kind() == "i":
                ints[k] = v
            else:
                reals[k] = v
            key.append((k, v.kind()))
        else:
            key.append((k, v))
    for c, v in sorted(s.store.items(), key=lambda x: str(x[0])):
        key.append((c, skel(v)))
    for k, v in sorted(s.ghost.items()):
        if not isinstance(v, (Poly, ArrV)) and k != "trace":
            key.append((k, v))
    return tuple(key), s2, ints, reals


def fam_of(E, p):
    """how a term depends on the counters' values at function entry: {initial symbol: coefficient}"""
    out = {}
    for m, c in p.t:
        for a, ex in m:
            if a in E.fam:
                fa = E.fam[a]
            elif a in E.hist:
                fa = {a: 1}
            else:
                fa = {}
                inner = set()
                if a[0] not in ('s',):
                    for b in atoms_of(atom(a)):
                        if b != a and (b in E.hist or E.fam.get(b)):
                            inner.add(b)
                if inner:
                    fa = {"?": 1}
            if fa:
                if len(m) != 1 or ex != 1 or "?" in fa:
                    out["?"] = 1
                else:
                    for x, y in fa.items():
                        out[x] = out.get(x, 0) + y * c
    return {x: y for x, y in out.items() if y != 0}


def le_const(facts, p, c):
    """facts |= p <= c"""
    if p.is_const():
        return p.const() <= c
    return entails(facts, c_le(p - c))


def constraints(E, facts, vals, gen, terms, only=None):
    """difference constraints over the generalised slots that hold in one state"""
    out = set()
    G = sorted(gen, key=str)
    T = [("T", t) for t in terms]

    def val(x):
        return x[1] if x[0] == "T" else vals[x]
    if only is not None:
        for c in only:
            if c[0] == "z":
                if le_const(facts, val(c[1]) - val(c[2]), c[3]):
                    out.add(c)
            else:
                d = vals[c[1]] - vals[c[2]] + vals[c[3]] - c[4]
                if d.is_zero() or entails(facts, c_eq(d)):
                    out.add(c)
        # weaker bounds for the ones that failed
        for c in only:
            if c[0] == "z" and c not in out:
                d = val(c[1]) - val(c[2])
                for k in range(c[3] + 1, 3):
                    if le_const(facts, d, k):
                        out.add(("z", c[1], c[2], k))
                        break
        return out
    for x in G:
        for y in G + T:
            if x == y:
                continue
            for a, b in ((x, y), (y, x)) if y[0] == "T" else ((x, y),):
                d = val(a) - val(b)
                if d.is_const():
                    if -2 <= d.const() <= 2:
                        out.add(("z", a, b, int(d.const())))
                    elif d.const() < -2:
                        out.add(("z", a, b, -2))
                    continue
                for k in (-2, -1, 0, 1, 2):
                    if le_const(facts, d, k):
                        out.add(("z", a, b, k))
                        break
    it = ("g", "it", ())
    if it in gen:
        for x in G:
            for y in list(vals):
                if len({x, y, it}) == 3:
                    d = vals[it] - vals[x] + vals[y]
                    for k in (-1, 0, 1):
                        e = d - k
                        if e.is_zero() or (not e.is_const() and entails(facts, c_eq(e))):
                            out.add(("3", it, x, y, k))
                            break
    return out


def make_head(E, key, s2, st, ints, reals, gen, cons, loopid, fams, sfacts):
    h = Head()
    h.sfacts = frozenset(sfacts)
    h.key, h.gen, h.cons, h.fam = key, frozenset(gen), frozenset(cons), fams
    s = State(s2.store, st.facts, s2.ghost)
    for f in sorted(sfacts, key=str):
        s = s.with_fact(f)
    vals = {}
    for k in sorted(ints, key=str):
        v = ints[k]
        if k in gen:
            v = sym("h%s.%s" % (loopid, sname(k)), "i")
            s = setslot(E, s, k, v)
            if fams.get(k):
                E.fam[v.single()] = fams[k]
            else:
                E.fam.pop(v.single(), None)
        vals[k] = v
    for k in reals:
        if k in gen:
            s = setslot(E, s, k, sym("h%s.%s" % (loopid, sname(k)), "r"))
    h.vals = vals

    def val(x):
        return x[1] if x[0] == "T" else vals[x]
    for c in sorted(cons, key=str):
        if c[0] == "z":
            s = s.with_fact(c_le(val(c[1]) - val(c[2]) - c[3]))
        else:
            s = s.with_fact(c_eq(vals[c[1]] - vals[c[2]] + vals[c[3]] - c[4]))
    tk = TICK + str(loopid)
    g = dict(s.ghost)
    g[tk] = False
    h.state = State(s.store, s.facts, g)
    return h


def fix_ctl(E, st, fr, e, step0, label, counted=False):
    loopid = "%d_%d" % (fr.id, e["n"])
    tk = TICK + loopid
    E.ctl_loops.add((fr.fn, e.get("sp")))
    stable = init_atoms(E, st)
    terms = [ZERO] + list(E.ctl_terms)
    for sl, v in slots(st).items():
        if isinstance(v, Poly) and v.kind() == "i" and v.single() is not None and v not in terms:
            terms.append(v)
    heads, work = {}, []

    def arrive(s):
        s = State(s.store, s.facts, {k: v for k, v in s.ghost.items() if k != tk})
        for b in bool_split(E, s):
            key, s2, ints, reals = canon(E, b, st, loopid, stable)
            gen = {k for k, v in list(ints.items()) + list(reals.items()) if (atoms_of(v) - stable) or any(x not in stable for x in bases_of(v))}
            fams = {k: fam_of(E, v) for k, v in ints.items()}
            old = heads.get(key)
            sf = {f for f in b.facts if f not in st.facts and not (atoms_of(f) - stable)}
            if old is not None:
                sf = {f for f in old.sfacts if f in sf or entails(b.facts, f)}
            if old is None:
                cons = constraints(E, b.facts, ints, [k for k in gen if k in ints], terms)
                h = make_head(E, key, s2, st, ints, reals, gen, cons, loopid, fams, sf)
                h.joins = 0
            else:
                ov = slots(old.state)
                gen |= old.gen
                for k, v in list(ints.items()) + list(reals.items()):
                    if ov[k] != v:
                        gen.add(k)
                gi = [k for k in gen if k in ints]
                if set(gi) - old.gen:
                    c1 = constraints(E, old.state.facts, old.vals, gi, terms)
                    cons = join_cons(c1, constraints(E, b.facts, ints, gi, terms))
                else:
                    cons = constraints(E, b.facts, ints, gi, terms, only=old.cons)
                    if old.joins > 6:
                        cons = {c for c in cons if c in old.cons}
                fj = {k: (fams[k] if fams[k] == old.fam.get(k, {}) else {"?": 1}) for k in ints}
                if frozenset(gen) == old.gen and frozenset(cons) == old.cons and fj == old.fam and frozenset(sf) == old.sfacts:
                    continue
                h = make_head(E, key, s2, st, ints, reals, gen, cons, loopid, fj, sf)
                h.joins = old.joins + 1
            heads[key] = h
            if key not in work:
                work.append(key)
        if len(heads) > 400:
            raise Undecided_("too many loop head states in " + fr.fn)

    def out(s):
        return State(s.store, s.facts, {k: v for k, v in s.ghost.items() if k != tk})

    E.quiet += 1
    try:
        arrive(st)
        n = 0
        while work:
            n += 1
            if n > 2000:
                raise Undecided_("loop analysis does not stabilise in " + fr.fn)
            h = heads[work.pop(0)]
            nxt, ex = classify(step0(h.state), label)
            for s in nxt:
                if not unsat(s.facts):
                    arrive(s)
    finally:
        E.quiet -= 1
    res = []
    for key, h in heads.items():
        E.ctl_heads += 1
        if E.dbg and E.quiet == 0:
            print("HEAD", e.get("sp"), {k: v for k, v in h.state.ghost.items() if k not in ("Fx",)})
            for f in h.state.facts:
                print("     ", show_c(f))
            print("   gen", [sname(x) for x in h.gen])
        nxt, ex = classify(step0(h.state), label)
        for s in nxt:
            if not counted and not unsat(s.facts) and s.ghost.get(tk) is False and E.quiet == 0:
                E.no_progress(s, fr, e)
        for s, k, v in ex:
            if unsat(s.facts):
                continue
            res.append((restrict(out(s), st), "val" if k == "done" else k, v))
    return E.join(res, st)


def join_cons(a, b):
    """pairwise: the weaker of two bounds for the same pair"""
    za = {(c[1], c[2]): c[3] for c in a if c[0] == "z"}
    zb = {(c[1], c[2]): c[3] for c in b if c[0] == "z"}
    out = {("z",) + k + (max(za[k], zb[k]),) for k in za if k in zb}
    out |= {c for c in a if c[0] == "3" and c in b}
    return out


class Undecided_(Exception):
    pass


def numeric_loop(E, st, fr, e, body, label):
    """closed form of a loop without callbacks, or None"""
    import loops
    E.mode = "num"
    E.quiet += 1
    unm = dict(E.unmodelled)
    try:
        outs = loops.loop(E, dict(e), st, fr, label)
        if len(outs) == 1 and outs[0][1] == "val" and len(E.unmodelled) == len(unm):
            return outs
        return None
    except (EventInNum, Exception):
        return None
    finally:
        E.mode = "ctl"
        E.quiet -= 1
        E.unmodelled = unm
