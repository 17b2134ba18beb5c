"""Checks of the driver of the integrator (S08 work limits, S14 root finding, S18 first step): solve with the functions
it drives (step, the stopping tests, the root checks, interpolation) as nondeterministic automata, its loop cut
inductively."""
import itertools
from fractions import Fraction
from values import *
import terms, models, loops, nd, dense
from dense import check_eq, facts_text, short
from ida import Obj, Missing, run, get, snapshot, user_err, ret, deref, havoc_mat
from schecks import Chk, need, vec, rng, at, unchanged, events, I, diff
from schecks2 import variant, inner, task, interpolant, compare, TOUT, HH, TN, TS
import ida

STATUS = ("ContinueSteps", "Success", "TStop", "Root")


def adt_of(E, name, var):
    for k, d in E.adts.items():
        if k.split("::")[-1] == name and var in [v["name"] for v in d["variants"]]:
            return k
    raise Missing("%s::%s" % (name, var))


class Driver:
    """solve, from one class of states, with everything it drives nondeterministic"""

    def __init__(self, E, O, mode, first, tstop=False, roots=False, **kw):
        self.E, self.mode, self.first = E, mode, first
        self.tag = "%s, %s%s%s" % (mode, "before the first step" if first else "after a step", ", stop time set" if tstop else "", ", root functions" if roots else "")
        f = dict(ida_tstop=some(TS) if tstop else NONE)
        f["counters__ida_nst"] = ZERO if first else sym("nst", "i")
        if not roots:
            f["ida_nrtfn"] = ZERO
        f.update(kw)
        self.uid = need(E, "ida::Ida", "solve")
        self.st, self.me = O.state(**f)
        self.cell, self.t0 = ("p", "tret"), sym("tret0", "r")
        st = self.st.setcell(self.cell, self.t0)
        self.nst = f["counters__ida_nst"]
        if not first:
            st = st.with_fact(c_le(ONE - self.nst))
        if roots:
            st = st.with_fact(c_le(ONE - get(E.read(st, self.me.place), "ida_nrtfn")))
        self.obj = E.read(st, self.me.place)
        self.facts = st.facts
        self.heads_seen = []
        self.names = {}

        def heads(E, st, h, names):
            self.names.update(names)
            res = []
            for nst in ((ZERO, self.nst) if first else (self.nst,)):
                o = self.obj
                if nst != self.nst or first:
                    o = set_(o, "counters.ida_nst", nst)
                # inside the loop every field may hold anything, except those no function of the loop writes
                g = h.setcell(self.me.place.cell, fresh_like(E, o, "h", KEEP))
                for k in names.values():
                    v = E.read(g, Place(*k))
                    if isinstance(v, Poly) and v.kind() == "i":
                        g = g.with_fact(c_le(-v))
                g = State(g.store, tuple(x for x in g.facts if x in self.facts or any(a in terms.atoms_of(x) for a in self.locals_(E, g))), g.ghost).setghost(ev=(), hd=len(self.heads_seen))
                self.heads_seen.append(g)
                res.append((self.tag, g))
            return res

        cut = self.cut = ida.Cut(self.me.place.cell, self.uid, heads)
        cut.only = self.uid
        cut.keys = []
        cut.once = True
        old = dict(E.hooks)
        self.install(E)
        E.cut, E.paths = cut, True
        try:
            outs = run(E, self.uid, st, [self.me, TOUT, Ref(Place(self.cell, ()), True), task(E, mode)])
        finally:
            E.cut, E.paths = None, False
            E.hooks.clear()
            E.hooks.update(old)
        if not cut.entries:
            raise Missing("the step loop of solve")
        # outcomes before the loop, and outcomes of one generic iteration
        self.before = [o for o in outs if "head" not in o[0].ghost]
        self.inside = [o for o in outs if "head" in o[0].ghost]

    def obj_flag(self, name):
        x = get(self.obj, name)
        return x[1]

    def locals_(self, E, g):
        vs = [E.read(g, Place(*k)) for k in self.names.values()]
        return {v.single() for v in vs if isinstance(v, Poly) and not v.is_const()}

    def install(self, E):
        H = E.hooks
        me = self.me

        def havoc(st, tag, keep=()):
            E.evn += 1
            return st.setcell(me.place.cell, fresh_like(E, E.read(st, me.place), "%s~%d" % (tag, E.evn), KEEP + tuple(keep)))

        def step(E, st, fr, a, e, c):
            st = E.event(st, "step", (E.read(st, me.place),))
            n = get(E.read(st, me.place), "counters.ida_nst")
            s1 = havoc(st, "step")
            s1 = s1.setcell(me.place.cell, set_(E.read(s1, me.place), "counters.ida_nst", n + 1))
            return [(E.event(s1, "step.ok"), "val", ok(UNIT)), (E.event(havoc(st, "step"), "step.err"), "val", user_err("step"))]

        def solution(E, st, fr, a, e, c):
            t = a[1]
            st = E.event(st, "get_solution", (t,))
            v = E.read(st, me.place)
            E.evn += 1
            for nm in ("ida_yy", "ida_yp"):
                x = get(v, "nlp." + nm)
                v = set_(v, "nlp." + nm, ArrV(Arr(E.fnbase("interp." + nm, (t, E.evn)), 1, "r"), x.dims))
            return [(E.event(st.setcell(me.place.cell, v), "sol.ok"), "val", ok(UNIT)), (E.event(st, "sol.err"), "val", user_err("get_solution"))]

        def stop(which):
            adt = adt_of(E, "IdaSolveStatus", "ContinueSteps")

            def h(E, st, fr, a, e, c):
                st = E.event(st, "stop%d" % which, (a[1], a[3], E.read(st, me.place)))
                r = []
                for v in ("ContinueSteps", "Success", "TStop"):
                    s = havoc(st, "stop")
                    s = s.setcell(me.place.cell, set_(E.read(s, me.place), "counters.ida_nst", get(E.read(st, me.place), "counters.ida_nst")))
                    if v != "ContinueSteps":
                        s = s.setcell(self.cell, E.fresh("tret", "r"))
                    r.append((E.event(s, "stop:" + v), "val", ok(Enum(adt, v, ()))))
                r.append((E.event(st, "stop:Err"), "val", user_err("stop")))
                return r
            return h

        def rcheck(which):
            def h(E, st, fr, a, e, c):
                st = E.event(st, "rcheck%d" % which, (E.read(st, me.place),))
                s = havoc(st, "rcheck")
                s = s.setcell(me.place.cell, set_(E.read(s, me.place), "counters.ida_nst", get(E.read(st, me.place), "counters.ida_nst")))
                if which == 1:
                    return [(s, "val", ok(UNIT)), (E.event(st, "r:err"), "val", user_err("root"))]
                adt = adt_of(E, "RootStatus", "RootFound")
                return [(E.event(s, "r:" + v, (E.read(s, me.place),)), "val", ok(Enum(adt, v, ()))) for v in ("RootFound", "Continue")] + [(E.event(st, "r:err"), "val", user_err("root"))]
            return h

        def merged(uid):
            # its paths differ in bookkeeping only: one state afterwards
            def h(E, st, fr, a, e, c):
                del E.hooks[uid]
                E.paths = False
                try:
                    return E.call(c, a, st, fr, e)
                finally:
                    E.paths = True
                    E.hooks[uid] = h
            return h

        for u in ida.find(E, "ls_perf"):
            H[u] = merged(u)
        H[need(E, "ida::Ida", "step")] = step
        H[need(E, "ida::Ida", "get_solution")] = solution
        for w in (1, 2):
            H[need(E, "ida::Ida", "stop_test%d" % w)] = stop(w)
        for w in (1, 2, 3):
            H[need(E, "ida::Ida", "r_check%d" % w)] = rcheck(w)


# settings and the problem: no function of the stepping loop changes them
KEEP = ("ida_mxstep", "ida_nrtfn", "ida_suppressalg", "ida_id", "ida_maxord", "ida_hmax_inv", "counters.ida_nst", "ida_toutc", "ida_taskc", "ida_mxgnull", "tol_control")


def set_(v, path, x):
    ks = path.split(".")
    if len(ks) == 1:
        return fset(v, ks[0], x)
    return fset(v, ks[0], set_(fget(v, ks[0]), ".".join(ks[1:]), x))


def fresh_like(E, v, tag, keep):
    def go(x, path):
        p = ".".join(path)
        if p in keep:
            return x
        if isinstance(x, Struct):
            return x._replace(fields=tuple((k, go(y, path + (k,))) for k, y in x.fields))
        if isinstance(x, ArrV):
            return ArrV(Arr(("base", tag + "." + p), x.arr.nd, x.arr.kind), x.dims)
        if isinstance(x, Poly):
            s = sym(tag + "." + p, x.kind() if not x.is_const() else "r")
            if s.single() not in ATOM_FACTS and x.kind() == "i" and not x.is_const():
                ATOM_FACTS[s.single()] = [c_le(-s)]
            return s
        if is_bool(x):
            return ("b", tag + "." + p)
        return x
    return go(v, ())


def names(s):
    return [e[0] for e in s.ghost.get("ev", ())]


# ------------------------------------------------------------------------------------------ S08

def weighted(E, facts, o, x, w):
    """weighted norm of a vector with the algebraic components taking part or not, as the path has decided"""
    d = terms.decide(facts, get(o, "ida_suppressalg"))
    t = at(x, I) * at(w, I)
    t = t * t
    if d is None:
        return None
    if d:
        t = t * ite(c_eq(at(get(o, "ida_id"), I) - 1), ONE, ZERO)
    return (mk_sum(ZERO, E.n, t, I.single()) * E.n.inv()).half()


def row(v, j):
    return ArrV(nd_lam(v.arr.get((P(j), bv(0)), ()), v.arr.kind), v.dims[1:])


def nd_lam(t, kind):
    return terms.lam(1, kind, t) if hasattr(terms, "lam") else lam(1, kind, t)


def nonpositive(E, w):
    """some weight is not positive"""
    return c_lt(-mk_sum(ZERO, E.n, ite(c_le(at(w, I)), ONE, ZERO), I.single()))


def set_weights(E, phi):
    """the weights the tolerances give for the current solution"""
    return Arr(E.fnbase("ewt_set", (row(phi, 0),)), 1, "r")


def steps_done(C, D, E):
    """(state at the head) -> number of steps taken in this call, by the one counter of the loop"""
    es = [s for s in D.cut.entries]
    ks = [k for k in D.names.values() if isinstance(E.read(es[0], Place(*k)), Poly) and E.read(es[0], Place(*k)).kind() == "i"]
    if len(ks) != 1:
        C.bad("counter", "the steps of a call are not counted by one counter of its loop")
        return None
    k = ks[0]
    e0 = {E.read(s, Place(*k)) for s in es}
    ds = {E.read(s, Place(*k)) - E.read(h, Place(*k)) for _, h, s in D.cut.backs}
    if len(e0) != 1 or len(ds) != 1 or list(ds)[0] not in (ONE, -ONE):
        C.bad("counter", "the steps of a call are not counted one by one from a fixed start: start %s, change %s" % ([short(x) for x in e0], [short(x) for x in ds]))
        return None
    e0, d = e0.pop(), ds.pop()
    C.ok("every step of the call is counted once")
    return lambda s: (E.read(s, Place(*k)) - e0) * d


def failure_of(v):
    """name of the automaton whose error is passed on"""
    x = pay(v) if variant(v) == "Err" else None
    if isinstance(x, Struct) and x.adt == ida.USERERR:
        return x.fields[0][1].s if hasattr(x.fields[0][1], "s") else str(x.fields[0][1])
    return None


def s08(E, R, pid="S08"):
    O = Obj(E)
    for mode in ("Normal", "OneStep"):
        for first in (True, False):
            D = Driver(E, O, mode, first)
            C = Chk(E, R, pid, D.uid, D.tag)
            done = steps_done(C, D, E)
            if done is None:
                continue
            nsteps = 0
            for s, ev, v, back in [(s, s.ghost.get("ev", ()), None, True) for _, _, s in D.cut.backs] + [(o[0], o[0].ghost.get("ev", ()), o[2], False) for o in D.inside]:
                f = tuple(s.facts)
                h = D.heads_seen[s.ghost["hd"]]
                o = E.read(h, D.me.place)
                nst = get(o, "counters.ida_nst")
                nm = [x[0] for x in ev]
                mx = get(o, "ida_mxstep")
                taken = done(h)
                A = c_and(c_lt(-mx), c_le(mx - taken))
                if nst.is_zero():
                    w, B = get(o, "nlp.ida_ewt"), False
                else:
                    w = ArrV(set_weights(E, get(o, "ida_phi")), get(o, "nlp.ida_ewt").dims)
                    B = nonpositive(E, w)
                k = nm.count("step")
                if k > 1 or (back and k != 1):
                    C.bad("steps", "%d steps are taken in one pass of the loop" % k)
                    continue
                if A is not False and terms.entails(f, A) and k == 0:
                    over = "work"
                else:
                    over = None
                nr = weighted(E, f, o, row(get(o, "ida_phi"), 0), w)
                Cc = None if nr is None else c_lt(ONE - nd.EPS * nr)
                if k:
                    nsteps += 1
                    for cond, what, key in ((A, "the maximum number of steps is used up", "work"), (B, "an error weight is not positive", "weight"), (Cc, "more accuracy is asked for than the arithmetic has", "accuracy")):
                        if cond is None:
                            C.bad(key, "a step is taken without testing whether %s" % what)
                        elif cond is not False and not terms.entails(f, c_not(cond)):
                            C.bad(key, "a step may be taken although %s [%s]" % (what, facts_text(f)))
                        else:
                            C.ok("no step once %s" % what)
                    so = [x for x in ev if x[0] == "step"][0][1][0]
                    if not nst.is_zero():
                        C.eq(rng(E, f), at(get(so, "nlp.ida_ewt"), I), at(w, I), "ewt", "weights of the step are those of the current solution")
                    if "step.err" in nm:
                        if back or failure_of(v) != "step":
                            C.bad("steperr", "a failed step does not end the call with its own error")
                        else:
                            C.ok("a failed step ends the call with its own error")
                        new = E.read(s, D.me.place)
                        sol = [x for x in ev if x[0] == "get_solution"]
                        if len(sol) != 1 or check_eq(f, sol[0][1][0], get(new, TN)) is not None:
                            C.bad("steperr:sol", "the solution delivered after a failed step is not the one at the time reached")
                        elif "sol.ok" in nm:
                            C.eq(f, E.read(s, Place(D.cell, ())), get(new, TN), "steperr:tret", "time reported after a failed step is the one reached")
                            C.eq(f, get(new, "ida_tretlast"), get(new, TN), "steperr:tretlast", "time recorded after a failed step is the one reached")
                    continue
                if back or variant(v) != "Err":
                    C.bad("nostep", "a pass of the loop takes no step and is not an error (%s)" % (inner(v),))
                    continue
                alt = [x for x in (A, B, Cc) if x is not None and x is not False]
                if not unsat(f + tuple(c_not(x) for x in alt)):
                    C.bad("early", "the call fails with %s although no limit is reached [%s]" % (inner(v)[1], facts_text(f)))
                    continue
                C.ok("the call stops only at a limit")
                got = inner(v)[1]
                notA = () if A is False else (c_not(A),)
                notB = () if B is False else (c_not(B),)
                if not unsat(f + (A,)) and got not in ("IllegalInput", "TooMuchWork"):
                    C.bad("name:work", "too many steps end in %s" % got)
                if B is not False and not unsat(f + notA + (B,)) and got not in ("IllegalInput", "BadErrorWeightVector"):
                    C.bad("name:weight", "an error weight that is not positive ends in %s" % got)
                if Cc is not None and not unsat(f + notA + notB + (Cc,)) and got != "TooMuchAccuracy":
                    C.bad("name:accuracy", "too much accuracy asked for ends in %s" % got)
                new = E.read(s, D.me.place)
                if not nst.is_zero() and unsat(f + (A,)):
                    sol = [x for x in ev if x[0] == "get_solution"]
                    if len(sol) != 1 or check_eq(f, sol[0][1][0], get(o, TN)) is not None:
                        C.bad("sol", "the solution delivered with %s is not the one at the time reached" % got)
                C.eq(f, E.read(s, Place(D.cell, ())), get(o, TN), "tret", "time reported is the one reached")
                C.eq(f, get(new, "ida_tretlast"), get(o, TN), "tretlast", "time recorded is the one reached")
            if not nsteps:
                C.bad("nosteps", "no step is ever taken")
            if first:
                # before the first step the weights are those of the initial values
                for s in D.cut.entries:
                    f = tuple(s.facts)
                    if terms.decide(f, get(D.obj, "ida_setup_done")) is not False:
                        continue
                    o = E.read(s, D.me.place)
                    w = ArrV(set_weights(E, get(D.obj, "ida_phi")), get(o, "nlp.ida_ewt").dims)
                    C.eq(rng(E, f), at(get(o, "nlp.ida_ewt"), I), at(w, I), "ewt0", "weights of the first step are those of the initial values")
                    if terms.entails(f, c_not(nonpositive(E, w))):
                        C.ok("no first step with a weight that is not positive")
                    else:
                        C.bad("weight0", "the first step may be taken although an error weight of the initial values is not positive")
            C.panics()
            C.unmodelled()


# ------------------------------------------------------------------------------------------ S18 the first step

def first_step_ref(E, o, tstop):
    """(facts, error or (step size, )) per case of the reference"""
    tn, hin, hmi = get(o, TN), get(o, "ida_hin"), get(o, "ida_hmax_inv")
    w = ArrV(set_weights(E, get(o, "ida_phi")), get(o, "nlp.ida_ewt").dims)
    d = pabs(TOUT - tn)
    near = c_or(c_eq(d), c_lt(d - P(2) * nd.EPS * (pabs(tn) + pabs(TOUT))))
    res = [((near,), "err")]
    far = (c_not(near),)
    given = c_not(c_eq(hin))
    away = c_lt((TOUT - tn) * hin)
    res.append((far + (given, away), "err"))
    cases = [(far + (given, c_not(away)), hin)]
    for sup in (True, False):
        fs = far + (c_eq(hin), get(o, "ida_suppressalg") if sup else c_not(get(o, "ida_suppressalg")))
        h0 = d * Fraction(1, 1000)
        yp = weighted(E, fs, o, row(get(o, "ida_phi"), 1), w)
        big = c_lt(P(2) * h0.inv() - yp)
        for c, h in ((big, P(Fraction(1, 2)) * yp.inv()), (c_not(big), h0)):
            cases.append((fs + (c, c_lt(TOUT - tn)), -h))
            cases.append((fs + (c, c_le(tn - TOUT)), h))
    for fs, h in cases:
        r = pabs(h) * hmi
        for c, h2 in ((c_lt(ONE - r), h * r.inv()), (c_le(r - 1), h)):
            g = fs + (c,)
            if not tstop:
                res.append((g, h2))
                continue
            behind = c_le((TS - tn) * h2)
            past = c_lt(-((tn + h2 - TS) * h2))
            res.append((g + (behind,), "err"))
            res.append((g + (c_not(behind), past), (TS - tn) * (ONE - P(4) * nd.EPS)))
            res.append((g + (c_not(behind), c_not(past)), h2))
    return res


def s18(E, R, pid="S18"):
    first_step(E, R, pid)


def first_step(E, R, pid, stops=(False, True)):
    O = Obj(E)
    for tstop in stops:
        D = Driver(E, O, "Normal", True, tstop=tstop, ida_setup_done=False)
        C = Chk(E, R, pid, D.uid, D.tag)
        o = D.obj
        tn = get(o, TN)
        w = ArrV(set_weights(E, get(o, "ida_phi")), get(o, "nlp.ida_ewt").dims)
        bad_w = nonpositive(E, w)
        hit = set()
        ref = first_step_ref(E, o, tstop)
        for s, v in [(s, None) for s in D.cut.entries] + [(x[0], x[2]) for x in D.before]:
            f0 = tuple(s.facts)
            if v is not None:
                if variant(v) != "Err":
                    C.bad("nostep", "%s without a step taken" % (inner(v),))
                    continue
                if terms.entails(f0, bad_w):
                    C.ok("a weight that is not positive is an error")
                    continue
            for k, (cond, want) in enumerate(ref):
                f = f0 + tuple(cond)
                if unsat(f):
                    continue
                hit.add(k)
                if want == "err":
                    if v is None:
                        C.bad("accepts", "the integration starts although it should be refused [%s]" % facts_text(cond))
                    elif inner(v)[1] not in ("IllegalInput", "BadStopTime"):
                        C.bad("name", "the refusal is %s" % inner(v)[1])
                    else:
                        C.ok("refused")
                    continue
                if v is not None:
                    C.bad("refuses", "a valid start is refused with %s [%s]" % (inner(v)[1], facts_text(cond)))
                    continue
                new = E.read(s, D.me.place)
                g = f
                C.eq(g, get(new, HH), want, "hh", "size of the first step")
                C.eq(g, get(new, "ida_h0u"), want, "h0u", "size of the first step recorded")
                C.eq(rng(E, g), at(get(new, "ida_phi"), ONE, I), at(get(o, "ida_phi"), ONE, I) * want, "phi1", "history starts as the step times the initial derivative")
                C.eq(rng(E, g), at(get(new, "ida_phi"), ZERO, I), at(get(o, "ida_phi"), ZERO, I), "phi0", "history starts at the initial values")
                C.eq(g, get(new, TN), tn, "tn", "time not advanced yet")
                C.eq(g, get(new, "ida_kk"), ZERO, "kk", "no order yet")
                C.eq(g, get(new, "ida_kused"), ZERO, "kused", "no order used yet")
                C.eq(g, get(new, "ida_eps_newt"), get(o, "ida_epcon"), "epsnewt", "convergence constant")
                C.eq(g, get(new, "nlp.ida_toldel"), get(o, "ida_epcon") * Fraction(1, 10000), "toldel", "convergence constant of a single correction")
                if get(new, "ida_tstop") != get(o, "ida_tstop"):
                    C.bad("tstop", "the stop time is changed")
        for k, (cond, want) in enumerate(ref):
            if k not in hit and not unsat(tuple(cond)):
                C.bad("missing:%d" % k, "no path covers the case %s" % facts_text(cond))
        C.panics()
        C.unmodelled()


# ------------------------------------------------------------------------------------------ S03 the driver's part

def driver(E, R, pid="S03", tstop=False):
    """solve passes the verdict of the stopping tests on, and asks for it at every point it has to"""
    O = Obj(E)
    for mode in ("Normal", "OneStep"):
        for first, roots in ((True, False), (False, False), (False, True)):
            D = Driver(E, O, mode, first, tstop=tstop, roots=roots)
            C = Chk(E, R, pid, D.uid, D.tag)
            want = (TOUT, task(E, mode))

            def asked(ev, which):
                x = [e for e in ev if e[0] == "stop%d" % which]
                if len(x) != 1 or tuple(x[0][1][:2]) != want:
                    C.bad("asked:%d" % which, "the stopping tests are not made once with the time and task of the call")
                    return None
                r = [e[0] for e in ev if e[0].startswith("stop:")]
                return r[0][5:] if r else None

            # a call that a root check ends is the business of root finding
            ended = lambda ev, v: roots and v is not None and not any(e[0].startswith("stop") for e in ev)

            def passed(v, back, verdict, what):
                if verdict == "ContinueSteps":
                    if not back:
                        C.bad("goes", "%s: stepping ends with %s although the stopping tests say to go on" % (what, inner(v)))
                        return
                elif back or (verdict == "Err" and failure_of(v) != "stop") or (verdict != "Err" and inner(v) != ("Ok", verdict)):
                    C.bad("passed", "%s: the verdict %s of the stopping tests is not what the call returns (%s)" % (what, verdict, "goes on" if back else inner(v)))
                    return
                C.ok("%s: verdict %s passed on" % (what, verdict))

            for s, v in [(s, None) for s in D.cut.entries] + [(x[0], x[2]) for x in D.before]:
                ev = s.ghost.get("ev", ())
                new = E.read(s, D.me.place)
                if not first and not ended(ev, v):
                    verdict = asked(ev, 1)
                    if verdict:
                        passed(v, v is None, verdict, "on entry")
                    n = [e[0] for e in ev]
                    if "stop1" in n and "get_solution" in n[n.index("stop1"):]:
                        C.bad("after", "the solution delivered is replaced after the stopping tests")
                if v is None:
                    if mode == "Normal":
                        C.eq(tuple(s.facts), get(new, "ida_toutc"), TOUT, "toutc", "output time of the call recorded")
                    if get(new, "ida_taskc") != want[1]:
                        C.bad("taskc", "the task of the call is not recorded")
                    else:
                        C.ok("task of the call recorded")
            for s, v in [(x[2], None) for x in D.cut.backs] + [(x[0], x[2]) for x in D.inside]:
                ev = s.ghost.get("ev", ())
                n = [e[0] for e in ev]
                if "step.ok" not in n or ended(ev[n.index("step.ok"):], v):
                    continue
                verdict = asked(ev[n.index("step.ok"):], 2)
                if verdict:
                    passed(v, v is None, verdict, "after a step")
                if "stop2" in n and "get_solution" in n[n.index("stop2"):]:
                    C.bad("after", "the solution delivered is replaced after the stopping tests")
            C.unmodelled()


# ------------------------------------------------------------------------------------------ S14 root finding

def s14(E, R, pid="S14"):
    root_driver(E, R, pid)
    E.nroots = P(2)
    O = Obj(E)
    O.fixed = {"ida_nrtfn": E.nroots}
    start_active(E, R, pid, O)
    root_first(E, R, pid, O)
    root_again(E, R, pid, O)
    root_after(E, R, pid, O)
    root_search(E, R, pid, O)


def start_active(E, R, pid, O):
    C = Chk(E, R, pid, O.new_uid, "constructor")
    for s, k, v in O.new_outs:
        if k != "val":
            continue
        g = get(v, "ida_gactive")
        for i in range(2):
            flag(C, tuple(s.facts), at(g, P(i)), True, "gactive", "every root function is watched from the start")
        if get(v, "ida_irfnd") is not False:
            C.bad("irfnd", "a root is recorded before the first step")


def root_driver(E, R, pid):
    O = Obj(E)
    for mode in ("Normal", "OneStep"):
        for first in (True, False):
            D = Driver(E, O, mode, first, roots=True)
            C = Chk(E, R, pid, D.uid, D.tag)

            def found(s, v, o, what):
                new = E.read(s, D.me.place)
                if inner(v) != ("Ok", "Root"):
                    C.bad("found", "%s: a root is found, the call returns %s" % (what, inner(v)))
                    return
                f = tuple(s.facts)
                C.eq(f, E.read(s, Place(D.cell, ())), get(o, "ida_tlo"), "tret", "%s: time reported is the root" % what)
                C.eq(f, get(new, "ida_tretlast"), get(o, "ida_tlo"), "tretlast", "%s: time recorded is the root" % what)
                if "rcheck3" in names(s) and get(new, "ida_irfnd") is not True:
                    C.bad("irfnd", "%s: it is not recorded that a root was returned" % what)
                C.ok("%s: a root found ends the call with Root" % what)

            def last(ev, name):
                return [x for x in ev if x[0] == name][-1][1]

            for s, v in [(s, None) for s in D.cut.entries] + [(x[0], x[2]) for x in D.before]:
                ev = s.ghost.get("ev", ())
                n = names(s)
                f = tuple(s.facts)
                if first:
                    if v is None or "rcheck1" in n:
                        if n.count("rcheck1") != 1:
                            C.bad("first", "the root functions are not examined at the initial values")
                            continue
                        o = last(ev, "rcheck1")[0]
                        C.eq(rng(E, f), at(get(o, "ida_phi"), ONE, I), at(get(D.obj, "ida_phi"), ONE, I), "phi1", "the initial derivative is examined, not the scaled one")
                        C.ok("root functions examined at the initial values")
                        if "r:err" in n and (v is None or failure_of(v) != "root"):
                            C.bad("first:passed", "an error of the root functions at the initial values is not returned")
                        if v is not None and failure_of(v) != "root":
                            C.bad("first:err", "%s after the root functions were examined" % (inner(v),))
                    continue
                if n.count("rcheck2") != 1 or ("stop1" in n and n.index("stop1") < n.index("rcheck2")):
                    C.bad("again", "the neighbourhood of the last root is not examined on entry")
                    continue
                if "r:err" in n:
                    C.ok("error passed on") if failure_of(v) == "root" else C.bad("err", "an error of the root search is not returned")
                    continue
                k = n.index("rcheck2")
                if n[k + 1] == "r:RootFound":
                    found(s, v, ev[k + 1][1][0], "near the last root")
                    continue
                o = ev[k + 1][1][0]
                far = c_lt(P(100) * nd.EPS * (pabs(get(o, TN)) + pabs(get(o, HH))) - pabs(get(o, TN) - get(o, "ida_tretlast")))
                if "rcheck3" in n:
                    if not terms.entails(f, far):
                        C.bad("rest", "the rest of the step is searched for a root although all of it was reported")
                    k = n.index("rcheck3")
                    o = ev[k + 1][1][0]
                    if n[k + 1] == "r:RootFound":
                        found(s, v, o, "in the rest of the last step")
                        continue
                    new = E.read(s, D.me.place)
                    before = ("b", D.obj_flag("ida_irfnd"))
                    if mode == "OneStep" and "stop1" not in n:
                        if inner(v) != ("Ok", "Success") or not terms.entails(f, before):
                            C.bad("resume", "one step: %s without the stopping tests" % (inner(v),))
                            continue
                        C.eq(f, E.read(s, Place(D.cell, ())), get(o, TN), "resume:tret", "one step: the end of the step cut short by a root is returned")
                        C.eq(f, get(new, "ida_tretlast"), get(o, TN), "resume:tretlast", "one step: time recorded")
                        sol = [x for x in ev if x[0] == "get_solution"]
                        if not sol or check_eq(f, sol[-1][1][0], get(o, TN)) is not None:
                            C.bad("resume:sol", "one step: the solution delivered is not the one at the end of the step")
                        continue
                    if mode == "OneStep" and not terms.entails(f, c_not(before)):
                        C.bad("resume", "one step: the end of a step cut short by a root is not returned")
                        continue
                    at_stop = [x[1][2] for x in ev if x[0] == "stop1"]
                    if (at_stop or v is None) and get((at_stop or [new])[0], "ida_irfnd") is not False:
                        C.bad("irfnd:clear", "the last root is not forgotten although none is left in the step")
                elif not terms.entails(f, c_not(far)):
                    C.bad("rest", "the rest of the last step is not searched for a root [%s]" % facts_text(f))
                    continue
                C.ok("entry: the last step is searched before the stopping tests")
                if "stop1" not in n:
                    C.bad("stop1", "%s without the stopping tests" % (inner(v),))
            for s, v in [(x[2], None) for x in D.cut.backs] + [(x[0], x[2]) for x in D.inside]:
                ev = s.ghost.get("ev", ())
                n = names(s)
                if "step.ok" not in n:
                    continue
                n = n[n.index("step.ok"):]
                ev = ev[-len(n):]
                if n.count("rcheck3") != 1 or ("stop2" in n and n.index("stop2") < n.index("rcheck3")):
                    C.bad("after", "a step is not searched for a root before its end is looked at")
                    continue
                k = n.index("rcheck3")
                if n[k + 1] == "r:err":
                    C.ok("error passed on") if v is not None and failure_of(v) == "root" else C.bad("err", "an error of the root search is not returned")
                elif n[k + 1] == "r:RootFound":
                    if v is None:
                        C.bad("found", "stepping goes on although a root was found")
                    else:
                        found(s, v, ev[k + 1][1][0], "in the step")
                elif "stop2" not in n:
                    C.bad("stop2", "the stopping tests are not made after a step without a root")
                else:
                    C.ok("a step without a root goes on to the stopping tests")
            C.unmodelled()


def interp_state(E, st, a):
    p = a[0]
    while isinstance(p, Ref) and isinstance(E.read(st, p.place), Ref):
        p = E.read(st, p.place)
    v = E.read(st, p.place)
    for nm in ("ida_yy", "ida_yp"):
        x = get(v, "nlp." + nm)
        v = set_(v, "nlp." + nm, ArrV(Arr(E.fnbase("interp." + nm, (a[1],)), 1, "r"), x.dims))
    return E.write(st, p.place, v)


def with_solution(E, f, solution=None):
    """f() with interpolation an unknown function of the time"""
    def plain(E, st, fr, a, e, c):
        return [(E.event(interp_state(E, st, a), "get_solution", (a[1],)), "val", ok(UNIT))]

    solution = solution or plain

    uid = need(E, "ida::Ida", "get_solution")
    old = E.hooks.get(uid)
    E.hooks[uid] = solution
    E.paths = True
    try:
        return f()
    finally:
        E.paths = False
        if old is None:
            del E.hooks[uid]
        else:
            E.hooks[uid] = old


def roots_at(E, t, y, yp):
    """values of the root functions at t"""
    return Arr(E.fnbase("root", (t, y, yp)), 1, "r")


def interp_at(E, t, dims):
    return [ArrV(Arr(E.fnbase("interp." + nm, (t,)), 1, "r"), dims) for nm in ("ida_yy", "ida_yp")]


def tol(o):
    return P(100) * nd.EPS * (pabs(get(o, TN)) + pabs(get(o, HH)))


def flag(C, f, got, want, key, what):
    """obligation: the flag (an element of a boolean array) is set / is not set"""
    c = c_eq(got - 1)
    if terms.entails(f, c if want else c_not(c)):
        C.ok(what)
    else:
        C.bad(key, "not so: %s [%s]" % (what, facts_text(f)))


def bit(v, i):
    return c_eq(at(v, P(i)) - 1)


def root_first(E, R, pid, O):
    uid = need(E, "ida::Ida", "r_check1")
    C = Chk(E, R, pid, uid)
    # every function is watched before the first step (the constructor)
    st, me = O.state()
    v = E.read(st, me.place)
    x = get(v, "ida_gactive")
    st = st.setcell(me.place.cell, set_(v, "ida_gactive", ArrV(lam(1, x.arr.kind, ONE), x.dims))).with_fact(c_not(c_eq(HHs_())))
    o = E.read(st, me.place)
    tn, hh, phi = get(o, TN), get(o, HH), get(o, "ida_phi")
    g0 = roots_at(E, tn, row(phi, 0), row(phi, 1))
    small = pmax(tol(o) * pabs(hh).inv(), P(Fraction(1, 10))) * hh
    y1 = ArrV(lam(1, "r", at(phi, ZERO, bv(0)) + small * at(phi, ONE, bv(0))), (E.n,))
    g1 = roots_at(E, tn + small, y1, row(phi, 1))
    zero = [c_eq(g0.get((P(i),), ())) for i in range(2)]
    for s, k, v in with_solution(E, lambda: run(E, uid, st, [me])):
        f0 = tuple(s.facts)
        new = E.read(s, me.place)
        if variant(v) != "Ok":
            C.bad("err", "%s" % (inner(v),))
            continue
        for z in ((True, True), (True, False), (False, True), (False, False)):
            for nz in ((True, True), (True, False), (False, True), (False, False)):
                f = f0 + tuple(zero[i] if z[i] else c_not(zero[i]) for i in range(2)) + tuple(c_not(c_eq(g1.get((P(i),), ()))) if nz[i] else c_eq(g1.get((P(i),), ())) for i in range(2))
                if unsat(f):
                    continue
                C.eq(f, get(new, "ida_tlo"), tn, "tlo", "search starts at the initial time")
                C.eq(f, get(new, "ida_ttol"), tol(o), "ttol", "root tolerance")
                C.eq(f, get(new, "ida_nge"), P(2 if any(z) else 1), "nge", "evaluations counted")
                for i in range(2):
                    G = at(get(new, "ida_gactive"), P(i))
                    C.eq(f, at(get(new, "ida_iroots"), P(i)), ZERO, "iroots", "no root reported")
                    if not z[i]:
                        flag(C, f, G, True, "gactive", "a function not zero initially stays watched")
                        C.eq(f, at(get(new, "ida_glo"), P(i)), g0.get((P(i),), ()), "glo", "value at the start of the search")
                    elif nz[i]:
                        # watched again once it has left zero (it may never have been let go)
                        flag(C, f, G, True, "gactive:left", "a function that leaves zero is watched")
                        C.eq(f, at(get(new, "ida_glo"), P(i)), g1.get((P(i),), ()), "glo:left", "value just after the start of the search")
                    else:
                        flag(C, f, G, False, "gactive:zero", "a function that stays zero is not watched")
    C.panics()
    C.unmodelled()


def HHs_():
    return sym("s.ida_hh", "r")


def root_again(E, R, pid, O):
    uid = need(E, "ida::Ida", "r_check2")
    for irfnd in (False, True):
        C = Chk(E, R, pid, uid, "last return %sa root" % ("" if irfnd else "not "))
        st, me = O.state(ida_irfnd=irfnd)
        st = st.with_fact(c_not(c_eq(HHs_())))
        o = E.read(st, me.place)
        tn, hh, tlo, phi = get(o, TN), get(o, HH), get(o, "ida_tlo"), get(o, "ida_phi")
        act = [bit(get(o, "ida_gactive"), i) for i in range(2)]
        ydims = get(o, "nlp.ida_yy").dims
        y0, yp0 = interp_at(E, tlo, ydims)
        g0 = roots_at(E, tlo, y0, yp0)
        z = [c_eq(g0.get((P(i),), ())) for i in range(2)]
        small = tol(o) * ite(c_lt(hh), P(-1), ONE)
        tp = tlo + small
        beyond = c_le(-((tp - tn) * hh))
        for s, k, v in with_solution(E, lambda: run(E, uid, st, [me])):
            f0 = tuple(s.facts)
            new = E.read(s, me.place)
            if not irfnd:
                if inner(v) != ("Ok", "Continue"):
                    C.bad("idle", "%s although the last return was no root" % (inner(v),))
                unchanged(C, E, st, s, me, (), "idle")
                continue
            n0 = sum(1 for e in s.ghost.get("ev", ()) if e[0] == "root")
            anyz = c_or(*[c_and(act[i], z[i]) for i in range(2)])
            f = f0 + (c_not(anyz),)
            if not unsat(f):
                if inner(v) != ("Ok", "Continue"):
                    C.bad("none", "%s although no function is zero at the last root" % (inner(v),))
                for i in range(2):
                    C.eq(f, at(get(new, "ida_glo"), P(i)), g0.get((P(i),), ()), "glo", "values at the start of the search")
                C.eq(f, get(new, "ida_nge"), get(o, "ida_nge") + 1, "nge", "evaluations counted")
            f = f0 + (anyz,)
            if not unsat(f):
                C.eq(f, get(new, "ida_nge"), get(o, "ida_nge") + 2, "nge2", "evaluations counted")
            for b in (True, False):
                y1 = ArrV(lam(1, "r", y0.arr.get((bv(0),), ()) + small * hh.inv() * at(phi, ONE, bv(0))), ydims) if b else interp_at(E, tp, ydims)[0]
                yp1 = yp0 if b else interp_at(E, tp, ydims)[1]
                g1 = roots_at(E, tp, y1, yp1)
                z1 = [c_eq(g1.get((P(i),), ())) for i in range(2)]
                fb = f0 + (anyz, beyond if b else c_not(beyond))
                close = c_or(*[c_and(act[i], z[i], z1[i]) for i in range(2)])
                f = fb + (close,)
                if not unsat(f):
                    if inner(v) == ("Err", "CloseRoots"):
                        C.ok("two roots too close are an error")
                    else:
                        C.bad("close", "two roots too close give %s [%s]" % (inner(v), facts_text(f)))
                fresh = c_or(*[c_and(act[i], c_not(z[i]), z1[i]) for i in range(2)])
                for want, cond in (("RootFound", fresh), ("Continue", c_not(fresh))):
                    f = fb + (c_not(close), cond)
                    if unsat(f):
                        continue
                    if inner(v) != ("Ok", want):
                        C.bad("near", "%s, expected %s near the last root [%s]" % (inner(v), want, facts_text(f)))
                        continue
                    C.ok("%s near the last root exactly when its condition holds" % want)
                    for i in range(2):
                        for zi in (True, False):
                            for ai in (True, False):
                                g = f + (z[i] if zi else c_not(z[i]), act[i] if ai else c_not(act[i]))
                                if unsat(g):
                                    continue
                                C.eq(g, at(get(new, "ida_glo"), P(i)), (g1 if zi and ai else g0).get((P(i),), ()), "glo:moved", "values at the start of the search, just after a zero")
                                if want == "RootFound":
                                    for n1 in (True, False):
                                        h = g + (z1[i] if n1 else c_not(z1[i]),)
                                        if not unsat(h) and not (zi and ai):
                                            C.eq(h, at(get(new, "ida_iroots"), P(i)), ONE if n1 and ai else ZERO, "iroots", "functions with a root just after the last one reported")
            unchanged(C, E, st, s, me, ("ida_glo", "ida_ghi", "ida_iroots", "ida_nge", "ida_ttol", "nlp.ida_yy", "nlp.ida_yp"))
        C.panics()
        C.unmodelled()


def root_after(E, R, pid, O):
    uid = need(E, "ida::Ida", "r_check3")
    search = need(E, "ida::Ida", "root_find")
    adt = adt_of(E, "RootStatus", "RootFound")

    def hook(E, st, fr, a, e, c):
        v = E.read(st, me.place)
        st = E.event(st, "search", (v,))
        for p in ("ida_tlo", "ida_thi", "ida_trout"):
            v = set_(v, p, sym("f." + p, "r"))
        for p in ("ida_glo", "ida_ghi", "ida_grout", "ida_iroots"):
            x = get(v, p)
            v = set_(v, p, ArrV(Arr(("base", "f." + p), 1, "r"), x.dims))
        s = st.setcell(me.place.cell, v)
        return [(E.event(s, "f:" + x, (v,)), "val", ok(Enum(adt, x, ()))) for x in ("RootFound", "Continue")] + [(E.event(st, "f:err"), "val", user_err("search"))]

    for mode in ("Normal", "OneStep"):
        C = Chk(E, R, pid, uid, mode)
        st, me = O.state(ida_taskc=task(E, mode))
        o = E.read(st, me.place)
        tn, hh, to = get(o, TN), get(o, HH), get(o, "ida_toutc")
        E.hooks[search] = hook
        try:
            outs = with_solution(E, lambda: run(E, uid, st, [me]))
        finally:
            del E.hooks[search]
        for s, k, v in outs:
            f0 = tuple(s.facts)
            new = E.read(s, me.place)
            ev = s.ghost.get("ev", ())
            n = [e[0] for e in ev]
            if n.count("search") != 1:
                C.bad("search", "the step is not searched for a root exactly once")
                continue
            x = [e[1][0] for e in ev if e[0] == "search"][0]
            for thi, cond in ((tn, c_le(-((to - tn) * hh))), (to, c_lt((to - tn) * hh))) if mode == "Normal" else ((tn, True),):
                f = f0 + (() if cond is True else (cond,))
                if unsat(f):
                    continue
                C.eq(f, get(x, "ida_thi"), thi, "thi", "the search ends at the end of the step or the output time, whichever is first")
                g = roots_at(E, thi, *interp_at(E, thi, get(o, "nlp.ida_yy").dims))
                got = get(x, "ida_ghi")
                for i in range(2):
                    if same_call(E, f, at(got, P(i)), g.get((P(i),), ())):
                        C.ok("values at the end of the search")
                    else:
                        C.bad("ghi", "the values at the end of the search are %s, expected those at %s" % (short(at(got, P(i))), short(thi)))
                    C.eq(f, at(get(x, "ida_glo"), P(i)), at(get(o, "ida_glo"), P(i)), "glo:in", "values at the start of the search")
                C.eq(f, get(x, "ida_tlo"), get(o, "ida_tlo"), "tlo:in", "start of the search")
                C.eq(f, get(x, "ida_ttol"), tol(o), "ttol", "root tolerance")
            if "f:err" in n:
                C.ok("error passed on") if failure_of(v) == "search" else C.bad("err", "an error of the search is not returned")
                continue
            y = [e for e in ev if e[0].startswith("f:")][0]
            if inner(v) != ("Ok", y[0][2:]):
                C.bad("verdict", "%s, the search says %s" % (inner(v), y[0][2:]))
                continue
            C.ok("verdict of the search passed on")
            o2 = y[1][0]
            C.eq(f0, get(new, "ida_tlo"), get(o2, "ida_trout"), "tlo", "the next search starts where this one ended")
            for i in range(2):
                C.eq(f0, at(get(new, "ida_glo"), P(i)), at(get(o2, "ida_grout"), P(i)), "glo", "values at the start of the next search")
                C.eq(f0, at(get(new, "ida_iroots"), P(i)), at(get(o2, "ida_iroots"), P(i)), "iroots", "roots reported are those of the search")
                a, gz = bit(get(o, "ida_gactive"), i), c_eq(at(get(o2, "ida_grout"), P(i)))
                for c, want in ((a, True), (c_and(c_not(a), gz), False), (c_and(c_not(a), c_not(gz)), True)):
                    if not unsat(f0 + (c,)):
                        flag(C, f0 + (c,), at(get(new, "ida_gactive"), P(i)), want, "gactive", "a function is watched again once it is not zero")
            C.eq(f0, get(new, "ida_nge"), get(o, "ida_nge") + 1, "nge", "evaluations counted")
            if y[0] == "f:RootFound":
                sol = [e for e in ev if e[0] == "get_solution"]
                if check_eq(f0, sol[-1][1][0], get(o2, "ida_trout")) is None and n.index("f:RootFound") < len(n) - 1 - n[::-1].index("get_solution"):
                    C.ok("solution delivered at the root")
                else:
                    C.bad("sol", "the solution delivered is not the one at the root")
        C.panics()
        C.unmodelled()


def same_call(E, f, a, b):
    """two values of opaque functions: equal, or the same function at arguments equal under the facts"""
    if check_eq(f, a, b) is None:
        return True
    try:
        x, y = a.single(), b.single()
    except Exception:
        return False
    inv = {("base", "%s#%d" % (nm, i)): (nm, args) for (nm, args), i in E.funs.items()}
    if x[0] != "arr" or y[0] != "arr" or x[2] != y[2]:
        return False
    return same_base(E, f, inv, x[1], y[1])


def same_base(E, f, inv, p, q):
    if p == q:
        return True
    p, q = inv.get(p), inv.get(q)
    if p is None or q is None or p[0] != q[0] or len(p[1]) != len(q[1]):
        return False
    for u, w in zip(p[1], q[1]):
        if isinstance(u, Poly) and isinstance(w, Poly):
            if check_eq(f, u, w) is not None:
                return False
        elif isinstance(u, ArrV) and isinstance(w, ArrV):
            a, b = u.arr.get((I,), ()), w.arr.get((I,), ())
            if not same_call(E, rng(E, f), a, b):
                return False
        elif u != w:
            return False
    return True


def signs(f, xs):
    """the facts for every choice of the signs of the given terms that they allow, with the signs of the products"""
    for sg in itertools.product((-1, 0, 1), repeat=len(xs)):
        g = f + tuple(c_lt(x) if s < 0 else c_eq(x) if s == 0 else c_lt(-x) for x, s in zip(xs, sg))
        for (x, s), (y, t) in itertools.combinations(list(zip(xs, sg)), 2):
            p = s * t
            g += (c_lt(x * y),) if p < 0 else (c_le(x * y), c_le(-(x * y))) if p == 0 else (c_lt(-(x * y)),)
        if not unsat(g):
            yield g


def fraction(lo, hi):
    """opposite signs: the fraction of the interval at which the secant meets zero is not nothing"""
    return c_or(c_le(-(lo * hi)), c_lt(-pabs(hi * (hi - lo).inv())))


def differ(lo, hi):
    """a sign change (a product is negative only if neither factor is zero)"""
    return c_and(c_lt(lo * hi), c_not(c_eq(hi)))


def watched(o, i, glo):
    """the function is looked at, in the direction it moves"""
    return c_and(bit(get(o, "ida_gactive"), i), c_le(at(get(o, "ida_rootdir"), P(i)) * glo))


def element(v, i):
    return at(v, P(i))


def root_search(E, R, pid, O):
    uid = need(E, "ida::Ida", "root_find")
    C = Chk(E, R, pid, uid)
    two = range(2)
    vary = ("ida_tlo", "ida_thi", "ida_trout", "ida_glo", "ida_ghi", "ida_grout", "ida_iroots", "ida_nge", "nlp.ida_yy", "nlp.ida_yp")
    st, me = O.state()
    o0 = E.read(st, me.place)
    lo0, hi0 = get(o0, "ida_glo"), get(o0, "ida_ghi")
    st = st.with_fact(c_lt(-get(o0, "ida_ttol")))
    for i in two:
        st = st.with_fact(fraction(element(lo0, i), element(hi0, i)))
    heads_seen, exits = [], []

    def generic(s, tag):
        v = E.read(s, me.place)
        for p in vary:
            x = get(v, p)
            v = set_(v, p, ArrV(Arr(("base", tag + p), x.arr.nd, x.arr.kind), x.dims) if isinstance(x, ArrV) else sym(tag + p, x.kind() if not x.is_const() else "r"))
        return State(s.store, st.facts, s.ghost).setcell(me.place.cell, v)

    def heads(E, s, h, names):
        g = generic(h, "h.").setghost(ev=(), hd=len(heads_seen))
        # up to the point looked at, the ways a value comes about are one value; from there on they are followed apart
        E.paths = False
        heads_seen.append((g, dict(names)))
        return [("search", g)]

    def after(res):
        exits.extend(res)
        done = [r for r in res if r[1] == "val"]
        if not done:
            return res
        s, k, v = done[0]
        E.paths = True
        first = not any(x[0].ghost.get("tail") for x in exits[:-len(res)])
        exits[-1] = (exits[-1][0].setghost(tail=True),) + tuple(exits[-1][1:])
        tail = [(generic(s, "x.").setghost(ev=(), tail=True), "val", v)] if first else []
        return [r for r in res if r[1] != "val"] + tail

    def solved(E, st, fr, a, e, c):
        E.paths = True
        r = interp_state(E, st, a)
        o = E.read(r, me.place)
        g = roots_at(E, a[1], get(o, "nlp.ida_yy"), get(o, "nlp.ida_yp"))
        for i in two:
            r = r.with_fact(fraction(element(get(o, "ida_glo"), i), g.get((P(i),), ())))
        return [(E.event(r, "get_solution", (a[1], g)), "val", ok(UNIT))]

    cut = None
    for _ in range(6):
        old, cut = cut, ida.Cut(me.place.cell, uid, heads)
        cut.ints, cut.seen, cut.after = True, set(), after
        if old is not None:
            cut.keys, cut.demoted = list(old.keys), list(old.demoted)
        E.cut = cut
        E.obls.clear()
        del heads_seen[:], exits[:]
        try:
            outs = with_solution(E, lambda: run(E, uid, st, [me]), solved)
        finally:
            E.cut = None
        if old is not None and cut.keys == old.keys and cut.demoted == old.demoted:
            break
    if not cut.entries:
        C.bad("loop", "no search for a root is made")
        return

    # no sign change at the ends of the interval
    change = c_or(*[c_and(watched(o0, i, element(lo0, i)), differ(element(lo0, i), element(hi0, i))) for i in two])
    zero = c_or(*[c_and(watched(o0, i, element(lo0, i)), c_eq(element(hi0, i))) for i in two])
    for s, k, v in outs:
        if s.ghost.get("tail"):
            end_of_search(C, E, s, v, me, "x.")
            continue
        f = tuple(s.facts)
        if not terms.entails(f, c_not(change)):
            C.bad("start", "the search is given up although a root function changes sign in the interval [%s]" % facts_text(f))
            continue
        if s.ghost.get("ev", ()):
            C.bad("start:ev", "the problem is evaluated although no root function changes sign")
        d = terms.decide(f, zero)
        new = E.read(s, me.place)
        if d is None or inner(v) != ("Ok", "RootFound" if d else "Continue"):
            C.bad("start:zero", "%s, no sign change, a zero at the end of the interval %s" % (inner(v), {True: "", False: "is not there", None: "may or may not be there"}[d]))
            continue
        C.eq(f, get(new, "ida_trout"), get(o0, "ida_thi"), "start:trout", "the search ends at the end of the interval")
        for i in two:
            C.eq(f, element(get(new, "ida_grout"), i), element(hi0, i), "start:grout", "values at the end of the search")
            if d:
                roots_reported(C, f, o0, new, i, element(lo0, i), element(hi0, i))
        unchanged(C, E, st, s, me, ("ida_trout", "ida_grout") + (("ida_iroots",) if d else ()))

    # one pass of the loop, from each state of its counters
    small = lambda v: finite_int(v)
    fin = [k for k in cut.keys if all(small(E.read(h, Place(*k))) for h, _ in heads_seen)]
    ints = lambda s: tuple(E.read(s, Place(*k)) for k in fin)
    edges, index, memo = [], {}, {}
    for s, back, v in [(b[2], True, None) for b in cut.backs] + [(x[0], False, x) for x in exits]:
        if v is not None and v[1] != "val":
            C.bad("return", "the search returns from its middle: %s" % (v[2],))
            continue
        h, names = heads_seen[s.ghost["hd"]]
        r = one_pass(C, E, h, s, back, me, names, two, memo)
        if r is not None:
            side, j, w = r
            if index.setdefault(ints(h), j) != j and side:
                C.bad("index", "the component followed is not determined")
            if back:
                edges.append((ints(h), side, w, ints(s), tuple(s.facts), E.read(s, me.place), s))
    # weights: which of the last two passes moved which side
    byint = {}
    for x in edges:
        byint.setdefault(x[0], []).append(x)
    work, seen = [(ints_entry(E, x, fin), (0, 0)) for x in cut.entries], set()
    while work:
        iv, hist = work.pop()
        if (iv, hist) in seen:
            continue
        seen.add((iv, hist))
        want = {(1, 1): "half", (2, 2): "double"}.get(hist, "one")
        for x in byint.get(iv, ()):
            if x[2] is not None and want not in x[2]:
                C.bad("weight", "the weight of the secant is %s after passes that moved %s" % ("/".join(x[2]), " and then ".join({1: "the high end", 2: "the low end", 0: "nothing"}[y] for y in reversed(hist))))
                byint[iv] = []
                break
            work.append((x[3], (x[1], hist[0])))
    C.ok("weights in %d classes of passes" % len(seen))
    # the component followed changes sign in the interval, on entry and after every pass
    for s in cut.entries:
        j = index.get(ints_entry(E, s, fin))
        o = E.read(s, me.place)
        if j is None or not terms.entails(tuple(s.facts), c_and(watched(o, j, element(lo0, j)), differ(element(lo0, j), element(hi0, j)))):
            C.bad("entry", "the search starts from a function that does not change sign in the interval, or is not watched [%s]" % facts_text(tuple(s.facts)))
        else:
            C.ok("the function followed changes sign in the interval on entry")
        for p in vary:
            if p != "ida_grout" and get(o, p) != get(o0, p):
                C.bad("entry:state", "%s is changed before the search starts" % p)
    for iv, side, w, jv, f, o, s in edges:
        j, k = index.get(iv), index.get(jv)
        h = E.read(heads_seen[s.ghost["hd"]][0], me.place)
        a = [element(get(h, "ida_glo"), j), element(get(h, "ida_ghi"), j)]
        hyp = (watched(h, j, a[0]), c_lt(a[0] * a[1]))
        if k is None:
            k = j
        lo, hi = element(get(o, "ida_glo"), k), element(get(o, "ida_ghi"), k)
        f = f + hyp
        if unsat(f):
            continue
        goal = c_and(watched(o, k, lo), c_lt(lo * hi))
        xs = list(dict.fromkeys(a + [lo, hi]))
        if terms.entails(f, goal) or all(terms.entails(g, goal) or direction(g, h, j, k, a[0], lo, goal) for g in signs(f, xs)):
            C.ok("the function followed changes sign in the smaller interval")
        else:
            C.bad("bracket", "the smaller interval need not hold a sign change of the function followed [%s]" % facts_text(f))
    C.panics()
    C.unmodelled()


def direction(g, h, j, k, a, lo, goal):
    """the direction is watched at the new lower end as at the old one: the values have the same sign"""
    if j != k:
        return False
    d = at(get(h, "ida_rootdir"), P(j))
    same = c_or(c_and(c_lt(a), c_lt(lo)), c_and(c_lt(-a), c_lt(-lo)))
    if not terms.entails(g, same):
        return False
    for e in (-1, 0, 1):
        s = -1 if terms.entails(g, c_lt(a)) else 1
        p = e * s
        sg = lambda x: (c_lt(x),) if p < 0 else (c_le(x), c_le(-x)) if p == 0 else (c_lt(-x),)
        q = g + (c_lt(d) if e < 0 else c_eq(d) if e == 0 else c_lt(-d),) + sg(d * a) + sg(d * lo)
        if not unsat(q) and not terms.entails(q, goal):
            return False
    return True


def finite_int(v):
    return ida.finite(v) or (isinstance(v, Poly) and v.is_const())


def ints_entry(E, s, fin):
    return tuple(E.read(s, Place(*k)) for k in fin)


def roots_reported(C, f, o, new, i, glo, ghi):
    """the root functions reported and their directions"""
    on = c_and(watched(o, i, glo), c_or(c_eq(ghi), c_lt(glo * ghi)))
    for s, up in ((c_lt(glo), True), (c_lt(-glo), False)):
        for c in (True, False):
            g = f + (s, on if c else c_not(on))
            if not unsat(g):
                C.eq(g, at(get(new, "ida_iroots"), P(i)), (ONE if up else -ONE) if c else ZERO, "iroots", "roots reported, +1 where the function increases and -1 where it decreases")
    g = f + (c_not(bit(get(o, "ida_gactive"), i)),)
    C.eq(g, at(get(new, "ida_iroots"), P(i)), ZERO, "iroots:idle", "no root of a function that is not watched")


def end_of_search(C, E, s, v, me, tag):
    f = tuple(s.facts)
    o = E.read(s, me.place)
    b = lambda p: sym(tag + p, "r")
    arr = lambda p, i: Arr(("base", tag + p), 1, "r").get((P(i),), ())
    if inner(v) != ("Ok", "RootFound"):
        C.bad("end", "%s at the end of the search" % (inner(v),))
        return
    C.eq(f, get(o, "ida_trout"), b("ida_thi"), "trout", "the root is the upper end of the last interval")
    for i in range(2):
        C.eq(f, element(get(o, "ida_grout"), i), arr("ida_ghi", i), "grout", "values at the root")
        roots_reported(C, f, o, o, i, arr("ida_glo", i), arr("ida_ghi", i))


def one_pass(C, E, h, s, back, me, names, two, memo):
    """(side moved, component followed, possible weights) of one pass of the search; None when reported"""
    f = tuple(s.facts)
    o, n = E.read(h, me.place), E.read(s, me.place)
    ev = s.ghost.get("ev", ())
    tlo, thi, ttol = get(o, "ida_tlo"), get(o, "ida_thi"), get(o, "ida_ttol")
    within = lambda v: c_le(pabs(get(v, "ida_thi") - get(v, "ida_tlo")) - get(v, "ida_ttol"))
    kept = lambda ps: all(get(n, p) == get(o, p) for p in ps)
    C.eq(f, get(n, "ida_ttol"), ttol, "ttol", "root tolerance")
    if not ev:
        if back or not kept(("ida_tlo", "ida_thi", "ida_glo", "ida_ghi")):
            C.bad("pass", "the search goes on without looking at a point, or changes the interval")
        elif not terms.entails(f, within(o)):
            C.bad("pass:end", "the search ends before the interval is within the tolerance [%s]" % facts_text(f))
        else:
            C.ok("search ends when the interval is within the tolerance")
        return None
    if [e[0] for e in ev if not e[0].endswith(".out")] != ["get_solution", "root"]:
        C.bad("pass:ev", "one pass of the search does %s" % ", ".join(e[0] for e in ev))
        return None
    t, g = ev[0][1]
    if not terms.entails(f, c_not(within(o))):
        C.bad("pass:more", "the search goes on although the interval is within the tolerance")
    C.eq(f, get(n, "ida_nge"), get(o, "ida_nge") + 1, "nge", "evaluations counted")
    val = [g.get((P(i),), ()) for i in two]
    lo = [element(get(o, "ida_glo"), i) for i in two]
    A = c_or(*[c_and(watched(o, i, lo[i]), differ(lo[i], val[i])) for i in two])
    Z = c_or(*[c_and(watched(o, i, lo[i]), c_eq(val[i])) for i in two])
    low = get(n, "ida_thi") == t and all(element(get(n, "ida_ghi"), i) == val[i] for i in two) and kept(("ida_tlo", "ida_glo"))
    high = get(n, "ida_tlo") == t and all(element(get(n, "ida_glo"), i) == val[i] for i in two) and kept(("ida_thi", "ida_ghi"))
    if not low and not high:
        C.bad("pass:move", "a pass does not replace one end of the interval and its values by the point looked at")
        return None
    if low and back and not terms.entails(f, A):
        C.bad("pass:low", "the search goes on in the lower part without a sign change there [%s]" % facts_text(f))
    elif low and not back and not terms.entails(f, A):
        if not terms.entails(f, c_and(c_not(A), Z)):
            C.bad("pass:zero", "the search ends at a point without a zero or sign change [%s]" % facts_text(f))
    elif low and not back and not terms.entails(f, within(n)):
        C.bad("pass:end", "the search ends before the interval is within the tolerance [%s]" % facts_text(f))
    elif high and not terms.entails(f, c_and(c_not(A), c_not(Z))):
        C.bad("pass:high", "the search goes on in the upper part although there is a sign change or zero before [%s]" % facts_text(f))
    elif high and not back and not terms.entails(f, within(n)):
        C.bad("pass:end", "the search ends before the interval is within the tolerance [%s]" % facts_text(f))
    else:
        C.ok("one pass keeps the root")
    # the point looked at
    r = memo.get((s.ghost["hd"], t))
    if r is None:
        weights = [("one", ONE)]
        for k in names.values():
            a = E.read(h, Place(*k))
            if isinstance(a, Poly) and not a.is_const():
                weights += [("double", 2 * a), ("half", a * Fraction(1, 2))]
        cands = [(j, nm, point(o, j, w)) for j in two for nm, w in weights]
        few = tuple(h.facts) + (c_not(within(o)),)
        r = [(j, nm) for j, nm, p in cands if p == t] or [(j, nm) for j, nm, p in cands if check_eq(few, t, p) is None]
        memo[s.ghost["hd"], t] = r
    if not r:
        C.bad("point", "the point looked at is %s" % short(t))
        return None
    C.ok("point looked at")
    return 1 if low else 2, r[0][0], [x[1] for x in r if x[0] == r[0][0]]


def point(o, j, w):
    """the next point of the search: the secant with a weight, kept half a tolerance away from both ends"""
    tlo, thi, ttol = get(o, "ida_tlo"), get(o, "ida_thi"), get(o, "ida_ttol")
    lo, hi = at(get(o, "ida_glo"), P(j)), at(get(o, "ida_ghi"), P(j))
    t = thi - (thi - tlo) * hi * (hi - w * lo).inv()
    frac = pabs(thi - tlo) * ttol.inv()
    part = ite(c_lt(5 - frac), P(Fraction(1, 10)), P(Fraction(1, 2)) * frac.inv())
    h = P(Fraction(1, 2))
    t = ite(c_lt(pabs(t - tlo) - h * ttol), tlo + part * (thi - tlo), t)
    return ite(c_lt(pabs(thi - t) - h * ttol), thi - part * (thi - tlo), t)
