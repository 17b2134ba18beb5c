"""Checks of the stepping code of the integrator (properties S01-S08): every path of a function, on a symbolic
integrator whose order and counters are enumerated, is compared with the decision tree of the reference method."""
from fractions import Fraction
from values import *
import terms, models, loops, nd, dense
from models import num
from dense import check_eq, facts_text, short
from ida import IdaEngine, Obj, Missing, meth, run, get, snapshot
from schecks import Chk, need, vec, rng, at, unchanged, written, field, events, plain, is_recoverable, I, diff, where, get_flag, STATE
import ida

HH, TN = "ida_hh", "nlp.ida_tn"


def variant(v):
    return v.variant if isinstance(v, Enum) else None


def inner(v):
    """(Ok|Err, name of the value inside)"""
    return (variant(v), variant(pay(v)) if variant(v) in ("Ok", "Err") else None)


def compare(C, outs, ref, check):
    """every path of the code against every branch of the reference it can coincide with; a branch: (facts, expectation).
    check(state, value, expectation, facts, name)"""
    hit = set()
    for s, k, v in C.covered(outs):
        for r, (cond, want) in enumerate(ref):
            f = tuple(s.facts) + tuple(cond)
            if unsat(f):
                continue
            hit.add(r)
            check(s, v, want, f)
    for r, (cond, want) in enumerate(ref):
        if r not in hit and not unsat(tuple(cond)):
            C.bad("missing:%d" % r, "no path of the function covers the case %s" % facts_text(cond))


def cell_of(E, name, kind="r"):
    return Ref(Place(("p", name), ()), True)


# ------------------------------------------------------------------------------------------ S01 interpolation

def tfuzz(obj):
    hh, tn = get(obj, HH), get(obj, TN)
    return P(100) * nd.EPS * (pabs(tn) + pabs(hh)) * ite(c_lt(hh), P(-1), P(1))


def outside(obj, t):
    """the time is before the last step (with the rounding slack)"""
    hh, tn = get(obj, HH), get(obj, TN)
    tp = tn - get(obj, "ida_hused") - tfuzz(obj)
    return c_lt((t - tp) * hh)


def cj(obj, t, j):
    """j-th basis polynomial of the interpolant: prod_{m<j} (t - tn + psi_{m-1}) / psi_m"""
    tn, psi = get(obj, TN), get(obj, "ida_psi")
    r = ONE
    for m in range(j):
        r = r * (t - tn + (at(psi, P(m - 1)) if m else ZERO)) * at(psi, P(m)).inv()
    return r


def interpolant(obj, t, order):
    phi = get(obj, "ida_phi")
    return sum((cj(obj, t, j) * at(phi, P(j), I) for j in range(order + 1)), ZERO)


def s01(E, R, pid="S01"):
    O = Obj(E)
    t = sym("t", "r")
    ta = t.single()
    uid = need(E, "ida::Ida", "get_solution")
    for kused in range(0, 6):
        C = Chk(E, R, pid, uid, "order used %d" % kused)
        st, me = O.state(ida_kused=P(kused))
        obj = E.read(st, me.place)
        bad = outside(obj, t)
        y = interpolant(obj, t, max(kused, 1))
        yp = diff(y, ta)

        def check(s, v, want, f):
            new = E.read(s, me.place)
            if want is None:
                if inner(v) == ("Err", "BadTimeValue"):
                    C.ok("a time outside the last step is refused")
                else:
                    C.bad("accepts", "a time outside the last step is answered with %s [%s]" % (inner(v), facts_text(f)))
                unchanged(C, E, st, s, me, (), "nodata")
                return
            if variant(v) != "Ok":
                C.bad("refuses", "a time inside the last step is refused (%s) [%s]" % (inner(v), facts_text(f)))
                return
            C.ok("a time inside the last step is accepted")
            C.eq(rng(E, f), at(get(new, "nlp.ida_yy"), I), y, "yy", "solution = interpolating polynomial at t")
            C.eq(rng(E, f), at(get(new, "nlp.ida_yp"), I), yp, "yp", "derivative = derivative of the interpolating polynomial at t")
            unchanged(C, E, st, s, me, ("nlp.ida_yy", "nlp.ida_yp"))

        C.stale(get(obj, "nlp.ida_yy"), get(obj, "nlp.ida_yp"))
        outs = run(E, uid, st, [me, t])
        C.fresh("yy", "values of the history polynomial: solution and derivative")
        compare(C, outs, [((bad,), None), ((c_not(bad),), 1)], check)
        C.panics()
        C.unmodelled()
    uid = need(E, "ida::Ida", "get_dky")
    cell, v0, view = vec(E, "dky")
    for kused in range(0, 6):
        for k in range(0, 7):
            C = Chk(E, R, pid, uid, "order used %d, derivative %d" % (kused, k))
            st, me = O.state(ida_kused=P(kused))
            st = st.setcell(cell, v0).setcell(("p", "dky"), view)
            obj = E.read(st, me.place)
            bad = outside(obj, t)
            y = interpolant(obj, t, kused)
            for _ in range(k):
                y = diff(y, ta)

            def check(s, v, want, f):
                if variant(want) is None and want != "ok":
                    if inner(v) == ("Err", want):
                        C.ok("refused with %s" % want)
                    else:
                        C.bad("accepts:" + want, "expected %s, the answer is %s [%s]" % (want, inner(v), facts_text(f)))
                    if E.read(s, Place(cell, ())) != v0:
                        C.bad("nodata", "the output is written although the request is refused")
                    unchanged(C, E, st, s, me, (), "nodata")
                    return
                if variant(v) != "Ok":
                    C.bad("refuses", "a valid request is refused (%s) [%s]" % (inner(v), facts_text(f)))
                    return
                C.eq(rng(E, f), at(E.read(s, Place(cell, ())), I), y, "dky", "k-th derivative of the interpolating polynomial")
                unchanged(C, E, st, s, me, ())

            ref = [((), "BadK")] if k > kused else [((bad,), "BadTimeValue"), ((c_not(bad),), "ok")]
            C.stale(v0)
            outs = run(E, uid, st, [me, t, P(k), Ref(Place(("p", "dky"), ()), True)])
            C.fresh("dky", "output vector of get_dky (polynomial)")
            compare(C, outs, ref, check)
            C.panics()
            C.unmodelled()


# ------------------------------------------------------------------------------------------ S02, S03 stopping tests

TS, TOUT = sym("tstop", "r"), sym("tout", "r")
TASK = "ida::IdaTask"


def task(E, name):
    for k, d in E.adts.items():
        if k.split("::")[-1] == "IdaTask" and name in [v["name"] for v in d["variants"]]:
            return Enum(k, name, ())
    raise Missing("IdaTask::" + name)


def c_gt0(p):
    return c_lt(-p)


def c_ge0(p):
    return c_le(-p)


def near_tol(obj):
    return P(100) * nd.EPS * (pabs(get(obj, TN)) + pabs(get(obj, HH)))


def stop_ref(obj, which, mode, tstop):
    """(facts, (owner, kind, time delivered)) per branch of the stopping tests"""
    hh, tn, last = get(obj, HH), get(obj, TN), get(obj, "ida_tretlast")
    ref, rest = [], []

    def branch(cond, *want):
        ref.append((tuple(rest) + (cond,), want))
        rest.append(c_not(cond))

    if tstop and which == 1:
        branch(c_gt0((tn - TS) * hh), "S02", "err", "BadStopTime")
    if mode == "Normal":
        if which == 1:
            branch(c_eq(TOUT - last), "S03", "same", TOUT)
        branch(c_ge0((tn - TOUT) * hh), "S03", "interp", TOUT)
    elif which == 1:
        branch(c_gt0((tn - last) * hh), "S03", "current", tn)
    if tstop:
        branch(c_le(pabs(tn - TS) - near_tol(obj)), "S02", "tstop", TS)
    if mode == "OneStep" and which == 2:
        ref.append((tuple(rest), ("S03", "current", tn)))
    else:
        ref.append((tuple(rest), ("", "continue", None)))
    return ref


def new_step(C, f, obj, new, tstop):
    """the step size left for the next step: unchanged, or cut so that the step ends at the stop time"""
    hh, tn = get(obj, HH), get(obj, TN)
    want = hh
    if tstop:
        want = ite(c_gt0((tn + hh - TS) * hh), (TS - tn) * (ONE - P(4) * nd.EPS), hh)
    C.eq(f, get(new, HH), want, "hh", "step size left: unchanged, or cut to reach the stop time")


def stop_tests(E, R, pid):
    O = Obj(E)
    cell = ("p", "tret")
    t0 = sym("tret0", "r")
    for which, name in ((1, "stop_test1"), (2, "stop_test2")):
        uid = need(E, "ida::Ida", name)
        for mode in ("Normal", "OneStep"):
            for tstop in (False, True):
                for kused in (1, 2):
                    C = Chk(E, R, pid, uid, "%s, %s, order %d" % (mode, "stop time set" if tstop else "no stop time", kused))
                    st, me = O.state(ida_kused=P(kused), ida_tstop=some(TS) if tstop else NONE)
                    st = st.setcell(cell, t0)
                    obj = E.read(st, me.place)
                    for x in stop_check(E, C, O, st, me, obj, uid, which, mode, tstop, kused, cell, t0):
                        pass
                    C.unmodelled()


def delivered(E, C, f, new, obj, t, kused, st, s, me):
    """the vectors hold the interpolated solution at t"""
    y = interpolant(obj, t, max(kused, 1))
    yp = diff(interpolant(obj, sym("t~d", "r"), max(kused, 1)), sym("t~d", "r").single())
    yp = terms.subst(yp, {sym("t~d", "r").single(): t})
    C.eq(rng(E, f), at(get(new, "nlp.ida_yy"), I), y, "yy", "solution delivered is the one at the time reported")
    C.eq(rng(E, f), at(get(new, "nlp.ida_yp"), I), yp, "yp", "derivative delivered is the one at the time reported")


def stop_check(E, C, O, st, me, obj, uid, which, mode, tstop, kused, cell, t0):
    def check(s, v, want, f):
        owner, kind, t = want
        new = E.read(s, me.place)
        tret = E.read(s, Place(cell, ()))
        got = inner(v)
        if owner == "S03" and C.pid == "S02" and kind == "current" and which == 2:
            new_step(C, f, obj, new, tstop)
        if owner and owner != C.pid:
            return
        if kind == "err":
            if got == ("Err", t):
                C.ok("a stop time already passed is an error")
            else:
                C.bad("pasttstop", "a stop time already passed is answered with %s [%s]" % (got, facts_text(f)))
            unchanged(C, E, st, s, me, ())
            return
        if kind == "continue":
            if got != ("Ok", "ContinueSteps"):
                C.bad("continue", "%s although no stopping condition holds [%s]" % (got, facts_text(f)))
                return
            if C.pid == "S02":
                new_step(C, f, obj, new, tstop)
                if get(new, "ida_tstop") != get(obj, "ida_tstop"):
                    C.bad("tstop:kept", "the stop time is changed although it was not reached")
            else:
                C.eq(f, tret, t0, "tret", "reported time untouched when stepping goes on")
                unchanged(C, E, st, s, me, (HH, "ida_tstop", "nlp.ida_yy", "nlp.ida_yp"))
            return
        if got[0] == "Err":
            # only an interpolation refused for its time may fail
            if kind == "same" or not is_refusal(v):
                C.bad("err", "%s although the stopping condition holds [%s]" % (got, facts_text(f)))
            elif kind == "current" or not entails_outside(obj, t, f):
                C.bad("err", "an error although the time is inside the last step [%s]" % facts_text(f))
            else:
                C.ok("a time outside the last step is an error")
            return
        status = "TStop" if kind == "tstop" else "Success"
        if got != ("Ok", status):
            C.bad("status", "%s, expected %s [%s]" % (got, status, facts_text(f)))
            return
        if which == 1 and kind == "interp" and not unsat(tuple(f) + (outside(obj, t),)):
            C.bad("stale", "success although the time asked for lies before the last step, where there is no solution [%s]" % facts_text(f))
        C.ok("%s returned exactly when its condition holds" % status)
        C.eq(f, tret, t, "tret", "time reported")
        C.eq(f, get(new, "ida_tretlast"), t, "tretlast", "time recorded for the next call")
        if kind == "tstop":
            if get(new, "ida_tstop") == NONE:
                C.ok("stop time cleared once reached")
            else:
                C.bad("tstop:cleared:" + mode, "the stop time stays set after it was reached")
        if kind in ("interp", "tstop"):
            inside = f + (c_not(outside(obj, t)),)
            if not unsat(inside):
                delivered(E, C, inside, new, obj, t, kused, st, s, me)
        unchanged(C, E, st, s, me, ("ida_tretlast", "ida_tstop", "nlp.ida_yy", "nlp.ida_yp") + ((HH,) if kind == "current" and which == 2 else ()))

    compare(C, run(E, uid, st, [me, TOUT, Ref(Place(cell, ()), True), task(E, mode)]), stop_ref(obj, which, mode, tstop), check)
    C.panics()
    return ()


def is_refusal(v):
    return inner(v) in (("Err", "BadTimeValue"), ("Err", "BadStopTime"), ("Err", "IllegalInput"))


def entails_outside(obj, t, f):
    return unsat(tuple(f) + (c_not(outside(obj, t)),))


def s02(E, R, pid="S02"):
    import schecks3
    stop_tests(E, R, pid)
    schecks3.first_step(E, R, pid, (True,))
    schecks3.driver(E, R, pid, True)
    stop_in_step(E, R, pid)


def stop_in_step(E, R, pid):
    """with a stop time set an attempt is made at the end of the step, moved to the stop time only from beyond it"""
    def fn(C, r):
        n = 0
        for s, v in [(x[2], None) for x in r.cut.backs] + [(x[0], x[2]) for x in r.outs]:
            f = tuple(s.facts)
            ins = r.solved(s)
            if ins is None:
                continue
            n += 1
            t = get(ins[4], "ida_tn")
            if check_eq(f, t, r.tn + r.hh) is None:
                C.ok("an attempt is made at the end of the step")
            elif check_eq(f, t, TS) is None and entails(f, c_lt(-((r.tn + r.hh - TS) * r.hh))):
                C.ok("a step that ends beyond the stop time is moved to it")
            else:
                C.bad("time", "with a stop time set an attempt is made at %s, expected %s [%s]" % (short(t), short(r.tn + r.hh), facts_text(f)))
            new = E.read(s, r.me.place)
            if get(new, "ida_tstop") != get(r.obj, "ida_tstop"):
                C.bad("tstop:step", "a step changes the stop time")
            else:
                C.ok("a step keeps the stop time")
        if not n:
            C.bad("noattempt", "the nonlinear solver is never called")
    each_head(E, R, pid, fn, [(True, 1, 0, 0, MAXORD, True), (False, 2, 2, None, MAXORD, True), (False, 3, 3, 4, MAXORD, True), (False, 5, 5, 7, MAXORD, True)])


def s03(E, R, pid="S03"):
    import schecks3
    stop_tests(E, R, pid)
    schecks3.driver(E, R, pid)


# ------------------------------------------------------------------------------------------ S04-S07 the step

HHs, HUs = sym("s.ida_hh", "r"), sym("s.ida_hused", "r")
MAXORD = 5


def heads_of_step(thorough=True):
    """(nst is zero, order, order last used, steps at this step size and order, maximum order) from which a step
    attempt may start; the last step's order and size may differ from the current ones (no equal steps)"""
    r = [(True, 1, 0, 0, MAXORD), (True, 1, 0, 1, MAXORD)]
    for kused in range(1, 6):
        for kk in range(1, 6):
            if kk > kused + 1:
                continue
            r.append((False, kk, kused, None, MAXORD))
            if kk == kused:
                r += [(False, kk, kused, ns, MAXORD) for ns in range(0, kk + 3)]
    for kk in range(1, 5):
        r += [(False, kk, kk, None, kk), (False, kk, kk, kk + 2, kk), (False, kk, kk, kk + 2, kk + 1)]
    r.append((True, 1, 0, 0, 1))
    return sorted(set(r), key=lambda h: (-h[1], str(h)))


def steps_alpha(obj, kk, hh):
    """alpha_0..alpha_kk of the attempt: hh / psi_i(new)"""
    psi = get(obj, "ida_psi")
    return [ONE] + [hh * (hh + at(psi, P(i - 1))).inv() for i in range(1, kk + 1)]


def head_state(E, O, first, kk, kused, ns, maxord=MAXORD, **kw):
    """the symbolic integrator at the start of an attempt: any history; after ns steps of one size the spacing is equal"""
    # ns None: the step size or the order differs from the last step's, so the count is about to restart
    f = dict(ida_kk=P(kk), ida_kused=P(kused), ida_constraints_set=False, ida_maxord=P(maxord))
    if ns is not None:
        f["ida_ns"] = P(ns)
    if not first and ns is not None:
        f["ida_hused"] = HHs
    if first:
        f["counters__ida_nst"] = ZERO
        f["ida_hused"] = ZERO
    f.update(kw)
    st, me = O.state(**f)
    obj = E.read(st, me.place)
    psi = get(obj, "ida_psi")
    # the limits as the constructor sets them (10 each); the first two error test failures are retried whatever the limit
    facts = [c_not(c_eq(HHs)), c_le(P(3) - get(obj, "ida_maxnef"))]
    arr = psi.arr
    if first:
        arr = arr.update(c_eq(bv(0)), HHs)
    else:
        facts.append(c_le(ONE - get(obj, "counters.ida_nst")))
        if ns is None:
            if kk == kused:
                facts.append(c_not(c_eq(HHs - HUs)))
        else:
            for j in range(min(ns, kk + 1)):
                arr = arr.update(c_eq(bv(0) - j), HHs * (j + 1))
    st = E.write(st, Place(me.place.cell, me.place.path + (("f", "ida_psi"),)), ArrV(arr, psi.dims))
    if ns is not None and not first and ns >= kk + 1:
        # after kk + 1 equal steps the coefficients are those of constant step size and are not computed again
        obj = E.read(st, me.place)
        al = steps_alpha(obj, kk, HHs)
        for nm, f in (("ida_alpha", lambda i: al[i]), ("ida_beta", lambda i: ONE), ("ida_sigma", lambda i: sigma(al, i)),
                      ("ida_gamma", lambda i: sum((al[j] * HHs.inv() for j in range(i)), ZERO))):
            v = get(obj, nm)
            arr = v.arr
            for i in range(kk + 1):
                arr = arr.update(c_eq(bv(0) - i), f(i))
            st = E.write(st, Place(me.place.cell, me.place.path + (("f", nm),)), ArrV(arr, v.dims))
    for c in facts:
        st = st.with_fact(c)
    return st, me


def powf(a, e):
    return a.half().inv() if e == Fraction(-1, 2) else app("pow", a, P(e))


def sigma(al, i):
    r = ONE
    for k in range(1, i + 1):
        r = r * P(k) * al[k]
    return r


def harmonic(k):
    return sum((Fraction(1, i) for i in range(1, k + 1)), Fraction(0))


KEYS = {}


class StepRun:
    """one generic attempt of Ida::step from one class of head states"""

    def __init__(self, E, O, first, kk, kused, ns, maxord=MAXORD, tstop=False, **kw):
        if tstop:
            kw["ida_tstop"] = some(TS)
        self.first, self.kk, self.kused, self.ns, self.maxord = first, kk, kused, ns, maxord
        self.tag = "%s, order %d, order used %d, %s equal steps, maximum order %d" % ("first step" if first else "later step", kk, kused, "no" if ns is None else ns, maxord) + (", stop time set" if tstop else "")
        self.st, self.me = head_state(E, O, first, kk, kused, ns, maxord, **kw)
        uid = self.uid = need(E, "ida::Ida", "step")
        self.obj = E.read(self.st, self.me.place)
        self.names = {}

        def heads(E, st, h, names):
            self.names.update(names)
            # the object is the arbitrary one of this class again (the loop may have been entered before)
            h = h.setcell(self.me.place.cell, self.obj)
            for k in names.values():
                v = E.read(h, Place(*k))
                if isinstance(v, Poly) and v.kind() == "i":
                    h = h.with_fact(c_le(-v))
            self.head = h
            return [(self.tag, h)]

        cut = self.cut = ida.Cut(self.me.place.cell, uid, heads)
        cut.keys = KEYS.setdefault(id(E), [])
        E.cut, E.paths = cut, True
        try:
            self.outs = run(E, uid, self.st, [self.me])
        finally:
            E.cut, E.paths = None, False
        if not cut.entries:
            raise Missing("the attempt loop of step")
        self.reference()

    def reference(self):
        """what the attempt computes from the head state, by the reference method"""
        o, kk = self.obj, self.kk
        hh = self.hh = get(o, HH)
        self.tn = get(o, TN)
        self.psi, self.phi = get(o, "ida_psi"), get(o, "ida_phi")
        self.al = steps_alpha(o, kk, hh)
        ns = 0 if self.ns is None or self.first else self.ns
        self.ns1 = min(ns + 1, self.kused + 2)
        alphas = -harmonic(kk)
        alpha0 = -sum(self.al[:kk], ZERO)
        self.ck = pmax(pabs(self.al[kk] + P(alphas) - alpha0), self.al[kk])
        self.cj = P(harmonic(kk)) * hh.inv()
        # beta_j: the history columns change by this factor with the step size (one for the first ns + 1 of them)
        t = self.tn + hh
        self.star = [cj(o, t, j) * at(self.phi, P(j), I) for j in range(kk + 1)]

    def norm(self, E, x, f):
        """weighted norm of a vector (term in I) on a path that has decided whether algebraic components take part"""
        o = self.obj
        t = x * at(get(o, "nlp.ida_ewt"), I)
        t = t * t
        sup = get(o, "ida_suppressalg")
        d = decide(f, sup)
        if d is None:
            return None
        if d:
            t = t * ite(c_eq(at(get(o, "ida_id"), I) - 1), ONE, ZERO)
        return (mk_sum(ZERO, E.n, t, I.single()) * E.n.inv()).half()

    def solved(self, s):
        """(prediction, ...) handed to the nonlinear solver, or None"""
        ev = events(s, "nls.solve")
        return ev[-1][1] if ev else None

    def ee(self, E, s):
        """correction the nonlinear solver returned on this path"""
        for nm, ins in s.ghost.get("ev", ()):
            if nm == "nls.solve.out":
                return at(ins[0], I)
        return None


def each_head(E, R, pid, fn, heads=None):
    """fn(C, run) for every class of head states, on all processors"""
    import multiprocessing as mp, os
    O = Obj(E)
    hs = heads or heads_of_step()
    uid = need(E, "ida::Ida", "step")
    StepRun(E, O, *hs[-1])            # finds the loop-carried locals once
    jobs = max(1, min(len(hs), os.cpu_count() or 1, int(os.environ.get("VERIF_JOBS", "8"))))

    def work(h):
        from report import Report
        r = Report()
        C = Chk(E, r, pid, uid)
        KEYS.setdefault(id(E), [])
        try:
            run_ = StepRun(E, O, *h)
            C.tag = run_.tag
            fn(C, run_)
            C.panics()
            C.unmodelled()
        except Missing as e:
            return ("missing", str(e), None, None, 0, 0)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            r.bad(pid, "undecided", "the analysis could not decide the step: %s: %s (%s)" % (type(e).__name__, str(e)[:200], " <- ".join("%s:%d" % (x.name, x.lineno) for x in reversed(tb[-3:]))))
        return ("ok", r.viol, r.items.get(pid, []), sorted(E.inlined), len(C.E.obls), 0)

    global WORK
    WORK = work
    if jobs == 1:
        res = [work(h) for h in hs]
    else:
        with mp.get_context("fork").Pool(jobs, maxtasksperchild=None) as pool:
            res = pool.map(call_work, hs, 1)
    for k, viol, items, inl, no, np in res:
        if k == "missing":
            raise Missing(viol)
        for v in viol:
            R.bad(v["property"], v["key"], v["msg"], v["where"])
        for i in items:
            R.ok(pid, i["obligation"], i["where"])
        E.inlined.update(inl)
        E.heads_met = getattr(E, "heads_met", 0) + np


def call_work(h):
    return WORK(h)


def val_at(v, j):
    """row j of a matrix value at the generic component, or element j of a vector"""
    return at(v, P(j), I) if len(v.dims) == 2 else at(v, P(j))


def counters_of(r):
    """the integer locals the attempt loop carries"""
    return {nm: k for nm, k in r.names.items()}


def restored(C, E, r, s, f, retry):
    """time and history equal those before the attempt (before a retry of the first step: rescaled to the new step)"""
    new = E.read(s, r.me.place)
    g = rng(E, f)
    C.eq(g, get(new, TN), r.tn, "tn", "time is the one before the attempt")
    phi, psi = get(new, "ida_phi"), get(new, "ida_psi")
    for j in range(0, r.maxord + 1):
        want = val_at(r.phi, j)
        if r.first and retry and j == 1:
            want = want * get(new, "ida_hh") * r.hh.inv()
        C.eq(g, val_at(phi, j), want, "phi:%d" % j, "history column %d is the one before the attempt%s" % (j, " at the new step size" if r.first and j == 1 else ""))
    for j in range(0, r.kk):
        want = val_at(r.psi, j)
        if r.first and retry and j == 0:
            want = get(new, "ida_hh")
        C.eq(f, val_at(psi, j), want, "psi:%d" % j, "spacing %d of the history is the one before the attempt" % j)


def s04(E, R, pid="S04"):
    def fn(C, r):
        n = 0
        for tag, h, s in r.cut.backs:
            f = tuple(s.facts)
            restored(C, E, r, s, f, True)
            predicted(C, E, r, s, f)
            n += 1
        for s, k, v in r.outs:
            f = tuple(s.facts)
            if variant(v) == "Err":
                restored(C, E, r, s, f, False)
            elif variant(v) == "Ok":
                new = E.read(s, r.me.place)
                predicted(C, E, r, s, f)
                C.eq(f, get(new, TN), r.tn + r.hh, "tn:ok", "an accepted step advances the time by the step size")
                psi = get(new, "ida_psi")
                for j in range(0, r.kk + 1):
                    C.eq(f, val_at(psi, j), r.hh + (val_at(r.psi, j - 1) if j else ZERO), "psi:ok:%d" % j, "spacing %d of the history after the step" % j)
                ee = r.ee(E, s)
                if ee is None:
                    C.bad("ee", "no correction was computed for an accepted step")
                    continue
                phi, g = get(new, "ida_phi"), rng(E, f)
                tot = ee
                want = {}
                for j in range(r.kk, -1, -1):
                    tot = tot + r.star[j]
                    want[j] = tot
                if r.kk < r.maxord:
                    want[r.kk + 1] = ee
                for j in range(0, r.maxord + 1):
                    C.eq(g, val_at(phi, j), want.get(j, val_at(r.phi, j)), "phi:ok:%d" % j, "history column %d after the step" % j)
                al = get(new, "ida_alpha")
                for j in range(0, r.kk + 1):
                    C.eq(f, val_at(al, j), r.al[j], "alpha", "coefficient alpha after the step")
                    C.eq(f, val_at(get(new, "ida_sigma"), j), sigma(r.al, j), "sigma", "coefficient sigma after the step")
                C.eq(f, get(new, "ida_ns"), P(r.ns1), "ns", "number of equal steps counted")
        if not r.cut.backs:
            C.bad("noretry", "no failed attempt is ever retried")
    each_head(E, R, pid, fn)


def predicted(C, E, r, s, f):
    """the prediction handed to the nonlinear solver is the history polynomial at the new time"""
    ins = r.solved(s)
    if ins is None:
        return
    nlp = ins[4]
    g = rng(E, f)
    t = r.tn + r.hh
    y = sum(r.star, ZERO)
    tt = sym("t", "r")
    yp = subst_t(diff(interpolant(r.obj, tt, r.kk), tt.single()), tt, t)
    C.eq(f, get(nlp, "ida_tn"), t, "new.t", "time at which the system is solved")
    C.eq(g, at(get(nlp, "ida_yypredict"), I), y, "new.yy", "prediction = history polynomial at the new time")
    C.eq(g, at(get(nlp, "ida_yppredict"), I), yp, "new.yp", "predicted derivative = derivative of the history polynomial")
    C.eq(f, get(nlp, "lp.ida_cj"), r.cj, "new.cj", "leading coefficient of the attempt")


def subst_t(p, a, b):
    return subst(p, {a.single(): b})


def fail_kind(s):
    """what ended the attempt: 'test', 'setup', or what the nonlinear solver returned"""
    k = s.ghost.get("nls")
    return "setup" if k is None else "test" if k == "ok" else k


RECOVER = ("rec:", "nl:ConvergenceRecover")


def s05(E, R, pid="S05"):
    def fn(C, r):
        roles = {}
        for tag, h, s in r.cut.backs:
            f = tuple(s.facts)
            kind = fail_kind(s)
            new = E.read(s, r.me.place)
            lim = get(r.obj, "ida_maxnef" if kind == "test" else "ida_maxncf")
            if kind != "test" and not kind.startswith(RECOVER):
                C.bad("retry:" + kind, "an attempt is made again after a failure that is not recoverable (%s)" % kind)
            moved = []
            for nm, k in r.names.items():
                a, b = E.read(h, Place(*k)), E.read(s, Place(*k))
                if a != b:
                    moved.append((nm, k, a, b))
            if len(moved) != 1 or not isinstance(moved[0][3], Poly) or not check_eq(f, moved[0][3], moved[0][2] + 1) is None:
                C.bad("count", "a failed attempt (%s) is not counted exactly once" % kind)
                continue
            nm, k, a, b = moved[0]
            C.ok("failed attempt (%s) counted once" % kind)
            roles.setdefault("test" if kind == "test" else "solver", set()).add(k)
            if entails(f, c_lt(b - lim)):
                C.ok("retried only below the limit")
            else:
                C.bad("limit", "an attempt is made again although the number of failures (%s) may have reached its limit [%s]" % (kind, facts_text(f)))
            # step size and order of the retry
            rr = get(new, "ida_rr")
            hn = get(new, HH)
            if kind == "test":
                kn = get(new, "ida_knew")
                first = decide(f, c_eq(a))
                second = decide(f, c_eq(a - 1))
                if first:
                    C.eq(f, get(new, "ida_kk"), kn, "order:1", "order after the first error test failure is the one the test suggests")
                    errk = test_ref(E, r, s, f)
                    if errk is None:
                        C.bad("undecided", "the error estimate of the failed attempt is not understood")
                        continue
                    e = errk[0] if check_eq(f, kn, P(r.kk)) is None else errk[1]
                    base = P(2) * e + P(Fraction(1, 10000))
                    k1 = r.kk if check_eq(f, kn, P(r.kk)) is None else r.kk - 1
                    want = pmax(P(Fraction(1, 4)), pmin(P(Fraction(9, 10)), P(Fraction(9, 10)) * powf(base, Fraction(-1, k1 + 1))))
                    C.eq(f, hn, r.hh * want, "size:1", "step size after the first error test failure")
                elif second:
                    C.eq(f, get(new, "ida_kk"), kn, "order:2", "order after the second error test failure")
                    C.eq(f, hn, r.hh * Fraction(1, 4), "size:2", "step size after the second error test failure")
                elif first is False and second is False:
                    C.eq(f, get(new, "ida_kk"), ONE, "order:3", "order is one after the third error test failure")
                    C.eq(f, hn, r.hh * Fraction(1, 4), "size:3", "step size after the third error test failure")
                else:
                    C.bad("undecided", "which error test failure this is cannot be told")
            else:
                C.eq(f, get(new, "ida_kk"), P(r.kk), "order:c", "order is kept after a solver failure")
                if kind != "rec:Constraint":
                    C.eq(f, hn, r.hh * Fraction(1, 4), "size:c", "step size after a solver failure")
                else:
                    C.eq(f, hn, r.hh * get(r.obj, "ida_rr"), "size:c", "step size after a constraint failure")
            counted(C, E, r, new, f, kind)
        t, c = roles.get("test", set()), roles.get("solver", set())
        if len(t) != 1 or len(c) != 1:
            C.bad("counters", "error test failures and solver failures are not each counted by one counter")
        for s, k, v in r.outs:
            if variant(v) != "Err":
                continue
            f = tuple(s.facts)
            kind = fail_kind(s)
            new = E.read(s, r.me.place)
            got = variant(pay(v)) or (pay(v).adt if isinstance(pay(v), Struct) else None)
            if kind == "test" or kind.startswith(RECOVER):
                lim = get(r.obj, "ida_maxnef" if kind == "test" else "ida_maxncf")
                ks = t if kind == "test" else c
                for key in ks:
                    a = E.read(r.head, Place(*key))
                    if entails(f, c_le(lim - (a + 1))):
                        C.ok("given up only at the limit")
                    else:
                        C.bad("early", "a step is given up after a recoverable failure (%s) below its limit [%s]" % (kind, facts_text(f)))
                want = {"rec:Residual": ("RepeatedResidualError",), "rec:Constraint": ("ConstraintFail",)}.get(kind, ("ConvergenceFail",))
                if kind == "test":
                    if got in ("RepeatedResidualError", "ConstraintFail", "ConvergenceFail") or got is None:
                        C.bad("name:test", "too many error test failures end in %s" % got)
                    else:
                        C.ok("too many error test failures end in their own error")
                elif got in want:
                    C.ok("too many failures (%s) end in %s" % (kind, got))
                else:
                    C.bad("name:" + kind, "too many failures (%s) end in %s, expected %s" % (kind, got, want[0]))
            counted(C, E, r, new, f, kind)
    each_head(E, R, pid, fn)


def counted(C, E, r, new, f, kind):
    a, b = get(r.obj, "counters.ida_netf"), get(r.obj, "counters.ida_ncfn")
    C.eq(f, get(new, "counters.ida_netf"), a + (1 if kind == "test" else 0), "netf", "error test failures counted")
    C.eq(f, get(new, "counters.ida_ncfn"), b + (0 if kind == "test" else 1), "ncfn", "solver failures counted")


def counts_of_step(E, R, pid):
    """a step counts itself when it is accepted, and each failed attempt as the failure it was"""
    def fn(C, r):
        n0 = get(r.obj, "counters.ida_nst")
        for tag, h, s in r.cut.backs:
            new, f = E.read(s, r.me.place), tuple(s.facts)
            counted(C, E, r, new, f, fail_kind(s))
            C.eq(f, get(new, "counters.ida_nst"), n0, "nst", "steps counted")
        for s, k, v in r.outs:
            new, f = E.read(s, r.me.place), tuple(s.facts)
            C.eq(f, get(new, "counters.ida_nst"), n0 + (1 if variant(v) == "Ok" else 0), "nst", "steps counted")
            if variant(v) == "Ok":
                for x, what in (("netf", "error test"), ("ncfn", "solver")):
                    C.eq(f, get(new, "counters.ida_" + x), get(r.obj, "counters.ida_" + x), x, "%s failures counted" % what)
            else:
                counted(C, E, r, new, f, fail_kind(s))
    each_head(E, R, pid, fn)


def test_ref(E, r, s, f):
    """(err_k, err_{k-1}, condition for lowering the order, ck * norm) of the attempt, by the reference method"""
    ee = r.ee(E, s)
    if ee is None:
        return None
    kk = r.kk
    n0 = r.norm(E, ee, f)
    if n0 is None:
        return None
    ek = sigma(r.al, kk) * n0
    tk = ek * (kk + 1)
    if kk == 1:
        return ek, ZERO, False, r.ck * n0
    x = ee + r.star[kk]
    e1 = sigma(r.al, kk - 1) * r.norm(E, x, f)
    t1 = e1 * kk
    if kk == 2:
        return ek, e1, c_le(t1 - tk * Fraction(1, 2)), r.ck * n0
    x = x + r.star[kk - 1]
    t2 = sigma(r.al, kk - 2) * r.norm(E, x, f) * (kk - 1)
    return ek, e1, c_le(pmax(t1, t2) - tk), r.ck * n0


def s06(E, R, pid="S06"):
    def fn(C, r):
        for s, k, v in r.outs:
            if variant(v) != "Ok":
                continue
            f = tuple(s.facts)
            if s.ghost.get("nls") != "ok":
                C.bad("accept:nls", "a step is accepted although the nonlinear solver did not succeed (%s)" % s.ghost.get("nls"))
                continue
            t = test_ref(E, r, s, f)
            if t is None:
                C.bad("undecided", "the local error of an accepted step is not understood")
                continue
            if entails(f, c_le(t[3] - 1)):
                C.ok("accepted only with a local error of at most one")
            else:
                C.bad("accept", "a step may be accepted with a local error above one: not implied by [%s]" % facts_text(f))
            suggested(C, E, r, s, f, t)
        n = 0
        for s in [x[2] for x in r.cut.backs] + [o[0] for o in r.outs if variant(o[2]) == "Err"]:
            if s.ghost.get("nls") != "ok":
                continue
            f = tuple(s.facts)
            n += 1
            t = test_ref(E, r, s, f)
            if t is None:
                C.bad("undecided", "the local error of a rejected step is not understood")
                continue
            if entails(f, c_lt(ONE - t[3])):
                C.ok("rejected only with a local error above one")
            else:
                C.bad("reject", "a step may be rejected with a local error of at most one [%s]" % facts_text(f))
            suggested(C, E, r, s, f, t)
        for tag, h, s in r.cut.backs:
            if s.ghost.get("nls") == "ok":
                new = E.read(s, r.me.place)
                q = get(new, HH) * r.hh.inv()
                f = tuple(s.facts)
                if entails(f, c_le(q - Fraction(9, 10))) and entails(f, c_le(P(Fraction(1, 4)) - q)):
                    C.ok("the retry's step size is between 0.25 and 0.9 times the rejected one")
                else:
                    C.bad("reduce", "the retry's step size is not bounded by 0.25 and 0.9 times the rejected one: factor %s" % short(q))
        if not n:
            C.bad("noreject", "no attempt is ever rejected")
    each_head(E, R, pid, fn)


def suggested(C, E, r, s, f, t):
    """the order the error test suggests"""
    kn = get(E.read(s, r.me.place), "ida_knew")
    same = lambda k: kn.const() == k if isinstance(kn, Poly) and kn.is_const() else check_eq(f, kn, P(k)) is None
    lower = same(r.kk - 1)
    if not lower and not same(r.kk):
        C.bad("knew", "the suggested order is %s at order %d" % (short(kn), r.kk))
        return
    c = t[2] if lower else c_not(t[2])
    if entails(f, c):
        C.ok("order lowered exactly when the lower-order errors are no larger")
    else:
        C.bad("knew", "the error test suggests order %s, which the reference does not [%s]" % (short(kn), facts_text(f)))


def clamp(hn, obj):
    """branches (facts, value) of a step size cut to the maximum"""
    t = pabs(hn) * get(obj, "ida_hmax_inv")
    return [((c_lt(ONE - t),), hn * t.inv()), ((c_le(t - 1),), hn)]


def complete_ref(E, r, s, f):
    """branches (facts, (order, step size, phase)) of completing a step"""
    kk, hh, o = r.kk, r.hh, r.obj
    t = test_ref(E, r, s, f)
    if t is None:
        return None
    errk, errm, lower, _ = t
    phase = get(o, "ida_phase")
    res = []

    def sizes(cond, k2, err):
        rr = powf(P(2) * err + P(Fraction(1, 10000)), Fraction(-1, k2 + 1))
        for c, h in clamp(P(2) * hh, o):
            res.append((cond + (c_le(P(2) - rr),) + c, (k2, h, None)))
        res.append((cond + (c_le(rr - 1),), (k2, hh * pmax(P(Fraction(1, 2)), pmin(rr, P(Fraction(9, 10)))), None)))
        res.append((cond + (c_lt(ONE - rr), c_lt(rr - 2)), (k2, hh, None)))

    if lower is not False:
        sizes((lower,), kk - 1, errm)
    keep = (c_not(lower),) if lower is not False else ()
    if kk == r.maxord:
        sizes(keep, kk, errk)
        return res
    # start-up phase
    p0 = keep + (c_eq(phase),)
    if r.first:
        res.append((p0, (kk, hh, 0)))
    else:
        for c, h in clamp(P(2) * hh, o):
            res.append((p0 + c, (kk + 1, h, 0)))
    p1 = keep + (c_not(c_eq(phase)),)
    if kk + 1 >= r.ns1 or kk - r.kused == 1:
        sizes(p1, kk, errk)
        return res
    ep = r.norm(E, r.ee(E, s) - at(r.phi, P(kk + 1), I), f) * Fraction(1, kk + 2)
    tk, tp = errk * (kk + 1), ep * (kk + 2)
    if kk == 1:
        up = c_lt(tp - tk * Fraction(1, 2))
        sizes(p1 + (up,), kk + 1, ep)
        sizes(p1 + (c_not(up),), kk, errk)
        return res
    tm = errm * kk
    low = c_le(tm - pmin(tk, tp))
    sizes(p1 + (low,), kk - 1, errm)
    sizes(p1 + (c_not(low), c_le(tk - tp)), kk, errk)
    sizes(p1 + (c_not(low), c_lt(tp - tk)), kk + 1, ep)
    return res


def s07(E, R, pid="S07"):
    def fn(C, r):
        n = 0
        hmi = get(r.obj, "ida_hmax_inv")
        for s, k, v in r.outs:
            if variant(v) != "Ok":
                continue
            n += 1
            f0 = tuple(s.facts)
            new = E.read(s, r.me.place)
            ref = complete_ref(E, r, s, f0)
            if ref is None:
                C.bad("undecided", "the completion of a step is not understood")
                continue
            hit = 0
            for cond, (k2, h2, phase) in ref:
                f = f0 + tuple(cond)
                if unsat(f):
                    continue
                hit += 1
                C.eq(f, get(new, "ida_kk"), P(k2), "kk", "order of the next step")
                C.eq(f, get(new, HH), h2, "hh", "size of the next step")
                ph = get(new, "ida_phase")
                if phase == 0:
                    C.eq(f, ph, ZERO, "phase", "start-up phase goes on")
                elif entails(f, c_not(c_eq(ph))):
                    C.ok("start-up phase is over")
                else:
                    C.bad("phase", "the start-up phase goes on although the order was lowered, a step failed or the order is the highest")
            if not hit:
                C.bad("case", "a completed step matches no case of the reference [%s]" % facts_text(f0))
            kn = get(new, "ida_kk")
            if isinstance(kn, Poly) and kn.is_const() and 1 <= kn.const() <= r.maxord and abs(kn.const() - r.kk) <= 1:
                C.ok("order between one and the maximum, changed by at most one")
            else:
                C.bad("order", "the next order is %s after order %d (maximum %d)" % (short(kn), r.kk, r.maxord))
            C.eq(f0, get(new, "ida_kused"), P(r.kk), "kused", "order last used recorded")
            C.eq(f0, get(new, "ida_hused"), r.hh, "hused", "step size last used recorded")
            C.eq(f0, get(new, "counters.ida_nst"), get(r.obj, "counters.ida_nst") + 1, "nst", "steps counted")
            C.eq(f0, get(new, "ida_ns"), P(r.ns1), "ns", "number of equal steps counted")
        if not n:
            C.bad("noaccept", "no step is ever accepted")
        for tag, h, s in r.cut.backs:
            new = E.read(s, r.me.place)
            kn = get(new, "ida_kk")
            if isinstance(kn, Poly) and kn.is_const() and 1 <= kn.const() <= r.kk:
                C.ok("order of a retry between one and the order tried")
            else:
                C.bad("order:retry", "the order of the retry is %s after order %d" % (short(kn), r.kk))
            if entails(tuple(s.facts), c_not(c_eq(get(new, "ida_phase")))):
                C.ok("a failed attempt ends the start-up phase")
            else:
                C.bad("phase:retry", "a failed attempt does not end the start-up phase")
    each_head(E, R, pid, fn)


def sample(E, n=3):
    O = Obj(E)
    import time
    for h in heads_of_step():
        t = time.time()
        r = StepRun(E, O, *h)
        print(h, len(r.outs), len(r.cut.backs), "%.2f" % (time.time() - t), sorted(E.unmodelled), r.names)


# ------------------------------------------------------------------------------------------ S24 interpolation

def s24(E, R, pid="S24"):
    """the values delivered are those of the history polynomial (the window is S01's)"""
    from schecks import only
    only(E, R, pid, s01, ("yy", "yp", "dky", "refuses"), "polynomial")


# ------------------------------------------------------------------------------------------ S25 history of an accepted step

def s25(E, R, pid="S25"):
    from schecks3 import set_

    def fn(C, r):
        n = 0
        lemma = False
        # the polynomial in terms of the reference spacings: through the accepted solution and the points before it
        tn1 = r.tn + r.hh
        ref = set_(set_(r.obj, TN, tn1), "ida_psi", with_elements(r.psi, [r.hh + (val_at(r.psi, j - 1) if j else ZERO) for j in range(r.kk + 1)]))
        nodes = r.kk

        def through(C, g, col, ee):
            poly = lambda x: sum((cj(ref, x, j) * col[j] for j in range(r.kk + 1)), ZERO)
            C.eq(g, poly(tn1), sum(r.star, ZERO) + ee, "now", "history polynomial at the new time = prediction + correction")
            for m in range(nodes):
                x = r.tn - (val_at(r.psi, m - 1) if m else ZERO)
                y = sum((cj(r.obj, x, j) * val_at(r.phi, j) for j in range(m + 1)), ZERO)
                C.eq(g, poly(x), y, "node:%d" % m, "history polynomial at the %s point before = its value there" % ("first", "second", "third", "fourth", "fifth")[m])

        for s, k, v in r.outs:
            if variant(v) != "Ok":
                continue
            n += 1
            f = tuple(s.facts)
            g = rng(E, f)
            new = E.read(s, r.me.place)
            ee = r.ee(E, s)
            if ee is None:
                C.bad("ee", "no correction was computed for an accepted step")
                continue
            C.eq(f, get(new, TN), tn1, "tn", "time of the history")
            for j in range(r.kk + 1):
                C.eq(f, val_at(get(new, "ida_psi"), j), r.hh + (val_at(r.psi, j - 1) if j else ZERO), "psi:%d" % j, "spacing %d of the history" % j)
            phi = get(new, "ida_phi")
            want, tot = {}, ee
            for j in range(r.kk, -1, -1):
                tot = tot + r.star[j]
                want[j] = tot
            few = tuple(x for x in g if plain(x))
            if all(check_eq(few, val_at(phi, j), want[j]) is None for j in want) or all(check_eq(g, val_at(phi, j), want[j]) is None for j in want):
                # the columns are the modified divided differences of the accepted values ...
                C.ok("history columns = modified divided differences of the accepted values")
                if not lemma:
                    # ... and these take the values they should at the points of the step (checked once per class)
                    lemma = True
                    e = sym("ee!v", "r")
                    t2, w2 = e, {}
                    for j in range(r.kk, -1, -1):
                        t2 = t2 + r.star[j]
                        w2[j] = t2
                    through(C, rng(E, r.st.facts), w2, e)
            else:
                through(C, g, {j: val_at(phi, j) for j in want}, ee)
            if r.kk < r.maxord:
                C.eq(g, val_at(phi, r.kk + 1), ee, "next", "column above the order = the correction (for raising the order)")
        if not n:
            C.bad("noaccept", "no step is ever accepted")
    each_head(E, R, pid, fn)


def with_elements(v, xs):
    a = v.arr
    for j, x in enumerate(xs):
        a = a.update(c_eq(bv(0) - j), x)
    return ArrV(a, v.dims)
