"""Checks of the corrector and of the step coefficients: S19 convergence test, S20 coefficients, S21 renewal of the
Jacobian."""
from fractions import Fraction
from values import *
import terms, models, nd
from ida import Obj, Missing, run, get, user_err
from schecks import Chk, need, vec, rng, at, unchanged, events, field, I
from schecks2 import variant, inner, compare, head_state, heads_of_step, steps_alpha, sigma, harmonic, cj, val_at, HH, HHs, MAXORD

RATEMAX = Fraction(9, 10)
XRATE = Fraction(1, 4)


def lit(x):
    return P(Fraction(x))


# ------------------------------------------------------------------------------------------ S19 convergence test

def s19(E, R, pid="S19"):
    O = Obj(E)
    uid = need(E, "ida::ida_nls::IdaNLProblem", "ctest")
    C = Chk(E, R, pid, uid)
    st, me = O.state()
    obj = E.read(st, me.place)
    c1, v1, y = vec(E, "y")
    c2, v2, d = vec(E, "del")
    c3, v3, w = vec(E, "wt")
    st = st.setcell(c1, v1).setcell(c2, v2).setcell(c3, v3)
    tol, m = sym("tol", "r"), sym("m~nls")
    t = at(v2, I) * at(v3, I)
    nrm = (terms.mk_sum(ZERO, E.n, t * t, I.single()) * E.n.inv()).half()
    old = get(obj, "nlp.ida_oldnrm")
    rate = terms.app("pow", nrm * old.inv(), m.inv())
    ss0 = get(obj, "nlp.ida_ss")
    ss1 = rate * (ONE - rate).inv()
    first, later = c_eq(m), c_not(c_eq(m))
    direct = c_le(nrm - lit("1/10000") * get(obj, "nlp.ida_toldel"))
    div = c_lt(P(RATEMAX) - rate)
    acc0, acc1 = c_le(ss0 * nrm - tol), c_le(ss1 * nrm - tol)
    # (facts, verdict, norm remembered, rate constant kept)
    ref = [((first, direct), ("Ok", True), nrm, ss0),
           ((first, c_not(direct), acc0), ("Ok", True), nrm, ss0),
           ((first, c_not(direct), c_not(acc0)), ("Ok", False), nrm, ss0),
           ((later, div), ("Err", "ConvergenceRecover"), old, ss0),
           ((later, c_not(div), acc1), ("Ok", True), old, ss1),
           ((later, c_not(div), c_not(acc1)), ("Ok", False), old, ss1)]
    seen = set()

    def check(s, v, want, f):
        (kind, x), o, ss = want
        new = E.read(s, me.place)
        got = variant(v)
        where = "in the first iteration" if unsat(tuple(f) + (later,)) else "in a later iteration"
        if kind == "Err":
            e = inner(v)
            if e == (kind, x):
                C.ok("a correction that shrinks too slowly is a recoverable convergence failure")
            else:
                C.bad("diverging", "a correction that shrinks too slowly is answered with %s [%s]" % (e, facts(f)))
        elif got != "Ok":
            C.bad("err", "the convergence test fails %s although the corrections do not diverge [%s]" % (where, facts(f)))
        else:
            C.iff(f, v_bool(v), x, "verdict", "verdict of the convergence test %s" % where)
        C.eq(f, get(new, "nlp.ida_oldnrm"), o, "oldnrm", "norm remembered %s" % where)
        C.eq(f, get(new, "nlp.ida_ss"), ss, "ss", "rate constant %s" % where)
        unchanged(C, E, st, s, me, ("nlp.ida_ss", "nlp.ida_oldnrm"))
        for c, val, nm in ((c1, v1, "state"), (c2, v2, "correction"), (c3, v3, "weights")):
            if E.read(s, Place(c, ())) != val:
                C.bad("modified:" + nm, "the %s is modified by the convergence test" % nm)
        seen.add((kind, x))

    E.paths = True
    try:
        outs = run(E, uid, st, [field(me, "nlp"), Top("user NLS"), y, d, tol, w])
    finally:
        E.paths = False
    compare(C, outs, [(r[0], r[1:]) for r in ref], check)
    if len(seen) < 3:
        C.bad("noresult", "not every verdict of the convergence test is reachable")
    C.panics()
    C.unmodelled()


def facts(f):
    from dense import facts_text
    return facts_text(f)


def v_bool(v):
    return pay(v)


# ------------------------------------------------------------------------------------------ S20 coefficients

def s20(E, R, pid="S20"):
    O = Obj(E)
    uid = need(E, "ida::Ida", "set_coeffs")
    for h in heads_of_step():
        first, kk, kused, ns, maxord = h
        if maxord != MAXORD and not first:
            continue
        C = Chk(E, R, pid, uid, "%s, order %d, order used %d, %s equal steps" % ("first step" if first else "later step", kk, kused, "no" if ns is None else ns))
        st, me = head_state(E, O, *h)
        obj = E.read(st, me.place)
        hh, psi, phi = get(obj, HH), get(obj, "ida_psi"), get(obj, "ida_phi")
        al = steps_alpha(obj, kk, hh)
        n1 = min((0 if ns is None or first else ns) + 1, kused + 2)
        npsi = [hh + (at(psi, P(j - 1)) if j else ZERO) for j in range(kk + 1)]
        beta = [ONE]
        for i in range(1, kk + 1):
            beta.append(beta[-1] * npsi[i - 1] * at(psi, P(i - 1)).inv())
        gam = [sum((al[j] * hh.inv() for j in range(i)), ZERO) for i in range(kk + 1)]
        alphas, alpha0 = -harmonic(kk), -sum(al[:kk], ZERO)
        ck = terms.pmax(terms.pabs(al[kk] + P(alphas) - alpha0), al[kk])
        for s, k, v in C.covered(run(E, uid, st, [me])):
            new = E.read(s, me.place)
            f = tuple(s.facts)
            g = rng(E, f)
            for i in range(kk + 1):
                C.eq(f, val_at(get(new, "ida_psi"), i), npsi[i], "psi", "psi_%d = sum of the last %d step sizes" % (i, i + 1))
                C.eq(f, val_at(get(new, "ida_alpha"), i), al[i], "alpha", "alpha_%d = step size / psi_%d" % (i, i))
                C.eq(f, val_at(get(new, "ida_sigma"), i), sigma(al, i), "sigma", "sigma_%d = product of j alpha_j" % i)
                C.eq(f, val_at(get(new, "ida_gamma"), i), gam[i], "gamma", "gamma_%d = sum of alpha_j / step size" % i)
                C.eq(f, val_at(get(new, "ida_beta"), i), beta[i], "beta", "beta_%d = product of the ratios of new to old spacings" % i)
                C.eq(g, val_at(get(new, "ida_phi"), i), val_at(phi, i) * beta[i], "phi", "history column %d rescaled to the new spacing" % i)
            for i in range(kk + 1, MAXORD + 1):
                C.eq(g, val_at(get(new, "ida_phi"), i), val_at(phi, i), "phi:above", "history column %d above the order untouched" % i)
            C.eq(f, get(new, "nlp.lp.ida_cj"), P(harmonic(kk)) * hh.inv(), "cj", "leading coefficient = sum of 1/j over the step size")
            C.eq(f, get(new, "ida_cjlast"), get(obj, "nlp.lp.ida_cj"), "cjlast", "leading coefficient of the attempt before remembered")
            C.eq(f, get(new, "ida_ns"), P(n1), "ns", "number of steps at this size and order")
            C.eq(f, models.num(E, s, v), ck, "ck", "error coefficient")
            unchanged(C, E, st, s, me, ("ida_psi", "ida_alpha", "ida_beta", "ida_sigma", "ida_gamma", "ida_phi", "ida_ns", "ida_cjlast", "nlp.lp.ida_cj"))
        C.panics()
        C.unmodelled()


# ------------------------------------------------------------------------------------------ S21 renewal of the Jacobian

def s21(E, R, pid="S21"):
    O = Obj(E)
    uid = need(E, "ida::Ida", "nonlinear_solve")
    for first in (True, False):
        C = Chk(E, R, pid, uid, "first step" if first else "later step")
        kw = dict(counters__ida_nst=ZERO) if first else {}
        st, me = O.state(ida_constraints_set=False, **kw)
        obj = E.read(st, me.place)
        c, old, last = get(obj, "nlp.lp.ida_cj"), get(obj, "nlp.lp.ida_cjold"), get(obj, "ida_cjlast")
        for x in ([] if first else [c_le(ONE - get(obj, "counters.ida_nst")), c_not(c_eq(old))]) + [c_not(c_eq(c))]:
            st = st.with_fact(x)
        low = P((1 - XRATE) / (1 + XRATE))
        ratio = ONE if first else c * old.inv()
        drift = c_or(c_lt(ratio - low), c_lt(low.inv() - ratio))
        seen = set()
        for s, k, v in C.covered(run(E, uid, st, [me])):
            f = tuple(s.facts)
            su, so = events(s, "nls.setup"), events(s, "nls.solve")
            if len(su) != 1:
                C.bad("setups", "the nonlinear solver's setup is called %d times" % len(su))
            if not so:
                if variant(v) == "Err":
                    C.ok("a failed setup of the nonlinear solver is reported")
                    seen.add("err")
                else:
                    C.bad("setup:lost", "success although the nonlinear solver was never asked")
                continue
            if len(so) != 1:
                C.bad("solves", "the nonlinear solver is called %d times" % len(so))
                continue
            y0, w, tol, call, nlp = so[0][1]
            C.iff(f, call, True if first else drift, "call", "linear setup requested exactly %s" % ("on the first step" if first else "when the coefficient has drifted too far"))
            C.eq(f, get(nlp, "lp.ida_cjold"), c if first else old, "cjold", "coefficient of the factorised matrix when the solver is called")
            C.eq(f, get(nlp, "lp.ida_cjratio"), ratio, "cjratio", "coefficient ratio when the solver is called")
            C.eq(f, get(nlp, "ida_ss"), terms.ite(c_eq(c - last), P(20) if first else get(obj, "nlp.ida_ss"), P(100)), "ss", "rate constant when the solver is called")
            C.eq(f, get(nlp, "lp.ida_cj"), c, "cj", "step coefficient when the solver is called")
            C.eq(rng(E, f), at(y0, I), ZERO, "guess", "initial correction is zero")
            seen.add("solve")
        if seen != {"err", "solve"}:
            C.bad("noresult", "setup failures of the nonlinear solver %s" % ("are lost" if "err" not in seen else "end every step"))
        C.panics()
        C.unmodelled()


# ------------------------------------------------------------------------------------------ S22 slider-crank problem

def trig(p):
    """sines and cosines of sums written with those of the summands; sin^2 = 1 - cos^2"""
    from terms import atoms_of, app, subst

    def sc(q):
        """(sin, cos) of a sum with coefficients 1 and -1"""
        s, c = ZERO, ONE
        for m, k in q.t:
            t = Poly({m: abs(k)})
            a, b = app("sin", t), app("cos", t)
            if k < 0:
                a = -a
            s, c = s * b + c * a, c * b - s * a
        return s, c

    ren = {}
    for a in atoms_of(p):
        if a[0] == "app" and a[1] in ("sin", "cos"):
            q = a[2][0] if isinstance(a[2], tuple) else a[2]
            if len(q.t) > 1 or any(k < 0 for m, k in q.t):
                ren[a] = sc(q)[0 if a[1] == "sin" else 1]
    return subst(p, ren) if ren else p


def dtrig(p, x):
    """derivative of a polynomial in coordinates, their sines and their cosines"""
    from terms import app
    r = ZERO
    for m, c in p.t:
        for k, (a, e) in enumerate(m):
            rest = tuple((b, f) if j != k else (b, f - 1) for j, (b, f) in enumerate(m) if j != k or f != 1)
            if a == x.single():
                d = ONE
            elif a == app("sin", x).single():
                d = app("cos", x)
            elif a == app("cos", x).single():
                d = -app("sin", x)
            else:
                continue
            r = r + Poly({rest: c * e}) * d
    return r


def s22(E, R, pid="S22"):
    from schecks import enter
    from terms import app
    uid = need(E, "ida::sample_problems::slider_crank::SlCrank", "res")
    E.nd_dim = P(10)
    C = Chk(E, R, pid, uid)
    st, args, outs = enter(E, uid)
    live = C.covered(outs)
    me = models.deref(E, st, args[0])
    Y = [E.mget(st, E.mat(st, args[2]), (P(i),)) for i in range(10)]
    YP = [E.mget(st, E.mat(st, args[3]), (P(i),)) for i in range(10)]
    pos, vel, lam, mu = Y[0:3], Y[3:6], Y[6:8], Y[8:10]
    a, k_, c_, l0, F0 = (get(me, n) for n in ("a", "k", "c", "l0", "F"))
    q, x, p = pos
    s1, c1, s2, c2 = app("sin", q), app("cos", q), app("sin", p), app("cos", p)
    # the spring joins the middle of the crank with the middle of the rod
    dx, dy = x - (c2 + a * c1) * Fraction(1, 2), (s2 + a * s1) * Fraction(1, 2)
    for s, k, v in live:
        F = [trig(E.mget(s, E.mat(s, args[4]), (P(i),))) for i in range(10)]
        g = F[6:8]
        for m in range(2):
            if any(z.single() in terms.atoms_of(g[m]) for z in Y[3:] + YP):
                C.bad("position", "position constraint %d does not depend on the coordinates only" % m)
            C.eq(s.facts, F[8 + m], sum((dtrig(g[m], pos[j]) * vel[j] for j in range(3)), ZERO), "velocity", "velocity constraint %d is the time derivative of position constraint %d" % (m, m))
        C.eq(s.facts, g[0], x - c2 - a * c1, "loop:x", "the slider is where crank and rod end")
        C.eq(s.facts, g[1], -s2 - a * s1, "loop:y", "the rod ends on the slider's line")
        # l^2 with sin^2 + cos^2 = 1 used as the code does: compared after eliminating the squares of the sines
        l2 = x * x - x * (c2 + a * c1) + (ONE + a * a) * Fraction(1, 4) + a * (c2 * c1 + s2 * s1) * Fraction(1, 2)
        sq = dx * dx + dy * dy
        C.eq(s.facts, nosq(l2), nosq(sq), "spring", "spring length is the distance between the middles of crank and rod")
        ln = l2.half()
        dl2 = [dtrig(l2, z) for z in pos]
        ld = sum((dl2[j] * vel[j] for j in range(3)), ZERO) * (P(2) * ln).inv()
        f = k_ * (ln - l0) + c_ * ld
        reach = x + c2
        for j in range(3):
            G = [dtrig(g[m], pos[j]) for m in range(2)]
            C.eq(s.facts, F[j], YP[j] - vel[j] + sum((G[m] * mu[m] for m in range(2)), ZERO), "kinematic", "kinematic row %d: derivative = velocity minus constraint gradient times stabilising multipliers" % j)
            inertia = get(me, ("J1", "m2", "J2")[j])
            Q = -f * dl2[j] * (P(2) * ln).inv() + F0 * dtrig(reach, pos[j])
            C.eq(s.facts, F[3 + j], inertia * YP[3 + j] - Q + sum((G[m] * lam[m] for m in range(2)), ZERO), "dynamic", "dynamic row %d: inertia times acceleration = spring-damper and constant force minus constraint gradient times multipliers" % j)
    C.panics()
    C.unmodelled()
    uid = need(E, "ida::sample_problems::slider_crank::SlCrank", "model_size")
    C = Chk(E, R, pid, uid)
    for s, k, v in C.covered(enter(E, uid)[2]):
        C.eq(s.facts, models.num(E, s, v), P(10), "size", "ten unknowns for ten equations")
    uid = need(E, "ida::sample_problems::slider_crank::SlCrank", "default")
    C = Chk(E, R, pid, uid)
    for s, k, v in C.covered(enter(E, uid)[2]):
        for n, w in dict(a="1/2", J1=1, J2=2, m2=1, k=1, c=1, l0=1, F=1).items():
            C.eq(s.facts, models.num(E, s, get(v, n)), lit(w), "default:" + n, "default parameter %s" % n)
    E.nd_dim = None


def nosq(p):
    """sin^2 = 1 - cos^2 applied"""
    from terms import app
    r = ZERO
    for m, c in p.t:
        t = Poly({(): c})
        for a, e in m:
            if a[0] == "app" and a[1] == "sin" and e >= 2 and e == int(e):
                q = a[2][0] if isinstance(a[2], tuple) else a[2]
                one = ONE - app("cos", q) * app("cos", q)
                t = t * one.pow(int(e) // 2)
                if e % 2:
                    t = t * app("sin", q)
            else:
                t = t * Poly({((a, e),): 1})
        r = r + t
    return r


# ------------------------------------------------------------------------------------------ S23 kinetics problem

def s23(E, R, pid="S23"):
    from schecks import enter
    adt = "ida::sample_problems::roberts::Roberts"
    E.nd_dim = P(3)
    uid = need(E, adt, "res")
    C = Chk(E, R, pid, uid)
    st, args, outs = enter(E, uid)
    y = [E.mget(st, E.mat(st, args[2]), (P(i),)) for i in range(3)]
    yp = [E.mget(st, E.mat(st, args[3]), (P(i),)) for i in range(3)]
    r1, r2, r3 = y[0] * lit("4/100"), y[1] * y[2] * P(10000), y[1] * y[1] * P(30000000)
    for s, k, v in C.covered(outs):
        F = [E.mget(s, E.mat(s, args[4]), (P(i),)) for i in range(3)]
        C.eq(s.facts, F[0], r2 - r1 - yp[0], "rate:0", "rate of the first species")
        C.eq(s.facts, F[1], r1 - r2 - r3 - yp[1], "rate:1", "rate of the second species")
        C.eq(s.facts, F[2], y[0] + y[1] + y[2] - ONE, "mass", "the species sum to one")
        for a in (2, 3):
            if E.mat(s, args[a]).val != E.mat(st, args[a]).val:
                C.bad("modified", "an operand of the residual is modified")
    C.panics()
    C.unmodelled()
    E.nd_dim = P(3)
    uid = need(E, adt, "root")
    C = Chk(E, R, pid, uid)
    crate, b = E.bodies[uid]
    st, args, outs = enter(E, uid)
    y = [E.mget(st, E.mat(st, args[2]), (P(i),)) for i in range(3)]
    for s, k, v in C.covered(outs):
        g = [E.mget(s, E.mat(s, args[4]), (P(i),)) for i in range(2)]
        C.eq(s.facts, g[0], y[0] - lit("1/10000"), "root:0", "first watched function")
        C.eq(s.facts, g[1], y[2] - lit("1/100"), "root:1", "second watched function")
    C.panics()
    C.unmodelled()
    E.nd_dim = None
    for n, w in (("model_size", 3), ("num_roots", 2)):
        uid = need(E, adt, n)
        C = Chk(E, R, pid, uid)
        for s, k, v in C.covered(enter(E, uid)[2]):
            C.eq(s.facts, models.num(E, s, v), P(w), n, n)


# ------------------------------------------------------------------------------------------ S26 a new integrator

ZEROS = ("nlp.ida_tn", "ida_kk", "ida_kused", "ida_hused", "ida_hin", "counters.ida_nst", "counters.ida_ncfn", "counters.ida_netf",
         "nlp.ida_nre", "nlp.ida_nsetups", "nlp.lp.nje", "nlp.lp.nli", "nlp.lp.ncfl", "ida_nge")


def s26(E, R, pid="S26"):
    from schecks import pnames, num
    u = need(E, "ida::Ida", "new")
    C = Chk(E, R, pid, u)
    O = Obj(E)
    live = [o for o in O.new_outs if o[1] == "val" and not unsat(o[0].facts)]
    if not live:
        C.bad("noresult", "new never returns")
    C.panics()
    for s, k, v in live:
        f = tuple(s.facts) + (c_le(-I), c_lt(I - E.n))
        y0, yp0 = (Arr(("base", nm), 1, "r") for nm in pnames(E, u)[1:3])
        phi = get(v, "ida_phi")
        for what, x, want in (("history column 0", phi.arr.get((ZERO, I), f), y0), ("history column 1", phi.arr.get((ONE, I), f), yp0),
                              ("current solution", get(v, "nlp.ida_yy").arr.get((I,), f), y0), ("current derivative", get(v, "nlp.ida_yp").arr.get((I,), f), yp0)):
            C.eq(f, x, want.get((I,), f), what, what + " is the given one")
        C.eq(f, phi.dims[0], P(6), "columns", "number of history columns is the highest order plus one")
        C.eq(f, phi.dims[1], E.n, "length", "length of the history columns is the model's size")
        for p in ZEROS:
            C.eq(f, num(E, s, get(v, p)), ZERO, p, p + " starts at zero")
        for p in ("ida_setup_done", "ida_irfnd", "ida_constraints_set", "ida_suppressalg"):
            (C.ok if get(v, p) is False else lambda t: C.bad(p, "not so: " + t))(p + " starts false")
        (C.ok if get(v, "ida_tstop") == Enum("core::option::Option", "None", ()) else lambda t: C.bad("ida_tstop", "not so: " + t))("no stop time is set")
        # root functions: as many as the problem has, every one watched in both directions
        r = get(v, "ida_rootdir")
        g = f + (c_lt(I - E.nroots),)
        C.eq(f, get(v, "ida_nrtfn"), E.nroots, "ida_nrtfn", "number of root functions is the problem's")
        for p in ("ida_glo", "ida_ghi", "ida_grout", "ida_iroots", "ida_rootdir", "ida_gactive"):
            x = get(v, p)
            if not isinstance(x, ArrV):
                C.bad(p + ".len", "what %s starts with is not understood" % p)
                continue
            C.eq(f, x.dims[0], E.nroots, p + ".len", "length of %s is the number of root functions" % p)
        if isinstance(r, ArrV):
            C.eq(g, r.arr.get((I,), g), ZERO, "ida_rootdir", "both directions of every root function are watched")
        for tag, args in (("NLS.new", (E.n, P(4))), ("LS.new", (E.n,))):
            ev = [x for x in s.ghost.get("ev", ()) if x[0] == tag]
            if len(ev) != 1:
                C.bad(tag, "the solver is created %d times" % len(ev))
                continue
            for i, w in enumerate(args):
                C.eq(f, ev[0][1][i], w, "%s:%d" % (tag, i), "size and limit given to the solver (%s)" % tag)
