"""Newton iteration: a typestate automaton over the problem's callbacks, run in product with an abstract
interpretation of `NLSolver::solve` for Newton.  Vectors are value numbers, counters are difference constraints."""
from interp import *
from dense import find_method, enter, the_array
import loops, models, ctl

NE = "nonlinear::Error"
REC = "ConvergenceRecover"
ALL = ("N01", "N02", "N03", "N04", "N05", "N06", "N07", "N09")


class NEngine(Engine):
    def __init__(self, crates, R):
        Engine.__init__(self, crates, "ctl")
        self.R = R
        self.fcontent = {}        # residual base -> content term it was evaluated at
        self.ftab = {}
        self.fam = {}
        self.hist = set()
        self.ctl_terms = []
        self.ctl_stable = set()
        self.ctl_loops = set()
        self.ctl_heads = 0
        self.checked = {}
        self.tried = {}
        self.un = 0
        self.dbg = False
        self.cuts = []

    # --------------------------------------------------------------- reporting
    def fail(self, st, prop, key, msg, fr, e):
        if self.quiet or unsat(st.facts):
            return
        self.R.bad(prop, key, "%s [%s]" % (msg, self.where(st, fr)), e.get("sp") if e else None)

    def cut(self, st, fr, e):
        """exploration stops here: nothing is known about what follows"""
        if not self.quiet and not unsat(st.facts):
            self.cuts.append(self.where(st, fr))

    def good(self, prop, what, e):
        if not self.quiet:
            self.R.ok(prop, what, (e or {}).get("sp"))

    def where(self, st, fr):
        return "in %s, after: %s" % (fr.fn if fr else "?", " ".join(st.ghost.get("trace", ())) or "entry")

    def no_progress(self, st, fr, e):
        self.fail(st, "N03", "no-progress:" + fr.fn, "a loop iteration performs neither a linear solve nor a new attempt, so the loop need not end", fr, e)

    # --------------------------------------------------------------- value numbers
    def fbase(self, t):
        if t not in self.ftab:
            b = ("base", "F%d" % len(self.ftab))
            self.ftab[t] = b
            self.fcontent[b] = t
        return self.ftab[t]

    def new_base(self, e, tag):
        return ("base", "%s@%d" % (tag, e["n"]))

    def split(self, st, c):
        if self.mode == "ctl" and c is not True and c is not False and decide(st.facts, c) is None:
            self.history_check(st, c)
        return Engine.split(self, st, c)

    def history_check(self, st, c):
        fam = self.cond_fam(c)
        if fam:
            names = ", ".join(sorted(str(x[1]) if isinstance(x, tuple) and len(x) > 1 else str(x) for x in fam))
            self.fail(st, "N09", "history-branch:" + norm(show_c(c)), "control depends on the solver's history (%s): branch on %s" % (names, show_c(c)), self.cur, self.cur_e)

    def cond_fam(self, c):
        out = {}
        for p in polys(c):
            f = ctl.fam_of(self, p)
            out.update(f)
            for b in bases_of(p):
                if b in self.hist_bases:
                    out[b] = 1
        return out

    def ev_Call(self, e, st, fr):
        self.cur, self.cur_e = fr, e
        return Engine.ev_Call(self, e, st, fr)

    def ev_If(self, e, st, fr):
        self.cur, self.cur_e = fr, e
        return Engine.ev_If(self, e, st, fr)


def norm(t):
    import re
    return re.sub(r"~\d+|h[\d_]+\.", "", t)


def polys(c):
    if isinstance(c, Poly):
        yield c
    elif isinstance(c, tuple):
        for x in c:
            yield from polys(x)


# ------------------------------------------------------------------------------------------- helpers

def vec(E, st, v):
    """normalised content term of a vector argument (reference, view, value)"""
    m = E.mat(st, v)
    if m is None:
        return None
    a = m.val
    if E.whole(m):
        return ctl.content(E, st, a)
    t = m.val.arr.get(m.exprs)
    return ctl.content(E, st, ArrV(lam(2, "r", t), m.dims))


def setvec(E, st, v, base):
    m = E.mat(st, v)
    if m is None or m.place is None:
        return st
    if E.whole(m) and len(m.exprs) == 2:
        return E.write(st, m.place, ArrV(Arr(base, 2, "r"), m.val.dims))
    return E.mfill(st, m, atom(("sel", Arr(base, 2, "r"), (bv(0), bv(1)), "r")))


def el(base):
    return atom(("sel", Arr(base, 2, "r"), (atom(("s", "i!", "i")), ZERO), "r"))


def eqv(a, b):
    if a is None or b is None:
        return False
    return a == b or (a - b).is_zero()


def refval(E, st, v):
    while isinstance(v, Ref):
        v = E.read(st, v.place)
    return v


def errors(E, st, e, what):
    """one outcome per variant of the nonlinear error"""
    d = E.adts.get(NE)
    out = []
    for v in d["variants"]:
        flds = []
        for i, f in enumerate(v["fields"]):
            flds.append((f, Top("%s-error payload" % what)))
        out.append((v["name"] == REC, Enum(NE, v["name"], tuple(flds))))
    return out


def tick(g):
    for k in list(g):
        if k.startswith(ctl.TICK):
            g[k] = True
    return g


def trace(g, ev):
    t = [x for x in g.get("trace", ()) if x != ev] + [ev]
    g["trace"] = tuple(t[-4:])


def requested(st):
    """setup is due in the attempt of this state"""
    return st.ghost["att"] > 0 or st.ghost["req"]


def calls_in_num(E):
    if E.mode == "num":
        raise ctl.EventInNum()


def fail_outs(E, s, e, fr, what, okph, outv=None):
    """the callback fails with each kind of error; okph: the phase a success would have led to"""
    res = []
    for rec, v in errors(E, s, e, what):
        g = dict(s.ghost)
        g["ph"] = "rfail" if rec else "fail"
        g["err"] = v
        g["why"] = what
        g["gC"] = g["gC"] + 1
        g["okph"] = okph
        t = State(s.store, s.facts, g)
        junk = E.new_base(e, "junk")
        if outv is not None:
            t = setvec(E, t, outv, junk)
        g2 = dict(t.ghost)
        if okph == "solved":
            g2["U"] = ArrV(Arr(junk, 2, "r"), E.ydims)
        g2["Yend"] = E.read(t, E.yplace)
        trace(g2, "%s->%s" % (what, v.variant))
        res.append((State(t.store, t.facts, g2), "val", err(v)))
    return res


def after_end(E, st, fr, e, what):
    """a callback where none is allowed: reported, then the analysis goes on as if it were allowed"""
    g = dict(st.ghost)
    ph = g["ph"]
    if ph == "accept":
        E.fail(st, "N01", "after-accept:" + what, "%s is called after the convergence test accepted the iterate" % what, fr, e)
        g["ph"] = "tested"
    elif ph == "fail" or (ph == "rfail" and what != "the residual"):
        E.fail(st, "N05", "after-failure:%s:%s" % (g["why"], what), "%s is called after %s failed with %s" % (what, g["why"], "a non-recoverable error" if ph == "fail" else "a recoverable error, without a new attempt"), fr, e)
        resync(g)
    return State(st.store, st.facts, g)


def resync(g):
    """go on as if the failed callback had succeeded"""
    g["ph"], g["gC"] = g["okph"], g["gC"] - 1
    g["Yend"], g["err"], g["why"] = None, None, ""


# ------------------------------------------------------------------------------------------- callbacks

def h_sys(E, st, fr, args, e, c):
    calls_in_num(E)
    E.events += 1
    y = vec(E, st, args[1])
    Y0 = E.Y0
    if y is None:
        E.fail(st, "N02", "sys:arg", "the residual is evaluated at an unknown vector", fr, e)
        E.cut(st, fr, e)
        return []
    if st.ghost["ph"] == "fail" and eqv(y, Y0) and not eqv(y, vec(E, st, st.ghost["X"]) if st.ghost["X"] is not None else None):
        for p in ("N03", "N05"):
            E.fail(st, p, "retry:fatal", "the solve is retried after %s failed with a non-recoverable error" % st.ghost["why"], fr, e)
        st = State(st.store, st.facts, dict(st.ghost, ph="rfail"))
    st = after_end(E, st, fr, e, "the residual")
    g = dict(st.ghost)
    ph = g["ph"]
    X = vec(E, st, g["X"]) if g["X"] is not None else None
    att = g["att"]
    if ph == "start":
        if not eqv(y, Y0):
            E.fail(st, "N02", "sys:first", "the first residual is evaluated at %s instead of the initial guess" % show(y), fr, e)
        else:
            E.good("N02", "first residual is evaluated at the initial guess", e)
        tick(g)
        nph = "res0"
    elif ph in ("tested", "rfail"):
        limit = ph == "tested"
        retry = eqv(y, Y0) and not eqv(y, X) if limit else True
        if limit and eqv(y, X) and eqv(y, Y0):
            retry = entails(st.facts, c_le(E.M - g["it"]))
        if not retry:
            if not eqv(y, X):
                E.fail(st, "N02", "sys:iterate", "the residual is evaluated at %s instead of the current iterate" % show(y), fr, e)
            if not entails(st.facts, c_lt(g["it"] - E.M, True)):
                E.fail(st, "N04", "sys:limit", "after a test that did not accept, another residual is evaluated although the iteration limit may be reached", fr, e)
            else:
                E.good("N04", "iterating on only below the limit", e)
            nph = "ready"
        else:
            g["amb"] = False
            if not eqv(y, Y0):
                key = "N02" if g["why"] not in ("residual", "setup") else "N05"
                E.fail(st, key, "sys:retry", "after a recoverable failure of %s the residual is evaluated at %s instead of the initial guess" % (g["why"], show(y)), fr, e)
                E.fail(st, "N03", "retry:guess", "the retry starts from %s instead of the initial guess" % show(y), fr, e)
            if limit:
                if not entails(st.facts, c_le(E.M - g["it"])):
                    E.fail(st, "N04", "limit:early", "the attempt is given up before the iteration limit", fr, e)
                    g["amb"] = True
                else:
                    E.good("N04", "attempt given up exactly at the limit", e)
                g["gC"] = g["gC"] + 1
            if g["J"]:
                E.fail(st, "N03", "retry:current", "the solve is retried although the Jacobian was reported current", fr, e)
            elif att >= 1:
                E.fail(st, "N03", "retry:again", "the solve is retried more than once", fr, e)
            else:
                E.good("N03", "single retry, only with a stale Jacobian", e)
            g["att"], g["it"], g["su"] = 1, ZERO, False
            g["U"], g["Yend"], g["err"], g["why"] = None, None, None, ""
            if att == 0:
                tick(g)
            nph = "res0"
    elif ph in ("res0", "ready"):
        want = X if ph == "ready" else Y0
        if not eqv(y, want):
            E.fail(st, "N02", "sys:other", "the residual is evaluated at %s" % show(y), fr, e)
        nph = ph
    else:                                  # solved: before the convergence test
        E.fail(st, "N02", "sys:before-test", "the residual is evaluated before the convergence test of the iteration", fr, e)
        nph = "ready"
    g["ph"] = nph
    if nph == "res0":
        g["X"] = E.y0arr
    base = E.fbase(y)
    trace(g, "sys")
    s = State(st.store, st.facts, g)
    okst = setvec(E, s, args[2], base)
    return [(okst, "val", ok(UNIT))] + fail_outs(E, s, e, fr, "residual", nph, outv=args[2])


def h_setup(E, st, fr, args, e, c):
    calls_in_num(E)
    E.events += 1
    st = after_end(E, st, fr, e, "setup")
    g = dict(st.ghost)
    ph = g["ph"]
    if ph != "res0" or g["su"]:
        E.fail(st, "N06", "setup:place", "setup is called at a point other than once after the residual at the initial guess", fr, e)
    if not requested(st):
        E.fail(st, "N06", "setup:unrequested", "setup is called in the first attempt although the caller did not ask for it", fr, e)
    y, f, jb = vec(E, st, args[1]), vec(E, st, args[2]), refval(E, st, args[3])
    if not eqv(y, E.Y0):
        E.fail(st, "N06", "setup:y", "setup receives %s instead of the initial guess" % show_(y), fr, e)
    if not eqv(f, el(E.fbase(E.Y0))):
        E.fail(st, "N06", "setup:f", "setup receives %s instead of the residual at the initial guess" % show_(f), fr, e)
    if jb is not (g["att"] > 0):
        E.fail(st, "N06", "setup:jbad:%s" % (g["att"] > 0), "setup is told jbad=%s in %s" % (jb, "a retry" if g["att"] else "the first attempt"), fr, e)
    E.good("N06", "setup called at the initial guess with its residual and jbad=%s" % (g["att"] > 0), e)
    g["su"] = True
    trace(g, "setup")
    outs = []
    for b in (True, False):
        g2 = dict(g)
        g2["J"] = b
        trace(g2, "setup->Ok(%s)" % b)
        outs.append((State(st.store, st.facts, g2), "val", ok(b)))
    return outs + fail_outs(E, State(st.store, st.facts, g), e, fr, "setup", ph)


def h_solve(E, st, fr, args, e, c):
    calls_in_num(E)
    E.events += 1
    st = after_end(E, st, fr, e, "the linear solve")
    g = dict(st.ghost)
    ph = g["ph"]
    if ph == "tested":
        E.fail(st, "N02", "solve:no-residual", "an iteration starts without a new residual", fr, e)
    if ph in ("start", "solved"):
        E.fail(st, "N02", "solve:order:" + ph, "the linear solve is called %s" % ("before the residual" if ph == "start" else "twice without a convergence test"), fr, e)
    if ph == "res0":
        if requested(st) and not g["su"]:
            E.fail(st, "N06", "solve:no-setup:%d" % g["att"], "the iteration starts without the setup that %s" % ("a retry requires" if g["att"] else "the caller requested"), fr, e)
            if g.get("amb"):
                E.fail(st, "N02", "sys:iterate", "an iteration goes on with the residual evaluated at the initial guess", fr, e)
            g["su"] = True
        else:
            E.good("N06", "iteration starts with setup exactly if due", e)
    X = vec(E, st, g["X"]) if g["X"] is not None else None
    y, b = vec(E, st, args[1]), vec(E, st, args[2])
    if not eqv(y, X):
        E.fail(st, "N02", "solve:y", "the linear solve receives the iterate %s instead of %s" % (show_(y), show_(X)), fr, e)
        g["X"] = E.read(st, E.yplace)
    if X is None or not eqv(b, -el(E.fbase(X))):
        E.fail(st, "N02", "solve:rhs", "the right-hand side is %s instead of the negated residual at the iterate" % show_(b), fr, e)
    if not entails(st.facts, c_lt(g["it"] - E.M, True)):
        E.fail(st, "N04", "solve:limit", "a linear solve is performed although the iteration limit may be reached", fr, e)
    E.good("N02", "right-hand side is the negated residual at the current iterate", e)
    E.good("N04", "solve within the limit", e)
    g["it"], g["gN"] = g["it"] + 1, g["gN"] + 1
    tick(g)
    g["ph"] = "solved"
    trace(g, "solve")
    s = State(st.store, st.facts, g)
    outs = fail_outs(E, s, e, fr, "linear solve", "solved", outv=args[2])
    u = E.new_base(e, "upd")
    s = setvec(E, s, args[2], u)
    g = dict(s.ghost)
    g["U"] = ArrV(Arr(u, 2, "r"), E.ydims)
    return [(State(s.store, s.facts, g), "val", ok(UNIT))] + outs


def h_ctest(E, st, fr, args, e, c):
    calls_in_num(E)
    E.events += 1
    st = after_end(E, st, fr, e, "the convergence test")
    g = dict(st.ghost)
    ph = g["ph"]
    if ph != "solved":
        E.fail(st, "N02", "ctest:order:" + ph, "the convergence test is called without a new linear solve", fr, e)
    X = vec(E, st, g["X"]) if g["X"] is not None else None
    U = vec(E, st, g["U"]) if g["U"] is not None else None
    y, dl, tol, w = vec(E, st, args[2]), vec(E, st, args[3]), refval(E, st, args[4]), vec(E, st, args[5])
    yout = vec(E, st, Ref(E.yplace, False))
    if X is None or U is None:
        pass
    elif not eqv(y, X + U):
        E.fail(st, "N02", "ctest:y", "the tested iterate is %s instead of the previous iterate plus the correction" % show_(y), fr, e)
    if not eqv(yout, y):
        E.fail(st, "N01", "ctest:out", "the tested iterate is not the one in the output vector, which holds %s" % show_(yout), fr, e)
    if ph == "solved" and not eqv(dl, U):
        E.fail(st, "N01", "ctest:del", "the convergence test receives %s instead of the correction just applied" % show_(dl), fr, e)
    if not (isinstance(tol, Poly) and tol == E.tol):
        E.fail(st, "N01", "ctest:tol", "the convergence test receives tolerance %s instead of the caller's" % show_(tol), fr, e)
    if not eqv(w, E.W):
        E.fail(st, "N01", "ctest:w", "the convergence test receives weights %s instead of the caller's" % show_(w), fr, e)
    E.good("N01", "test applied to the output iterate, last correction, caller's tolerance and weights", e)
    ci = getter(E, st, args[1], "get_cur_iter", fr, e)
    if ci is None or not same_int(st, ci, g["it"] - 1):
        E.fail(st, "N04", "ctest:curiter", "in iteration %s of an attempt the test sees current-iteration %s" % (show(g["it"] - 1), show_(ci)), fr, e)
    else:
        E.good("N04", "current iteration index seen by the test is exact", e)
    g["X"] = E.read(st, E.mat(st, args[2]).place) if E.mat(st, args[2]).place is not None else None
    if g["X"] is None or not isinstance(g["X"], ArrV):
        g["X"] = ArrV(lam(2, "r", subst(y, {("s", "i!", "i"): bv(0)})), E.ydims) if y is not None else E.y0arr
    outs = []
    for b, nph in ((True, "accept"), (False, "tested")):
        g2 = dict(g)
        g2["ph"] = nph
        g2["U"] = None
        if b:
            g2["J"] = False
        trace(g2, "ctest->Ok(%s)" % b)
        outs.append((State(st.store, st.facts, g2), "val", ok(b)))
    return outs + fail_outs(E, State(st.store, st.facts, g), e, fr, "convergence test", "tested")


def show_(x):
    if isinstance(x, Poly):
        return show(x)[:160]
    return "an unknown value" if x is None or isinstance(x, Top) else str(x)[:80]


def same_int(st, a, b):
    d = a - b
    return d.is_zero() or (not d.is_const() and entails(st.facts, c_eq(d)))


def getter(E, st, selfv, name, fr, e):
    """value of a public getter of the solver in this state"""
    uid = find_method(E, "newton::Newton", "NLSolver", name) or find_default(E, name)
    if uid is None:
        return None
    crate, b = E.bodies[uid]
    nf = E.frame(fr.id if fr else None, ("getter", e["n"] if e else 0, name), uid, crate, {}, None, 1, b["path"], "?")
    E.quiet += 1
    try:
        outs = E.enter(b, nf, [selfv], st, {"n": -1, "sp": "?"})
    finally:
        E.quiet -= 1
    vals = {o[2] for o in outs if o[1] == "val"}
    if len(vals) == 1:
        v = vals.pop()
        return v if isinstance(v, Poly) else None
    return None


def find_default(E, name):
    for uid, (c, b) in E.bodies.items():
        if "<" not in b["path"] and ("::" + b["path"]).endswith("::NLSolver::" + name):
            return uid
    return None


# ------------------------------------------------------------------------------------------- entry

def check(E, R):
    solve = find_method(E, "newton::Newton", "NLSolver", "solve")
    new = find_method(E, "newton::Newton", "NLSolver", "new")
    if solve is None or new is None:
        for p in ALL:
            R.bad(p, "anchor", "no NLSolver implementation for Newton found")
        return
    try:
        analyse(E, R, solve, new)
    except ctl.Undecided_ as x:
        for p in ALL:
            R.bad(p, "undecided", str(x))
    conversion(E, R)


def analyse(E, R, solve, new):
    cal = ["sys", "setup", "solve", "ctest"]
    for nm, h in zip(cal, (h_sys, h_setup, h_solve, h_ctest)):
        E.hooks[("NLProblem", nm)] = h
    E.hist_bases = set()
    E.cur, E.cur_e = None, None
    # --- new(m): where the limit goes, initial flag and counters
    E.mode = "num"
    st, args, outs = enter(E, new, ["m"])
    if len(outs) != 1 or not isinstance(outs[0][2], Struct):
        for p in ALL:
            R.bad(p, "new", "Newton::new does not return a solver on every path")
        return
    m, v0 = args[0], outs[0][2]
    ntop = leaves_of(v0)
    cell = ("t", -1, "new")
    s0 = outs[0][0].setcell(cell, v0)
    for gname in ("get_num_iters", "get_num_conv_fails"):
        x = getter(E, s0, Ref(Place(cell, ()), False), gname, None, None)
        if x is None or not x.is_zero():
            R.bad("N07", "new:" + gname, "%s of a new solver is %s instead of 0" % (gname, show_(x)))
        else:
            R.ok("N07", "%s is 0 for a new solver" % gname)
    lim = [(p, x - m) for p, x in ntop if isinstance(x, Poly) and (x - m).is_const()]
    if not lim:
        R.bad("N04", "new:limit", "the configured iteration limit is not stored by Newton::new")
        return
    flags = [(p, x) for p, x in ntop if x is True or x is False] + two_state(E, v0)
    if not flags:
        R.bad("N06", "new:flag", "Newton keeps no record of whether the Jacobian is current")
        R.bad("N03", "new:flag", "Newton keeps no record of whether the Jacobian is current")
        return
    E.mode = "ctl"
    best = None
    import report
    for fp, f0 in flags:
        R2 = report.Report()
        E.R = R2
        run_flag(E, R2, solve, lim, (fp, f0), flags)
        if best is None or len(R2.viol) < len(best.viol):
            best = R2
        if not best.viol:
            break
    E.R = R
    for v in best.viol:
        R.bad(v["property"], v["key"], v["msg"], v["where"])
    for p, its in best.items.items():
        for i in its:
            R.ok(p, i["obligation"], i["where"])
    R.ok("N04", "the limit given to new is the one used")


def leaves_of(v):
    return list(leaves(v))


def two_state(E, v, path=()):
    """fields holding a field-less enum with two variants"""
    if isinstance(v, Struct):
        return [r for k, x in v.fields for r in two_state(E, x, path + (("f", k),))]
    if isinstance(v, Enum) and not v.fields:
        d = E.adts.get(v.adt)
        if d and len(d["variants"]) == 2 and all(not x["fields"] for x in d["variants"]):
            return [(path, v)]
    return []


def flip(E, x):
    if isinstance(x, Enum):
        return Enum(x.adt, [v["name"] for v in E.adts[x.adt]["variants"] if v["name"] != x.variant][0], ())
    return not x


def run_flag(E, R, solve, lim, flag, flags):
    fpath, f0 = flag
    E.flagpath, E.flag0 = flag
    nret = 0
    counts = {}
    for jcur in (False, True):
        for req in (False, True):
            def prep(st, args):
                sref = args[0].place
                me = E.read(st, sref)
                for p, x in flags:
                    if p != fpath:
                        continue
                    me = set_path(me, p, (f0 if not jcur else flip(E, f0)))
                st = E.write(st, sref, me)
                # the configured limit
                lp, off = lim[0]
                M = get_path(me, lp) - off
                E.M = M
                for p, o in lim[1:]:
                    me = set_path(me, p, M + o)
                st = E.write(st, sref, me)
                st = st.with_fact(c_le(1 - M))
                E.limpaths = [p for p, o in lim]
                E.self_place = sref
                E.yplace = args[3].place
                y0 = E.read(st, args[2].place)
                w = E.read(st, args[4].place)
                y = E.read(st, args[3].place)
                E.ydims = y.dims
                E.y0arr = ArrV(y0.arr, y0.dims)
                E.Y0, E.W = ctl.content(E, st, y0), ctl.content(E, st, w)
                E.tol = args[5]
                E.hist, E.hist_bases = set(), set()
                for p, x in leaves(me):
                    if isinstance(x, Poly) and p not in E.limpaths:
                        E.hist |= atoms_of(x)
                    elif isinstance(x, ArrV):
                        E.hist_bases.add(x.arr.base)
                    elif is_bool(x) and x is not True and x is not False:
                        E.hist |= atoms_of(x)
                E.stale, E.stale_hits = frozenset(E.hist_bases | {y.arr.base}), {}
                E.ctl_terms = [M]
                E.ctl_stable = {y0.arr.base, w.arr.base, y.arr.base} | E.hist_bases | E.hist
                E.fam = {}
                gN = getter(E, st, args[0], "get_num_iters", None, None)
                gC = getter(E, st, args[0], "get_num_conv_fails", None, None)
                E.gN0, E.gC0 = gN, gC
                g = dict(ph="start", att=0, it=ZERO, gN=gN if gN is not None else ZERO, gC=gC if gC is not None else ZERO, J=jcur, req=req, su=False,
                         X=None, U=None, Yend=None, err=None, why="", trace=())
                return State(st.store, st.facts, g)
            st0, outs = enter_solve(E, solve, req, prep)
            E.stale = frozenset()
            for (f, sp), l in sorted(E.stale_hits.items(), key=str):
                R.bad("N09", "stale-arithmetic:" + f, "a vector element from before the call (%s) enters the arithmetic and vanishes only by cancellation (not if it is NaN or infinite)" % ", ".join(map(str, l)), sp)
            for o in outs:
                nret += 1
                final(E, R, st0, o)
    if E.cuts:
        for p in ALL:
            if not any(v["property"] == p for v in R.viol):
                R.bad(p, "undecided", "not established: the analysis had to stop at a callback it cannot follow [%s]" % E.cuts[0])
    if nret == 0:
        for p in ALL:
            R.bad(p, "no-exit", "no path through the Newton solve returns")
    for o in E.obls:
        if not o.ok:
            R.bad("N03", "panic:%s:%s" % (o.fn, norm(o.text)), "the solve may panic in %s: %s" % (o.fn, o.text), o.sp)
        else:
            R.ok("N03", "%s: %s" % (o.kind, o.text), o.sp)
    # sites that must have been seen
    for p, n in (("N01", 1), ("N02", 2), ("N03", 1), ("N04", 2), ("N06", 2)):
        if len(R.items.get(p, [])) < n and not R.viol:
            R.bad(p, "vacuous", "the analysis saw fewer call sites than the property needs")


def enter_solve(E, uid, req, prep):
    crate, b = E.bodies[uid]
    fr = E.frame(None, "root", uid, crate, {}, None, 0, b["path"], b.get("sp", "?"))
    E.cur, E.cur_e = fr, {"sp": b.get("sp"), "n": 0}
    st = State({})
    args = []
    for i, p in enumerate(b["params"]):
        nm = ["self", "problem", "y0", "y", "w", "tol", "call_lsetup"][i] if i < 7 else "arg%d" % i
        st, v = E.sym_of(st, E.rty(crate, p["ty"], {}), nm)
        if nm == "call_lsetup":
            v = req
        args.append(v)
    st = prep(st, args)
    outs = E.enter(b, fr, args, st, {"n": 0, "sp": "entry"})
    E.args = args
    return st, outs


def final(E, R, st0, o):
    s, kd, v = o
    if unsat(s.facts):
        return
    g = s.ghost
    e = {"sp": E.cur_e.get("sp") if E.cur_e else None, "n": 0}
    fr = E.frames[0] if 0 in E.frames else None
    body = fr.fn if fr else "solve"
    ph = g["ph"]
    tr = " ".join(g.get("trace", ()))

    def bad(p, key, msg):
        R.bad(p, key, "%s [in Newton solve, after: %s]" % (msg, tr or "entry"), body)
    if kd != "val" or not isinstance(v, Enum):
        for p in ("N01", "N05"):
            bad(p, "ret:unknown", "the result of the solve is not determined")
        return
    gC = g["gC"]
    yend = vec(E, s, Ref(E.yplace, False))
    yg = vec(E, s, g["Yend"]) if g["Yend"] is not None else None
    J = g["J"]
    if v.variant == "Ok":
        if ph != "accept":
            what = {"tested": "the test did not accept", "fail": "%s failed" % g["why"], "rfail": "%s failed" % g["why"]}.get(ph, "no iterate was tested")
            bad("N05" if ph == "fail" else "N01", "ok:" + ph, "success is returned although " + what)
            if ph == "fail":
                bad("N01", "ok:" + ph, "success is returned although " + what)
            return
        if not eqv(yend, vec(E, s, g["X"])):
            bad("N01", "ok:iterate", "the output vector is %s, not the accepted iterate" % show_(yend))
        else:
            R.ok("N01", "success returned only after acceptance, output is the accepted iterate", body)
    else:
        ev = pay(v)
        isrec = isinstance(ev, Enum) and ev.adt == NE and ev.variant == REC
        if ph == "accept":
            bad("N01", "err:accept", "an error is returned although the test accepted the iterate")
            return
        if ph == "fail":
            if ev != g["err"]:
                bad("N05", "err:other:%s:%s" % (g["why"], g["err"].variant), "after %s failed with %s the solve returns %s" % (g["why"], g["err"].variant, ename(ev)))
            else:
                R.ok("N05", "failure of %s with %s returned as it is" % (g["why"], g["err"].variant), body)
        elif ph == "rfail":
            if not isrec:
                bad("N05", "err:rec", "after a recoverable failure of %s the solve returns %s" % (g["why"], ename(ev)))
            if not J and g["att"] == 0:
                bad("N03", "no-retry:" + g["why"], "a recoverable failure of %s with a stale Jacobian is returned without the retry" % g["why"])
            else:
                R.ok("N03", "recoverable failure returned only with a current Jacobian or after the retry", body)
        elif ph == "tested":
            if not isrec:
                bad("N04", "limit:error", "at the iteration limit the solve returns %s instead of a recoverable convergence failure" % ename(ev))
            if not entails(s.facts, c_le(E.M - g["it"])):
                bad("N04", "limit:early", "the solve gives up before the iteration limit")
            else:
                R.ok("N04", "failure at the limit exactly", body)
            if not J and g["att"] == 0:
                bad("N03", "no-retry:limit", "reaching the iteration limit with a stale Jacobian is not followed by the retry")
            else:
                R.ok("N03", "recoverable failure returned only with a current Jacobian or after the retry", body)
            gC = gC + 1
        else:
            bad("N05", "err:invented:" + ph, "an error is returned although no callback failed (%s)" % ename(ev))
            return
        if ph in ("fail", "rfail"):
            if not eqv(yend, yg):
                bad("N05", "err:iterate:" + ph, "the iterate is changed after %s failed" % g["why"])
    # state left behind
    me = E.read(s, E.self_place)
    for p in E.limpaths:
        x0 = get_path(E.read(st0, E.self_place), p)
        x = get_path(me, p)
        if not isinstance(x, Poly) or not same_int(s, x, x0):
            bad("N04", "limit:changed", "the configured iteration limit is changed by a solve")
    ref = Ref(E.self_place, False)
    for nm, want, what in (("get_num_iters", g["gN"], "iteration count"), ("get_num_conv_fails", gC, "convergence-failure count")):
        x = getter(E, s, ref, nm, None, None)
        if x is None or not same_int(s, x, want):
            bad("N07", "count:%s:%s:%s" % (nm, v.variant, ph), "%s is %s on return, expected %s" % (what, show_(x), show_(want)))
        else:
            R.ok("N07", "%s exact on return after %s" % (what, ph), body)
    b = flag_value(E, s)
    if b is None or b != J:
        bad("N06", "flag:%s:%s" % (v.variant, ph), "on return the Jacobian is marked %s, expected %s" % (b, J))
    else:
        R.ok("N06", "Jacobian marking on return is what the setups reported", body)
    for nm, k in (("initial guess", 2), ("weights", 4)):
        a = E.args[k].place
        if E.read(s, a) != E.read(st0, a):
            bad("N02", "modified:" + nm, "the %s is modified" % nm)
    R.ok("N09", "result reached without reading earlier solver state (initial workspace, counters, iteration index symbolic)", body)


def ename(v):
    if isinstance(v, Enum):
        return v.variant
    return str(v)[:60]


def flag_value(E, s):
    x = get_path(E.read(s, E.self_place), E.flagpath)
    if isinstance(E.flag0, Enum):
        return x.variant != E.flag0.variant if isinstance(x, Enum) else None
    if x is True or x is False:
        return x != E.flag0
    d = decide(s.facts, x) if is_bool(x) else None
    return None if d is None else d != E.flag0


# ------------------------------------------------------------------------------------------- N05: conversion

def conversion(E, R):
    """impl From<linear::Error> for nonlinear::Error carries the linear error as source"""
    E.mode = "num"
    src = Enum("linear::Error", "LUFactFail", (("col", sym("col?")),))
    st = State({})
    for uid, (crate, b) in E.bodies.items():
        if not b["path"].endswith("::from") or len(b["params"]) != 1 or crate != "nonlinear":
            continue
        pt = E.types[crate][b["params"][0]["ty"]]
        if pt["k"] != "adt" or pt["path"] != "linear::Error":
            continue
        fr = E.frame(None, "conv", uid, crate, {}, None, 0, b["path"], "?")
        outs = E.enter(b, fr, [src], st, {"n": 0, "sp": "?"})
        okc = len(outs) >= 1 and all(isinstance(v, Enum) and v.adt == NE and v.variant not in (REC, "Continue") and any(x == src for _, x in v.fields) for _, _, v in outs)
        if not okc:
            R.bad("N05", "conversion", "converting a linear solver error gives %s instead of an unrecoverable error carrying it" % ", ".join(ename(v) for _, _, v in outs), b["path"])
        else:
            R.ok("N05", "linear error converts to an unrecoverable nonlinear error that carries it", b["path"])
        return
    R.bad("N05", "conversion", "no conversion from the linear to the nonlinear error found")
