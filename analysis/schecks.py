"""Checks of the integrator in /repo/src, on the engine of ida.py (properties S..)."""
import re
from fractions import Fraction
from values import *
import terms, models, loops, nd, dense
from models import num
from dense import check_eq, facts_text, short
from ida import IdaEngine, Obj, Missing, meth, run, get, snapshot

I = sym("i!v")


def where(E, uid):
    c, b = E.bodies[uid]
    return "%s (%s)" % (b["path"], b.get("sp", "?"))


def enter(E, uid, given=None, facts=(), cells=None):
    """outcomes of the function on symbolic arguments; given: parameter position -> value"""
    crate, b = E.bodies[uid]
    st, args = State(dict(cells or {}), tuple(facts)), []
    for k, p in enumerate(b["params"]):
        nm = p["pat"]["name"] if p["pat"] and p["pat"]["k"] == "Binding" else "arg%d" % k
        if given and k in given:
            args.append(given[k])
            continue
        st, v = E.sym_of(st, E.rty(crate, p["ty"], {}), nm)
        args.append(v)
    return st, args, run(E, uid, st, args)


_plain = {}


def plain(c):
    """a condition on indices, counters and flags only"""
    r = _plain.get(c)
    if r is None:
        r = c[0] in ("le", "lt", "eq", "b", "not") and not any(a[0] in ("sum", "poly", "app", "ite", "sel") for a in terms.atoms_of(c))
        _plain[c] = r
    return r


class Chk:
    """collects the verdicts of one property on one function"""

    def __init__(self, E, R, pid, uid, tag=""):
        self.E, self.R, self.pid, self.uid, self.tag = E, R, pid, uid, tag
        self.at = where(E, uid) if uid else tag
        self.name = E.bodies[uid][1]["path"].split("::")[-1] if uid else tag
        E.unmodelled.clear()
        E.obls.clear()

    def why(self):
        return " (not understood: %s)" % "; ".join(sorted(self.E.unmodelled)[:4]) if self.E.unmodelled else ""

    def bad(self, key, msg):
        self.R.bad(self.pid, "%s:%s" % (self.name, key), "%s%s%s" % (msg, " [%s]" % self.tag if self.tag else "", self.why()), self.at)

    def ok(self, what):
        self.R.ok(self.pid, "%s%s" % (what, " [%s]" % self.tag if self.tag else ""), self.at)

    def eq(self, facts, got, want, key, what):
        """obligation: the two terms are equal under the facts"""
        if unsat(facts):
            return True
        if isinstance(got, ArrV) and isinstance(want, ArrV):
            if len(got.dims) != len(want.dims):
                self.bad(key, "%s has %d axes, expected %d" % (what, len(got.dims), len(want.dims)))
                return False
            idx, f = [], list(facts)
            for k, d in enumerate(want.dims):
                i = sym("i!%d" % k)
                idx.append(i)
                f += [c_le(-i), c_lt(i - d)]
            for k, (a, b) in enumerate(zip(got.dims, want.dims)):
                if not self.eq(facts, a, b, key, "%s: length of axis %d" % (what, k)):
                    return False
            return self.eq(tuple(f), got.arr.get(tuple(idx), tuple(f)), want.arr.get(tuple(idx), tuple(f)), key, what)
        if not isinstance(got, Poly) and not is_bool(got):
            self.bad(key, "%s is not understood: %s" % (what, str(got)[:120]))
            return False
        if is_bool(got) or is_bool(want):
            return self.iff(facts, got, want, key, what)
        try:
            # an equality under fewer assumptions is the stronger one: the plain facts first, all of them only if needed
            few = tuple(x for x in facts if plain(x))
            d = check_eq(few, got, want)
            if d is not None and len(few) != len(facts):
                d = check_eq(facts, got, want)
        except Budget:
            self.bad(key, "%s is too complex to decide" % what)
            return False
        if d is None:
            self.ok(what)
            return True
        self.bad(key, "%s is %s, expected %s [%s]" % (what, short(d[1]), short(d[2]), facts_text(d[0])))
        return False

    def stale(self, *arrs):
        """what these arrays hold at entry must not enter any arithmetic (a NaN there would survive a product with zero)"""
        self.E.stale, self.E.stale_hits = frozenset(x.arr.base for x in arrs), {}

    def fresh(self, key, what):
        E = self.E
        E.stale = frozenset()
        for f, sp in sorted(E.stale_hits, key=str):
            self.bad(key + ":stale", "%s: what it held before the call enters the arithmetic and vanishes only by cancellation, not if it is NaN or infinite (%s, %s)" % (what, f, sp))
        if not E.stale_hits:
            self.ok("%s: no arithmetic uses what it held before" % what)

    def iff(self, facts, got, want, key, what):
        if entails_iff(facts, got, want):
            self.ok(what)
            return True
        self.bad(key, "%s is %s, expected %s" % (what, short(got), short(want)))
        return False

    def covered(self, outs, key="noresult"):
        live = [o for o in outs if o[1] in ("val", "ret") and not unsat(o[0].facts)]
        if not live:
            self.bad(key, "%s never returns" % self.name)
        return live

    def panics(self):
        """panic obligations met on the way (index bounds, subtractions)"""
        for o in self.E.obls:
            if o.ok:
                self.R.ok(self.pid, "%s: %s" % (o.kind, o.text), o.sp)
            else:
                self.R.bad(self.pid, "%s:%s" % (o.kind, o.fn), "%s obligation not met: %s" % (o.kind, o.text), o.sp)

    def unmodelled(self):
        for w, (f, sp) in sorted(self.E.unmodelled.items()):
            self.R.bad(self.pid, "unmodelled:" + w, "%s in %s is not understood" % (w, f), sp)


def entails_iff(facts, a, b):
    if a == b:
        return True
    return unsat(tuple(facts) + (a, c_not(b))) and unsat(tuple(facts) + (c_not(a), b))


def get_flag(E, st, v, i):
    return E.mat(st, v).val.arr.get((i,), ())


def need(E, adt, name):
    u = meth(E, adt, name)
    if u is None:
        raise Missing("%s::%s" % (adt, name))
    return u


# ------------------------------------------------------------------------------------------ S09 error weights

def s09(E, R, pid="S09"):
    n = E.nd_dim = sym("n~v")
    ATOM_FACTS[n.single()] = [c_le(-n)]
    found = 0
    for adt in ("ida::tol_control::TolControlSS", "ida::tol_control::TolControlSV"):
        uid = need(E, adt, "ewt_set")
        C = Chk(E, R, pid, uid, adt.split("::")[-1])
        st, args, outs = enter(E, uid)
        me = models.deref(E, st, args[0])
        i = I
        f0 = (c_le(-i), c_lt(i - n))
        rt, at = get(me, "ida_rtol"), get(me, "ida_atol")
        av = at if isinstance(at, Poly) else at.arr.get((i,), f0)
        y = E.mat(st, args[1])
        w = E.mat(st, args[2])
        yi = E.mget(st, y, (i,))
        want = (rt * pabs(yi) + av).inv()
        live = C.covered(outs)
        for s, k, v in live:
            wm = E.mat(s, args[2])
            got = E.mget(s, wm, (i,))
            C.eq(tuple(s.facts) + f0, got, want, "weight", "weight of component i = 1/(rtol*|y_i| + atol)")
            for a, nm in ((1, "solution vector"),):
                if E.mat(s, args[a]).val != y.val:
                    C.bad("modified:" + nm, "the %s is modified" % nm)
                else:
                    C.ok(nm + " unchanged")
            if models.deref(E, s, args[0]) != me:
                C.bad("modified:tolerances", "the tolerances are modified")
            else:
                C.ok("tolerances unchanged")
        C.panics()
        C.unmodelled()
    # constructors store what they are given
    for adt in ("ida::tol_control::TolControlSS", "ida::tol_control::TolControlSV"):
        uid = need(E, adt, "new")
        C = Chk(E, R, pid, uid, adt.split("::")[-1])
        st, args, outs = enter(E, uid)
        for s, k, v in C.covered(outs):
            C.eq(s.facts, get(v, "ida_rtol"), args[0], "new", "rtol stored by the constructor")
            C.eq(s.facts, get(v, "ida_atol"), args[1], "new", "atol stored by the constructor")
    E.nd_dim = None


# ------------------------------------------------------------------------------------------ S10 norms

def s10(E, R, pid="S10"):
    n = E.nd_dim = sym("n~v")
    ATOM_FACTS[n.single()] = [c_le(ONE - n)]
    for name, masked in (("norm_wrms", False), ("norm_wrms_masked", True)):
        uids = [u for u, (c, b) in E.bodies.items() if b.get("name") == name and "norm_rms" in b["path"] and "{closure" not in u and b.get("impl_trait")]
        if not uids:
            uids = [u for u, (c, b) in E.bodies.items() if (b.get("name") or b["path"].split("::")[-1]) == name and "{closure" not in u]
        if not uids:
            raise Missing(name)
        for uid in uids:
            C = Chk(E, R, pid, uid)
            given = None
            if masked:
                cell = ("p", "id~flags")
                given = {2: Ref(Place(cell, ()), False)}
            st, args, outs = enter(E, uid, given, cells={("p", "id~flags"): ArrV(Arr(("base", "id"), 1, "B"), (n,))})
            i = I
            x, w = E.mat(st, args[0]), E.mat(st, args[1])
            t = E.mget(st, x, (i,)) * E.mget(st, w, (i,))
            t = t * t
            if masked:
                t = t * get_flag(E, st, args[2], i)
            f0 = (c_le(-i), c_lt(i - n))
            want = (mk_sum(ZERO, n, t, i.single()) * n.inv()).half()
            for s, k, v in C.covered(outs):
                C.eq(s.facts, flagged(v, ("base", "id")) if isinstance(v, Poly) else v, want, "value", "norm = sqrt(sum of squared weighted components%s / full length)" % (" taking part" if masked else ""))
                for a in args:
                    if models.deref(E, s, a) != models.deref(E, st, a):
                        C.bad("modified", "an operand is modified")
            C.panics()
            C.unmodelled()
    E.nd_dim = None
    # the integrator's norm picks by the flag and passes its own component flags
    O = Obj(E)
    uid = need(E, "ida::Ida", "wrms_norm")
    for flag in (True, False):
        C = Chk(E, R, pid, uid, "mask=%s" % (flag))
        E.nd_dim = E.n
        st, me = O.state()
        crate, b = E.bodies[uid]
        args = [me]
        for k, p in enumerate(b["params"][1:3]):
            st, v = E.sym_of(st, E.rty(crate, p["ty"], {}), "xw"[k])
            args.append(v)
        i = I
        x, w = E.mat(st, args[1]), E.mat(st, args[2])
        t = E.mget(st, x, (i,)) * E.mget(st, w, (i,))
        t = t * t
        if flag:
            t = t * get(E.read(st, me.place), "ida_id").arr.get((i,), ())
        want = (mk_sum(ZERO, E.n, t, i.single()) * E.n.inv()).half()
        for s, k, v in C.covered(run(E, uid, st, args + [flag])):
            C.eq(s.facts, flagged(v, ("base", "s.ida_id")) if isinstance(v, Poly) else v, want, "value", "the integrator's norm with its flag %s" % flag)
        C.unmodelled()
        E.nd_dim = None


def flagged(p, base):
    """rewrite choices on a 0/1 flag of the given array into products with the flag (flag^k = flag)"""
    r = ZERO
    for mono, c in p.t:
        q = P(c)
        for a, e in mono:
            x = None
            if a[0] == 'ite':
                for b in sels_of(a[1], base):
                    if a[1] == c_eq(atom(b) - 1):
                        d = atom(b)
                        x = d * flagged(a[2], base) + (ONE - d) * flagged(a[3], base)
            elif a[0] == 'sum':
                x = mk_sum(a[1], a[2], flagged(a[3], base), ('s', a[4], 'i'))
            if x is None:
                q = q * Poly({((a, e),): 1})
            else:
                q = q * terms.ppow(x, e)
        r = r + q
    return Poly(merge((tuple((a, (1 if a[0] == 'sel' and a[1].base == base and e > 0 else e)) for a, e in m), c) for m, c in r.t))


def merge(items):
    d = {}
    for m, c in items:
        d[m] = d.get(m, 0) + c
    return d


# ------------------------------------------------------------------------------------------ S13 sample Jacobian

def diff(p, atom):
    """derivative of a polynomial in array elements with respect to one atom"""
    r = ZERO
    for m, c in p.t:
        for a, e in m:
            if a == atom:
                rest = tuple((b, f) if b != a else (b, f - 1) for b, f in m if b != a or f != 1)
                r = r + Poly({rest: c * e})
            elif depends(a, atom):
                raise Missing("residual is not polynomial")
    return r


def depends(a, atom):
    if a == atom:
        return True
    if isinstance(a, tuple):
        return any(depends(x, atom) for x in a)
    if isinstance(a, Poly):
        return any(depends(x, atom) for m, c in a.t for x, _ in m)
    return False


def deriv(p, x):
    return diff(p, x.single())


def s13(E, R, pid="S13"):
    adt = "ida::sample_problems::roberts::Roberts"
    ures, ujac = need(E, adt, "res"), need(E, adt, "jac")
    E.nd_dim = P(3)
    C = Chk(E, R, pid, ures)
    st, args, outs = enter(E, ures)
    y, yp = E.mat(st, args[2]), E.mat(st, args[3])
    live = C.covered(outs)
    if len(live) != 1:
        raise Missing("Roberts::res has %d paths" % len(live))
    s = live[0][0]
    F = [E.mget(s, E.mat(s, args[4]), (P(i),)) for i in range(3)]
    Y = [E.mget(st, y, (P(i),)) for i in range(3)]
    YP = [E.mget(st, yp, (P(i),)) for i in range(3)]
    # names of the arguments are shared between the two functions: make them positional
    ren = {}
    for i in range(3):
        ren[Y[i].single()] = sym("y!%d" % i, "r")
        ren[YP[i].single()] = sym("yp!%d" % i, "r")
    F = [subst(f, ren) for f in F]
    for i, f in enumerate(F):
        if any(a[0] not in ("s",) or not a[1].startswith("y") for a in atoms_of(f, deep=False)):
            C.bad("residual", "residual %d does not depend on the state and its derivative only: %s" % (i, short(f)))
        else:
            C.ok("residual %d is a polynomial in the state and its derivative: %s" % (i, short(f)))
    C.panics()
    C.unmodelled()
    C = Chk(E, R, pid, ujac)
    st, args, outs = enter(E, ujac)
    cj = args[2]
    y, yp, J = E.mat(st, args[3]), E.mat(st, args[4]), E.mat(st, args[6])
    ren = {}
    for i in range(3):
        ren[E.mget(st, y, (P(i),)).single()] = sym("y!%d" % i, "r")
        ren[E.mget(st, yp, (P(i),)).single()] = sym("yp!%d" % i, "r")
    for s, k, v in C.covered(outs):
        for i in range(3):
            for j in range(3):
                got = subst(E.mget(s, E.mat(s, args[6]), (P(i), P(j))), ren)
                want = deriv(F[i], sym("y!%d" % j, "r")) + cj * deriv(F[i], sym("yp!%d" % j, "r"))
                C.eq(s.facts, got, want, "entry(%d,%d)" % (i, j), "J[%d,%d] = dF%d/dy%d + cj dF%d/dy'%d" % (i, j, i, j, i, j))
    C.panics()
    C.unmodelled()
    E.nd_dim = None


# ------------------------------------------------------------------------------------------ S15 constants, defaults

CONSTS = dict(MAXORD_DEFAULT=5, MXORDP1=6, MXSTEP_DEFAULT=500, MXNCF=10, MXNEF=10, MAXNH=5, MAXNJ=4, MAXNI=10, MAXBACKS=100,
              MAXNLSIT=4, HMAX_INV_DEFAULT=0, EPCON="33/100", XRATE="1/4")
FUNS = dict(half="1/2", quarter="1/4", twothirds="667/1000", onept5="3/2", two=2, four=4, five=5, ten=10, twelve=12, twenty=20,
            hundred=100, pt9="9/10", pt99="99/100", pt1="1/10", pt05="1/20", pt01="1/100", pt001="1/1000", pt0001="1/10000")
DEFAULTS = {"ida_maxord": 5, "ida_mxstep": 500, "ida_hmax_inv": 0, "ida_hin": 0, "ida_epcon": "33/100", "ida_maxnef": 10,
            "ida_maxncf": 10, "ida_tolsf": 1, "ida_mxgnull": 1, "ida_kused": 0, "ida_hused": 0, "nlp.lp.eplifac": "1/20",
            "counters.ida_nst": 0, "counters.ida_ncfn": 0, "counters.ida_netf": 0, "counters.ida_nni": 0, "nlp.ida_nre": 0,
            "nlp.ida_nsetups": 0, "nlp.lp.nje": 0, "nlp.lp.nre_dq": 0, "ida_nge": 0, "nlp.ida_tn": 0, "nlp.lp.dqincfac": 1}
FLAGS = {"ida_suppressalg": False, "ida_constraints_set": False, "ida_setup_done": False, "ida_irfnd": False}


def s15(E, R, pid="S15"):
    from fractions import Fraction
    import interp
    C = Chk(E, R, pid, None, "constants.rs")
    for name, want in sorted(CONSTS.items()):
        uid = [u for u, (c, b) in E.bodies.items() if b["path"].split("::")[-1] == name and b["kind"] == "const"]
        if not uid:
            raise Missing("constant " + name)
        for u in uid:
            outs = run(E, u, State({}, ()), [])
            for s, k, v in outs:
                C.at, C.name = where(E, u), "constants"
                C.eq(s.facts, num(E, s, v), P(Fraction(want)), name, name)
    for name, want in sorted(FUNS.items()):
        u = need(E, "f64", name)
        for s, k, v in run(E, u, State({}, ()), []):
            C.at, C.name = where(E, u), "constants"
            C.eq(s.facts, num(E, s, v), P(Fraction(want)), name, "IdaConst::%s for f64" % name)
    u = need(E, "ida::Ida", "new")
    C = Chk(E, R, pid, u)
    O = Obj(E)
    live = [o for o in O.new_outs if o[1] == "val" and not unsat(o[0].facts)]
    for s, k, v in live:
        for f, want in sorted(DEFAULTS.items()):
            C.eq(s.facts, num(E, s, get(v, f)), P(Fraction(want)), f, "default of " + f)
        for f, want in sorted(FLAGS.items()):
            x = get(v, f)
            (C.ok if x is want else lambda t: C.bad(f, "%s is %s" % (t, x)))("default of %s is %s" % (f, want))
        x = get(v, "ida_tstop")
        (C.ok if x == NONE else lambda t: C.bad("ida_tstop", t + " is %s" % (x,)))("default of ida_tstop is None")
        # initial history: the given state and derivative
        phi = get(v, "ida_phi")
        i = I
        f0 = tuple(s.facts) + (c_le(-i), c_lt(i - E.n))
        y0, yp0 = (Arr(("base", nm), 1, "r") for nm in pnames(E, u)[1:3])
        C.eq(f0, phi.arr.get((ZERO, i), f0), y0.get((i,), f0), "phi0", "first history column is the initial state")
        C.eq(f0, phi.arr.get((ONE, i), f0), yp0.get((i,), f0), "phi1", "second history column is the initial derivative")
        C.eq(f0, get(v, "nlp.ida_yy").arr.get((i,), f0), y0.get((i,), f0), "yy", "initial solution vector")
        C.eq(f0, get(v, "nlp.ida_yp").arr.get((i,), f0), yp0.get((i,), f0), "yp", "initial derivative vector")
        C.eq(f0, phi.dims[0], P(6), "phi.len", "number of history columns is the maximum order plus one")
        ev = [x for x in s.ghost.get("ev", ()) if x[0] == "NLS.new"]
        if len(ev) != 1:
            C.bad("nls", "the nonlinear solver is created %d times" % len(ev))
        else:
            C.eq(f0, ev[0][1][0], E.n, "nls.size", "size given to the nonlinear solver")
            C.eq(f0, ev[0][1][1], P(4), "nls.maxiters", "iteration limit given to the nonlinear solver")
        ev = [x for x in s.ghost.get("ev", ()) if x[0] == "LS.new"]
        if len(ev) != 1:
            C.bad("ls", "the linear solver is created %d times" % len(ev))
        else:
            C.eq(f0, ev[0][1][0], E.n, "ls.size", "size given to the linear solver")
    if not live:
        C.bad("noresult", "new never returns")


def pnames(E, uid):
    c, b = E.bodies[uid]
    return [p["pat"]["name"] if p["pat"] and p["pat"]["k"] == "Binding" else "arg" for p in b["params"]]


# ------------------------------------------------------------------------------------------ S16 getters

GETTERS = {"get_last_order": "ida_kused", "get_current_order": "ida_kk", "get_actual_init_step": "ida_h0u", "get_last_step": "ida_hused",
           "get_current_setp": "ida_hh", "get_current_time": "nlp.ida_tn", "get_tol_scale_factor": "ida_tolsf",
           "get_num_steps": "counters.ida_nst", "get_num_res_evals": "nlp.ida_nre", "get_num_lin_solv_setups": "nlp.ida_nsetups",
           "get_num_err_test_fails": "counters.ida_netf", "get_num_jac_evals": "nlp.lp.nje", "get_num_lin_res_evals": "nlp.lp.nre_dq",
           "get_num_nonlin_solv_conv_fails": "counters.ida_ncfn", "get_num_g_evals": "ida_nge",
           "get_num_lin_iters": "nlp.lp.nli", "get_yy": "nlp.ida_yy", "get_yp": "nlp.ida_yp", "get_root_info": "ida_iroots"}


# what does not start at zero (sizes and orders of steps are set by the first call)
START = ("ida_tolsf",)


def s16(E, R, pid="S16"):
    O = Obj(E)
    for name, field in sorted(GETTERS.items()) + [("get_num_nonlin_solv_iters", None)]:
        u = need(E, "ida::Ida", name)
        C = Chk(E, R, pid, u)
        st, me = O.state()
        obj = E.read(st, me.place)
        for s, k, v in C.covered(run(E, u, st, [me])):
            if field is None:
                want = get(obj, "counters.ida_nni") + sym("nni~nls")
                C.eq(s.facts, num(E, s, v), want, "value", "nonlinear iterations: those counted before plus the solver's")
            else:
                want = get(obj, field)
                if isinstance(want, ArrV):
                    m = E.mat(s, v)
                    C.eq(s.facts, snapshot(E, s, v) if m else v, want, "value", "%s returns %s" % (name, field))
                else:
                    C.eq(s.facts, num(E, s, v), want, "value", "%s returns %s" % (name, field))
            if E.read(s, me.place) != obj:
                C.bad("modified", "%s changes the integrator's state" % name)
            else:
                C.ok("%s changes nothing" % name)
        C.unmodelled()

    # the counters behind the getters start at zero
    C = Chk(E, R, pid, need(E, "ida::Ida", "new"))
    live = [o for o in O.new_outs if o[1] == "val" and not unsat(o[0].facts)]
    for s, k, v in live:
        for f in sorted(set(GETTERS.values()) | {"counters.ida_nni", "nlp.lp.ncfl"}):
            if f in START or isinstance(get(v, f), ArrV):
                continue
            C.eq(s.facts, num(E, s, get(v, f)), ZERO, "start:" + f, "%s starts at zero" % f)
    if not live:
        C.bad("noresult", "new never returns")
    # and count exactly the events they name
    from report import Report
    import schecks3, schecks2
    for fn in (s11, s12, schecks3.s14):
        only(E, R, pid, fn)
    schecks2.counts_of_step(E, R, pid)


COUNTS = ("nre", "nje", "nsetups", "nli", "nge", "nge2", "nst", "netf", "ncfn")


def only(E, R, pid, fn, keys=None, word="counted"):
    """the obligations of another check that are about counters, as obligations of this one"""
    from report import Report
    r = Report()
    fn(E, r, pid)
    for b in r.viol:
        if b["key"].split(":")[1] in (keys or COUNTS):
            R.bad(pid, b["key"], b["msg"], b["where"])
    for x in r.items.get(pid, ()):
        if any(w in x["obligation"] for w in word.split("|")):
            R.ok(pid, x["obligation"], x["where"])


# ------------------------------------------------------------------------------------------ S11 predictor, corrector

def vec(E, name, n=None):
    """a vector argument supplied by the caller"""
    n = n or E.n
    cell = ("p", name + "~data")
    return cell, ArrV(Arr(("base", name), 1, "r"), (n,)), View(Place(cell, ()), (n,), (bv(0),))


def rng(E, facts=()):
    return tuple(facts) + (c_le(-I), c_lt(I - E.n))


def at(v, *idx):
    return v.arr.get(idx, ())


# the state that one call hands to the next: what the frame conditions speak of. Scratch vectors and any field added
# later are free to change.
STATE = ("ida_phi", "ida_psi", "ida_alpha", "ida_beta", "ida_sigma", "ida_gamma", "ida_id", "ida_constraints", "ida_ee",
         "ida_suppressalg", "ida_constraints_set", "ida_tstop", "ida_kk", "ida_kused", "ida_knew", "ida_phase", "ida_ns",
         "ida_hin", "ida_h0u", "ida_hh", "ida_hused", "ida_rr", "ida_tretlast", "ida_cjlast", "ida_eps_newt", "ida_epcon",
         "ida_maxncf", "ida_maxnef", "ida_maxord", "ida_mxstep", "ida_hmax_inv", "counters", "ida_nrtfn", "ida_iroots",
         "ida_rootdir", "ida_tlo", "ida_thi", "ida_trout", "ida_glo", "ida_ghi", "ida_grout", "ida_toutc", "ida_taskc",
         "ida_irfnd", "ida_nge", "ida_gactive", "nlp.ida_yy", "nlp.ida_yp", "nlp.ida_yypredict", "nlp.ida_yppredict",
         "nlp.ida_ewt", "nlp.ida_savres", "nlp.ida_tn", "nlp.ida_ss", "nlp.ida_nre", "nlp.ida_nsetups", "nlp.lp.mat_j",
         "nlp.lp.ida_cj", "nlp.lp.ida_cjold", "nlp.lp.ida_cjratio", "nlp.lp.nje", "nlp.lp.ncfl")


def written(E, st, s, me):
    """names of the state fields whose value differs between the two states"""
    r = set()
    for cell, path in loops.modified(st, s):
        if cell != me.place.cell:
            continue
        nm = loops.leafname((cell, path)).split("self.", 1)[-1]
        if any(nm == a or nm.startswith(a + ".") or a.startswith(nm + ".") for a in STATE):
            r.add(nm)
    return r


def unchanged(C, E, st, s, me, allowed, key="frame"):
    """no state field of the receiver outside the list is written"""
    bad = [nm for nm in written(E, st, s, me) if not any(nm == a or nm.startswith(a + ".") for a in allowed)]
    if bad:
        C.bad(key, "fields written that should not change: %s" % ", ".join(sorted(bad)[:6]))
    else:
        C.ok("no state written outside %s" % ", ".join(allowed))


def s11(E, R, pid="S11"):
    O = Obj(E)
    uid = need(E, "ida::Ida", "predict")
    for kk in range(1, 6):
        C = Chk(E, R, pid, uid, "order %d" % kk)
        st, me = O.state(ida_kk=P(kk))
        obj = E.read(st, me.place)
        phi, gam = get(obj, "ida_phi"), get(obj, "ida_gamma")
        y = sum((at(phi, P(j), I) for j in range(0, kk + 1)), ZERO)
        yp = sum((at(gam, P(j)) * at(phi, P(j), I) for j in range(1, kk + 1)), ZERO)
        C.stale(get(obj, "nlp.ida_yypredict"), get(obj, "nlp.ida_yppredict"))
        outs = run(E, uid, st, [me])
        C.fresh("yy", "predicted state and derivative")
        for s, k, v in C.covered(outs):
            new = E.read(s, me.place)
            f = rng(E, s.facts)
            C.eq(f, at(get(new, "nlp.ida_yypredict"), I), y, "yy", "predicted state = sum of the history columns 0..kk")
            C.eq(f, at(get(new, "nlp.ida_yppredict"), I), yp, "yp", "predicted derivative = sum of gamma_j times history column j, j in 1..kk")
            unchanged(C, E, st, s, me, ("nlp.ida_yypredict", "nlp.ida_yppredict"))
        C.panics()
        C.unmodelled()
    # the residual function of the nonlinear problem
    uid = need(E, "ida::ida_nls::IdaNLProblem", "sys")
    C = Chk(E, R, pid, uid)
    st, me = O.state()
    obj = E.read(st, me.place)
    me2 = field(me, "nlp")
    c1, v1, ycor = vec(E, "ycor")
    c2, v2, res = vec(E, "res")
    st = st.setcell(c1, v1).setcell(c2, v2)
    cj = get(obj, "nlp.lp.ida_cj")
    C.stale(get(obj, "nlp.ida_yy"), get(obj, "nlp.ida_yp"), v2, get(obj, "nlp.ida_savres"))
    outs = run(E, uid, st, [me2, ycor, res])
    C.fresh("yy", "state, derivative and residual of the nonlinear problem")
    for s, k, v in C.covered(outs):
        new = E.read(s, me.place)
        f = rng(E, s.facts)
        wy = at(get(obj, "nlp.ida_yypredict"), I) + at(v1, I)
        wyp = at(get(obj, "nlp.ida_yppredict"), I) + cj * at(v1, I)
        C.eq(f, at(get(new, "nlp.ida_yy"), I), wy, "yy", "state = prediction + correction")
        C.eq(f, at(get(new, "nlp.ida_yp"), I), wyp, "yp", "derivative = prediction + cj * correction")
        ev = [x for x in s.ghost.get("ev", ()) if x[0] == "res"]
        if len(ev) != 1:
            C.bad("res", "the user's residual is called %d times" % len(ev))
        else:
            t, yy, yyp = ev[0][1]
            C.eq(f, t, get(obj, "nlp.ida_tn"), "res.t", "time given to the residual")
            C.eq(f, at(yy, I), wy, "res.yy", "state given to the residual")
            C.eq(f, at(yyp, I), wyp, "res.yp", "derivative given to the residual")
            out = Arr(E.fnbase("res", ev[0][1]), 1, "r").get((I,), f)
            C.eq(f, at(E.read(s, Place(c2, ())), I), out, "res.out", "residual handed to the nonlinear solver")
            C.eq(f, at(get(new, "nlp.ida_savres"), I), out, "savres", "saved residual")
        C.eq(f, get(new, "nlp.ida_nre"), get(obj, "nlp.ida_nre") + 1, "nre", "residual evaluations counted once")
        unchanged(C, E, st, s, me, ("nlp.ida_yy", "nlp.ida_yp", "nlp.ida_savres", "nlp.ida_nre"))
        if not (isinstance(v, Enum) and v.variant == "Ok"):
            C.bad("ret", "sys does not report success")
    C.panics()
    C.unmodelled()
    # after the nonlinear solve
    uid = need(E, "ida::Ida", "nonlinear_solve")
    C = Chk(E, R, pid, uid)
    st, me = O.state(ida_constraints_set=False)
    obj = E.read(st, me.place)
    n_ok = 0
    C.stale(get(obj, "ida_delta"), get(obj, "ida_ee"), get(obj, "nlp.ida_yy"), get(obj, "nlp.ida_yp"))
    outs = run(E, uid, st, [me])
    C.fresh("guess", "initial correction, correction, state and derivative")
    for s, k, v in C.covered(outs):
        new = E.read(s, me.place)
        f = rng(E, s.facts)
        if s.ghost.get("nls"):
            ee = at(get(new, "ida_ee"), I)
            C.eq(f, at(get(new, "nlp.ida_yy"), I), at(get(obj, "nlp.ida_yypredict"), I) + ee, "final.yy", "state after the solve = prediction + correction")
            C.eq(f, at(get(new, "nlp.ida_yp"), I), at(get(obj, "nlp.ida_yppredict"), I) + get(new, "nlp.lp.ida_cj") * ee, "final.yp", "derivative after the solve = prediction + cj * correction")
            ev = [x for x in s.ghost.get("ev", ()) if x[0] == "nls.solve"]
            if len(ev) != 1:
                C.bad("solves", "the nonlinear solver is called %d times" % len(ev))
                continue
            y0, w, tol, call, nlp = ev[0][1]
            C.eq(f, at(y0, I) if isinstance(y0, ArrV) else y0, ZERO, "guess", "initial correction is zero")
            C.eq(f, at(w, I) if isinstance(w, ArrV) else w, at(get(obj, "nlp.ida_ewt"), I), "weights", "weights given to the nonlinear solver")
            C.eq(f, tol, get(obj, "ida_eps_newt"), "tol", "tolerance given to the nonlinear solver")
        got_ok = isinstance(v, Enum) and v.variant == "Ok"
        if got_ok:
            n_ok += 1
            if s.ghost.get("nls") != "ok":
                C.bad("ok", "success is reported although the nonlinear solver failed (%s)" % s.ghost.get("nls"))
        elif s.ghost.get("nls") == "ok":
            C.bad("err", "failure is reported although the nonlinear solver succeeded")
        unchanged(C, E, st, s, me, ("ida_delta", "ida_ee", "nlp"))
    if not n_ok:
        C.bad("noresult", "nonlinear_solve never succeeds")
    C.panics()
    C.unmodelled()


def field(me, path):
    """reference to a field of the receiver"""
    return Ref(Place(me.place.cell, me.place.path + tuple(("f", k) for k in path.split("."))), True)


# ------------------------------------------------------------------------------------------ S12 linear setup and solve

def is_recoverable(v, kind):
    """Err(IdaError::RecoverableFail{rec_type: kind})"""
    if not (isinstance(v, Enum) and v.variant == "Err"):
        return False
    e = pay(v)
    return isinstance(e, Enum) and e.variant == "RecoverableFail" and isinstance(fget(e, "rec_type"), Enum) and fget(e, "rec_type").variant == kind


def events(s, name):
    return [x for x in s.ghost.get("ev", ()) if x[0] == name]


def s12(E, R, pid="S12"):
    O = Obj(E)
    adt = "ida::ida_nls::IdaNLProblem"
    uid = need(E, adt, "setup")
    C = Chk(E, R, pid, uid)
    st, me = O.state()
    obj = E.read(st, me.place)
    c1, v1, ycor = vec(E, "ycor")
    c2, v2, res = vec(E, "res")
    st = st.setcell(c1, v1).setcell(c2, v2)
    oks = errs = 0
    J = sym("j!v")
    C.stale(get(obj, "nlp.lp.mat_j"))
    outs = run(E, uid, st, [field(me, "nlp"), ycor, res, ("b", "jbad")])
    C.fresh("zeroed", "matrix handed to the Jacobian")
    for s, k, v in C.covered(outs):
        new = E.read(s, me.place)
        f = rng(E, s.facts) + (c_le(-J), c_lt(J - E.n))
        ev = events(s, "jac")
        if len(ev) != 1:
            C.bad("jac", "the user's Jacobian is called %d times per setup" % len(ev))
            continue
        t, cj, yy, yp, rr = ev[0][1]
        C.eq(f, t, get(obj, "nlp.ida_tn"), "jac.t", "time given to the Jacobian is the current time")
        C.eq(f, cj, get(obj, "nlp.lp.ida_cj"), "jac.cj", "step coefficient given to the Jacobian")
        C.eq(f, at(yy, I), at(get(obj, "nlp.ida_yy"), I), "jac.yy", "state given to the Jacobian")
        C.eq(f, at(yp, I), at(get(obj, "nlp.ida_yp"), I), "jac.yp", "derivative given to the Jacobian")
        C.eq(f, at(rr, I), at(v2, I), "jac.rr", "residual given to the Jacobian")
        pre = events(s, "jac.out")
        if len(pre) != 1:
            C.bad("jac.out", "the matrix handed to the Jacobian is not understood")
        else:
            C.eq(f, at(pre[0][1][0], I, J), ZERO, "zeroed", "matrix is zero when the Jacobian fills it")
        fac = events(s, "ls.setup")
        if len(fac) != 1:
            C.bad("factor", "the linear solver's setup is called %d times" % len(fac))
            continue
        C.eq(f, at(fac[0][1][0], I, J), Arr(E.fnbase("jac", ev[0][1]), 2, "r").get((I, J), f), "factor", "matrix given to the linear solver is the Jacobian")
        C.eq(f, get(new, "nlp.lp.nje"), get(obj, "nlp.lp.nje") + 1, "nje", "Jacobian evaluations counted once")
        C.eq(f, get(new, "nlp.ida_nsetups"), get(obj, "nlp.ida_nsetups") + 1, "nsetups", "setups counted once")
        failed = bool(events(s, "ls.setup:err"))
        if failed:
            errs += 1
            if is_recoverable(v, "LSetup"):
                C.ok("a failed factorisation is reported as a recoverable setup failure")
            else:
                C.bad("setup:err", "a failed factorisation is not reported as a recoverable setup failure (returned: %s)" % (v,))
        else:
            oks += 1
            if isinstance(v, Enum) and v.variant == "Ok":
                C.ok("a successful factorisation is reported as success")
                C.eq(f, pay(v), True, "jcur", "the Jacobian is reported as current")
            else:
                C.bad("setup:ok", "a successful factorisation is reported as failure")
            C.eq(f, get(new, "nlp.lp.ida_cjold"), get(obj, "nlp.lp.ida_cj"), "cjold", "coefficient of the factorised matrix recorded")
            C.eq(f, get(new, "nlp.lp.ida_cjratio"), ONE, "cjratio", "coefficient ratio reset")
            C.eq(f, get(new, "nlp.ida_ss"), P(20), "ss", "convergence rate estimate reset")
    if not errs:
        C.bad("setup:err", "no path reports a failed factorisation (it panics or is dropped)")
    if not oks:
        C.bad("setup:ok", "setup never succeeds")
    C.panics()
    C.unmodelled()

    for s, k, v in [o for o in O.new_outs if o[1] == "val" and not unsat(o[0].facts)]:
        C = Chk(E, R, pid, O.new_uid)
        C.eq(s.facts, get(v, "nlp.lp.sqrt_n"), E.n.half(), "sqrt_n", "factor of the iterative solver's tolerance is the square root of the size")
        C.eq(s.facts, get(v, "nlp.lp.eplifac"), P(Fraction(1, 20)), "eplifac", "safety factor of the iterative solver's tolerance")

    uid = need(E, adt, "solve")
    for ratio in (None, ONE):
        C = Chk(E, R, pid, uid, "ratio %s" % (ratio if ratio is not None else "any"))
        kw = dict(nlp__lp__ida_cjratio=ratio) if ratio is not None else {}
        st, me = O.state(**kw)
        obj = E.read(st, me.place)
        st = st.setcell(c1, v1).setcell(c2, v2)
        errs, kinds = 0, set()
        C.stale(get(obj, "nlp.lp.x"))
        outs = run(E, uid, st, [field(me, "nlp"), ycor, res])
        C.fresh("solve.x", "initial guess and solution of the linear system")
        for s, k, v in C.covered(outs):
            new = E.read(s, me.place)
            f = rng(E, s.facts) + (c_le(-J), c_lt(J - E.n))
            ev = events(s, "ls.solve")
            if len(ev) != 1:
                C.bad("solve", "the linear solver is called %d times" % len(ev))
                continue
            A, x, b, tol = ev[0][1]
            C.eq(f, at(A, I, J), at(get(obj, "nlp.lp.mat_j"), I, J), "solve.A", "matrix given to the linear solver")
            C.eq(f, at(b, I), at(v2, I), "solve.b", "right-hand side given to the linear solver")
            C.eq(f, at(x, I), ZERO, "solve.x", "initial guess is zero")
            kind = s.ghost.get("lstype")
            iterative = kind in ("Iterative", "MatrixIterative")
            C.eq(f, tol, get(obj, "nlp.lp.sqrt_n") * get(obj, "nlp.lp.eplifac") if iterative else ZERO, "solve.tol:%s" % kind, "tolerance given to the linear solver (%s)" % kind)
            C.eq(f, get(new, "nlp.lp.nli"), get(obj, "nlp.lp.nli") + (sym("nli~ls") if iterative else ZERO), "nli:%s" % kind, "linear iterations counted (%s)" % kind)
            sc = events(s, "ls.scale")
            if len(sc) != 1:
                C.bad("scale", "the scaling vectors are handed over %d times" % len(sc))
            else:
                for w in sc[0][1]:
                    C.eq(f, at(w, I), at(get(obj, "nlp.ida_ewt"), I), "scale", "scaling vectors are the error weights")
            if events(s, "ls.solve:err"):
                errs += 1
                if is_recoverable(v, "LSolve"):
                    C.ok("a failed solve is reported as a recoverable solve failure")
                else:
                    C.bad("solve:err", "a failed linear solve is not reported as a recoverable solve failure (returned: %s)" % (v,))
                C.eq(f, get(new, "nlp.lp.ncfl"), get(obj, "nlp.lp.ncfl") + 1, "ncfl", "linear failures counted")
                continue
            if not (isinstance(v, Enum) and v.variant == "Ok"):
                C.bad("solve:ok", "a successful solve is reported as failure")
                continue
            C.eq(f, get(new, "nlp.lp.ncfl"), get(obj, "nlp.lp.ncfl"), "ncfl", "linear failures counted")
            xs = Arr(E.fnbase("ls.solve", ev[0][1]), 1, "r").get((I,), f)
            cr = get(obj, "nlp.lp.ida_cjratio")
            its = sym("nli~ls")
            want = xs
            if kind in ("Iterative", "MatrixIterative"):
                # no iteration was needed: the residual itself is the correction
                want = ite(c_eq(its), at(v2, I), xs)
            if kind in ("Direct", "MatrixIterative"):
                want = ite(c_eq(cr - 1), want, want * (P(2) * (ONE + cr).inv()))
            C.eq(f, at(E.read(s, Place(c2, ())), I), want, "solve.out:%s" % kind, "correction is the solution, scaled for the change of cj (%s)" % kind)
            kinds.add(kind)
        if not errs:
            C.bad("solve:err", "no path reports a failed solve")
        if not {"Direct", "Iterative"} <= kinds:
            C.bad("solve:kinds", "the kinds of linear solver are not told apart")
        C.panics()
        C.unmodelled()
