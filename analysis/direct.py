"""L07: the dense solver is a direct one -- what it declares about itself, and that tolerance and scaling play no part."""
from fractions import Fraction
from interp import *
from dense import find_method, enter, the_array, pivot_base, why

P_ID = "L07"


def method(E, name):
    """the method of the dense solver: its own, or the default of the trait"""
    uid = find_method(E, "dense::Dense", "LSolver", name)
    if uid:
        return uid
    for uid, (c, b) in E.bodies.items():
        if "<" not in b["path"] and ("::" + b["path"]).endswith("::LSolver::" + name):
            return uid
    return None


def dense_self(E):
    """a solver in any state"""
    st, args, _ = enter(E, find_method(E, "dense::Dense", "LSolver", "get_type"), ["self"])
    return st, args[0]


def query(E, R, name, good, what):
    uid = method(E, name)
    if uid is None:
        R.bad(P_ID, "anchor:" + name, "no LSolver::%s for the dense solver found" % name)
        return
    crate, b = E.bodies[uid]
    fn = b["path"]
    st, me = dense_self(E)
    before = E.read(st, me.place)
    args = [me]
    for i, p in enumerate(b["params"][1:]):
        st, v = E.sym_of(st, E.rty(crate, p["ty"], {}), "arg%d" % i)
        args.append(v)
    E.unmodelled = {}
    fr = E.frame(None, "root", uid, crate, {}, None, 0, fn, b.get("sp", "?"))
    outs = [o for o in E.enter(b, fr, args, st, {"n": 0, "sp": "entry"}) if not unsat(o[0].facts)]
    if not outs:
        R.bad(P_ID, name + ":none", "%s never returns" % name, fn)
    for s, k, v in outs:
        if not good(v):
            R.bad(P_ID, name, "%s: the dense solver answers %s%s" % (what, v, why(E.unmodelled)), fn)
        elif E.read(s, me.place) != before:
            R.bad(P_ID, name + ":writes", "%s changes the solver" % name, fn)
        else:
            R.ok(P_ID, what, fn)


def mentions(x, name):
    """does a value, taken apart completely, contain the parameter of this name"""
    seen, work = set(), [x]
    while work:
        y = work.pop()
        if id(y) in seen or isinstance(y, (str, int, bool, Fraction, type(None))):
            continue
        seen.add(id(y))
        if isinstance(y, (tuple, list, set, frozenset)):
            y = list(y)
            if len(y) > 1 and y[0] in ("s", "base") and y[1] == name:
                return True
            work += y
        elif isinstance(y, dict):
            work += list(y.values()) + list(y.keys())
        else:
            for k in list(getattr(y, "__dict__", ())) + [s for c in type(y).__mro__ for s in getattr(c, "__slots__", ())]:
                work.append(getattr(y, k, None))
    return False


def check(E, R):
    anchors = [n for n in ("get_type", "solve", "setup") if find_method(E, "dense::Dense", "LSolver", n) is None]
    if anchors:
        R.bad(P_ID, "anchor:" + anchors[0], "no LSolver::%s implementation for Dense found" % anchors[0])
        return
    query(E, R, "get_type", lambda v: isinstance(v, Enum) and v.variant == "Direct", "declares itself direct")
    query(E, R, "num_iters", lambda v: isinstance(v, Poly) and v.is_const() and v.const() == 0, "reports no linear iterations")
    query(E, R, "res_norm", lambda v: isinstance(v, Poly) and v.is_const() and v.const() == 0, "reports a zero residual norm")
    query(E, R, "set_scaling_vectors", lambda v: True, "scaling vectors leave the solver unchanged")
    # the answer of a solve is the same for every tolerance
    uid = find_method(E, "dense::Dense", "LSolver", "solve")
    n = E.dim_of({"k": "param", "name": "D"})
    pname = pivot_base(E)
    if pname:
        ATOM_FACTS[pname] = lambda v, idx: [c_le(idx[0] - v), c_lt(v - n)]
    E.obls, E.loopnodes, E.unmodelled = [], [], {}
    fn = E.bodies[uid][1]["path"]
    st0, args, outs = enter(E, uid, ["self", "A", "x", "b", "tol"])
    outs = [o for o in outs if not unsat(o[0].facts)]
    if not outs:
        R.bad(P_ID, "solve:none", "a solve never returns", fn)
    for s, k, v in outs:
        if not (isinstance(v, Enum) and v.variant == "Ok"):
            R.bad(P_ID, "solve:fails", "a solve with the factors of a successful setup can return %s" % (v,), fn)
        else:
            R.ok(P_ID, "a solve never fails", fn)
        if any(mentions(f, "tol") for f in s.facts):
            R.bad(P_ID, "solve:branch", "whether a solve takes this path depends on the tolerance%s" % why(E.unmodelled), fn)
        elif any(mentions(E.read(s, Place(a.place.cell, a.place.path)), "tol") for a in args if isinstance(a, Ref)):
            R.bad(P_ID, "solve:value", "the solution depends on the tolerance", fn)
        else:
            R.ok(P_ID, "no path and no value of a solve depends on the tolerance", fn)
    for N in E.loopnodes:
        parts = [N.count, N.facts, N.entry.facts, [(l["init"], l["post"]) for l in N.leaves.values()]]
        for s in list(N.next) + [x[0] for x in N.exits or ()]:
            parts += [s.facts] + [E.read(s, Place(*k)) for k in N.leaves]
        if mentions(parts, "tol"):
            R.bad(P_ID, "solve:loop", "a loop of the solve depends on the tolerance", fn)
        else:
            R.ok(P_ID, "loop independent of the tolerance", fn)


# ------------------------------------------------------------------------------------------ N10

NEWTON = "newton::Newton"


def nl_method(E, name):
    uid = find_method(E, NEWTON, "NLSolver", name)
    if uid:
        return uid
    for uid, (c, b) in E.bodies.items():
        if "<" not in b["path"] and ("::" + b["path"]).endswith("::NLSolver::" + name):
            return uid
    return None


def call(E, uid, args, st):
    crate, b = E.bodies[uid]
    for i, p in enumerate(b["params"][len(args):]):
        st, v = E.sym_of(st, E.rty(crate, p["ty"], {}), "arg%d" % i)
        args = args + [v]
    fr = E.frame(None, "root", uid, crate, {}, None, 0, b["path"], b.get("sp", "?"))
    return st, args, [o for o in E.enter(b, fr, args, st, {"n": 0, "sp": "entry"}) if not unsat(o[0].facts)]


def check_new(E, R):
    pid = "N10"
    need = ("new", "setup", "get_num_iters", "get_cur_iter", "get_num_conv_fails")
    uids = {n: nl_method(E, n) for n in need}
    for n in need:
        if uids[n] is None:
            R.bad(pid, "anchor:" + n, "no NLSolver::%s for the Newton solver found" % n)
            return
    fn = lambda n: E.bodies[uids[n]][1]["path"]
    # a new solver, for any limit
    st, args, outs = call(E, uids["new"], [], State({}))
    if not outs:
        R.bad(pid, "new:none", "the constructor never returns", fn("new"))
    for s, k, v in outs:
        cell = ("p", "solver")
        s = s.setcell(cell, v)
        for g in need[2:]:
            _, _, go = call(E, uids[g], [Ref(Place(cell, ()), False)], s)
            if len(go) == 1 and isinstance(go[0][2], Poly) and go[0][2].is_const() and go[0][2].const() == 0:
                R.ok(pid, "%s of a new solver is zero" % g, fn(g))
            else:
                R.bad(pid, "new:" + g, "%s of a new solver is %s" % (g, [o[2] for o in go]), fn(g))
    # preparing and asking change nothing, in any state
    st, a0, _ = enter(E, uids["get_num_iters"], ["self"])
    me = a0[0]
    before = E.read(st, me.place)
    for n in need[1:]:
        E.unmodelled, E.obls = {}, []
        s0, args, outs = call(E, uids[n], [me], st)
        if not outs:
            R.bad(pid, n + ":none", "%s never returns" % n, fn(n))
        for s, k, v in outs:
            if n == "setup" and not (isinstance(v, Enum) and v.variant == "Ok"):
                R.bad(pid, "setup:fails", "preparing the solver can return %s%s" % (v, why(E.unmodelled)), fn(n))
            elif any(E.read(s, a.place) != E.read(s0, a.place) for a in args if isinstance(a, Ref)):
                R.bad(pid, n + ":writes", "%s changes the %s%s" % (n, "solver" if E.read(s, me.place) != before else "vector given", why(E.unmodelled)), fn(n))
            else:
                R.ok(pid, "%s changes nothing%s" % (n, " and succeeds" if n == "setup" else ""), fn(n))
        for o in E.obls:
            if not o.ok:
                R.bad(pid, "%s:panic" % n, "%s may panic: %s" % (n, o.text), o.sp)
