"""The integrator (/repo/src): an engine that runs its functions abstractly, and the checks built on it.

Each function is analysed on a symbolic object of type Ida whose arrays have the shapes the constructor gives them.
The order, the order last used and similar small integers are enumerated (trace partitioning on the finite range of
orders); times, step sizes, vectors and their length stay symbolic."""
import itertools
from values import *
import models, loops, nd, dense
from interp import Engine, Frame, Obl
from models import deref, ret, num, materialise

KMAX = 5
# read by the nonlinear problem's callbacks, never written by them (checked by S11)
KEPT = ("ida_yypredict", "ida_yppredict", "ida_ewt", "ida_tn", "ida_toldel", "lp.ida_cj", "lp.sqrt_n", "lp.eplifac", "lp.dqincfac",
        "lp.nst0", "lp.nni0", "lp.ncfn0", "lp.ncfl0", "lp.nwarn")


class IdaEngine(Engine):
    def __init__(self, crates):
        Engine.__init__(self, crates, "num")
        self.unroll = 8
        self.funs = {}
        self.evn = 0
        self.n = sym("n~model")
        ATOM_FACTS[self.n.single()] = [c_le(ONE - self.n)]
        self.nroots = sym("n~roots")
        ATOM_FACTS[self.nroots.single()] = [c_le(-self.nroots)]
        H = self.hooks
        H[("ModelSpec", "model_size")] = lambda E, st, fr, a, e, c: ret(st, E.n)
        H[("Root", "num_roots")] = lambda E, st, fr, a, e, c: ret(st, E.nroots) if E.opaque(st, a[0]) else None
        H[("Residual", "res")] = user_fn("res", 4)
        H[("Jacobian", "jac")] = user_fn("jac", 6)
        H[("Root", "root")] = user_fn("root", 4)
        H[("TolControl", "ewt_set")] = user_fn("ewt_set", 2)
        for tr, name, h in solver_hooks(self):
            H[(tr, name)] = h
        self.cut = None
        self.const_impl = {}
        for uid, (c, b) in self.bodies.items():
            im = b.get("impl_self")
            if b.get("name") and "IdaConst" in (b.get("trait") or ""):
                self.const_impl[b["name"]] = uid

    def opaque(self, st, v):
        return not isinstance(deref(self, st, v), Struct)

    def sym_of(self, st, t, name):
        if t["k"] == "other" and t["s"].endswith(("::Scalar", "Scalar>")):
            return st, sym(name, "r")
        if t["k"] == "param":
            if t["name"] in ("P", "LS", "NLS", "TolC", "M", "G"):
                return st, Top("user " + t["name"])
            return st, sym(name, "r")
        return Engine.sym_of(self, st, t, name)

    def elem(self, st, v, idx):
        x = Engine.elem(self, st, v, idx)
        m = self.mat(st, v) if isinstance(x, Poly) else None
        if m is not None and m.val.arr.kind == "B":
            return c_eq(x - 1)
        return x

    def write(self, st, pl, x):
        if is_bool(x) and pl.path and pl.path[-1][0] == "el":
            x = ite(x, ONE, ZERO)
        return Engine.write(self, st, pl, x)

    def fnbase(self, name, args):
        """a base array standing for the value of an opaque function at these arguments"""
        k = self.funs.get((name, args))
        if k is None:
            k = self.funs[(name, args)] = len([1 for x in self.funs if x[0] == name])
        return ("base", "%s#%d" % (name, k))

    def event(self, st, *what):
        return st.setghost(ev=st.ghost.get("ev", ()) + (what,))

    def call(self, c, args, st, fr, e):
        tr = c.get("trait") or ""
        if tr.endswith("IdaConst") and not c.get("ruid"):
            uid = self.find_const(c.get("name"))
            if uid:
                crate, body = self.bodies[uid]
                nf = self.frame(fr.id, e["n"], uid, crate, {}, None, fr.depth + 1, body["path"], e["sp"])
                return self.enter(body, nf, args, st, e)
        h = self.hooks.get(c["uid"]) or self.hooks.get(c.get("ruid")) or (tr and self.hooks.get((tr.split("<")[0].split("::")[-1], c.get("name"))))
        if not h and not c.get("ctor") and not ((c.get("ruid") or c["uid"]) in self.bodies):
            r = nd.call(self, c, args, st, fr, e)
            if r is not None:
                return r
        return Engine.call(self, c, args, st, fr, e)

    # --- the stepping loops: one generic iteration from every head state the check supplies (inductive cut)
    def ev_loop(self, e, st, fr, label):
        cut = self.cut
        if cut is None or cut.inside or not cut.accepts(self, fr):
            return Engine.ev_loop(self, e, st, fr, label)
        cut.inside = True
        try:
            return self.cut_loop(cut, e, st, fr, label)
        finally:
            cut.inside = False

    def cut_loop(self, cut, e, st, fr, label):
        cut.entries.append(st)
        if cut.once and len(cut.entries) > 1:
            return []
        while True:
            # the leaves outside the object that an iteration changes; found by running it, kept for the next head
            res = self.cut_run(cut, e, st, fr, label)
            if res is not None and cut.after is not None:
                return cut.after(res)
            if res is not None:
                return self.join(res, st) if cut.join else res

    def cut_run(self, cut, e, st, fr, label):
        body = e["body"]
        keys = [k for k in cut.keys if k[0] in st.store]
        small = lambda k, v: finite(v) or (cut.ints and k not in cut.demoted and isinstance(v, Poly) and v.is_const() and v.const() in range(-3, 4))
        fin = [k for k in keys if small(k, self.read(st, Place(*k)))]
        rest = [k for k in keys if k not in fin]
        seen, work, res, backs = set(), [tuple(self.read(st, Place(*k)) for k in fin)], [], []
        while work:
            fv = work.pop()
            if fv in seen:
                continue
            seen.add(fv)
            if cut.seen is not None:
                # generic heads: what one entry has explored holds for every other
                g = tuple(zip(fin, fv))
                if g in cut.seen:
                    continue
                cut.seen.add(g)
            if len(seen) > 64:
                self.note_unmodelled("loop with too many flag states", fr, e)
                break
            h, pre = loops.havoc_leaves(self, st, rest, "l")
            for k in cut.demoted:
                # a number that starts as a constant may be of any kind
                if k in rest and isinstance(self.read(h, Place(*k)), Poly):
                    h = self.write(h, Place(*k), self.fresh("l." + loops.leafname(k), "r"))
            for k, v in zip(fin, fv):
                h = self.write(h, Place(*k), v)
            for tag, h1 in cut.heads(self, st, h, {loops.leafname(k): k for k in rest}):
                nxt, exits = loops.classify(self.ev(body, h1, fr), label)
                new, live = [], []
                for s in nxt:
                    if unsat(s.facts):
                        continue
                    live.append(s)
                    for k in loops.modified(h1, s):
                        if k[0] != cut.cell and k not in keys and k not in new:
                            new.append(k)
                    backs.append((tag, h1, s))
                if new:
                    cut.keys[:] = loops.merge_keys(cut.keys + new)
                    return None
                for s in live:
                    f2 = tuple(self.read(s, Place(*k)) for k in fin)
                    lost = [k for k, x in zip(fin, f2) if not finite(x) and not is_bool(x) and not small(k, x)]
                    if lost and cut.ints:
                        cut.demoted += lost
                        return None
                    if all(small(k, x) for k, x in zip(fin, f2)):
                        work.append(f2)
                    elif all(small(k, x) or is_bool(x) for k, x in zip(fin, f2)):
                        opts = [[x] if not is_bool(x) or finite(x) else [True, False] for x in f2]
                        work += [tuple(x) for x in itertools.product(*opts)]
                    else:
                        self.note_unmodelled("flag of a loop", fr, e)
                for s, kd, v in exits:
                    if not unsat(s.facts):
                        res.append((loops.restrict(s.setghost(head=tag), st), "val" if kd == "done" else kd, v))
        cut.backs += backs
        return res

    def havoc_nlp(self, v, tag):
        """(the nonlinear problem after any sequence of its callbacks, the fields they may have changed)"""
        keep = self.nlp_kept()
        new = v
        for p in keep:
            pass
        def go(x, path):
            if isinstance(x, Struct):
                return x._replace(fields=tuple((k, go(y, path + (k,))) for k, y in x.fields))
            if ".".join(path) in keep:
                return x
            if isinstance(x, ArrV):
                return ArrV(Arr(("base", tag + "." + ".".join(path)), x.arr.nd, x.arr.kind), x.dims)
            if isinstance(x, Poly):
                return sym(tag + "." + ".".join(path), x.kind() if not x.is_const() else "r")
            if is_bool(x):
                return ("b", tag + "." + ".".join(path))
            return x
        return go(v, ()), keep

    def nlp_kept(self):
        """fields of the nonlinear problem that none of its callbacks writes"""
        return KEPT

    def nls_errors(self):
        """what a nonlinear solver may fail with: the integrator's own errors its callbacks return, or any other"""
        out = [("other", Struct(USERERR, (("of", Str("nls.solve")),)))]
        rec = [k for k in self.adts if k.endswith("::Recoverable")]
        ie = [k for k in self.adts if k.endswith("error::IdaError")]
        if len(rec) != 1 or len(ie) != 1:
            raise Missing("error types")
        ne = [k for k in self.adts if k.endswith("nonlinear::Error")]
        for k in ne:
            for v in self.adts[k]["variants"]:
                if not v["fields"]:
                    out.append(("nl:" + v["name"], Enum(k, v["name"], ())))
        for v in self.adts[rec[0]]["variants"]:
            out.append(("rec:" + v["name"], Enum(ie[0], "RecoverableFail", (("rec_type", Enum(rec[0], v["name"], ())),))))
        return out

    def find_const(self, name):
        for uid, (c, b) in self.bodies.items():
            if b.get("name") == name and b["path"].split("::")[-1] == name and "IdaConst" in b["path"]:
                return uid
        return None


def snapshot(E, st, v):
    """value of an argument as the callee sees it"""
    x = deref(E, st, v)
    if isinstance(x, (Poly, Tup)) or is_bool(x):
        return x
    m = E.mat(st, v)
    if m is not None:
        return ArrV(m.val.arr, m.dims) if E.whole(m) else ArrV(lam(len(m.dims), m.val.arr.kind, E.mterm(m)), m.dims)
    return Top("opaque")


def user_fn(name, outpos):
    """a function supplied by the user: its output array is an unknown function of its inputs"""
    def h(E, st, fr, args, e, c):
        if not E.opaque(st, args[0]):
            return None
        ins = tuple(snapshot(E, st, a) for a in args[1:outpos])
        st = E.event(st, name, ins)
        st = E.event(st, name + ".out", (snapshot(E, st, args[outpos]),))
        st, m = nd.as_mat(E, st, fr, e, args[outpos])
        if m is None:
            E.note_unmodelled("output of " + name, fr, e)
            return ret(st, UNIT)
        b = E.fnbase(name, ins)
        a = Arr(b, len(m.dims), "r")
        st = E.mfill(st, m, a.get(tuple(bv(i) for i in range(len(m.dims)))))
        return ret(st, UNIT)
    return h


USERERR = "user::Error"


def user_err(name):
    return err(Struct(USERERR, (("of", Str(name)),)))


def havoc_mat(E, st, fr, e, v, name, ins):
    st, m = nd.as_mat(E, st, fr, e, v)
    if m is None:
        E.note_unmodelled("output of " + name, fr, e)
        return st
    a = Arr(E.fnbase(name, ins), len(m.dims), "r")
    return E.mfill(st, m, a.get(tuple(bv(i) for i in range(len(m.dims)))))


def solver_hooks(E):
    """the linear and the nonlinear solver are parameters of the integrator: any implementation of their traits.
    A call is recorded, every result the trait allows is a separate path, outputs are unknown functions of the inputs."""
    def new(tag):
        return lambda E, st, fr, a, e, c: ret(E.event(st, tag + ".new", tuple(deref(E, st, x) for x in a)), Top("user " + tag)) if not c.get("ruid") else None

    def guard(f):
        return lambda E, st, fr, a, e, c: f(E, st, fr, a, e, c) if E.opaque(st, a[0]) else None

    def ls_type(E, st, fr, a, e, c):
        adt = [k for k in E.adts if k.endswith("::LSolverType")]
        if len(adt) != 1:
            return None
        if st.ghost.get("lstype"):
            return ret(st, Enum(adt[0], st.ghost["lstype"], ()))
        return [(st.setghost(lstype=v["name"]), "val", Enum(adt[0], v["name"], ())) for v in E.adts[adt[0]]["variants"]]

    def ls_setup(E, st, fr, a, e, c):
        x = snapshot(E, st, a[1])
        st = E.event(st, "ls.setup", (x,))
        st = havoc_mat(E, st, fr, e, a[1], "ls.setup", (x,))
        return [(E.event(st, "ls.setup:ok"), "val", ok(UNIT)), (E.event(st, "ls.setup:err"), "val", user_err("ls.setup"))]

    def ls_solve(E, st, fr, a, e, c):
        ins = (snapshot(E, st, a[1]), snapshot(E, st, a[2]), snapshot(E, st, a[3]), snapshot(E, st, a[4]))
        st = E.event(st, "ls.solve", ins)
        st = havoc_mat(E, st, fr, e, a[2], "ls.solve", ins)
        return [(E.event(st, "ls.solve:ok"), "val", ok(UNIT)), (E.event(st, "ls.solve:err"), "val", user_err("ls.solve"))]

    def ls_scale(E, st, fr, a, e, c):
        return ret(E.event(st, "ls.scale", (snapshot(E, st, a[1]), snapshot(E, st, a[2]))), UNIT)

    def count(name):
        s = sym(name)
        ATOM_FACTS[s.single()] = [c_le(-s)]
        return lambda E, st, fr, a, e, c: ret(st, s)

    def nls_setup(E, st, fr, a, e, c):
        st = E.event(st, "nls.setup", (snapshot(E, st, a[1]),))
        return [(st, "val", ok(UNIT)), (st, "val", user_err("nls.setup"))]

    def nls_solve(E, st, fr, a, e, c):
        nlp = deref(E, st, a[1])
        ins = (snapshot(E, st, a[2]), snapshot(E, st, a[4]), snapshot(E, st, a[5]), a[6], nlp)
        st = E.event(st, "nls.solve", ins)
        E.evn += 1
        st = havoc_mat(E, st, fr, e, a[3], "ee~solve", (E.evn,))
        st = E.event(st, "nls.solve.out", (snapshot(E, st, a[3]),))
        # the problem may be asked for anything any number of times: what its callbacks write is unknown afterwards
        if isinstance(nlp, Struct):
            new, d = E.havoc_nlp(nlp, "nlp~%d" % E.evn)
            m = a[1]
            while isinstance(E.read(st, m.place), Ref):
                m = E.read(st, m.place)
            st = E.write(st, m.place, new)
        outs = [(st.setghost(nls="ok"), "val", ok(UNIT))]
        for tag, x in E.nls_errors():
            outs.append((st.setghost(nls=tag), "val", err(x)))
        return outs

    return [("LSolver", "new", new("LS")), ("NLSolver", "new", new("NLS")),
            ("LSolver", "get_type", guard(ls_type)), ("LSolver", "setup", guard(ls_setup)), ("LSolver", "solve", guard(ls_solve)),
            ("LSolver", "set_scaling_vectors", guard(ls_scale)), ("LSolver", "num_iters", guard(count("nli~ls"))),
            ("NLSolver", "setup", guard(nls_setup)), ("NLSolver", "solve", guard(nls_solve)),
            ("NLSolver", "get_num_iters", guard(count("nni~nls"))), ("NLSolver", "get_cur_iter", guard(count("m~nls")))]


def find(E, name, impl=None):
    """uid of the function called name (of the impl block for the given type)"""
    for uid, (c, b) in E.bodies.items():
        if b.get("name") == name or b["path"].split("::")[-1] == name:
            if impl is None or impl in b["path"] or impl in str(b.get("impl_self")):
                yield uid


def meth(E, adt, name):
    """uid of the method `name` implemented for the type adt"""
    for uid, (c, b) in E.bodies.items():
        if b.get("name") == name and "{closure" not in uid and isinstance(b.get("impl_self"), int):
            t = E.types[c][b["impl_self"]]
            if t.get("path") == adt or (adt == "f64" and t["k"] == "float"):
                return uid
    return None


def finite(v):
    return v is True or v is False or (isinstance(v, Enum) and not v.fields)


class Cut:
    """which loop is cut, from which states it is entered, what its back edges and exits look like"""

    def __init__(self, cell, fn, heads):
        self.cell, self.fn, self.heads_fn = cell, fn, heads
        self.inside, self.join, self.once = False, False, False
        self.entries, self.backs = [], []
        self.keys = []
        # counters that take few values are followed value by value
        self.ints, self.demoted, self.seen = False, [], None
        # called with the exits: what the code behind the loop goes on with
        self.after = None

    def accepts(self, E, fr):
        return True

    def heads(self, E, st, h, names):
        return self.heads_fn(E, st, h, names)


class Missing(Exception):
    """an anchor of a check is not in the source"""


class Obj:
    """a symbolic receiver: a value of the given type whose arrays have the shapes the constructor gives them"""

    # fields of every state, set by the constructor and never written again
    fixed = {}

    def __init__(self, E, adt="ida::Ida"):
        self.E, self.adt = E, adt
        uid = meth(E, "ida::Ida", "new")
        if uid is None:
            raise Missing("Ida::new")
        q = E.quiet
        self.new_uid = uid
        st, args, outs = self.enter_new(uid)
        self.new_outs, self.new_args, self.new_st = outs, args, st
        live = [o for o in outs if o[1] == "val"]
        if not live:
            raise Missing("Ida::new does not return")
        # the shapes are the same on every path; the first gives them
        self.new_val = live[0][2]
        if not isinstance(self.new_val, Struct):
            raise Missing("Ida::new result")
        E.quiet = q

    def enter_new(self, uid):
        E = self.E
        crate, b = E.bodies[uid]
        fr = E.frame(None, "root", uid, crate, {}, None, 0, b["path"], b.get("sp", "?"))
        st = State({}, ())
        args = []
        for p in b["params"]:
            t = E.rty(crate, p["ty"], {})
            nm = p["pat"]["name"] if p["pat"] and p["pat"]["k"] == "Binding" else "arg"
            if t["k"] == "adt" and t["path"] == nd.AB:
                st, v = nd.symbolic(E, st, t, nm, (E.n,))
            else:
                st, v = E.sym_of(st, t, nm)
            args.append(v)
        outs = E.enter(b, fr, args, st, {"n": 0, "sp": "entry"})
        return st, args, outs

    def like(self, st, v, t, name):
        """symbolic value of the same shape as v (type t)"""
        E = self.E
        if isinstance(v, ArrV):
            return ArrV(Arr(("base", name), v.arr.nd, v.arr.kind), v.dims)
        if isinstance(v, Struct):
            d = E.adts.get(v.adt)
            var = d["variants"][0] if d else None
            fl = []
            for k, x in v.fields:
                ft = None
                if var and "tys" in var and k in var["fields"]:
                    ft = E.rty(E.adtcrate[v.adt], var["tys"][var["fields"].index(k)], {})
                fl.append((k, self.like(st, x, ft, name + "." + k)))
            return Struct(v.adt, tuple(fl))
        if isinstance(v, Poly):
            kind = "i" if t is not None and t["k"] in ("uint", "int") else ("r" if t is not None else v.kind())
            s = sym(name, kind)
            if t is not None and t["k"] == "uint":
                ATOM_FACTS[s.single()] = [c_le(-s)]
            return s
        if is_bool(v):
            return ("b", name)
        return v

    def state(self, **fields):
        """(state, reference to the receiver); fields: dotted name -> value"""
        E = self.E
        v = self.like(None, self.new_val, None, "s")
        cell = ("p", "self")
        for k, x in self.fixed.items():
            if k in dict(v.fields):
                v = self.put(v, [k], x)
        for k, x in fields.items():
            v = self.put(v, k.split("__"), x)
        st = State({cell: v}, ())
        return st, Ref(Place(cell, ()), True)

    def put(self, v, path, x):
        if not path:
            return x
        if not isinstance(v, Struct) or path[0] not in dict(v.fields):
            raise Missing("field " + path[0])
        return fset(v, path[0], self.put(fget(v, path[0]), path[1:], x))


def get(v, path):
    for k in path.split("."):
        if not isinstance(v, Struct) or k not in dict(v.fields):
            raise Missing("field " + path)
        v = fget(v, k)
    return v


def run(E, uid, st, args):
    """outcomes of calling the function"""
    crate, b = E.bodies[uid]
    fr = E.frame(None, "root", uid, crate, {}, None, 0, b["path"], b.get("sp", "?"))
    outs = E.enter(b, fr, list(args), st, {"n": 0, "sp": "entry"})
    return [o for o in outs if not unsat(o[0].facts)]
