"""Structured abstract interpreter over THIR (see DESIGN.md)."""
from values import *
import models

MAXDEPTH = 24


class Frame:
    __slots__ = ("id", "crate", "tenv", "env", "fn", "depth", "site")

    def __init__(self, id, crate, tenv, env, fn, depth, site):
        self.id, self.crate, self.tenv, self.env, self.fn, self.depth, self.site = id, crate, tenv, env, fn, depth, site


class Obl:
    __slots__ = ("kind", "ok", "sp", "fn", "text")

    def __init__(self, kind, ok, sp, fn, text):
        self.kind, self.ok, self.sp, self.fn, self.text = kind, ok, sp, fn, text


class Undecided(Exception):
    pass


def head(s):
    """last path segment of a type/trait string without generics"""
    s = s.split("<")[0].strip()
    if s.startswith("&"):
        s = s.lstrip("&").replace("mut ", "").strip()
    return s.split("::")[-1]


class Engine:
    def __init__(self, crates, mode="num"):
        self.mode = mode
        self.paths = False     # keep paths apart unless they end in the same state
        self.crates = crates
        self.bodies = {}
        self.types = {}
        self.adts = {}
        self.adtcrate = {}
        n = 0
        for c, j in crates.items():
            self.types[c] = j["types"]
            for a, d in j["adts"].items():
                if a not in self.adts or any("tys" in v for v in d["variants"]):
                    self.adts[a] = d
                    self.adtcrate[a] = c
            for b in j["bodies"]:
                self.bodies[b["uid"]] = (c, b)
        for c, j in sorted(crates.items()):
            for b in j["bodies"]:
                n = self._number(b["body"], n)
        self.frames = {}
        self.frame_ids = {}
        self.callees = []
        self.callee_ids = {}
        self.quiet = 0
        self.peeling = 0
        self.obls = []
        self.events = 0
        self.loopnodes = []
        self.argmax = {}
        self.unmodelled = {}
        self.inlined = set()
        self.hooks = {}
        self.fresh_n = 0
        self.calldepth = 0
        self.array_inv = {}     # base -> fn(poly)->[cond]; element invariant
        self.elem_checks = {}   # base -> name
        self.exprs_seen = 0
        self.looplabel = None
        self.unroll = 4         # constant trip counts up to this are executed step by step

    # ------------------------------------------------------------------ utilities
    def _number(self, x, n):
        if isinstance(x, dict):
            if "k" in x:
                x["n"] = n
                n += 1
            for k, v in x.items():
                if k not in ("fn",) and isinstance(v, (dict, list)):
                    n = self._number(v, n)
        elif isinstance(x, list):
            for v in x:
                n = self._number(v, n)
        return n

    def fresh(self, base, kind="i"):
        self.fresh_n += 1
        return sym("%s~%d" % (base, self.fresh_n), kind)

    def freshb(self, base):
        self.fresh_n += 1
        return ("b", "%s~%d" % (base, self.fresh_n))

    def ty(self, fr, i):
        """resolved type dict (params substituted)"""
        return self.rty(fr.crate, i, fr.tenv)

    def rty(self, crate, i, tenv):
        t = self.types[crate][i]
        if t["k"] == "param" and tenv and t["name"] in tenv:
            x = tenv[t["name"]]
            if isinstance(x, tuple):
                return self.rty(*x)
        r = dict(t)
        r["_c"] = crate
        r["_e"] = tenv
        return r

    def sub(self, t, i):
        """component type of a resolved type"""
        return self.rty(t["_c"], i, t["_e"])

    def strip_ref(self, t):
        while t["k"] in ("ref", "ptr"):
            t = self.sub(t, t["to"])
        return t

    def dim_of(self, t):
        """dimension term of a type-level dimension"""
        if t["k"] == "param":
            nm = "n_" + t["name"]
            NONNEG.add(nm)
            s = sym(nm)
            ATOM_FACTS.setdefault(s.single(), [c_le(-s)])
            return s
        s = t["s"]
        import re
        m = re.search(r"Const<(\d+)>$", s)
        if m:
            return P(int(m.group(1)))
        m = re.search(r"Const<(\w+)>$", s)
        if m:
            nm = "n_" + m.group(1)
            NONNEG.add(nm)
            x = sym(nm)
            ATOM_FACTS.setdefault(x.single(), [c_le(-x)])
            return x
        if s.endswith("Dyn"):
            x = self.fresh("dyn")
            ATOM_FACTS[x.single()] = [c_le(-x)]
            return x
        x = self.fresh("dim")
        ATOM_FACTS[x.single()] = [c_le(-x)]
        return x

    def scalar_kind(self, t):
        return "i" if t["k"] in ("uint", "int") else "r"

    def sym_of(self, st, t, name):
        """(state, symbolic value) for a value of resolved type t"""
        k = t["k"]
        if k in ("uint", "int"):
            s = sym(name)
            if k == "uint":
                ATOM_FACTS[s.single()] = [c_le(-s)]
            return st, s
        if k in ("float", "param"):
            return st, sym(name, "r")
        if k == "bool":
            return st, ("b", name)
        if k == "ref":
            st, v = self.sym_of(st, self.sub(t, t["to"]), name)
            cell = ("p", name)
            return st.setcell(cell, v), Ref(Place(cell, ()), t["mut"])
        if k == "tuple":
            out = []
            for i, a in enumerate(t["args"]):
                st, v = self.sym_of(st, self.sub(t, a), "%s.%d" % (name, i))
                out.append(v)
            return st, Tup(tuple(out))
        if k == "adt":
            p = t["path"]
            if p == "nalgebra::base::matrix::Matrix":
                el = self.sub(t, t["args"][0])
                R = self.dim_of(self.sub(t, t["args"][1]))
                C = self.dim_of(self.sub(t, t["args"][2]))
                return st, ArrV(Arr(("base", name), 2, self.scalar_kind(el)), (R, C))
            if p == "ndarray::ArrayBase":
                return models.nd_symbolic(self, st, t, name)
            d = self.adts.get(p)
            if d and d["kind"] == "struct" and "tys" in d["variants"][0]:
                v = d["variants"][0]
                tenv = {}
                gens = d.get("generics", [])
                args = [a for a in t["args"]]
                for g, a in zip(gens, args):
                    if isinstance(a, int):
                        tenv[g] = (t["_c"], a, t["_e"])
                out = []
                for fnm, ft in zip(v["fields"], v["tys"]):
                    st, x = self.sym_of(st, self.rty(self.adtcrate[p], ft, tenv), "%s.%s" % (name, fnm))
                    out.append((fnm, x))
                return st, Struct(p, tuple(out))
            if p.endswith("PhantomData"):
                return st, UNIT
            return st, Top("symbolic " + p)
        return st, Top("symbolic " + t["s"])

    def frame(self, parent_id, site, body_uid, crate, tenv, env, depth, fn, sp):
        key = (parent_id, site, body_uid)
        i = self.frame_ids.get(key)
        if i is None:
            i = self.frame_ids[key] = len(self.frame_ids)
        f = Frame(i, crate, tenv, env, fn, depth, sp)
        self.frames[i] = f
        return f

    def callee_id(self, c):
        k = id(c)
        if k not in self.callee_ids:
            self.callee_ids[k] = len(self.callees)
            self.callees.append(c)
        return self.callee_ids[k]

    # ------------------------------------------------------------------ obligations
    def oblige(self, kind, st, cond, fr, e, text):
        if self.quiet:
            return
        d = cond if cond is True or cond is False else entails(st.facts, cond)
        if not d and unsat(st.facts):
            d = True
        self.obls.append(Obl(kind, bool(d), e.get("sp") if e else "?", fr.fn if fr else "?", text))

    def reach_panic(self, st, fr, e, what):
        """a panic is reached with the facts of st"""
        if self.quiet:
            return
        d = unsat(st.facts)
        self.obls.append(Obl("panic", bool(d), e.get("sp") if e else "?", fr.fn if fr else "?", what))

    # ------------------------------------------------------------------ places
    def read(self, st, pl):
        v = st.store.get(pl.cell, None)
        if v is None:
            return Top("uninitialised " + str(pl.cell[0]))
        for i, p in enumerate(pl.path):
            if p[0] == "f":
                if isinstance(v, Tup):
                    n = int(p[1])
                    v = v.items[n] if n < len(v.items) else Top("tuple")
                elif isinstance(v, Struct):
                    v = fget(v, p[1])
                elif isinstance(v, Ref):
                    v = self.read(st, Place(v.place.cell, v.place.path + (p,)))
                else:
                    return v if isinstance(v, Top) else Top("field")
            elif p[0] == "d":
                if isinstance(v, Enum) and v.variant == p[1]:
                    v = fget(v, p[2])
                else:
                    return v if isinstance(v, Top) else Top("payload")
            elif p[0] == "el":
                v = self.elem(st, v, p[1])
            elif p[0] == "i":
                v = v.args[p[1]]
            else:
                return Top("path")
        return v

    def elem(self, st, v, idx):
        if isinstance(v, ArrV):
            return v.arr.get(idx, st.facts)
        if isinstance(v, View):
            m = self.mat(st, v)
            if m is None:
                return Top("view")
            return self.mget(st, m, idx)
        if isinstance(v, Ref):
            return self.elem(st, self.read(st, v.place), idx)
        if isinstance(v, Tup) and len(idx) == 1 and idx[0].is_const():
            n = int(idx[0].const())
            if 0 <= n < len(v.items):
                return v.items[n]
        return v if isinstance(v, Top) else Top("element")

    def write(self, st, pl, x):
        v = st.store.get(pl.cell)
        if not pl.path:
            return st.setcell(pl.cell, x)
        # stores through references / views inside the path
        for i, p in enumerate(pl.path):
            if isinstance(v, Ref):
                return self.write(st, Place(v.place.cell, v.place.path + pl.path[i:]), x)
            if p[0] == "el":
                if isinstance(v, View):
                    m = self.mat(st, v)
                    return self.mset(st, m, p[1], x)
                if isinstance(v, ArrV):
                    if not isinstance(x, Poly):
                        nv = ArrV(Arr(("top", self.fresh("t").single()[1]), v.arr.nd, v.arr.kind), v.dims)
                    else:
                        nv = ArrV(v.arr.store(p[1], x), v.dims)
                    return self.write(st, Place(pl.cell, pl.path[:i]), nv)
                if isinstance(v, Tup) and p[1][0].is_const():
                    n = int(p[1][0].const())
                    if n < len(v.items):
                        return self.write(st, Place(pl.cell, pl.path[:i]), Tup(v.items[:n] + (set_path(v.items[n], pl.path[i + 1:], x),) + v.items[n + 1:]))
                return self.write(st, Place(pl.cell, pl.path[:i]), Top("element store"))
            v = get_path(v, (p,))
        root = st.store.get(pl.cell)
        if root is None:
            root = Top("uninit")
        return st.setcell(pl.cell, set_path(root, pl.path, x))

    # ------------------------------------------------------------------ matrices
    class Mat:
        __slots__ = ("place", "val", "dims", "exprs")

        def __init__(self, place, val, dims, exprs):
            self.place, self.val, self.dims, self.exprs = place, val, dims, exprs

    def mat(self, st, v, place=None, depth=0):
        """resolve a value (reference, view or array) to an accessible matrix"""
        if depth > 10:
            return None
        if isinstance(v, Ref):
            return self.mat(st, self.read(st, v.place), v.place, depth + 1)
        if isinstance(v, ArrV):
            nd = v.arr.nd
            return Engine.Mat(place, v, v.dims, tuple(bv(i) for i in range(nd)))
        if isinstance(v, View):
            b = self.mat(st, self.read(st, v.place), v.place, depth + 1)
            if b is None:
                return None
            m = {('s', '$%d' % i, 'i'): x for i, x in enumerate(v.exprs)}
            return Engine.Mat(b.place, b.val, v.dims, tuple(subst(x, m) for x in b.exprs))
        return None

    def midx(self, m, idx):
        mp = {('s', '$%d' % i, 'i'): x for i, x in enumerate(idx)}
        return tuple(subst(x, mp) for x in m.exprs)

    def mget(self, st, m, idx):
        return m.val.arr.get(self.midx(m, idx), st.facts)

    def mterm(self, m):
        """element at the bound indices"""
        f = []
        for i, d in enumerate(m.dims):
            f += [c_le(-bv(i)), c_lt(bv(i) - d)]
        return m.val.arr.get(m.exprs, tuple(x for x in f if x is not True))

    def mset(self, st, m, idx, x):
        if m is None or m.place is None:
            return st
        cur = self.read(st, m.place)
        if not isinstance(cur, ArrV):
            return st
        if not isinstance(x, Poly):
            return self.write(st, m.place, ArrV(Arr(("top", self.fresh("t").single()[1]), cur.arr.nd, cur.arr.kind), cur.dims))
        return self.write(st, m.place, ArrV(cur.arr.store(self.midx(m, idx), x), cur.dims))

    def in_dims(self, dims):
        return c_and(*[c_and(c_le(-bv(i)), c_lt(bv(i) - d)) for i, d in enumerate(dims)])

    def whole(self, m):
        """does the view cover its base array, index by index?"""
        return len(m.exprs) == len(m.dims) and all(e == bv(i) for i, e in enumerate(m.exprs)) and tuple(m.dims) == tuple(m.val.dims)

    def mfill(self, st, m, term, cond=True):
        """assign term($idx of the view) to every element of the view"""
        if m.place is None:
            return st
        cur = self.read(st, m.place)
        if not isinstance(cur, ArrV):
            return st
        # invert the view
        back, guard = {}, []
        for i, x in enumerate(m.exprs):
            bs = [a for a in atoms_of(x) if a[0] == 's' and a[1].startswith('$')]
            if not bs:
                guard.append(c_eq(bv(i) - x))
                continue
            a = bs[0]
            off = x - atom(a)
            if a in atoms_of(off):
                off = x + atom(a)
                back[a] = off - bv(i)
            else:
                back[a] = bv(i) - off
        for i, d in enumerate(m.dims):
            # an axis the view does not use has the single index 0
            back.setdefault(('s', '$%d' % i, 'i'), ZERO)
        # range guard in terms of base indices
        rng = self.in_dims(m.dims)
        full = self.whole(m)
        term2 = subst(term, back)
        cond2 = subst_c(cond, back) if cond is not True else True
        g = True if full else c_and(*(guard + [subst_c(rng, back) if rng is not True else True]))
        g = c_and(g, cond2)
        if g is True:
            arr = lam(cur.arr.nd, cur.arr.kind, term2)
        else:
            arr = cur.arr.update(g, term2)
        return self.write(st, m.place, ArrV(arr, cur.dims))

    # ------------------------------------------------------------------ evaluation
    def bind(self, outs, f):
        res = []
        for o in outs:
            if o[1] == "val":
                res.extend(f(o[0], o[2]))
            else:
                res.append(o)
        return res

    def evals(self, es, st, fr):
        """evaluate a list of expressions -> outs with tuple values"""
        outs = [(st, "val", ())]
        for e in es:
            outs = self.bind(outs, lambda s, acc, e=e: self.bind(self.ev(e, s, fr), lambda s2, v: [(s2, "val", acc + (v,))]))
        return outs

    def tmp(self, fr, e):
        return ("t", fr.id, e["n"])

    def local(self, fr, var):
        return ("v", fr.id, var)

    def pl(self, e, st, fr):
        """evaluate a place expression -> outs of Place"""
        k = e["k"]
        if k == "Scope":
            inner = e["e"]
            while inner["k"] == "Use" and inner["e"]["k"] in ("Use", "Loop", "Match"):
                inner = inner["e"]
            if inner["k"] != "Loop" and not (inner["k"] == "Match" and inner.get("src") == "ForLoopDesugar"):
                res = []
                for s, kd, v in self.pl(e["e"], st, fr):
                    if kd == "brk" and v[0] == e["scope"]:
                        c = self.tmp(fr, e)
                        res.append((s.setcell(c, v[1]), "val", Place(c, ())))
                    else:
                        res.append((s, kd, v))
                return res
        if k == "Use" and e["e"]["k"] in ("Var", "Upvar"):
            return self.pl(e["e"], st, fr)
        if k in ("Var", "Upvar"):
            return [(st, "val", self.varplace(e["var"], fr))]
        if k == "Field":
            nm = e.get("name")
            if nm is None:
                nm = str(e["idx"])
            return self.bind(self.pl(e["e"], st, fr), lambda s, p: [(s, "val", Place(p.cell, p.path + (("f", nm),)))])
        if k == "Deref":
            def d(s, p):
                v = self.read(s, p)
                if isinstance(v, Ref):
                    return [(s, "val", v.place)]
                return [(s, "val", p)]
            return self.bind(self.pl(e["e"], st, fr), d)
        if k == "Index":
            def ix(s, p):
                def g(s2, i):
                    if isinstance(i, Poly):
                        v = self.read(s2, p)
                        self.bounds(s2, v, (i,), fr, e)
                        return [(s2, "val", Place(p.cell, p.path + (("el", (i,)),)))]
                    return [(s2, "val", self.totmp(s2, fr, e, Top("index")))]
                return self.bind(self.ev(e["i"], s, fr), g)
            outs = self.bind(self.pl(e["l"], st, fr), ix)
            # totmp returns state too
            return [(o[2][0], "val", o[2][1]) if o[1] == "val" and type(o[2]) is tuple and not isinstance(o[2], Place) else o for o in outs]
        # rvalue: materialise
        def mk(s, v):
            c = self.tmp(fr, e)
            return [(s.setcell(c, v), "val", Place(c, ()))]
        return self.bind(self.ev(e, st, fr), mk)

    def totmp(self, st, fr, e, v):
        c = self.tmp(fr, e)
        return (st.setcell(c, v), Place(c, ()))

    def bounds(self, st, v, idx, fr, e, dims=None):
        if dims is None:
            m = self.mat(st, v)
            if m is not None:
                dims = m.dims
            elif isinstance(v, Tup):
                dims = (P(len(v.items)),)
            else:
                return
        for i, d in zip(idx, dims):
            self.oblige("bounds", st, c_and(c_le(-i), c_lt(i - d)), fr, e, "index %s within 0..%s" % (show(i), show(d)))

    def varplace(self, var, fr):
        if fr.env and var in fr.env:
            return fr.env[var]
        return Place(self.local(fr, var), ())

    def lit(self, e, fr):
        v = e["v"]
        t = self.types[fr.crate][e["ty"]]
        if v is None:
            return Top("literal")
        if isinstance(v, bool):
            return v
        if isinstance(v, dict):
            return Str(v.get("str", v.get("char", "")))
        s = str(v).replace("_", "")
        try:
            f = Fraction(s)
        except (ValueError, ZeroDivisionError):
            return Top("literal " + s)
        if e.get("neg"):
            f = -f
        return P(f)

    def ev(self, e, st, fr):
        self.exprs_seen += 1
        k = e["k"]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            self.note_unmodelled("expression kind " + k + " " + str(e.get("what", "")), fr, e)
            return [(st, "val", Top("expr " + k))]
        return m(e, st, fr)

    def note_unmodelled(self, what, fr, e):
        self.unmodelled.setdefault(what, (fr.fn, e.get("sp")))

    def ev_Scope(self, e, st, fr):
        inner = e["e"]
        while inner["k"] == "Use" and inner["e"]["k"] in ("Use", "Loop", "Match"):
            inner = inner["e"]
        if inner["k"] == "Loop":
            outs = self.ev_loop(inner, st, fr, e["scope"])
        elif inner["k"] == "Match" and inner.get("src") == "ForLoopDesugar":
            outs = self.ev_for(inner, st, fr)
        else:
            outs = self.ev(inner, st, fr)
        res = []
        hit = False
        for o in outs:
            if o[1] == "brk" and o[2][0] == e["scope"]:
                res.append((o[0], "val", o[2][1]))
                hit = True
            else:
                res.append(o)
        return self.join(res, st) if hit else res

    def ev_Use(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def ev_Coerce(self, e, st, fr):
        def f(s, v):
            return [(s, "val", v)]
        return self.bind(self.ev(e["e"], st, fr), f)

    def ev_Lit(self, e, st, fr):
        return [(st, "val", self.lit(e, fr))]

    def ev_Zst(self, e, st, fr):
        if e.get("fn"):
            return [(st, "val", self.fnvalue(e["fn"], fr))]
        return [(st, "val", UNIT)]

    def fnvalue(self, c, fr):
        self.frames[fr.id] = fr
        return FnV(self.callee_id(c), fr.crate, fr.id)

    def ev_NamedConst(self, e, st, fr):
        b = self.bodies.get(e["uid"])
        if b:
            crate, body = b
            f2 = self.frame(fr.id, e["n"], e["uid"], crate, {}, None, fr.depth + 1, body["path"], e["sp"])
            return self.ev(body["body"], st, f2)
        return models.named_const(self, e, st, fr)

    def ev_StaticRef(self, e, st, fr):
        return [(st, "val", Top("static"))]

    def ev_ConstParam(self, e, st, fr):
        x = sym("n_" + e["name"])
        ATOM_FACTS.setdefault(x.single(), [c_le(-x)])
        return [(st, "val", x)]

    def ev_Var(self, e, st, fr):
        return [(st, "val", self.read(st, self.varplace(e["var"], fr)))]

    ev_Upvar = ev_Var

    def ev_Field(self, e, st, fr):
        return self.bind(self.pl(e, st, fr), lambda s, p: [(s, "val", self.read(s, p))])

    ev_Deref = ev_Field
    ev_Index = ev_Field

    def ev_Borrow(self, e, st, fr):
        return self.bind(self.pl(e["e"], st, fr), lambda s, p: [(s, "val", Ref(p, e["mut"]))])

    ev_RawBorrow = None

    def ev_Tuple(self, e, st, fr):
        return self.bind(self.evals(e["es"], st, fr), lambda s, vs: [(s, "val", Tup(vs))])

    ev_Array = ev_Tuple

    def ev_Repeat(self, e, st, fr):
        def f(s, v):
            try:
                n = int(str(e["count"]).split("_")[0])
            except ValueError:
                return [(s, "val", Top("repeat"))]
            if n > 64:
                return [(s, "val", Top("repeat"))]
            return [(s, "val", Tup((v,) * n))]
        return self.bind(self.ev(e["e"], st, fr), f)

    def ev_Adt(self, e, st, fr):
        names = [n for n, _ in e["fields"]]
        d = self.adts.get(e["adt"])

        def f(s, vs):
            fl = dict(zip(names, vs))

            def fin(s2, base):
                order = next((v["fields"] for v in d["variants"] if v["name"] == e["variant"]), names) if d else names
                if base is not None:
                    for n in order:
                        if n not in fl:
                            fl[n] = get_path(base, (("f", n),)) if isinstance(base, Struct) else Top("base")
                flds = tuple((n, fl[n]) for n in order if n in fl)
                if d and d["kind"] == "enum":
                    return [(s2, "val", Enum(e["adt"], e["variant"], flds))]
                return [(s2, "val", Struct(e["adt"], flds))]
            if e.get("base"):
                return self.bind(self.ev(e["base"], s, fr), fin)
            return fin(s, None)
        return self.bind(self.evals([x for _, x in e["fields"]], st, fr), f)

    def ev_Closure(self, e, st, fr):
        env = dict(fr.env or {})
        s = st
        for u in e["upvars"]:
            x = u
            byref = False
            while x["k"] in ("Scope", "Borrow", "Use", "Deref", "Field"):
                if x["k"] == "Borrow":
                    byref = True
                x = x["e"]
            if x["k"] not in ("Var", "Upvar"):
                continue
            p = self.varplace(x["var"], fr)
            y = u
            while y["k"] in ("Scope", "Use"):
                y = y["e"]
            if not byref and y["k"] in ("Var", "Upvar"):
                c = ("t", fr.id, u["n"])
                s = s.setcell(c, self.read(s, p))
                p = Place(c, ())
            env[x["var"]] = p
        # remaining free variables resolve to the defining frame
        self.frames[fr.id] = fr
        return [(s, "val", Clo(e["id"], tuple(sorted(env.items())), fr.id))]

    def ev_Cast(self, e, st, fr):
        src = self.types[fr.crate]
        to = src[e["ty"]]

        def f(s, v):
            fk = self.strip_scope(e["e"])
            if isinstance(v, Poly):
                if to["k"] in ("float", "param"):
                    return [(s, "val", v)]
                if to["k"] in ("int", "uint"):
                    frm = src[e["e"]["ty"]]
                    if frm["k"] in ("float", "param"):
                        if v.is_const() and v.const().denominator == 1:
                            return [(s, "val", v)]
                        return [(s, "val", app("trunc", v, kind="i"))]
                    if to["k"] == "uint" and frm["k"] == "int" and not entails(s.facts, c_le(-v)):
                        return [(s, "val", app("wrap", v, kind="i"))]
                    if to["s"] in ("u8", "i8", "u16", "i16") and not v.is_const():
                        return [(s, "val", app("cast_" + to["s"], v, kind="i"))]
                    return [(s, "val", v)]
            if is_bool(v) and to["k"] in ("int", "uint"):
                return [(s, "val", ite(v, P(1), P(0)))]
            if isinstance(v, Enum) and to["k"] in ("int", "uint"):
                d = self.adts.get(v.adt)
                if d:
                    for i, x in enumerate(d["variants"]):
                        if x["name"] == v.variant:
                            return [(s, "val", P(i))]
            return [(s, "val", v if isinstance(v, (Ref, Clo, FnV)) else Top("cast"))]
        return self.bind(self.ev(e["e"], st, fr), f)

    def strip_scope(self, e):
        while e["k"] in ("Scope", "Use"):
            e = e["e"]
        return e

    # -- operators
    stale_hits = {}
    stale = frozenset()      # bases of arrays whose initial content must not matter (not even as NaN)

    def cancels(self, ins, out, fr, e):
        """arithmetic that makes a stale element vanish only in exact arithmetic (v*0, v-v): NaN and infinity survive it"""
        if self.stale:
            lost = set()
            for x in ins:
                lost |= bases_of(x) & self.stale
            lost -= bases_of(out)
            if lost:
                self.stale_hits.setdefault((fr.fn if fr else "?", e.get("sp") if e else None), sorted(lost))
        return out

    def binop(self, op, a, b, st, fr, e, kind):
        if self.stale and kind == "r" and op in ("Add", "Sub", "Mul", "Div") and isinstance(a, Poly) and isinstance(b, Poly):
            return self.cancels((a, b), self.binop0(op, a, b, st, fr, e, kind), fr, e)
        return self.binop0(op, a, b, st, fr, e, kind)

    def binop0(self, op, a, b, st, fr, e, kind):
        """kind: 'i','u','r','b' operand kind"""
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == "Add":
                return a + b
            if op == "Sub":
                if kind == "u":
                    self.oblige("underflow", st, c_le(b - a), fr, e, "%s - %s does not underflow" % (show(a), show(b)))
                return a - b
            if op == "Mul":
                return a * b
            if op == "Div":
                if kind in ("i", "u"):
                    self.oblige("divzero", st, c_not(c_eq(b)), fr, e, "divisor %s is not zero" % show(b))
                    if a.is_const() and b.is_const() and b.const() != 0:
                        return P(int(Fraction(a.const()) / b.const()))
                    return app("idiv", a, b, kind="i")
                return a.div(b)
            if op == "Rem":
                if kind in ("i", "u"):
                    self.oblige("divzero", st, c_not(c_eq(b)), fr, e, "divisor %s is not zero" % show(b))
                if a.is_const() and b.is_const() and b.const() != 0 and kind in ("i", "u"):
                    return P(int(a.const()) % int(b.const()))
                return app("rem", a, b, kind="i" if kind != "r" else "r")
            ii = kind in ("i", "u")
            if op == "Lt":
                return c_lt(a - b, ii)
            if op == "Le":
                return c_le(a - b)
            if op == "Gt":
                return c_lt(b - a, ii)
            if op == "Ge":
                return c_le(b - a)
            if op == "Eq":
                return c_eq(a - b)
            if op == "Ne":
                return c_not(c_eq(a - b))
            if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
                return app(op, a, b, kind="i")
        if is_bool(a) and is_bool(b):
            if op in ("BitAnd",):
                return c_and(a, b)
            if op in ("BitOr",):
                return c_or(a, b)
            if op in ("BitXor", "Ne"):
                return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
            if op == "Eq":
                return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
        if op in ("Eq", "Ne") and isinstance(a, Enum) and isinstance(b, Enum):
            r = self.eqval(a, b)
            if r is not None:
                return r if op == "Eq" else c_not(r)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return self.freshb("cmp")
        return Top("binop " + op)

    def eqval(self, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return c_eq(a - b)
        if is_bool(a) and is_bool(b):
            return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
        if isinstance(a, Enum) and isinstance(b, Enum) and a.adt == b.adt:
            if a.variant != b.variant:
                return False
            rs = [self.eqval(x, y) for (_, x), (_, y) in zip(a.fields, b.fields)]
            return None if any(r is None for r in rs) else c_and(*rs)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            rs = [self.eqval(x, y) for x, y in zip(a.items, b.items)]
            return None if any(r is None for r in rs) else c_and(*rs)
        if isinstance(a, Str) and isinstance(b, Str):
            return a == b
        return None

    def opkind(self, e, fr):
        t = self.ty(fr, e["ty"])
        t = self.strip_ref(t)
        return {"uint": "u", "int": "i", "bool": "b"}.get(t["k"], "r")

    def ev_Binary(self, e, st, fr):
        kd = self.opkind(e["l"], fr)
        return self.bind(self.evals([e["l"], e["r"]], st, fr),
                         lambda s, vs: [(s, "val", self.binop(e["op"], vs[0], vs[1], s, fr, e, kd))])

    def ev_Unary(self, e, st, fr):
        def f(s, v):
            if e["op"] == "Not":
                if is_bool(v):
                    return [(s, "val", c_not(v))]
                return [(s, "val", app("bitnot", v, kind="i") if isinstance(v, Poly) else self.freshb("not"))]
            if e["op"] == "Neg" and isinstance(v, Poly):
                return [(s, "val", -v)]
            return [(s, "val", Top("unary"))]
        return self.bind(self.ev(e["e"], st, fr), f)

    def ev_Logical(self, e, st, fr):
        isand = e["op"] == "And"

        def f(s, l):
            c = self.cond(l)
            d = decide(s.facts, c)
            if d is not None:
                if d is isand:
                    return self.ev(e["r"], s, fr)
                return [(s, "val", d)]
            gd = c if isand else c_not(c)
            s1 = s.with_fact(gd)
            ro = self.ev(e["r"], s1, fr)
            if len(ro) == 1 and ro[0][1] == "val" and ro[0][0].store == s1.store and ro[0][0].ghost == s1.ghost:
                r = self.cond(ro[0][2])
                return [(s, "val", c_and(c, r) if isand else c_or(c, r))]
            return ro + [(s.with_fact(c_not(gd)), "val", not isand)]
        if e["l"]["k"] == "LetCond" or self.strip_scope(e["l"])["k"] == "LetCond" or self.has_let(e):
            # let chains: keep bindings by splitting
            def g(s, l):
                c = self.cond(l)
                out = []
                for s2, b in self.split(s, c):
                    if b is isand:
                        out += self.ev(e["r"], s2, fr)
                    else:
                        out.append((s2, "val", b))
                return out
            return self.bind(self.ev(e["l"], st, fr), g)
        return self.bind(self.ev(e["l"], st, fr), f)

    def has_let(self, e):
        e = self.strip_scope(e)
        if e["k"] == "LetCond":
            return True
        if e["k"] == "Logical":
            return self.has_let(e["l"]) or self.has_let(e["r"])
        return False

    def cond(self, v):
        if is_bool(v):
            return v
        return self.freshb("cond")

    def split(self, st, c):
        """[(state, truth)]"""
        d = decide(st.facts, c)
        if d is not None:
            return [(st, d)]
        return [(st.with_fact(c), True), (st.with_fact(c_not(c)), False)]

    def ev_LetCond(self, e, st, fr):
        def f(s, p):
            return [(s2, "val", b) for s2, b in self.match(e["pat"], p, s, fr)]
        return self.bind(self.pl(e["e"], st, fr), f)

    def ev_If(self, e, st, fr):
        def f(s, v):
            outs = []
            for s2, b in self.split(s, self.cond(v)):
                if b:
                    outs += self.ev(e["then"], s2, fr)
                elif e["else"] is not None:
                    outs += self.ev(e["else"], s2, fr)
                else:
                    outs.append((s2, "val", UNIT))
            return outs
        return self.join(self.bind(self.ev(e["cond"], st, fr), f), st)

    # -- patterns
    def match(self, p, place, st, fr):
        k = p["k"]
        if k == "Wild":
            return [(st, True)]
        if k == "Binding":
            outs = [(st, True)]
            if p["sub"]:
                outs = self.match(p["sub"], place, st, fr)
            res = []
            for s, b in outs:
                if b:
                    v = self.read(s, place) if p["by"] == "value" else Ref(place, p["by"] == "mutref")
                    s = self.write(s, self.varplace(p["var"], fr), v)
                res.append((s, b))
            return res
        if k == "Deref":
            v = self.read(st, place)
            return self.match(p["sub"], v.place if isinstance(v, Ref) else place, st, fr)
        if k == "Variant":
            v = self.read(st, place)
            while isinstance(v, Ref):
                place = v.place
                v = self.read(st, place)
            if isinstance(v, Enum):
                if v.variant != p["variant"]:
                    return [(st, False)]
                names = [n for n, _ in v.fields]
                return self.submatch(p["sub"], lambda i: Place(place.cell, place.path + (("d", v.variant, names[i] if i < len(names) else str(i)),)), st, fr)
            # unknown enum: both outcomes
            outs = [(st, False)]
            d = self.adts.get(p["adt"])
            vs = next((x for x in d["variants"] if x["name"] == p["variant"]), None) if d else None
            flds = tuple((n, Top("unknown payload")) for n in (vs["fields"] if vs else []))
            s2 = self.write(st, place, Enum(p["adt"], p["variant"], flds))
            return outs + self.match(p, place, s2, fr)
        if k == "Leaf":
            v = self.read(st, place)
            while isinstance(v, Ref):
                place = v.place
                v = self.read(st, place)
            if isinstance(v, Struct):
                names = [n for n, _ in v.fields]
            else:
                t = self.types[fr.crate][p["ty"]]
                names = None
                if t["k"] == "adt":
                    d = self.adts.get(t["path"])
                    names = d["variants"][0]["fields"] if d else None
            return self.submatch(p["sub"], lambda i: Place(place.cell, place.path + (("f", names[i] if names and i < len(names) else str(i)),)), st, fr)
        if k == "Constant":
            v = self.read(st, place)
            while isinstance(v, Ref):
                v = self.read(st, v.place)
            c = self.const_eq(v, p["v"])
            return self.split(st, c)
        if k == "Range":
            v = self.read(st, place)
            s = p["v"]
            import re
            m = re.match(r"(-?\d+)_\w+?\.\.(=?)(-?\d+)_\w+", s)
            if m and isinstance(v, Poly):
                lo, hi = int(m.group(1)), int(m.group(3)) + (1 if m.group(2) else 0)
                return self.split(st, c_and(c_le(lo - v), c_lt(v - hi, True)))
            return self.split(st, self.freshb("range"))
        if k == "Or":
            res = []
            work = [st]
            for sp in p["sub"]:
                nxt = []
                for s in work:
                    for s2, b in self.match(sp, place, s, fr):
                        (res.append((s2, True)) if b else nxt.append(s2))
                work = nxt
            return res + [(s, False) for s in work]
        self.note_unmodelled("pattern " + k, fr, p if "sp" in p else {"sp": "?"})
        return self.split(st, self.freshb("pat"))

    def submatch(self, subs, mk, st, fr):
        outs = [(st, True)]
        for i, sp in subs:
            nxt = []
            for s, b in outs:
                if not b:
                    nxt.append((s, b))
                else:
                    nxt += self.match(sp, mk(i), s, fr)
            outs = nxt
        return outs

    def const_eq(self, v, txt):
        t = txt.strip()
        if t in ("true", "false"):
            c = v if is_bool(v) else self.freshb("const")
            return c if t == "true" else c_not(c)
        import re
        m = re.match(r"^(-?[\d.]+(?:e-?\d+)?)(?:_?[iuf](?:\d+|size))?$", t)
        if m and isinstance(v, Poly):
            return c_eq(v - P(Fraction(m.group(1))))
        if isinstance(v, Str):
            return v.s == t.strip('"')
        return self.freshb("const")

    def ev_Match(self, e, st, fr):
        if e.get("src") == "ForLoopDesugar":
            return self.ev_for(e, st, fr)

        def f(s, p):
            outs = []
            work = [s]
            for a in e["arms"]:
                nxt = []
                for w in work:
                    for s2, b in self.match(a["pat"], p, w, fr):
                        if not b:
                            nxt.append(s2)
                            continue
                        if a["guard"] is not None:
                            for o in self.ev(a["guard"], s2, fr):
                                if o[1] != "val":
                                    outs.append(o)
                                    continue
                                for s3, g in self.split(o[0], self.cond(o[2])):
                                    if g:
                                        outs += self.ev(a["body"], s3, fr)
                                    else:
                                        nxt.append(s3)
                        else:
                            outs += self.ev(a["body"], s2, fr)
                work = nxt
            return outs
        return self.join(self.bind(self.pl(e["e"], st, fr), f), st)

    # -- blocks, control
    def ev_Block(self, e, st, fr):
        b = e["b"]
        outs = self.block(b, st, fr)
        if b.get("targeted"):
            outs = self.join([(o[0], "val", o[2][1]) if o[1] == "brk" and o[2][0] == b["scope"] else o for o in outs], st)
        return outs

    def block(self, b, st, fr):
        outs = [(st, "val", UNIT)]
        for s in b["stmts"]:
            if s["k"] == "expr":
                outs = self.bind(outs, lambda x, _, s=s: [(o[0], o[1], UNIT if o[1] == "val" else o[2]) for o in self.ev(s["e"], x, fr)])
            else:
                outs = self.bind(outs, lambda x, _, s=s: self.let(s, x, fr))
            if len(outs) > 4:
                outs = self.join(outs, st)
        if b["expr"] is not None:
            outs = self.bind(outs, lambda x, _: self.ev(b["expr"], x, fr))
        return outs

    def let(self, s, st, fr):
        if s["init"] is None:
            return [(st, "val", UNIT)]
        pat = s["pat"]

        def f(x, p):
            outs = []
            for s2, b in self.match(pat, p, x, fr):
                if b:
                    outs.append((s2, "val", UNIT))
                elif s["els"] is not None:
                    outs += self.block(s["els"], s2, fr)
            return outs
        if pat["k"] == "Binding" and pat["by"] == "value" and not pat["sub"]:
            def g(x, v):
                return [(x.setcell(self.local(fr, pat["var"]), v), "val", UNIT)]
            return self.bind(self.ev(s["init"], st, fr), g)
        return self.join(self.bind(self.pl(s["init"], st, fr), f), st)

    def ev_Assign(self, e, st, fr):
        # Rust evaluates the right operand first
        def f(s, v):
            return self.bind(self.pl(e["l"], s, fr), lambda s2, p: [(self.store(s2, p, v, fr, e), "val", UNIT)])
        return self.bind(self.ev(e["r"], st, fr), f)

    def store(self, st, p, v, fr, e):
        if p.path and p.path[-1][0] == "el":
            base = self.read(st, Place(p.cell, p.path[:-1]))
            m = self.mat(st, base, Place(p.cell, p.path[:-1]))
            if m is not None:
                self.elem_check(st, m, v, p.path[-1][1], fr, e)
        return self.write(st, p, v)

    def elem_check(self, st, m, v, idx, fr, e):
        b = m.val.arr.base
        inv = ATOM_FACTS.get(b)
        if inv and isinstance(v, Poly):
            for c in inv(v, idx):
                self.oblige("elem", st, c, fr, e, "stored value %s keeps %s" % (show(v), show_c(c)))
        elif inv:
            self.oblige("elem", st, False, fr, e, "stored value is unknown")

    def ev_AssignOp(self, e, st, fr):
        kd = self.opkind(e["l"], fr)
        op = e["op"].replace("Assign", "")

        def f(s, r):
            def g(s2, p):
                cur = self.read(s2, p)
                v = self.binop(op, cur, r, s2, fr, e, kd)
                return [(self.store(s2, p, v, fr, e), "val", UNIT)]
            return self.bind(self.pl(e["l"], s, fr), g)
        return self.bind(self.ev(e["r"], st, fr), f)

    def ev_Break(self, e, st, fr):
        if e["e"] is None:
            return [(st, "brk", (e["label"], UNIT))]
        return self.bind(self.ev(e["e"], st, fr), lambda s, v: [(s, "brk", (e["label"], v))])

    def ev_Continue(self, e, st, fr):
        return [(st, "cont", e["label"])]

    def ev_Return(self, e, st, fr):
        if e["e"] is None:
            return [(st, "ret", UNIT)]
        return self.bind(self.ev(e["e"], st, fr), lambda s, v: [(s, "ret", v)])

    # ------------------------------------------------------------------ joins
    def join(self, outs, base):
        if len(outs) < 2:
            return outs
        outs = [o for o in outs if not unsat(o[0].facts)] if len(outs) > 1 else outs
        if self.paths:
            return outs
        if self.mode == "ctl":
            seen, res = set(), []
            for o in outs:
                key = self.okey(o)
                if key in seen:
                    continue
                seen.add(key)
                res.append(o)
            return res
        groups = {}
        res = []
        order = []
        for o in outs:
            key = (o[1], o[2] if o[1] == "cont" else (o[2][0] if o[1] == "brk" else None))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(o)
        for key in order:
            g = groups[key]
            while len(g) > 1:
                merged = False
                for i in range(len(g) - 1):
                    for jx in range(i + 1, len(g)):
                        m = self.merge2(g[i], g[jx])
                        if m is not None:
                            g = [x for n, x in enumerate(g) if n not in (i, jx)]
                            g.insert(i, m)
                            merged = True
                            break
                    if merged:
                        break
                if not merged:
                    break
            res += g
        return res

    def okey(self, o):
        s = o[0]
        return (o[1], repr(o[2]) if False else o[2], frozenset(s.store.items()), frozenset(s.facts), frozenset(s.ghost.items()))

    def merge2(self, a, b):
        sa, sb = a[0], b[0]
        fa, fb = sa.facts, sb.facts
        n = 0
        while n < len(fa) and n < len(fb) and fa[n] == fb[n]:
            n += 1
        ca, cb = c_and(*fa[n:]), c_and(*fb[n:])
        ra, rb = fa[n:], fb[n:]
        try:
            # gate: prefer the first differing fact when complementary
            gate = None
            for x in ra:
                if c_not(x) in rb:
                    gate = x
                    break
            if gate is None:
                gate = ca
                if gate is True:
                    gate = c_not(cb)
            va, vb = a[2], b[2]
            if a[1] == "brk":
                v = (va[0], merge_val(gate, va[1], vb[1]))
            elif a[1] == "cont":
                v = va
            else:
                v = merge_val(gate, va, vb)
            store = {}
            for c in sa.store:
                if c in sb.store:
                    x, y = sa.store[c], sb.store[c]
                    if x is y or x == y:
                        store[c] = x
                    else:
                        try:
                            store[c] = merge_val(gate, x, y)
                        except NoMerge:
                            if c[0] in ("t",) and not self.live(c, a, b):
                                continue
                            raise
                elif not self.live(c, a, b) or True:
                    store[c] = sa.store[c]
            for c in sb.store:
                if c not in sa.store:
                    store[c] = sb.store[c]
            if sa.ghost != sb.ghost:
                raise NoMerge()
        except NoMerge:
            return None
        facts = fa[:n]
        orf = c_or(ca, cb)
        if orf is not True and c_not(ca) != cb:
            facts = facts + (orf,) if orf not in facts else facts
        # keep facts common to both
        for x in ra:
            if x in rb and x not in facts:
                facts = facts + (x,)
        return (State(store, facts, sa.ghost), a[1], v)

    def live(self, c, a, b):
        return c[0] == "v"

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e, st, fr):
        fn = e["fn"]
        if fn is None:
            return self.bind(self.ev(e["fun"], st, fr), lambda s, f:
                             self.bind(self.evals(e["args"], s, fr), lambda s2, vs: self.call_value(f, vs, s2, fr, e)))
        return self.bind(self.evals(e["args"], st, fr), lambda s, vs: self.call(fn, vs, s, fr, e))

    def call_value(self, f, args, st, fr, e):
        """call a closure / function value"""
        if isinstance(f, Ref):
            return self.call_value(self.read(st, f.place), args, st, fr, e)
        if isinstance(f, Clo):
            b = self.bodies.get(f.id)
            if b is None:
                return [(st, "val", Top("closure body"))]
            crate, body = b
            d = self.frames[f.frame]
            env = dict(f.env)
            # variables of the defining frame not captured explicitly
            env2 = _Env(env, d, self)
            nf = self.frame(fr.id, e["n"], f.id + "/%d" % f.frame, crate, d.tenv, env2, fr.depth + 1, body["path"], e["sp"])
            # params: first is the closure itself (implicit), then the arguments
            return self.enter(body, nf, args, st, e, skip_self=True)
        if isinstance(f, FnV):
            c = self.callees[f.callee]
            df = self.frames[f.tenv]
            return self.call(c, args, st, Frame(fr.id, f.crate, df.tenv, fr.env, fr.fn, fr.depth, fr.site), e)
        return self.unknown_call("call of unknown function value", args, st, fr, e)

    def enter(self, body, nf, args, st, e, skip_self=False):
        if nf.depth > MAXDEPTH:
            self.note_unmodelled("recursion " + body["path"], nf, e)
            return [(st, "val", Top("recursion"))]
        self.inlined.add(body["path"])
        params = body["params"]
        if skip_self:
            params = params[1:] if len(params) == len(args) + 1 else params
        outs = [st]
        if len(params) != len(args):
            self.note_unmodelled("arity " + body["path"], nf, e)
            return [(st, "val", Top("arity"))]
        for i, (p, a) in enumerate(zip(params, args)):
            cell = ("t", nf.id, "arg%d" % i)
            nxt = []
            for s in outs:
                s = s.setcell(cell, a)
                if p["pat"] is None:
                    nxt.append(s)
                else:
                    nxt += [s2 for s2, b in self.match(p["pat"], Place(cell, ()), s, nf) if b]
            outs = nxt
        res = []
        for s in outs:
            res += self.ev(body["body"], s, nf)
        out = []
        for o in res:
            kd = o[1]
            if kd in ("val", "ret"):
                out.append((self.leave(o[0], nf, o[2]), "val", o[2]))
            elif kd == "panic":
                out.append(o)
            else:
                out.append(o)
        return self.join(out, st)

    def leave(self, st, fr, v):
        """drop the cells of a finished frame unless something still refers to them"""
        if self.mentions(v, fr.id):
            return st
        dead = [c for c in st.store if c[0] in ("v", "t") and c[1] == fr.id]
        if not dead:
            return st
        for c, x in st.store.items():
            if not (c[0] in ("v", "t") and c[1] == fr.id) and self.mentions(x, fr.id):
                return st
        d = {c: x for c, x in st.store.items() if not (c[0] in ("v", "t") and c[1] == fr.id)}
        return State(d, st.facts, st.ghost)

    def mentions(self, v, fid):
        if isinstance(v, Ref):
            return v.place.cell[0] in ("v", "t") and v.place.cell[1] == fid
        if isinstance(v, View):
            return v.place.cell[0] in ("v", "t") and v.place.cell[1] == fid
        if isinstance(v, Place):
            return v.cell[0] in ("v", "t") and v.cell[1] == fid
        if isinstance(v, Tup):
            return any(self.mentions(x, fid) for x in v.items)
        if isinstance(v, (Struct, Enum)):
            return any(self.mentions(x, fid) for _, x in v.fields)
        if isinstance(v, It):
            return any(self.mentions(x, fid) for x in v.args)
        if isinstance(v, Clo):
            return v.frame == fid or any(self.mentions(p, fid) for _, p in v.env)
        return False

    def call(self, c, args, st, fr, e):
        # hooks first
        h = self.hooks.get(c["uid"]) or self.hooks.get(c.get("ruid"))
        if h is None and c.get("trait"):
            h = self.hooks.get((head(c["trait"]), c.get("name")))
        if h is not None:
            r = h(self, st, fr, args, e, c)
            if r is not None:
                return r
        if c.get("ctor"):
            flds = tuple((str(i), a) for i, a in enumerate(args))
            d = self.adts.get(c["adt"])
            if d and d["kind"] == "enum":
                return [(st, "val", Enum(c["adt"], c["variant"], flds))]
            return [(st, "val", Struct(c["adt"], flds))]
        uid = c.get("ruid") or c["uid"]
        b = self.bodies.get(uid)
        if b is not None and c.get("name") in ("call", "call_mut", "call_once") and len(args) == 2:
            # a closure called through the Fn traits: the arguments come as one tuple
            return self.call_value(args[0], list(args[1].items) if isinstance(args[1], Tup) else [args[1]], st, fr, e)
        cargs = c.get("rargs") if c.get("ruid") else c["args"]
        if b is None and c.get("trait") and not c.get("ruid"):
            # trait method on a type parameter that the inlining context makes concrete
            r = self.late_resolve(c, args, st, fr)
            if r:
                b, cargs = r
                uid = b[1]["uid"]
        if b is not None and not self.derived(b[1]):
            crate, body = b
            tenv = {}
            for g, a in zip(body.get("generics", []), cargs or []):
                if isinstance(a, int):
                    tenv[g] = (fr.crate, a, fr.tenv)
            nf = self.frame(fr.id, e["n"], uid, crate, tenv, None, fr.depth + 1, body["path"], e["sp"])
            return self.enter(body, nf, args, st, e)
        r = models.call(self, c, args, st, fr, e)
        if r is not None:
            return r
        return self.unknown_call(c["path"], args, st, fr, e)

    def derived(self, body):
        return body.get("name") in ("fmt",)

    def late_resolve(self, c, args, st, fr):
        return None

    def unknown_call(self, path, args, st, fr, e):
        self.note_unmodelled("call " + path, fr, e)
        t = self.ty(fr, e["ty"])
        s = st
        for a in args:
            if isinstance(a, Ref) and a.mut:
                s = self.havoc_place(s, a.place)
            if isinstance(a, Clo):
                for _, p in a.env:
                    s = self.havoc_place(s, p)
        if t["k"] == "never":
            return []
        if t["k"] in ("float", "param", "uint", "int") and all(isinstance(a, Poly) or (isinstance(a, Ref) and not a.mut) for a in args):
            vs = []
            for a in args:
                v = a
                while isinstance(v, Ref):
                    v = self.read(s, v.place)
                if not isinstance(v, (Poly, ArrV)):
                    vs = None
                    break
                vs.append(v.arr if isinstance(v, ArrV) else v)
            if vs is not None:
                return [(s, "val", app(path.split("::")[-1], *vs, kind=self.scalar_kind(t)))]
        if t["k"] == "bool":
            return [(s, "val", self.freshb("call"))]
        if t["k"] == "tuple" and not t["args"]:
            return [(s, "val", UNIT)]
        return [(s, "val", Top("call " + path))]

    def havoc_value(self, v, tag="havoc"):
        if isinstance(v, Poly):
            return self.fresh(tag, v.kind())
        if is_bool(v):
            return self.freshb(tag)
        if isinstance(v, ArrV):
            return ArrV(Arr(("top", self.fresh("t").single()[1]), v.arr.nd, v.arr.kind), v.dims)
        if isinstance(v, Tup):
            return Tup(tuple(self.havoc_value(x) for x in v.items))
        if isinstance(v, Struct):
            return v._replace(fields=tuple((k, self.havoc_value(x)) for k, x in v.fields))
        return Top(tag)

    def havoc_place(self, st, p):
        v = self.read(st, p)
        if isinstance(v, Ref):
            return self.havoc_place(st, v.place) if v.mut else st
        if isinstance(v, View):
            return self.havoc_place(st, v.place)
        return self.write(st, p, self.havoc_value(v))

    # ------------------------------------------------------------------ loops
    def ev_Loop(self, e, st, fr):
        return self.ev_loop(e, st, fr, None)

    def ev_loop(self, e, st, fr, label):
        import loops
        return loops.loop(self, e, st, fr, label)

    def ev_for(self, e, st, fr):
        import loops
        return loops.for_loop(self, e, st, fr)


class _Env(dict):
    """upvar environment: explicit captures, then the defining frame's variables"""

    def __init__(self, env, dframe, eng):
        dict.__init__(self, env)
        self._d = dframe
        self._prefix = None

    def __contains__(self, k):
        return True if dict.__contains__(self, k) else (self._d.env is not None and k in self._d.env)

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self._d.env[k]


Engine.ev_RawBorrow = Engine.ev_Borrow
