"""Terms of the abstract domains: polynomials over atoms, conditions, functional arrays, and a small
linear-inequality entailment procedure (Fourier-Motzkin with integer tightening)."""
from fractions import Fraction
from functools import lru_cache
from math import gcd

# ---------------------------------------------------------------------------------------------
# atoms:  ('s', name, kind)                     symbol, kind 'i' (integer) or 'r' (real)
#         ('sel', Arr, (idx Poly, ...), kind)   array element
#         ('app', name, (args...), kind)        uninterpreted / named function
#         ('ite', Cond, Poly, Poly, kind)
#         ('sum', lo Poly, hi Poly, body Poly, binder, kind)
#         ('poly', Poly, kind)                  non-monomial base of a power
# ---------------------------------------------------------------------------------------------

_rk = {}


def akey(a):
    k = _rk.get(a)
    if k is None:
        k = _rk[a] = show_atom(a)
    return k


def akind(a):
    return a[-1]


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, d):
        items = [(m, c if type(c) is int else c.numerator if c.denominator == 1 else c) for m, c in d.items() if c]
        if len(items) > 1:
            items.sort(key=lambda mc: mkey(mc[0]))
        self.t = tuple(items)
        self._h = hash(self.t)
        self._k = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (type(o) is Poly and self._h == o._h and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    # -- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const(self):
        return self.t[0][1] if self.t else 0

    def is_zero(self):
        return not self.t

    def single(self):
        """the atom if this is exactly one atom with coefficient 1"""
        if len(self.t) == 1 and self.t[0][1] == 1:
            m = self.t[0][0]
            if len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def is_mono(self):
        return len(self.t) == 1

    def kind(self):
        for m, c in self.t:
            for a, e in m:
                if akind(a) == 'r':
                    return 'r'
        return 'i'

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-P(o))

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = mmul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return Poly(d)

    def __radd__(self, o):
        return self + o

    def __rsub__(self, o):
        return P(o) - self

    def __rmul__(self, o):
        return self * o

    def scale(self, f):
        return Poly({m: c * f for m, c in self.t})

    def inv(self):
        if self.is_zero():
            return atom(('app', 'div0', (), 'r'))
        if self.is_mono():
            m, c = self.t[0]
            return Poly({tuple((a, -e) for a, e in m): 1 / Fraction(c)})
        lead = self.t[0][1]
        base = self.scale(1 / Fraction(lead))
        a = ('poly', base, 'r')
        return Poly({((a, -1),): 1 / Fraction(lead)})

    def div(self, o):
        o = P(o)
        if o.is_zero():
            return atom(('app', 'div0', (self,), 'r'))
        if not o.is_mono() and self.t and len(self.t) == len(o.t):
            r = Fraction(self.t[0][1]) / Fraction(o.t[0][1])
            if self == o.scale(r):
                return P(r)
        return self * o.inv()

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = P(1)
        for _ in range(n):
            r = r * self
        return r

    def half(self):
        """square root"""
        if self.is_zero():
            return self
        if self.is_mono():
            m, c = self.t[0]
            if c > 0:
                out = []
                for a, e in m:
                    h = Fraction(e) / 2
                    h = h.numerator if h.denominator == 1 else h
                    if h.denominator == 1 and not nonneg_atom(a):
                        if h % 2:
                            a2 = ('app', 'abs', (atom(a),), akind(a))
                            out.append((a2, h))
                        else:
                            out.append((a, h))
                    else:
                        out.append((a, h))
                cs = Fraction(c)
                rn, rd = isqrt_exact(cs.numerator), isqrt_exact(cs.denominator)
                if rn is not None and rd is not None:
                    return Poly({msort(out): Fraction(rn, rd)})
                out.append((('poly', P(cs), 'r'), Fraction(1, 2)))
                return Poly({msort(out): Fraction(1)})
        a = ('poly', self, 'r')
        return Poly({((a, Fraction(1, 2)),): 1})


def isqrt_exact(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def nonneg_atom(a):
    if a[0] == 'app' and a[1] in ('abs', 'nonneg'):
        return True
    if a[0] == 'sum':
        b = a[3]
        return all(c > 0 and all(e == int(e) and int(e) % 2 == 0 or nonneg_atom(x) for x, e in m) for m, c in b.t)
    if a[0] == 's' and a[2] == 'i':
        return a[1] in NONNEG
    if a[0] == 'app' and a[1] == 'dim':
        return True
    return False


NONNEG = set()


def mkey(m):
    return tuple((akey(a), e) for a, e in m)


def msort(l):
    l = [(a, e) for a, e in l if e != 0]
    l.sort(key=lambda ae: akey(ae[0]))
    return tuple(l)


@lru_cache(maxsize=200000)
def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    l = []
    for a, e in d.items():
        if a[0] == 'app' and a[1] == 'abs' and e != 0 and Fraction(e).denominator == 1 and int(e) % 2 == 0:
            # |x|^2 = x^2
            q = a[2][0]
            b = q.single()
            if b is not None:
                l = [(x, y) for x, y in l] + [(b, e)]
                continue
        if a[0] == 'ite' and e != 1 and e > 0 and all(isinstance(x, Poly) and x.is_const() and x.const() in (0, 1) for x in a[2:4]):
            e = 1          # a choice between zero and one is its own power
        l.append((a, e))
    if len(l) != len(set(a for a, e in l)):
        d = {}
        for a, e in l:
            d[a] = d.get(a, 0) + e
        l = list(d.items())
    return msort(l)


_pint = {}


def P(x):
    if type(x) is Poly:
        return x
    if type(x) is int:
        r = _pint.get(x)
        if r is None:
            r = _pint[x] = Poly({(): x})
        return r
    if isinstance(x, (int, Fraction)):
        return Poly({(): x})
    raise TypeError(x)


ZERO = P(0)
ONE = P(1)


def atom(a):
    return Poly({((a, 1),): 1})


def sym(name, kind='i'):
    return atom(('s', name, kind))


def app(name, *args, kind='r'):
    return atom(('app', name, tuple(args), kind))


def pabs(p):
    p = P(p)
    if p.is_const():
        return P(abs(p.const()))
    if p.is_mono():
        m, c = p.t[0]
        out = []
        for a, e in m:
            if nonneg_atom(a) or (Fraction(e).denominator == 1 and int(e) % 2 == 0):
                out.append((a, e))
            elif Fraction(e).denominator == 1:
                out.append((('app', 'abs', (atom(a),), akind(a)), e))
            else:
                out.append((a, e))
        return Poly({msort(out): abs(c)})
    if p.t[0][1] < 0:
        p = -p
    return atom(('app', 'abs', (p,), p.kind()))


def _minmax(name, a, b):
    if a == b:
        return a
    if a.is_const() and b.is_const():
        return a if ((a.const() > b.const()) == (name == 'max')) else b
    xs = set()
    for x in (a, b):
        s = x.single()
        if s and s[0] == 'app' and s[1] == name:
            xs.update(s[2])
        else:
            xs.add(x)
    xs = sorted(xs, key=show)
    if name == 'max' and len(xs) == 2 and xs[0] == -xs[1]:
        return pabs(xs[0])
    k = 'r' if 'r' in (a.kind(), b.kind()) else 'i'
    return atom(('app', name, tuple(xs), k))


def pmax(a, b):
    return _minmax('max', P(a), P(b))


def pmin(a, b):
    return _minmax('min', P(a), P(b))


# ---------------------------------------------------------------------------------------------
# conditions
#   True / False, ('le', p) p<=0, ('lt', p) p<0, ('eq', p) p==0, ('b', name) boolean atom,
#   ('not', c), ('and', (c...)), ('or', (c...)), ('q', kind, lo, hi, cond, binder)
# ---------------------------------------------------------------------------------------------


def _norm(p, eq):
    if p.is_const():
        return p
    lead = None
    for m, c in p.t:
        if m != ():
            lead = c
            break
    if lead == 1 or lead == -1:
        f = 1
    else:
        f = abs(Fraction(1) / Fraction(lead))
    if eq and lead < 0:
        f = -f
    # keep integers integral: scale to primitive integer coefficients when integral kind
    q = p if f == 1 else p.scale(f)
    den = 1
    for m, c in q.t:
        d = c.denominator
        den = den * d // gcd(den, d)
    if den != 1:
        q = q.scale(den)
    return q


def _strip_pos(p):
    """p<=0, p<0, p==0 are invariant under removal of known-positive/absolute factors for monomials."""
    return p


def _signed(p):
    """(sign, conds) for a monomial whose factors are all non-negative: p has that sign or is zero"""
    if not p.is_mono():
        return 0
    m, c = p.t[0]
    for a, e in m:
        if not (a[0] == 'app' and a[1] == 'abs' and e > 0 or akind(a) in ('r', 'i') and Fraction(e).denominator == 1 and e > 0 and int(e) % 2 == 0):
            return 0
    return 1 if c > 0 else -1


def c_le(p, isint=None):
    p = P(p)
    if p.is_const():
        return p.const() <= 0
    s = _signed(p)
    if s:
        # |x| <= 0 only for x = 0
        return True if s < 0 else c_eq(p)
    return ('le', _norm(p, False))


def c_lt(p, isint=None):
    p = P(p)
    if isint is None:
        isint = p.kind() == 'i'
    if p.is_const():
        return p.const() < 0
    s = _signed(p)
    if s:
        return c_not(c_eq(p)) if s < 0 else False
    if isint:
        return c_le(p + 1)
    return ('lt', _norm(p, False))


def c_eq(p):
    p = P(p)
    if p.is_const():
        return p.const() == 0
    if p.is_mono():
        # a*b*|c| == 0: keep per-factor normal form  (exponent irrelevant, |x|==0 <=> x==0)
        m, c = p.t[0]
        fs = []
        for a, e in m:
            if e < 0:
                continue
            if a[0] == 'app' and a[1] == 'abs':
                fs.append(c_eq(a[2][0]))
            elif a[0] == 'poly':
                fs.append(c_eq(a[1]))
            else:
                fs.append(('eq', atom(a)))
        if not fs:
            return False
        return c_or(*fs)
    if len(p.t) <= 4:
        # x == max(x, y) <=> y <= x
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0][0] == 'app' and m[0][0][1] in ('max', 'min'):
                a = m[0][0]
                rest = (p - Poly({m: c})).scale(-c)
                if rest in a[2] and len(a[2]) == 2:
                    y = a[2][0] if a[2][1] == rest else a[2][1]
                    return c_le(y - rest) if a[1] == 'max' else c_le(rest - y)
    return ('eq', _norm(p, True))


@lru_cache(maxsize=200000)
def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'le':
        p = c[1]
        return c_le(1 - p) if p.kind() == 'i' else ('lt', _norm(-p, False))
    if c[0] == 'lt':
        return ('le', _norm(-c[1], False))
    if c[0] == 'and':
        return c_or(*[c_not(x) for x in c[1]])
    if c[0] == 'or':
        return c_and(*[c_not(x) for x in c[1]])
    return ('not', c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        for x in (c[1] if c[0] == 'and' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if c_not(x) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        for x in (c[1] if c[0] == 'or' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if c_not(x) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    a, b = P(a), P(b)
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    # a==b ? a : b  -> b
    if c[0] == 'eq':
        d = a - b
        if not d.is_const() and c_eq(d) == c:
            return b
    # max/min/abs recognition:  p<=0 / p<0
    if c[0] in ('le', 'lt'):
        d = a - b
        if not d.is_const():
            # cond true when p<=0 ; if p ~ (a-b) then a<=b ? a : b = min
            if _norm(d, False) == c[1]:
                return pmin(a, b)
            if _norm(-d, False) == c[1]:
                return pmax(a, b)
    k = 'r' if 'r' in (a.kind(), b.kind()) else 'i'
    return atom(('ite', c, a, b, k))


def c_ite(c, a, b):
    if a == b:
        return a
    return c_or(c_and(c, a), c_and(c_not(c), b))


# ---------------------------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------------------------

def bv(i):
    return sym('$%d' % i, 'i')


class Arr:
    """base array plus a chain of guarded updates, each a function of the index variables $0,$1"""
    __slots__ = ("base", "nodes", "nd", "kind", "_h")

    def __init__(self, base, nd, kind, nodes=()):
        self.base, self.nd, self.kind, self.nodes = base, nd, kind, tuple(nodes)
        self._h = hash((base, self.nodes))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Arr) and self._h == o._h and self.base == o.base and self.nodes == o.nodes

    def __repr__(self):
        return show_arr(self)

    def store(self, idx, v):
        g = c_and(*[c_eq(bv(i) - x) for i, x in enumerate(idx)])
        return self.update(g, v)

    def update(self, guard, v):
        if guard is False:
            return self
        return Arr(self.base, self.nd, self.kind, self.nodes + ((guard, v),))

    def get(self, idx, facts=()):
        """element term; resolves updates decided by the facts"""
        idx = tuple(idx)
        nodes = list(self.nodes)
        while nodes:
            g, v = nodes[-1]
            m = {('s', '$%d' % i, 'i'): x for i, x in enumerate(idx)}
            gg = subst_c(g, m)
            d = decide(facts, gg)
            if d is True:
                return subst(v, m)
            if d is False:
                nodes.pop()
                continue
            break
        a = self if len(nodes) == len(self.nodes) else Arr(self.base, self.nd, self.kind, nodes)
        return atom(('sel', a, idx, self.kind))


# ---------------------------------------------------------------------------------------------
# substitution:  m maps atoms -> Poly, and ('base', ...) -> Arr
# ---------------------------------------------------------------------------------------------

def subst(p, m):
    if not m:
        return p
    key = (p, tuple(sorted(((k if not isinstance(k, Poly) else k), v) for k, v in m.items())) if False else None)
    return _subst(p, m, {})


def _subst(p, m, memo):
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    changed = False
    for mono, c in p.t:
        f = None
        keep = []
        for a, e in mono:
            na = subst_atom(a, m, memo)
            if na is None:
                keep.append((a, e))
                continue
            changed = True
            q = ppow(na, e)
            f = q if f is None else f * q
        base = Poly({tuple(keep): c})
        out = out + (base if f is None else base * f)
    r = out if changed else p
    memo[p] = r
    return r


def ppow(q, e):
    e = Fraction(e)
    if e.denominator == 1:
        return q.pow(int(e))
    if e.denominator == 2:
        return q.half().pow(int(e * 2))
    raise ValueError(e)


def subst_atom(a, m, memo):
    """None if unchanged, else a Poly"""
    if a in m:
        return m[a]
    t = a[0]
    if t == 's':
        return None
    if t == 'sel':
        arr = subst_arr(a[1], m, memo)
        idx = tuple(_subst(x, m, memo) for x in a[2])
        if arr is a[1] and idx == a[2]:
            return None
        return arr.get(idx)
    if t == 'app':
        args = tuple(_subst(x, m, memo) if isinstance(x, Poly) else (subst_arr(x, m, memo) if isinstance(x, Arr) else x) for x in a[2])
        if args == a[2]:
            return None
        return rebuild_app(a[1], args, a[3])
    if t == 'ite':
        c = _subst_c(a[1], m, memo)
        x = _subst(a[2], m, memo)
        y = _subst(a[3], m, memo)
        if c == a[1] and x == a[2] and y == a[3]:
            return None
        return ite(c, x, y)
    if t == 'sum':
        lo, hi = _subst(a[1], m, memo), _subst(a[2], m, memo)
        body = _subst(a[3], m, memo)
        if lo == a[1] and hi == a[2] and body == a[3]:
            return None
        return mk_sum(lo, hi, body, ('s', a[4], 'i'))
    if t == 'poly':
        b = _subst(a[1], m, memo)
        if b == a[1]:
            return None
        return b
    return None


def rebuild_app(name, args, kind):
    if name == 'abs':
        return pabs(args[0])
    if name in ('max', 'min'):
        r = args[0]
        for x in args[1:]:
            r = _minmax(name, r, x)
        return r
    return atom(('app', name, args, kind))


def subst_arr(arr, m, memo=None):
    if memo is None:
        memo = {}
    nodes = []
    ch = False
    # the bound index variables of nodes must not be captured: substitution maps never contain $i
    m2 = m if not any(k[0] == 's' and k[1].startswith('$') for k in m) else {k: v for k, v in m.items() if not (k[0] == 's' and k[1].startswith('$'))}
    memo2 = memo if m2 is m else {}
    for g, v in arr.nodes:
        g2, v2 = _subst_c(g, m2, memo2), _subst(v, m2, memo2)
        if g2 != g or v2 != v:
            ch = True
        nodes.append((g2, v2))
    if arr.base in m2:
        b = m2[arr.base]
        r = Arr(b.base, b.nd, b.kind, b.nodes)
        for g, v in nodes:
            r = r.update(g, v)
        return r
    return Arr(arr.base, arr.nd, arr.kind, [n for n in nodes if n[0] is not False]) if ch else arr


def subst_c(c, m):
    return _subst_c(c, m, {})


def _subst_c(c, m, memo):
    if c is True or c is False:
        return c
    t = c[0]
    if t == 'b':
        if c in m:
            return m[c]
        return c
    if t == 'q':
        lo, hi = _subst(c[2], m, memo), _subst(c[3], m, memo)
        b = _subst_c(c[4], m, memo)
        return ('q', c[1], lo, hi, b, c[5])
    if t in ('le', 'lt', 'eq'):
        p = _subst(c[1], m, memo)
        if p == c[1]:
            return c
        return {'le': c_le, 'lt': c_lt, 'eq': c_eq}[t](p)
    if t == 'not':
        return c_not(_subst_c(c[1], m, memo))
    if t == 'and':
        return c_and(*[_subst_c(x, m, memo) for x in c[1]])
    if t == 'or':
        return c_or(*[_subst_c(x, m, memo) for x in c[1]])
    raise ValueError(c)


# ---------------------------------------------------------------------------------------------
# atoms occurring in a term
# ---------------------------------------------------------------------------------------------

def atoms_of(x, out=None, deep=True):
    if out is None:
        out = set()
    if isinstance(x, Poly):
        for m, c in x.t:
            for a, e in m:
                if a not in out:
                    out.add(a)
                    if deep:
                        for y in a[1:-1]:
                            atoms_of(y, out)
    elif isinstance(x, Arr):
        k = ('arr', x.base, 'r')
        out.add(k)
        for g, v in x.nodes:
            atoms_of(g, out)
            atoms_of(v, out)
    elif isinstance(x, tuple):
        if x and x[0] == 'b' and len(x) == 2:
            out.add(('b', x[1], 'b'))
            return out
        for y in x:
            if isinstance(y, (Poly, Arr, tuple)):
                atoms_of(y, out)
    return out


def bases_of(x):
    return {a[1] for a in atoms_of(x) if a[0] == 'arr'}


def sels_of(x, base):
    return [a for a in atoms_of(x) if a[0] == 'sel' and a[1].base == base]


_depth = {}


def binder_depth(x):
    d = 0
    for a in atoms_of(x):
        if a[0] == 's' and a[1].startswith('%'):
            d = max(d, int(a[1][1:]) + 1)
    return d


def mk_sum(lo, hi, body, var):
    """sum over var (an atom) in [lo,hi) of body; linear: constant factors are pulled out"""
    lo, hi, body = P(lo), P(hi), P(body)
    if body.is_zero() or lo == hi:
        return ZERO
    # canonical range 0..n
    if not lo.is_zero():
        body = subst(body, {var: atom(var) + lo})
        lo, hi = ZERO, hi - lo
    if hi.is_const() and hi.const() <= 4 and Fraction(hi.const()).denominator == 1:
        res = ZERO
        for i in range(int(hi.const())):
            res = res + subst(body, {var: P(i)})
        return res
    res = ZERO
    for mono, c in body.t:
        inv, dep = [], []
        for a, e in mono:
            (dep if (a == var or var in atoms_of(atom(a))) else inv).append((a, e))
        if not dep:
            term = hi - lo
            res = res + Poly({tuple(inv): c}) * term
            continue
        d = Poly({tuple(dep): Fraction(1)})
        depth = 0
        for a in atoms_of(d):
            if a[0] == 'sum':
                depth = max(depth, int(a[4][1:]) + 1)
        b = '%%%d' % depth
        d2 = subst(d, {var: sym(b)}) if var[1] != b else d
        # the direction of summation is immaterial: keep the smaller spelling
        d3 = subst(d2, {('s', b, 'i'): hi - 1 - sym(b)})
        if len(d3.t) == 1 and d3.t[0][1] == 1 and (len(show(d3)), show(d3)) < (len(show(d2)), show(d2)):
            d2 = d3
        res = res + Poly({tuple(inv): c}) * atom(('sum', lo, hi, d2, b, body.kind()))
    return res


# ---------------------------------------------------------------------------------------------
# printing
# ---------------------------------------------------------------------------------------------

def show(p):
    if isinstance(p, Poly):
        if p._k is None:
            p._k = _show(p)
        return p._k
    if isinstance(p, Arr):
        return show_arr(p)
    return show_c(p)


def _show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        fs = []
        for a, e in m:
            s = akey(a)
            fs.append(s if e == 1 else "%s^%s" % (s, e))
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append("%s*%s" % (c, "*".join(fs)))
    return " + ".join(out).replace("+ -", "- ")


def show_arr(a):
    b = a.base[1] if len(a.base) > 1 else a.base[0]
    if not a.nodes:
        return str(b)
    return "%s{%s}" % (b, "; ".join("%s -> %s" % (show_c(g), show(v)) for g, v in a.nodes))


def show_atom(a):
    t = a[0]
    if t == 's':
        return a[1]
    if t == 'sel':
        return "%s[%s]" % (show_arr(a[1]), ",".join(show(x) for x in a[2]))
    if t == 'app':
        return "%s(%s)" % (a[1], ",".join(show(x) if isinstance(x, (Poly, Arr)) else str(x) for x in a[2]))
    if t == 'ite':
        return "ite(%s, %s, %s)" % (show_c(a[1]), show(a[2]), show(a[3]))
    if t == 'sum':
        return "sum(%s in %s..%s: %s)" % (a[4], show(a[1]), show(a[2]), show(a[3]))
    if t == 'poly':
        return "(%s)" % show(a[1])
    return str(a)


def show_c(c):
    if c is True or c is False:
        return str(c)
    t = c[0]
    if t == 'b':
        return str(c[1])
    if t in ('le', 'lt', 'eq'):
        return "%s %s 0" % (show(c[1]), {'le': '<=', 'lt': '<', 'eq': '=='}[t])
    if t == 'not':
        if c[1][0] == 'eq':
            return "%s != 0" % show(c[1][1])
        return "!(%s)" % show_c(c[1])
    if t in ('and', 'or'):
        return "(" + (" && " if t == 'and' else " || ").join(show_c(x) for x in c[1]) + ")"
    if t == 'q':
        return "%s %s in %s..%s: %s" % (c[1], c[5], show(c[2]), show(c[3]), show_c(c[4]))
    return str(c)


# ---------------------------------------------------------------------------------------------
# entailment:  facts is a tuple of conditions
# ---------------------------------------------------------------------------------------------

ATOM_FACTS = {}          # ('base', name, ...) or symbol atom -> list of conds / function(atom)->conds


def atom_facts(a):
    if a[0] == 's':
        f = ATOM_FACTS.get(a)
        return f or ()
    if a[0] == 'sel':
        f = ATOM_FACTS.get(a[1].base)
        if f:
            return f(atom(a), a[2])
    if a[0] == 'app' and a[1] in ('abs', 'dim', 'nonneg'):
        return (c_le(-atom(a)),)
    if a[0] == 'app' and a[1] == 'max':
        return tuple(c_le(x - atom(a)) for x in a[2]) + (c_or(*[('eq', _norm(x - atom(a), True)) for x in a[2]]),)
    if a[0] == 'app' and a[1] == 'min':
        return tuple(c_le(atom(a) - x) for x in a[2]) + (c_or(*[('eq', _norm(x - atom(a), True)) for x in a[2]]),)
    if a[0] == 'ite' and akind(a) == 'i':
        return (c_or(c_and(a[1], c_eq(a[2] - atom(a))), c_and(c_not(a[1]), c_eq(a[3] - atom(a)))),)
    return ()


def lin(p):
    """(coeffs {mono:Fraction}, const)"""
    d, k = {}, 0
    for m, c in p.t:
        if m == ():
            k = c
        else:
            d[m] = c
    return d, k


def mono_int(m):
    return all(akind(a) == 'i' and Fraction(e).denominator == 1 and e > 0 for a, e in m)


class _Sys:
    """conjunction of linear constraints; unsat() by elimination"""

    def __init__(self):
        self.le = []       # (dict, const, strict):  sum + const (<|<=) 0
        self.eq = []

    def add(self, c):
        t = c[0]
        d, k = lin(c[1])
        if t == 'le':
            self.le.append((d, k, False))
        elif t == 'lt':
            self.le.append((d, k, True))
        elif t == 'eq':
            self.eq.append((d, k))


def _tight(d, k, strict):
    if d and all(mono_int(m) for m in d):
        den = 1
        for c in d.values():
            f = Fraction(c).denominator
            den = den * f // gcd(den, f)
        num = 0
        for c in d.values():
            num = gcd(num, int(c * den))
        if den != num:
            f = Fraction(den, num)
            d = {m: int(c * f) for m, c in d.items()}
            k = k * f
        if strict:
            # sum + k < 0, sum integer
            k2 = -((-k).__ceil__() - 1) if (-k).denominator == 1 else -((-k).__floor__())
            return d, k2, False
        k2 = -((-k).__floor__())
        return d, k2, False
    return d, k, strict


def _unsat(sysm):
    les = [_tight(*x) for x in sysm.le]
    eqs = list(sysm.eq)
    # eliminate equalities
    while eqs:
        d, k = eqs.pop()
        d = {m: c for m, c in d.items() if c != 0}
        if not d:
            if k != 0:
                return True
            continue
        # choose pivot with unit coefficient if possible
        piv = None
        for m, c in d.items():
            if abs(c) == 1:
                piv = m
                break
        if piv is None:
            piv = next(iter(d))
            if all(mono_int(m) for m in d):
                # gcd test
                den = 1
                for c in list(d.values()) + [k]:
                    f = Fraction(c).denominator
                    den = den * f // gcd(den, f)
                g = 0
                for c in d.values():
                    g = gcd(g, int(c * den))
                if int(k * den) % g:
                    return True
        c0 = d[piv]
        # piv = -(rest + k)/c0
        if c0 == 1 or c0 == -1:
            rest = {m: -c * c0 for m, c in d.items() if m != piv}
            kk = -k * c0
        else:
            rest = {m: Fraction(-c) / c0 for m, c in d.items() if m != piv}
            kk = Fraction(-k) / c0

        def sub(dd, k2):
            if piv not in dd:
                return dd, k2
            f = dd[piv]
            nd = {m: c for m, c in dd.items() if m != piv}
            for m, c in rest.items():
                nd[m] = nd.get(m, 0) + f * c
            return {m: c for m, c in nd.items() if c != 0}, k2 + f * kk
        eqs = [sub(a, b) for a, b in eqs]
        n = []
        for a, b, s in les:
            a, b = sub(a, b)
            n.append(_tight(a, b, s))
        les = n
    # FM
    def clean(ls):
        best = {}
        for d, k, s in ls:
            if not d:
                if k > 0 or (s and k >= 0):
                    return None
                continue
            key = tuple(sorted(((mkey(m), c) for m, c in d.items())))
            o = best.get(key)
            if o is None or (k, s) > (o[1], o[2]):
                best[key] = (d, k, s)
        return list(best.values())
    les = clean(les)
    if les is None:
        return True
    while les:
        # choose the variable with the fewest combinations
        cnt = {}
        for d, k, s in les:
            for m, c in d.items():
                p, n = cnt.get(m, (0, 0))
                cnt[m] = (p + 1, n) if c > 0 else (p, n + 1)
        if not cnt:
            return False
        v = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], mkey(m)))
        pos = [x for x in les if x[0].get(v, 0) > 0]
        neg = [x for x in les if x[0].get(v, 0) < 0]
        new = [x for x in les if v not in x[0]]
        if len(pos) * len(neg) > 400:
            return False
        for d1, k1, s1 in pos:
            for d2, k2, s2 in neg:
                f1, f2 = -d2[v], d1[v]
                d = {}
                for m, c in d1.items():
                    d[m] = c * f1
                for m, c in d2.items():
                    d[m] = d.get(m, 0) + c * f2
                d = {m: c for m, c in d.items() if c != 0}
                new.append(_tight(d, k1 * f1 + k2 * f2, s1 or s2))
        les = clean(new)
        if les is None:
            return True
    return False


_unsat_memo = {}
_comp_memo = {}
_vars_memo = {}
SPLITS = 300              # linear systems looked at before a component is given up as possibly satisfiable


def unsat(facts):
    """is the conjunction of the conditions unsatisfiable (sound 'yes', incomplete)"""
    facts = tuple(facts)
    r = _unsat_memo.get(facts)
    if r is None:
        if len(_unsat_memo) > 400000:
            _unsat_memo.clear()
        r = _unsat_memo[facts] = _unsat_facts(facts)
    return r


def _flatten(facts, out):
    for f in facts:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == 'and':
            if _flatten(f[1], out) is False:
                return False
        else:
            out.append(f)
    return True


def _vars(c):
    """the monomials (and opaque conditions) a condition constrains"""
    r = _vars_memo.get(c)
    if r is None:
        if len(_vars_memo) > 400000:
            _vars_memo.clear()
        t = c[0]
        if t in ('le', 'lt', 'eq'):
            r = frozenset(m for m, k in c[1].t if m != ())
        elif t == 'not' and c[1][0] == 'eq':
            r = _vars(c[1])
        elif t in ('and', 'or'):
            r = frozenset().union(*[_vars(x) for x in c[1] if x is not True and x is not False])
        else:
            r = frozenset([c[1] if t == 'not' else c])
        _vars_memo[c] = r
    return r


def _unsat_facts(facts):
    fl = []
    if _flatten(facts, fl) is False:
        return True
    given = list(dict.fromkeys(fl))
    fs = set(given)
    for f in given:
        if c_not(f) in fs:
            return True
    # what is known of the atoms that occur
    todo = set()
    for f in given:
        if f[0] != 'q' and not (f[0] == 'not' and f[1][0] == 'q'):
            atoms_of(f, todo)
    known, done = [], set()
    while todo:
        a = todo.pop()
        if a in done:
            continue
        done.add(a)
        for c in atom_facts(a):
            if c is True or c in fs:
                continue
            if c is False:
                return True
            fs.add(c)
            known.append(c)
            atoms_of(c, todo)
    # independent components are unsatisfiable on their own or not at all
    parent = {}

    def root(x):
        while parent[x] is not x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for f in given + known:
        first = None
        for v in _vars(f):
            if v not in parent:
                parent[v] = v
            r = root(v)
            if first is None:
                first = r
            elif r is not first:
                parent[r] = first
    comps = {}
    for f in given:
        vs = _vars(f)
        if not vs:
            if _const_false(f):
                return True
            continue
        comps.setdefault(root(next(iter(vs))), []).append(f)
    for f in known:
        vs = _vars(f)
        if vs:
            r = root(next(iter(vs)))
            if r in comps:
                comps[r].append(f)
    for c in comps.values():
        k = frozenset(c)
        r = _comp_memo.get(k)
        if r is None:
            if len(_comp_memo) > 400000:
                _comp_memo.clear()
            r = _comp_memo[k] = _refute(c, [SPLITS])
        if r:
            return True
    return False


def _const_false(f):
    s = _Sys()
    if f[0] in ('le', 'lt', 'eq'):
        s.add(f)
        return _unsat(s)
    return False


def _linear_unsat(lits):
    s = _Sys()
    for f in lits:
        s.add(f)
    return _unsat(s)


def _lits(f, lits, ors, opaque):
    """adds one condition; False on a contradiction between opaque conditions"""
    if f is True:
        return True
    if f is False:
        return False
    if f[0] in ('le', 'lt', 'eq'):
        lits.append(f)
    elif f[0] == 'and':
        return all(_lits(x, lits, ors, opaque) for x in f[1])
    elif f[0] == 'or':
        ors.append(f[1])
    elif f[0] == 'not' and f[1][0] == 'eq':
        ors.append((c_lt(f[1][1]), c_lt(-f[1][1])))
    else:
        if c_not(f) in opaque:
            return False
        opaque.add(f)
    return True


def _refute(facts, budget):
    """case split on the disjunctions with unit propagation"""
    lits, ors, opaque = [], [], set()
    for f in facts:
        if not _lits(f, lits, ors, opaque):
            return True
    return _refute1(lits, ors, opaque, budget)


def _refute1(lits, ors, opaque, budget):
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if _linear_unsat(lits):
        return True
    while True:
        rest, grown = [], False
        for o in ors:
            alive = []
            for x in o:
                budget[0] -= 1
                if budget[0] < 0:
                    return False
                l, q, op = [], [], set(opaque)
                if not _lits(x, l, q, op):
                    continue
                if l and not all(y in lits for y in l) and _linear_unsat(lits + l):
                    continue
                if x[0] == 'not' and x[1][0] == 'eq' and (x[1] in lits or all(_linear_unsat(lits + [y]) for y in q[0])):
                    continue
                if not q and len(op) == len(opaque) and all(y in lits for y in l):
                    alive = None          # already true
                    break
                alive.append(x)
            if alive is None:
                continue
            if not alive:
                return True
            if len(alive) == 1:
                lits, opaque, q = list(lits), set(opaque), []
                if not _lits(alive[0], lits, q, opaque):
                    return True
                rest += q
                grown = True
            else:
                rest.append(tuple(alive))
        ors = rest
        if not grown:
            break
    if not ors:
        return _linear_unsat(lits)
    ors = sorted(ors, key=len)
    for x in ors[0]:
        l, q, op = list(lits), list(ors[1:]), set(opaque)
        if not _lits(x, l, q, op):
            continue
        if not _refute1(l, q, op, budget):
            return False
    return True


def decide(facts, c):
    """True / False / None"""
    if c is True or c is False:
        return c
    if c in facts:
        return True
    n = c_not(c)
    if n in facts:
        return False
    if c[0] == 'and':
        rs = [decide(facts, x) for x in c[1]]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        if unsat(facts + (c,)):
            return False
        return None
    if c[0] == 'or':
        rs = [decide(facts, x) for x in c[1]]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        if unsat(facts + (n,)):
            return True
        return None
    if unsat(facts + (n,)):
        return True
    if unsat(facts + (c,)):
        return False
    return None


def entails(facts, c):
    return decide(tuple(facts), c) is True


# ---------------------------------------------------------------------------------------------
# region-wise comparison
# ---------------------------------------------------------------------------------------------

class Split(Exception):
    def __init__(self, c):
        self.c = c


class Region:
    """facts + rewriting derived from equalities"""

    def __init__(self, facts=(), rew=None):
        self.facts = tuple(facts)
        self.rew = dict(rew or {})

    def add(self, c):
        """returns list of Regions (0 if contradictory)"""
        if c is True:
            return [self]
        if c is False:
            return []
        if c[0] == 'and':
            rs = [self]
            for x in c[1]:
                rs = [r2 for r in rs for r2 in r.assume(x)]
            return rs
        f = self.facts + (c,)
        if unsat(f):
            return []
        r = Region(f, self.rew)
        if c[0] == 'eq':
            r.learn(c[1])
        elif c[0] == 'le' and c[1].kind() == 'i' and entails(self.facts, c_le(-c[1])):
            r.learn(c[1])
        return [r]

    def assume(self, c):
        """add(simp_c(c)), splitting the region where the simplification needs it"""
        work, res, n = [self], [], 0
        while work:
            r = work.pop()
            n += 1
            if n > 500:
                raise Budget("region budget exceeded")
            try:
                d = r.simp_c(c)
            except Split as s:
                k = basic_split(s.c)
                work.extend(r.add(k))
                work.extend(r.add(c_not(k)))
                continue
            res.extend(r.add(d))
        return res

    def learn(self, p):
        p = subst(p, self.rew)
        cand = None
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                rest = (p - Poly({m: c})).scale(-1 / Fraction(c))
                if a in atoms_of(rest):
                    continue
                if akind(a) == 'i' and any(Fraction(cc).denominator != 1 for _, cc in rest.t):
                    continue
                # prefer eliminating bound/index variables and compound atoms
                rank = (a[0] == 's' and a[1].startswith('$'), a[0] == 'sel', a[1] if a[0] == 's' else akey(a))
                if cand is None or rank > cand[0]:
                    cand = (rank, a, rest)
        if cand:
            _, a, rest = cand
            self.rew = {k: subst(v, {a: rest}) for k, v in self.rew.items()}
            self.rew[a] = rest

    def simp(self, p):
        """normal form of p in this region; raises Split"""
        for _ in range(20):
            q = self._simp(subst(p, self.rew))
            q = subst(q, self.rew)
            if q == p:
                return q
            p = q
        return p

    def _simp(self, p):
        out = ZERO
        for m, c in p.t:
            t = Poly({(): c})
            for a, e in m:
                t = t * ppow(self.simp_atom(a), e)
            out = out + t
        return out

    def simp_atom(self, a):
        t = a[0]
        if t == 's':
            return atom(a)
        if t == 'sel':
            idx = tuple(self.simp(x) for x in a[2])
            arr = a[1]
            nodes = list(arr.nodes)
            while nodes:
                g, v = nodes[-1]
                m = {('s', '$%d' % i, 'i'): x for i, x in enumerate(idx)}
                gg = self.simp_c(subst_c(g, m))
                d = decide(self.facts, gg)
                if d is None:
                    raise Split(gg)
                if d:
                    return self.simp(subst(v, m))
                nodes.pop()
            return atom(('sel', Arr(arr.base, arr.nd, arr.kind), idx, arr.kind))
        if t == 'ite':
            c = self.simp_c(a[1])
            d = decide(self.facts, c)
            if d is None:
                raise Split(c)
            return self.simp(a[2] if d else a[3])
        if t == 'app':
            args = tuple(self.simp(x) if isinstance(x, Poly) else x for x in a[2])
            if a[1] == 'abs':
                return pabs(args[0])
            if a[1] in ('max', 'min') and a[3] == 'i':
                best = list(args)
                while len(best) > 1:
                    x, y = best[0], best[1]
                    c = c_le(x - y)
                    d = decide(self.facts, c)
                    if d is None:
                        raise Split(c)
                    keep = (y if d else x) if a[1] == 'max' else (x if d else y)
                    best = [keep] + best[2:]
                return best[0]
            return rebuild_app(a[1], args, a[3])
        if t == 'sum':
            lo, hi = self.simp(a[1]), self.simp(a[2])
            c = c_le(hi - lo)
            d = decide(self.facts, c)
            if d is True:
                return ZERO
            b = ('s', a[4], 'i')
            sub = Region(self.facts + (c_le(lo - atom(b)), c_lt(atom(b) - hi)), self.rew)
            try:
                body = sub.simp(a[3])
            except Split as s:
                if b in atoms_of(s.c):
                    body = a[3]
                else:
                    raise
            return mk_sum(lo, hi, body, b)
        if t == 'poly':
            return self.simp(a[1])
        return atom(a)

    def simp_c(self, c):
        if c is True or c is False:
            return c
        t = c[0]
        if t in ('le', 'lt', 'eq'):
            p = self.simp(c[1])
            r = {'le': c_le, 'lt': c_lt, 'eq': c_eq}[t](p)
        elif t == 'not':
            r = c_not(self.simp_c(c[1]))
        elif t == 'and':
            out = []
            for x in c[1]:
                y = self.simp_c(x)
                if y is False or decide(self.facts, y) is False:
                    return False
                out.append(y)
            r = c_and(*out)
        elif t == 'or':
            out = []
            for x in c[1]:
                y = self.simp_c(x)
                if y is True or decide(self.facts, y) is True:
                    return True
                out.append(y)
            r = c_or(*out)
        else:
            return c
        if r is True or r is False:
            return r
        d = decide(self.facts, r)
        return r if d is None else d


def basic_split(c):
    """an atomic condition to split on"""
    while c[0] in ('and', 'or', 'not'):
        if c[0] == 'not':
            c = c[1]
        else:
            c = c[1][0]
    return c


class Budget(Exception):
    pass


def for_regions(region, fn, limit=4000):
    """calls fn(region); whenever it raises Split, the region is split and both parts visited"""
    work = [region]
    n = 0
    res = []
    while work:
        r = work.pop()
        n += 1
        if n > limit:
            raise Budget("region budget exceeded")
        try:
            res.append((r, fn(r)))
        except Split as s:
            c = basic_split(s.c)
            work.extend(r.add(c))
            work.extend(r.add(c_not(c)))
    return res


# ---------------------------------------------------------------------------------------------
# rational functions: is a sum of products of (possibly inverted) polynomials identically zero?
# ---------------------------------------------------------------------------------------------

def ratzero(d, limit=20000):
    """True if d, with every integer power of a composite atom expanded over a common denominator, vanishes
    identically (where the denominators are not zero)"""
    for _ in range(40):
        comp = None
        for m, c in d.t:
            for a, e in m:
                if a[0] == 'poly' and Fraction(e).denominator == 1:
                    comp = a
                    break
            if comp:
                break
        if comp is None:
            return d.is_zero()
        q = comp[1]
        lo = min([0] + [dict(m).get(comp, 0) for m, c in d.t if Fraction(dict(m).get(comp, 0)).denominator == 1])
        r = ZERO
        pows = {}
        for m, c in d.t:
            e = dict(m).get(comp, 0)
            rest = Poly({tuple((a, x) for a, x in m if a != comp): c})
            if Fraction(e).denominator != 1:
                return False
            k = int(e - lo)
            if k not in pows:
                pows[k] = q.pow(k)
            r = r + rest * pows[k]
            if len(r.t) > limit:
                return False
        d = r
        if d.is_zero():
            return True
    return False
