"""N08: the value of norm_wrms as a term over the components, for every size and content."""
from interp import *
from dense import find_method, enter, check_eq, facts_text, short, obligations


class NormEngine(Engine):
    """the shape constraint of the method makes the operands columns of the same length"""

    def dim_of(self, t):
        if t["k"] == "param" and t["name"] == "C1":
            return ONE
        if t["k"] == "param" and t["name"] == "R2":
            t = dict(t, name="R1")
        return Engine.dim_of(self, t)


def check(E, R):
    uid = find_method(E, "nalgebra::Matrix", "NormWRMS", "norm_wrms")
    if uid is None:
        R.bad("N08", "anchor", "no implementation of NormWRMS::norm_wrms for matrices found")
        return
    body = E.bodies[uid][1]["path"]
    st0, args, outs = enter(E, uid, ["x", "w"])
    why = "" if not E.unmodelled else " (not understood: %s)" % "; ".join(sorted(E.unmodelled)[:4])
    X, W = E.mat(st0, args[0]), E.mat(st0, args[1])
    n = X.dims[0]
    i = sym("i!n")
    xi, wi = E.mget(st0, X, (i, ZERO)), E.mget(st0, W, (i, ZERO))
    want = (mk_sum(ZERO, n, xi * xi * wi * wi, i.single()) * n.inv()).half()
    live = [o for o in outs if o[1] in ("val", "ret")]
    if not live:
        R.bad("N08", "noresult", "norm_wrms never returns" + why, body)
    for s, k, v in live:
        f = tuple(s.facts) + (c_le(ONE - n),)
        if unsat(f):
            continue
        if not isinstance(v, Poly):
            R.bad("N08", "value", "result of norm_wrms is not understood%s" % why, body)
            continue
        try:
            d = check_eq(f, v, want)
        except Budget:
            R.bad("N08", "value", "result of norm_wrms is too complex to decide%s" % why, body)
            continue
        if d is not None:
            R.bad("N08", "value", "norm_wrms is %s, expected %s [%s]%s" % (short(d[1]), short(d[2]), facts_text(d[0]), why), body)
        else:
            R.ok("N08", "value equals sqrt((sum_i (x_i*w_i)^2)/n) for every n >= 1 and content", body)
        for a, nm in ((0, "vector"), (1, "weights")):
            if E.read(s, args[a].place) != E.read(st0, args[a].place):
                R.bad("N08", "modified:" + nm, "the %s operand is modified" % nm, body)
            else:
                R.ok("N08", "%s operand unchanged" % nm, body)
    for o in E.obls:
        # a panic for some n >= 1 means there is no norm for that input
        if o.ok:
            R.ok("N08", "%s: %s" % (o.kind, o.text), o.sp)
        else:
            R.bad("N08", "%s:%s" % (o.kind, o.fn), "%s obligation not met: %s" % (o.kind, o.text), o.sp)
    for w, (f, sp) in sorted(E.unmodelled.items()):
        R.bad("N08", "unmodelled:" + w, "%s in %s may panic (no model)" % (w, f), sp)
