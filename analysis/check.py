"""check.py PROPERTY: decides one property of /repo's current source; writes evidence/<PROPERTY>.json.

exit 0: holds (listed findings are printed as KNOWN-FINDING); exit 1: VIOLATION line.
The deciding step reads the type-checked source (THIR); nothing of the library is executed.
"""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import frontend
from report import Report, VERIF

FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

TRUSTED = [
    "rustc (nightly) front end: name resolution, type checking, THIR construction",
    "driver/ (THIR dumper) and analysis/ (abstract interpreter, term normaliser, linear-inequality elimination)",
    "models of core/alloc and nalgebra 0.32 operations in analysis/models.py (by their documented behaviour)",
    "exact real arithmetic in place of rounding; usize arithmetic without overflow at 2^64",
]


def run_dense_setup(crates, R, pid):
    import dense
    from interp import Engine
    E = Engine(crates)
    dense.check_setup(E, R, (pid,))
    return [E]


def run_dense_solve(crates, R, pid):
    import dense
    from interp import Engine
    E = Engine(crates)
    dense.check_solve(E, R, (pid,))
    return [E]


def run_dense_both(crates, R, pid):
    return run_dense_setup(crates, R, pid) + run_dense_solve(crates, R, pid)


def run_direct(crates, R, pid):
    import direct
    from interp import Engine
    E = Engine(crates)
    direct.check(E, R)
    return [E]


def run_newton_new(crates, R, pid):
    import direct
    from interp import Engine
    E = Engine(crates)
    direct.check_new(E, R)
    return [E]


def run_newton(crates, R, pid):
    import newton
    E = newton.NEngine(crates, R)
    newton.check(E, R)
    return [E]


def run_norm(crates, R, pid):
    import norm
    E = norm.NormEngine(crates)
    norm.check(E, R)
    return [E]


def run_ida(crates, R, pid):
    """the integrator in src/, type-checked over the stand-in crates of shim/"""
    import schecks, schecks2, schecks3, schecks4
    from ida import IdaEngine
    E = IdaEngine(crates)
    f = next(getattr(m, pid.lower()) for m in (schecks, schecks2, schecks3, schecks4) if hasattr(m, pid.lower()))
    f(E, R)
    return [E]


TRUSTED_IDA = [
    "rustc (nightly) front end: name resolution, type checking, THIR construction",
    "driver/ (THIR dumper) and analysis/ (abstract interpreter, term normaliser, linear-inequality elimination)",
    "shim/: signatures of ndarray, failure and nearly_eq as src/ uses them (their bodies are never analysed), and the two solver traits in the form src/ was written against",
    "models of core/alloc, num-traits and ndarray operations in analysis/models.py and analysis/nd.py (by their documented behaviour)",
    "exact real arithmetic in place of rounding, no NaN; usize arithmetic without overflow at 2^64",
]

# property -> (runner, crates, obligations counted by hand on the reference tree as a floor)
CHECKS = {
    "L01": (run_dense_setup, 3), "L02": (run_dense_setup, 1), "L03": (run_dense_setup, 3),
    "L04": (run_dense_solve, 4), "L05": (run_dense_solve, 4), "L06": (run_dense_both, 10), "L07": (run_direct, 6),
    "N01": (run_newton, 4), "N02": (run_newton, 8), "N03": (run_newton, 4), "N04": (run_newton, 4),
    "N05": (run_newton, 8), "N06": (run_newton, 8), "N07": (run_newton, 8), "N08": (run_norm, 3),
    "N09": (run_newton, 8), "N10": (run_newton_new, 7),
    "S01": (run_ida, 200), "S02": (run_ida, 100), "S03": (run_ida, 100),
    "S04": (run_ida, 50000), "S05": (run_ida, 20000), "S06": (run_ida, 20000), "S07": (run_ida, 20000),
    "S08": (run_ida, 200), "S14": (run_ida, 1500), "S18": (run_ida, 250),
    "S19": (run_ida, 15), "S20": (run_ida, 2000), "S21": (run_ida, 30), "S22": (run_ida, 20), "S23": (run_ida, 7), "S24": (run_ida, 30), "S25": (run_ida, 1000), "S26": (run_ida, 30),
    "S09": (run_ida, 10), "S10": (run_ida, 4), "S11": (run_ida, 60), "S12": (run_ida, 50), "S13": (run_ida, 12),
    "S15": (run_ida, 60), "S16": (run_ida, 40),
}

RULES = {
    "L01": "one symbolic elimination step of the code equals the reference step on every ordering of row/column/step/pivot row; step range 0..n ascending; nothing else writes the matrix",
    "L02": "pivot row is an arg-max of |a(i,k)| over i in k..n and the recorded index is the row interchanged",
    "L03": "Err(k+1) iff the arg-max entry is zero, before any reciprocal; error conversion carries the column",
    "L04": "permutation, forward and back substitution stages equal the reference stages step by step, in order",
    "L05": "result term is free of the output's initial content, and no arithmetic cancels it (NaN); matrix, pivots and rhs are not in the write set",
    "L06": "every index and unsigned subtraction obligation entailed by the path's linear inequalities",
    "L07": "result terms of the four queries (own or inherited) and their write sets; dependence of every path condition, loop and result of a solve on the tolerance is empty",
    "N01": "typestate: Ok reached only from 'tested true' with unchanged iterate",
    "N02": "typestate + value numbering: every linear solve gets -F(y) at the current y; y += delta once",
    "N03": "typestate: retry iff recoverable and stale and first attempt; every loop of the abstract graph makes progress",
    "N04": "difference constraints: iteration index vs limit at every convergence test and exit",
    "N05": "typestate: after a failing callback no further callback, same error returned; From conversion",
    "N06": "typestate: setup called iff requested/retry, with y0, F(y0) and jbad = retry; flag bookkeeping",
    "N07": "counter deltas equal ghost counters on every return; getters return the counters",
    "N08": "result term equals sqrt(sum_i (x_i w_i)^2 / n) for symbolic n",
    "N09": "dependence: no branch, callback argument or result depends on pre-state other than the Jacobian flag and limit; no arithmetic cancels it (NaN)",
    "N10": "getter terms on the constructor's result; write sets of preparation and getters in an arbitrary state are empty",
    "S01": "path conditions of every refusal and every answer equal the window test; delivered terms equal the (derivatives of the) history polynomial, per order 1..5; index obligations",
    "S02": "every outcome of the stop tests with a stop time set agrees with the reference decision tree: condition, result, delivered terms, time recorded, stop time cleared",
    "S03": "every outcome of the stop tests agrees with the reference decision tree: success only once the time is reached, the interpolant delivered, the time recorded",
    "S04": "one attempt of a step cut inductively at the retry loop, per class of states at its start: time, history and spacing at every retry and failure equal those before the attempt; the prediction and the accepted history equal the history polynomial's",
    "S05": "same cut: every back edge counts one failure of one kind below its limit with the reference step size and order; every error return is at the limit and names the cause",
    "S06": "same cut: the path condition of every acceptance entails solver success and a weighted error of at most one, that of every error-test rejection the opposite; suggested order",
    "S07": "same cut: order, step size and phase after every accepted step equal the reference decision tree; order in 1..max, changed by at most one",
    "S08": "one pass of the stepping loop cut inductively, everything it drives nondeterministic: every step taken entails the negation of each work-limit condition, every refusal entails one; the first call likewise for the initial weights",
    "S14": "event traces of the driver over every verdict of the root search; values watched, ends of the search and signs reported equal the reference; one pass of the search cut inductively keeps a sign change of a watched function in a bracket that it replaces at the point looked at, for two root functions",
    "S18": "every outcome before the loop on the first call agrees with the reference decision tree for the first step size; scaled history, order and counters at loop entry",
    "S19": "every path of the convergence test agrees with the reference decision tree: verdict, rate constant, norm remembered, write set",
    "S20": "per class of states before an attempt: every coefficient, spacing and history column equals the reference term; write set",
    "S21": "arguments and state at the nonlinear solver's call equal the reference decision for setup, ratio and rate constant; setup errors reach the caller",
    "S22": "residual terms equal the reference mechanism's, with velocity constraints and multiplier terms obtained by symbolic differentiation of the code's own position constraints",
    "S23": "residual and root terms equal the documented ones; sizes",
    "S24": "delivered solution, derivative and k-th derivative terms equal the (derivatives of the) history polynomial at the symbolic time, per order used and derivative",
    "S25": "inductive cut of the retry loop: the polynomial of the history after every accepted step, evaluated symbolically at the new and every earlier node, equals the accepted solution and the old polynomial's values",
    "S26": "every field of the constructor's result that is read before it is written equals the given value or the documented start",
    "S09": "term written to every component equals 1/(rtol*|y_i|+atol) for symbolic length; operands and tolerances not in the write set",
    "S10": "result term equals sqrt(sum_i flag_i (x_i w_i)^2 / n) for symbolic n; the integrator passes its own flags",
    "S11": "terms of prediction, correction and post-solve state equal the history polynomial, per order 1..5; write set",
    "S12": "event trace of setup and solve over every linear-solver answer: arguments by value, order, error results, counters",
    "S13": "symbolic derivative of the residual terms equals every Jacobian entry",
    "S15": "constant bodies and the constructor's result evaluate to the documented values",
    "S16": "each getter's result term is the counter it names and its write set is empty; in every function of the stepping code the change of each counter equals the number of events on the path",
}


def known():
    res = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l[7:].split(" | ")[0].split("\t") if "=" in x)
                res[(f["property"], f["key"])] = l.split(" | ", 1)[1] if " | " in l else ""
    return res


def analysed(Es):
    fns, loops_, sites = set(), 0, 0
    for E in Es:
        fns |= set(E.inlined)
        loops_ += len(getattr(E, "loopnodes", ())) + len(getattr(E, "ctl_loops", ()))
        sites += len(E.obls)
    return sorted(fns), loops_, sites


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runner, floor = CHECKS[pid]
    R = Report()
    Es = []
    src = runner is run_ida
    if src:
        import ida
        noanswer = (ida.Missing,)
    else:
        noanswer = ()
    try:
        crates = frontend.load_ida() if src else frontend.load_crates()
        Es = runner(crates, R, pid)
    except noanswer as e:
        print("NO ANSWER property=%s: an anchor of the check is not in the source: %s" % (pid, e))
        return 2
    except frontend.FrontendError as e:
        if src:
            # src/ is not built by the repository itself: a failure here says nothing about the property
            print("NO ANSWER property=%s: src/ does not type-check over the stand-in crates: %s" % (pid, str(e)[-1500:]))
            return 2
        R.bad(pid, "frontend", "the source could not be type-checked: %s" % e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        R.bad(pid, "undecided", "the analysis could not decide the current source: %s: %s (%s)" % (type(e).__name__, str(e)[:300], " <- ".join("%s:%d" % (x.name, x.lineno) for x in reversed(tb[-3:]))))
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
    items = R.items.get(pid, [])
    distinct = []
    seen = set()
    for i in items:
        k = (i["obligation"], i["where"])
        if k not in seen:
            seen.add(k)
            distinct.append(i)
    viol = [v for v in R.viol if v["property"] == pid]
    if not viol and len(items) < floor:
        viol = [dict(property=pid, key="floor", msg="only %d obligations were met by the analysis, at least %d expected: the anchored code was not found" % (len(items), floor), where="")]
    kn = known()
    new = [v for v in viol if (pid, v["key"]) not in kn]
    old = [v for v in viol if (pid, v["key"]) in kn]
    fns, nl, no = analysed(Es)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation="Static analysis of the type-checked source (THIR) of %s in /repo's working tree. Rule: %s. "
                        "%d obligations (%d distinct) were generated from the code on this run, %d violated." % ("src/ (the integrator, over stand-in dependency crates)" if src else "crates/linear and crates/nonlinear", RULES[pid], len(items) + len(viol), len(distinct) + len(viol), len(viol)),
            rule=RULES[pid], obligations=len(items) + len(viol), discharged=len(items),
            distinct_obligations=len(distinct) + len(viol),
            functions_analysed=fns, loops_analysed=nl, panic_obligations=no,
            abstract_heads=sum(getattr(E, "ctl_heads", 0) for E in Es),
            checker_cmd="python3 analysis/check.py %s" % pid, trusted_base=TRUSTED_IDA if src else TRUSTED,
            samples=distinct[:12],
            violations=viol),
        assumptions=["exact arithmetic", "operand dimensions agree (enforced by types for static dimensions)"] +
                    (["arrays of the integrator object have the shapes its constructor gives them", "order in 1..5"] if src else ["iteration limit >= 1 (N04)"]),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, v["key"])] or v["msg"]))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, rule=RULES[pid], violations=new, rerun="cd /verif && python3 analysis/check.py %s" % pid), f, indent=1, default=str)
        for v in new:
            print("  [%s] %s  at %s" % (v["key"], v["msg"], v["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s holds: %d obligations (%d distinct), %d functions, %d loops, %.1f s" % (pid, len(items), len(distinct), len(fns), nl, time.time() - t0))
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the same term order on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    sys.exit(main(pid, tier if tier in ("quick", "thorough") else "quick"))
