"""checkall.py [PID...]: runs the checks of check.py sharing one front-end run and one analysis per runner
(developer convenience for the panel; the registered commands are check.py's)."""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "analysis"))
import check, frontend
from report import Report

def main(pids):
    import ida
    C = {}
    for src in sorted({p[0] == "S" for p in pids}):
        try:
            C[src] = frontend.load_ida() if src else frontend.load_crates()
        except frontend.FrontendError as e:
            print("FRONTEND", str(e)[-1500:]); return 2
    done = {}
    rc = 0
    for p in pids:
        runner, floor = check.CHECKS[p]
        crates = C[p[0] == 'S']
        key = runner if runner in (check.run_newton, check.run_norm) else (runner, p)
        if key not in done:
            R = Report()
            try:
                runner(crates, R, p)
                done[key] = (R, None)
            except ida.Missing as e:
                done[key] = (R, "no answer: %s" % e)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                done[key] = (R, "undecided: %s: %s (%s)" % (type(e).__name__, str(e)[:300], " <- ".join("%s:%d" % (x.name, x.lineno) for x in reversed(tb[-3:]))))
        R, exc = done[key]
        viol = [v for v in R.viol if v["property"] == p and (p, v["key"]) not in check.known()]
        if not viol and not exc and len(R.items.get(p, [])) < floor:
            viol = [dict(key="floor", msg="%d < %d" % (len(R.items.get(p, [])), floor), where="")]
        if exc:
            print("ALARM", p, exc); rc = 1
        for v in viol[:3]:
            print("ALARM", p, "[%s] %s at %s" % (v["key"], v["msg"], v["where"])); rc = 1
    return rc

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:] or list(check.CHECKS)))
