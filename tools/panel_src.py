#!/usr/bin/env python3
"""panel_src.py [ids or prefix*]: applies each behaviour-preserving edit of panel/edits_src.py to a scratch copy of
/repo/src and runs the checks concerned on it: all of them must stay quiet. JOBS: edits at a time."""
import os, sys, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "panel"))
from edits_src import PS
from edits_src2 import PS2
PS = PS + PS2
S = "/tmp/vpanel"; os.makedirs(S, exist_ok=True)
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
def one(x):
    i, pids, eds = x
    w = S + "/s_" + i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "target"))
    try:
        for f, o, n in eds:
            s = open(f"{w}/{f}").read()
            if s.count(o) != 1: return i, "ANCHOR %d %r" % (s.count(o), o[:60])
            open(f"{w}/{f}", "w").write(s.replace(o, n))
        o = subprocess.run(["python3", V + "/tools/checkall.py"] + pids, env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return i, ("quiet" if not o.returncode else "ALARM\n   " + "\n   ".join(l[:400] for l in o.stdout.split("\n")[:8]))
    finally:
        shutil.rmtree(w)
with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    for i, o in ex.map(one, [x for x in PS if not ids or x[0] in ids or any(y.endswith("*") and x[0].startswith(y[:-1]) for y in ids)]):
        print(i, o, flush=True)
