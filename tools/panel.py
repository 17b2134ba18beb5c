#!/usr/bin/env python3
"""panel.py [ids or prefix*]: applies each behaviour-preserving edit of panel/edits.py to a scratch copy of
/repo, runs the repository's tests there, and runs the checks on it: all of them must stay quiet."""
import os, sys, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, "panel"))
from edits import P
from edits2 import P2
from edits3 import P3
P = P + P2 + P3
LD = ["L01", "L02", "L03", "L04", "L05", "L06", "L07"]; NW = ["N01", "N02", "N03", "N04", "N05", "N06", "N07", "N09", "N10"]
S = "/tmp/vpanel"; os.makedirs(S, exist_ok=True)
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
def one(x):
    i, eds = x
    w = S + "/w_" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(f"mkdir {w} && cd /repo && cp -a crates Cargo.toml Cargo.lock .git {w}", shell=True, check=True)
    try:
        for f, o, n in eds:
            s = open(f"{w}/{f}").read()
            if s.count(o) != 1: return i, "ANCHOR %d %r" % (s.count(o), o[:50])
            open(f"{w}/{f}", "w").write(s.replace(o, n))
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/target_%d" % (hash(i) % 4))
        t = subprocess.run(["cargo", "test", "--workspace", "--offline"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        note = ""
        if t.returncode:
            if "could not compile" in t.stdout: return i, "COMPILE " + t.stdout[:1500]
            note = " (tests fail)"
        ps = {"d": LD, "w": ["N08"], "n": NW}[i[0]]
        o = subprocess.run(["python3", V + "/tools/checkall.py"] + ps, env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return i, ("quiet" if not o.returncode else "ALARM\n   " + "\n   ".join(l[:330] for l in o.stdout.split("\n")[:12])) + note
    finally:
        shutil.rmtree(w)
with ThreadPoolExecutor(int(os.environ.get("JOBS", 6))) as ex:
    for i, o in ex.map(one, [x for x in P if not ids or x[0] in ids or any(y.endswith("*") and x[0].startswith(y[:-1]) for y in ids)]):
        print(i, o, flush=True)
