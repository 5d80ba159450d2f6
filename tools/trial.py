#!/usr/bin/env python3-vt
"""trial.py [-j N] [-p PROPS] [NAME...]: run checks on small edits of the tree (tools/edits.py).

Every edit is applied to a scratch copy of /repo.  'bug' edits name the properties whose
checks should report them; 'same' edits keep the behaviour and every check named must be quiet.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from edits import EDITS
from more import MORE
from more2 import MORE as MORE2
from same import SAME
from same2 import SAME as SAME2

EDITS = EDITS + MORE + MORE2 + [(n, "same", ps, es) for n, ps, es in SAME + SAME2]


def one(e, props, compile_only=False):
    name, kind, ps, edits = e
    d = tempfile.mkdtemp(prefix="trial-")
    try:
        subprocess.run("cp -a /repo/include /repo/src /repo/CMakeLists.txt %s/" % d, shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, kind, "?", "edit does not apply: %s" % old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        out = []
        for pr in props or ps:
            env = dict(os.environ, NXAS_REPO=d, VERIF_EVIDENCE=os.path.join(d, "ev"))
            r = subprocess.run(["python3-vt", os.path.join(ROOT, "check.py"), pr], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            line = [l for l in r.stdout.splitlines() if l.startswith("  ") and ": " in l] or [l for l in r.stdout.splitlines() if "analysis failed" in l] or [""]
            out.append((pr, r.returncode, line[0].strip()[:170]))
        want = 1 if kind == "bug" else 0
        good = all(rc == want for _, rc, _ in out)
        return name, kind, "ok" if good else "WRONG", "; ".join("%s=%d %s" % x for x in out if not good or kind == "bug")
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    j, props, most = 2, None, None
    while a and a[0] in ("-j", "-p", "-n"):
        if a[0] == "-j":
            j = int(a[1])
        elif a[0] == "-n":
            most = int(a[1])
        else:
            props = a[1].split(",")
        a = a[2:]
    es = [e for e in EDITS if not a or e[0] in a or any(x.endswith("*") and e[0].startswith(x[:-1]) for x in a)]
    if props and not a:
        es = [e for e in es if set(e[2]) & set(props)]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda e: one(e, [p for p in e[2] if p in props] if props else e[2][:most]), es):
            print("%-26s %-5s %-6s %s" % r, flush=True)


main()
