#!/usr/bin/env python3
"""Make and confirm planted bugs: tools/mkseed.py [ID...] (reads tools/seeds.py).

Works in a scratch copy under /tmp: applies the edits, writes seeded/<id>/, builds, runs the
repository's tests and the demonstration with and without the change.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seeds import SEEDS

DEMO = r'''#!/bin/bash
# exit 0: the assembler behaves as the property says on these inputs
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
N=$PWD/_build/nxas
bad=0
# check STATUS HEX: standard input is the source; HEX is what has to be written ("-": nothing)
check() {
    cat > "$D/in.asm"
    rm -f "$D/out.bin"
    timeout 20 "$N" "$D/in.asm" -o "$D/out.bin" 2> "$D/err"
    local st=$?
    local hex=-
    [ -f "$D/out.bin" ] && hex=$(od -An -v -tx8 "$D/out.bin" | tr -s ' \n' ' ' | sed 's/^ //;s/ $//')
    if [ "$1" = fail ]; then
        [ $st = 1 ] && [ -s "$D/err" ] && [ "$hex" = - ] || { echo "not refused: $st $hex"; bad=1; }
        if [ -n "$2" ]; then grep -qF -- "$2" "$D/err" || { echo "diagnostic: $(cat "$D/err")"; bad=1; }; fi
    else
        [ $st = 0 ] && [ "$hex" = "$2" ] || { echo "status $st"; echo "got  $hex"; echo "want $2"; bad=1; }
    fi
}
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(w):
    b = os.path.join(w, "_build")
    if not os.path.exists(os.path.join(b, "build.ninja")):
        r = sh('cmake -S %s -B %s -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo '
               '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1 -g"' % (w, b))
        if r.returncode:
            print(r.stdout[-2000:])
            return False
    r = sh("ninja -C " + b)
    if r.returncode:
        print(r.stdout[-3000:])
    return r.returncode == 0


def tests(w):
    r = sh("ctest --test-dir %s/_build -j8 --timeout 60 --output-junit %s/_build/j.xml" % (w, w))
    import xml.etree.ElementTree as E
    ok = {"%s::%s" % (t.get("name"), t.get("name")) for t in E.parse(w + "/_build/j.xml").iter("testcase") if t.get("status") == "run" and t.find("failure") is None}
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - ok)


def norm(out):
    return " ".join(out.split())


def main():
    ids = sys.argv[1:] or list(SEEDS)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    base = w + "/clean"
    sh("git clone -q /repo %s && git clone -q /repo %s/mut" % (base, w))
    mut = w + "/mut"
    try:
        assert build(base)
        for i in ids:
            s = SEEDS[i]
            d = os.path.join(ROOT, "seeded", i)
            os.makedirs(d, exist_ok=True)
            sh("git -C %s checkout -q -- ." % mut)
            for f, old, new in s["edits"]:
                p = os.path.join(mut, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(i, "EDIT matches %d times: %s" % (t.count(old), old[:50]))
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                diff = sh("git -C %s diff" % mut).stdout
                open(d + "/patch.diff", "w").write(diff)
                if "demo" in s:
                    demo = s["demo"]
                else:
                    demo = DEMO
                    for j, (src, want) in enumerate(s["cases"]):
                        if want == "?":
                            open(w + "/in.asm", "w").write(src)
                            sh("rm -f %s/out.bin; %s/_build/nxas %s/in.asm -o %s/out.bin" % (w, base, w, w))
                            want = norm(sh("od -An -v -tx8 %s/out.bin" % w).stdout)
                            print(i, "case", j, "->", want)
                        if want.startswith("fail"):
                            demo += "check fail '%s' <<'EOF'\n%s\nEOF\n" % (want[5:], src)
                        else:
                            demo += "check ok '%s' <<'EOF'\n%s\nEOF\n" % (want, src)
                    demo += "exit $bad\n"
                open(d + "/demo.sh", "w").write(demo)
                os.chmod(d + "/demo.sh", 0o755)
                for nm, txt in s.get("files", {}).items():
                    open(d + "/" + nm, "w").write(txt)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                a = sh("bash %s/demo.sh" % d, cwd=base)
                if not build(mut):
                    print(i, "DOES NOT BUILD")
                    continue
                lost = tests(mut)
                b = sh("bash %s/demo.sh" % d, cwd=mut)
                ok = a.returncode == 0 and b.returncode != 0 and not lost
                print(i, "ok" if ok else "NOT OK", "clean", a.returncode, "patched", b.returncode, "tests lost", lost[:4])
                if not ok:
                    print(a.stdout[-600:], b.stdout[-600:])
    finally:
        shutil.rmtree(w)


main()
