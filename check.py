#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]: decide one property on the current tree.

exit 0: holds on everything analysed; exit 1: violated (VIOLATION line); exit 2: the
analysis itself could not be carried out.
"""
import os
import re
import resource
import sys
import threading
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sa"))
KNOWN = os.path.join(ROOT, "known-findings.txt")


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    from report import Report, demangle_in
    from interp import Unsupported
    import checks
    r = Report(prop, tier)
    broken = None
    try:
        checks.run(prop, r)
        for what, n in r.minima:
            if r.ob.get(what, 0) < n:
                raise Unsupported("only %d instances of '%s' found, expected at least %d" % (r.ob.get(what, 0), what, n))
    except Exception as e:
        broken = "%s: %s" % (type(e).__name__, e)
        tb = traceback.format_exc()
    r.viol = [(demangle_in(w).strip(), demangle_in(t).strip()) for w, t in r.viol[:50]]
    listed = known(prop)
    rest = []
    for w, t in r.viol:
        if ("%s: %s" % (w, t)) in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, w, t))
        else:
            rest.append((w, t))
    r.viol = rest
    r.evidence(broken)
    for k, v in sorted(r.ob.items()):
        print("  %-60s %d" % (k, v))
    if r.viol:
        p = r.replay()
        for w, t in r.viol[:10]:
            print("  %s: %s" % (w, t))
        if broken:
            print("  (analysis incomplete: %s)" % broken)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if broken:
        print("analysis failed: " + broken)
        sys.stderr.write(tb)
        return 2
    print("%s holds on everything analysed" % prop)
    return 0


if __name__ == "__main__":
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    lim = 20 << 30 if hard == resource.RLIM_INFINITY else min(hard, 20 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 << 20)
    rc = []

    def go():
        try:
            rc.append(main())
        except BaseException:
            traceback.print_exc()
            rc.append(2)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc[0] if rc else 2)
