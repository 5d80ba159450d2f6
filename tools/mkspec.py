#!/usr/bin/env python3-vt
"""Write spec/isa.json, the reference of the instruction set, from the tree.

Run by hand when the instruction set is changed on purpose; the result is reviewed
(against the encodings in the tests) and committed.  No check runs this.
"""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
import golden
from isa import Const, Isa
from nxmodel import Nx
from specs import Specs


def demangle(names):
    out = subprocess.run(["c++filt"], input="\n".join(n.lstrip("@") for n in names), text=True, stdout=subprocess.PIPE).stdout
    return [x.replace("(context&, token&, opcode&)", "").replace("error ", "") for x in out.split("\n")]


def main():
    nx = Nx(reference=False)
    isa = Isa(nx)
    if isa.bad:
        sys.exit("the tree has alarms: %r" % (isa.bad[:3],))
    F = isa.F
    S = Specs(F)
    spec = {S.get(n): n for n in S.ALL}
    dm = golden.Dumper(nx)
    fns = sorted({o for f in isa.forms for o in f.ops if isinstance(o, str)})
    label = dict(zip(fns, demangle(fns)))
    ids = {}
    ops = {}
    for fn in fns:
        s = F.summary(fn)
        k = ids.get(s.key)
        if k is None:
            k = ids[s.key] = label[fn]
            ops[k] = spec[s.key] if s.key in spec else golden.dump_op(dm, F, s)
    mn = {}
    for f in isa.forms:
        if not f.guarded:
            continue
        for m in f.mnems:
            e = mn.setdefault(m, [])
            e.append({"fixed": "%016x" % f.const, "unpredicated": f.nopred,
                      "operands": [{"fixed": "%x" % o.bits} if isinstance(o, Const) else ids[F.summary(o).key]
                                   for o in f.ops]})
    with open(golden.PATH, "w") as fh:
        fh.write("{\n")
        fh.write('"texts": %s,\n' % json.dumps(sorted(nx.D.literals)))
        fh.write('"nodes": [\n%s\n],\n' % ",\n".join(json.dumps(n) for n in dm.nodes))
        fh.write('"operands": {\n%s\n},\n' % ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v)) for k, v in sorted(ops.items())))
        fh.write('"mnemonics": {\n%s\n}\n' % ",\n".join(
            "%s: [\n %s\n]" % (json.dumps(m), ",\n ".join(json.dumps(x) for x in v)) for m, v in sorted(mn.items())))
        fh.write("}\n")
    print("%d mnemonics, %d forms, %d operands (%d by formula), %d nodes" % (
        len(mn), sum(map(len, mn.values())), len(ops), sum(isinstance(v, str) for v in ops.values()), len(dm.nodes)))


main()
