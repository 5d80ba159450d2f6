#!/usr/bin/env python3-vt
"""Write MANIFEST.json from the table of checks."""
import json
import os
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "sa"))
import checks

TECH = {}
NOTE = ("Abstract interpretation of the LLVM IR of the whole program, path- and value-sensitive over canonical Boolean functions; "
        "loops unrolled or joined as described in DESIGN.md. Trusted: the compiler front end, the models of the C and C++ library "
        "functions in sa/, the interpreter itself%s.")
ISA = "abstract interpretation of parse_instruction and all operand functions to canonical Boolean functions; "
TECH["C01"] = (ISA + "bit-ownership (effect) analysis per form", "")
TECH["C02"] = (ISA + "injectivity of the integer-to-field functions, comparison with the reviewed reference", ", the reference spec/isa.json")
TECH["C03"] = (ISA + "semantic comparison of every form with the reviewed reference", ", the reference spec/isa.json")
TECH["C04"] = (ISA + "vocabulary of every slot compared with the reviewed reference over a finite text alphabet", ", the reference spec/isa.json, and that the code distinguishes texts only by comparing them with its literals")
TECH["C05"] = (ISA + "guard transfer and predicate operands compared with their specification", ", the reference spec/isa.json")
TECH["C09"] = (ISA + "havoc of everything a failed form can touch, then dataflow of what the next form sees", "")
TECH["C20"] = (ISA + "floating-point operands compared with their bit-level formula", "")
TECH.update(getattr(checks, "TECHNIQUE", {}))

m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Repairs of genuine defects in /repo are listed in known-findings.txt; no hooks are needed."}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in checks.TABLE:
        t, extra = TECH[p]
        m["checks"].append({"property": p, "quick_cmd": "python3-vt check.py %s" % p,
                            "thorough_cmd": "python3-vt check.py %s --thorough" % p,
                            "technique": "static analysis: " + t, "level": "other",
                            "level_note": NOTE % extra})
    else:
        m["not_applicable"].append({"property": p, "reason": checks.DECLINED.get(p, "no check built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
