"""Compile /repo's current sources to LLVM IR and read struct layouts."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from ir import Module

REPO = os.environ.get("NXAS_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"
FLAGS = ["-std=c++20", "-O1", "-g1", "-gcolumn-info", "-Xclang", "-disable-llvm-passes", "-w",
         "-fno-discard-value-names"]


class FrontEndError(Exception):
    pass


def sources():
    """every translation unit of the library and the tool, from the build description"""
    out = []
    cm = os.path.join(REPO, "CMakeLists.txt")
    txt = open(cm).read() if os.path.exists(cm) else ""
    sub = os.path.join(REPO, "src", "CMakeLists.txt")
    if os.path.exists(sub):
        txt += open(sub).read()
    for m in re.finditer(r"([\w./-]+\.(?:cpp|cc|cxx))", txt):
        for base in ("", "src"):
            p = os.path.normpath(os.path.join(REPO, base, m.group(1)))
            if os.path.exists(p) and "/tests/" not in p and p not in out:
                out.append(p)
                break
    for p in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        if p not in out and os.path.basename(p) in txt:
            out.append(p)
    if not out:
        raise FrontEndError("no sources found")
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "include"):
        for p in sorted(glob.glob(os.path.join(REPO, root, "**", "*"), recursive=True)):
            if os.path.isfile(p):
                h.update(p.encode())
                h.update(open(p, "rb").read())
    cm = os.path.join(REPO, "CMakeLists.txt")
    if os.path.exists(cm):
        h.update(open(cm, "rb").read())
    return h.hexdigest()


def incs():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise FrontEndError("%s failed:\n%s" % (" ".join(cmd[:3]), r.stderr[:4000]))
    return r.stdout


PROBE = r'''
#include "context.h"
#include "token.h"
#include "opcode.h"
#include "error.h"
unsigned long probe(context* c, token* t, opcode* o, error* e)
{ return sizeof(*c) + sizeof(*t) + sizeof(*o) + sizeof(*e) + (unsigned long)t->type; }
'''


def build():
    """-> (ll text, layout dict, list of sources)"""
    srcs = sources()
    tmp = tempfile.mkdtemp(prefix="nxas-sa-")
    try:
        def one(s):
            o = os.path.join(tmp, re.sub(r"\W", "_", os.path.relpath(s, REPO)) + ".bc")
            run([CLANG] + FLAGS + incs() + ["-emit-llvm", "-c", s, "-o", o])
            return o

        def probe():
            p = os.path.join(tmp, "probe.cpp")
            open(p, "w").write(PROBE)
            o = os.path.join(tmp, "probe.ll")
            run([CLANG, "-std=c++20", "-O0", "-g", "-w", "-fstandalone-debug"] + incs() +
                ["-emit-llvm", "-S", p, "-o", o])
            return open(o).read()

        with ThreadPoolExecutor(8) as ex:
            fp = ex.submit(probe)
            bcs = list(ex.map(one, srcs))
            ptxt = fp.result()
        allbc = os.path.join(tmp, "all.bc")
        run(["/usr/bin/llvm-link-18"] + bcs + ["-o", allbc])
        ll = os.path.join(tmp, "all.ll")
        run(["/usr/bin/opt-18", "-passes=function(sroa)", "-S", allbc, "-o", ll])
        return open(ll).read(), layouts(ptxt), srcs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def layouts(txt):
    """struct name -> {'size': n, 'fields': [(name, offset, size, type)]} from debug info"""
    meta = {}
    for m in re.finditer(r"^(![0-9]+) = (.*)$", txt, re.M):
        meta[m.group(1)] = m.group(2)

    def attr(t, k):
        m = re.search(r'\b%s: ("(?:[^"]*)"|![0-9]+|[\w.|-]+)' % k, t)
        return m.group(1) if m else None

    def tyname(r, depth=0):
        if r is None or r == "null" or depth > 8:
            return "void"
        t = meta[r]
        nm = attr(t, "name")
        base = attr(t, "baseType")
        if "DW_TAG_pointer_type" in t:
            return tyname(base, depth + 1) + "*"
        if "DW_TAG_const_type" in t:
            return "const " + tyname(base, depth + 1)
        if "DW_TAG_typedef" in t and base and not nm:
            return tyname(base, depth + 1)
        if "DW_TAG_typedef" in t and base:
            u = tyname(base, depth + 1)
            return u if not u.startswith("{") else nm.strip('"')
        return nm.strip('"') if nm else "{anon}"

    def size(r):
        if r is None or r == "null":
            return 0
        t = meta[r]
        s = attr(t, "size")
        if s:
            return int(s) // 8
        return size(attr(t, "baseType"))

    out = {}
    for k, t in meta.items():
        if "DICompositeType" not in t or not ("DW_TAG_structure_type" in t or "DW_TAG_class_type" in t
                                              or "DW_TAG_union_type" in t):
            continue
        nm = attr(t, "name")
        if not nm or nm.strip('"') not in ("token", "context", "opcode", "error", "token_data",
                                           "token_predicate"):
            continue
        el = attr(t, "elements")
        if not el:
            continue
        fields = []
        for mref in re.findall(r"![0-9]+", meta[el]):
            mt = meta[mref]
            if "DW_TAG_member" not in mt or "DIFlagStaticMember" in mt:
                continue
            off = int(attr(mt, "offset") or 0) // 8
            bt = attr(mt, "baseType")
            fields.append((attr(mt, "name").strip('"') if attr(mt, "name") else "", off,
                           int(attr(mt, "size") or 0) // 8, tyname(bt)))
        out[nm.strip('"')] = {"size": int(attr(t, "size") or 0) // 8, "fields": fields}
    for nm, t in meta.items():
        pass
    enums = {}
    for k, t in meta.items():
        if "DW_TAG_enumeration_type" in t:
            nm = attr(t, "name")
            el = attr(t, "elements")
            if nm and el:
                enums[nm.strip('"')] = {attr(meta[r], "name").strip('"'): int(attr(meta[r], "value"))
                                        for r in re.findall(r"![0-9]+", meta[el])
                                        if "DIEnumerator" in meta[r]}
    out["enums"] = enums
    return out


_cache = None


def load():
    """module, layout, sources -- cached per tree contents under /verif/build while developing"""
    global _cache
    if _cache is None:
        ll, lay, srcs = build()
        _cache = (Module(ll), lay, srcs)
    return _cache


if __name__ == "__main__":
    import time
    t = time.time()
    ll, lay, srcs = build()
    print(time.time() - t, len(ll))
    print(json.dumps(lay, indent=1)[:6000])
    print(srcs)
