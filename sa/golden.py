"""The reviewed reference of the instruction set: storing and loading it.

Functions are written down with decisions on the kind of a token, on its text and on
single bits of its value, by name, so that they do not depend on enumerator values or
on the numbering of texts in one analysis run.
"""
import json
import os
import re

from interp import Unsupported

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "isa.json")


class Dumper:
    def __init__(self, nx):
        self.nx, self.B, self.D = nx, nx.B, nx.D
        self.nodes = []
        self.idx = {}
        self.intern = {}

    def add(self, n):
        k = json.dumps(n)
        i = self.intern.get(k)
        if i is None:
            self.nodes.append(n)
            i = self.intern[k] = len(self.nodes) + 1
        return i

    def fn(self, a, care=1):
        """a where care holds; anything elsewhere"""
        if care == 0:
            return None
        r = self.idx.get((a, care))
        if r is not None:
            return r
        B = self.B
        if a < 2:
            return a
        la, lc = B.level[a], B.level[care] if care > 1 else 1 << 60
        nm, bit = B.atom_of(min(la, lc))
        m = re.fullmatch(r"t(\d+)\.(kind|str)", nm)
        if m is None:
            lv = min(la, lc)
            lo = self.fn(B.lo[a] if la == lv else a, B.lo[care] if lc == lv else care)
            hi = self.fn(B.hi[a] if la == lv else a, B.hi[care] if lc == lv else care)
            r = self.same(lo, hi)
            if r is None:
                r = self.add(["b", nm, bit, lo, hi])
        else:
            r = self.block(a, care, nm, int(m.group(1)), m.group(2))
        self.idx[(a, care)] = r
        return r

    @staticmethod
    def same(lo, hi):
        if lo is None:
            return hi
        if hi is None or lo == hi:
            return lo
        return None

    def block(self, a, care, sym, k, what):
        """decision on kind or text: listed names, and what holds for any other"""
        B, D = self.B, self.D
        w = B.symwidth[B.symid[sym]]
        lv = {B.level[b]: j for j, b in enumerate(B.bits(sym, w))}

        def at(x, i):
            while x > 1 and B.level[x] in lv:
                x = B.hi[x] if i >> lv[B.level[x]] & 1 else B.lo[x]
            return x

        dom = [(i, t, t.startswith(".")) for i, t in enumerate(D.alpha)] if what == "str" else \
            [(i, t, False) for i, t in sorted(D.kname.items())]
        size = [{}, {}]
        val = {}
        for i, t, dot in dom:
            x = val[t] = self.fn(at(a, i), at(care, i))
            if x is not None:
                size[dot][x] = size[dot].get(x, 0) + 1
        dflt = [max(z, key=lambda x: (z[x], -x)) if z else None for z in size]
        if dflt[1] is None:
            dflt[1] = dflt[0]
        if dflt[0] is None:
            dflt[0] = dflt[1]
        cases = {}
        for i, t, dot in dom:
            x = val[t]
            if x is not None and x != dflt[dot]:
                cases.setdefault(x, []).append(t)
        out = sorted([sorted(vs), x] for x, vs in cases.items())
        if not out and dflt[0] == dflt[1]:
            return dflt[0]
        if what == "str":
            return self.add(["s", k, dflt[0], dflt[1], out])
        return self.add(["k", k, dflt[0], out])


class Loader:
    def __init__(self, nx, nodes, alpha):
        self.nx, self.B, self.D = nx, nx.B, nx.D
        self.nodes = nodes
        self.val = {0: 0, 1: 1}
        self.unknown = [[], []]     # texts the reference does not name (near misses are like any other text)
        known = set(alpha)
        for i, t in enumerate(self.D.alpha):
            if t.lstrip(".") not in known and t != ".":
                self.unknown[t.startswith(".")].append(i)
        self.dotted = [i for i, t in enumerate(self.D.alpha) if t.startswith(".")]

    def fn(self, i):
        r = self.val.get(i)
        if r is not None:
            return r
        n = self.nodes[i - 2]
        B, D = self.B, self.D
        if n[0] == "b":
            a = B.atom(B.sym(n[1], n[2] + 1), n[2])
            r = B.ITE(a, self.fn(n[4]), self.fn(n[3]))
        elif n[0] == "k":
            r = self.fn(n[2])
            for names, sub in n[3]:
                c = 0
                for x in names:
                    if x not in D.kinds:
                        raise Unsupported("token kind %s of the reference does not exist" % x)
                    c = B.OR(c, D.is_kind(n[1], x))
                r = B.ITE(c, self.fn(sub), r)
        else:
            r = self.fn(n[2])
            if n[3] != n[2]:
                r = B.ITE(D.strset(n[1], self.dotted), self.fn(n[3]), r)
            for names, sub in n[4]:
                idx = [D.index[x] for x in names if x in D.index]
                for rep in (0, 1):
                    if (".zz_other" if rep else "zz_other") in names:
                        idx += self.unknown[rep]
                r = B.ITE(D.strset(n[1], idx), self.fn(sub), r)
        self.val[i] = r
        return r


def load_raw():
    with open(PATH) as f:
        return json.load(f)


# ---------------------------------------------------------------- operands
def dump_op(dm, F, s):
    """groups of an operand summary by name"""
    B = dm.B
    out = []
    for g in s.groups:
        bits = {}
        for i, k in enumerate(g.vk):
            if k[0] == "or":
                bits[str(i)] = dm.fn(k[1], g.pc)
            elif k[0] == "gen":
                bits["=%d" % i] = dm.fn(g.v[i], g.pc)
        rb = {}
        if len(g.r) != 3:
            raise Unsupported("more than three reuse flags")
        for i, k in enumerate(g.rk):
            if k[0] == "or":
                rb[str(i)] = dm.fn(k[1], g.pc)
            elif k[0] == "gen":
                rb["=%d" % i] = dm.fn(g.r[i], g.pc)
        out.append([g.n, dm.fn(g.pc), bits, rb])
    return out


def load_op(ld, F, groups):
    """-> key as OpSum.key"""
    B = ld.B
    out = []
    for n, pc, bits, rb in groups:
        pc = ld.fn(pc)
        for k in range(n + 1):
            pc = B.AND(pc, ld.D.valid(k))
        v = []
        for i in range(64):
            if str(i) in bits:
                v.append(B.AND(pc, B.OR(F.opbits[i], ld.fn(bits[str(i)]))))
            elif "=%d" % i in bits:
                v.append(B.AND(pc, ld.fn(bits["=%d" % i])))
            else:
                v.append(B.AND(pc, F.opbits[i]))
        r = []
        for i in range(3):
            if str(i) in rb:
                r.append(B.AND(pc, B.OR(F.opr[i], ld.fn(rb[str(i)]))))
            elif "=%d" % i in rb:
                r.append(B.AND(pc, ld.fn(rb["=%d" % i])))
            else:
                r.append(B.AND(pc, F.opr[i]))
        out.append((n, pc, tuple(v), tuple(r)))
    return tuple(out)


def names():
    """texts the reference knows"""
    j = load_raw()
    return j["texts"]
