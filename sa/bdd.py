"""Canonical Boolean functions (reduced ordered decision diagrams).

The value domain of the analysis: every unknown bit of the program is a Boolean
function of named atoms ("bit b of symbol s").  Canonicity makes equality of
two abstract bits a pointer comparison.
"""


class BDD:
    def __init__(self):
        self.level = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.unique = {}
        self.cache_and = {}
        self.cache_or = {}
        self.cache_simp = {}
        self.cache_bits = {}
        self.cache_not = {0: 1, 1: 0}
        self.cache_xor = {}
        self.cache_ite = {}
        self.symid = {}
        self.symname = []
        self.symwidth = []
        self.symbase = []
        self.groups = []
        self.groupid = {}

    # ---- symbols
    # order: symbol by symbol, most significant bit first; symbols that are added to or
    # compared with each other share a group and are interleaved
    def sym(self, name, width):
        i = self.symid.get(name)
        if i is None:
            i = len(self.symname)
            self.symid[name] = i
            self.symname.append(name)
            self.symwidth.append(width)
            g = self.group_of(name)
            if g is None:
                gi, k = len(self.groups), 0
                self.groups.append([i])
            else:
                gi = self.groupid.get(g)
                if gi is None:
                    gi = self.groupid[g] = len(self.groups)
                    self.groups.append([])
                k = len(self.groups[gi])
                self.groups[gi].append(i)
                assert k < 64
            self.symbase.append((gi << 14) | k)
        elif self.symwidth[i] < width:
            self.symwidth[i] = width
        return i

    @staticmethod
    def group_of(name):
        if name.startswith("label(") or name in ("ctx.pc", "t0.imm", "t1.imm", "t0.imm'", "t1.imm'"):
            return "addr"
        if ".imm" in name:
            return name.rstrip("'")
        if name.endswith(".line") and name[0] == "t" and name[1:-5].isdigit() and len(name) < 9:
            return "line%d" % (int(name[1:-5]) // 50)
        return None

    def atom(self, symid, bit):
        return self.mk(self.symbase[symid] | ((127 - bit) << 6), 0, 1)

    def sym_of(self, level):
        return self.groups[level >> 14][level & 63]

    def atom_of(self, level):
        return self.symname[self.sym_of(level)], 127 - ((level >> 6) & 127)

    def bits(self, name, width):
        r = self.cache_bits.get((name, width))
        if r is None:
            s = self.sym(name, width)
            r = self.cache_bits[(name, width)] = tuple(self.atom(s, b) for b in range(width))
        return r

    def mk(self, lv, lo, hi):
        if lo == hi:
            return lo
        k = (lv, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.level)
            self.level.append(lv)
            self.lo.append(lo)
            self.hi.append(hi)
            self.unique[k] = n
        return n

    # ---- operations
    def NOT(self, a):
        r = self.cache_not.get(a)
        if r is None:
            r = self.mk(self.level[a], self.NOT(self.lo[a]), self.NOT(self.hi[a]))
            self.cache_not[a] = r
            self.cache_not[r] = a
        return r

    def AND(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1:
            return b
        k = (a, b)
        r = self.cache_and.get(k)
        if r is None:
            la, lb = self.level[a], self.level[b]
            if la == lb:
                r = self.mk(la, self.AND(self.lo[a], self.lo[b]), self.AND(self.hi[a], self.hi[b]))
            elif la < lb:
                r = self.mk(la, self.AND(self.lo[a], b), self.AND(self.hi[a], b))
            else:
                r = self.mk(lb, self.AND(a, self.lo[b]), self.AND(a, self.hi[b]))
            self.cache_and[k] = r
        return r

    def OR(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        if a == 0:
            return b
        if a == 1:
            return 1
        k = (a, b)
        r = self.cache_or.get(k)
        if r is None:
            la, lb = self.level[a], self.level[b]
            if la == lb:
                r = self.mk(la, self.OR(self.lo[a], self.lo[b]), self.OR(self.hi[a], self.hi[b]))
            elif la < lb:
                r = self.mk(la, self.OR(self.lo[a], b), self.OR(self.hi[a], b))
            else:
                r = self.mk(lb, self.OR(a, self.lo[b]), self.OR(a, self.hi[b]))
            self.cache_or[k] = r
        return r

    def XOR(self, a, b):
        if a == b:
            return 0
        if a > b:
            a, b = b, a
        if a == 0:
            return b
        if a == 1:
            return self.NOT(b)
        k = (a, b)
        r = self.cache_xor.get(k)
        if r is None:
            la, lb = self.level[a], self.level[b]
            if la == lb:
                r = self.mk(la, self.XOR(self.lo[a], self.lo[b]), self.XOR(self.hi[a], self.hi[b]))
            elif la < lb:
                r = self.mk(la, self.XOR(self.lo[a], b), self.XOR(self.hi[a], b))
            else:
                r = self.mk(lb, self.XOR(a, self.lo[b]), self.XOR(a, self.hi[b]))
            self.cache_xor[k] = r
        return r

    def ITE(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1 and b == 0:
            return c
        if b == 0:
            return self.AND(c, a)
        if a == 1:
            return self.OR(c, b)
        k = (c, a, b)
        r = self.cache_ite.get(k)
        if r is None:
            lv = min(self.level[c], self.level[a], self.level[b])
            c0, c1 = (self.lo[c], self.hi[c]) if self.level[c] == lv else (c, c)
            a0, a1 = (self.lo[a], self.hi[a]) if self.level[a] == lv else (a, a)
            b0, b1 = (self.lo[b], self.hi[b]) if self.level[b] == lv else (b, b)
            r = self.cache_ite[k] = self.mk(lv, self.ITE(c0, a0, b0), self.ITE(c1, a1, b1))
        return r

    def implies(self, a, b):
        return self.AND(a, self.NOT(b)) == 0

    # ---- quantification / substitution
    def support(self, a, seen=None, out=None):
        if out is None:
            seen, out = set(), set()
        stack = [a]
        while stack:
            x = stack.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            out.add(self.level[x])
            stack.append(self.lo[x])
            stack.append(self.hi[x])
        return out

    def support_syms(self, a):
        return {self.symname[self.sym_of(l)] for l in self.support(a)}

    def exists(self, a, pred, memo=None):
        """existentially quantify every atom whose level satisfies pred"""
        if memo is None:
            memo = {}
        if a < 2:
            return a
        r = memo.get(a)
        if r is None:
            lo = self.exists(self.lo[a], pred, memo)
            hi = self.exists(self.hi[a], pred, memo)
            if pred(self.level[a]):
                r = self.OR(lo, hi)
            else:
                r = self.mk_ite_level(self.level[a], lo, hi)
            memo[a] = r
        return r

    def mk_ite_level(self, lv, lo, hi):
        if (lo < 2 or self.level[lo] > lv) and (hi < 2 or self.level[hi] > lv):
            return self.mk(lv, lo, hi)
        return self.ITE(self.mk(lv, 0, 1), hi, lo)

    def subst(self, a, f, memo=None):
        """replace each atom of level l by f(l) (a node)"""
        if memo is None:
            memo = {}
        if a < 2:
            return a
        r = memo.get(a)
        if r is None:
            lv = self.level[a]
            r = self.ITE(f(lv), self.subst(self.hi[a], f, memo), self.subst(self.lo[a], f, memo))
            memo[a] = r
        return r

    def restrict(self, a, assign, memo=None):
        """assign: dict level -> 0/1"""
        if memo is None:
            memo = {}
        if a < 2:
            return a
        r = memo.get(a)
        if r is None:
            lv = self.level[a]
            v = assign.get(lv)
            if v is None:
                r = self.mk(lv, self.restrict(self.lo[a], assign, memo), self.restrict(self.hi[a], assign, memo))
            else:
                r = self.restrict(self.hi[a] if v else self.lo[a], assign, memo)
            memo[a] = r
        return r

    def simplify(self, f, care):
        """a function that agrees with f wherever care holds, as small as easily found"""
        if care == 0:
            return 0
        if care == 1 or f < 2:
            return f
        k = (f, care)
        r = self.cache_simp.get(k)
        if r is None:
            lf, lc = self.level[f], self.level[care]
            if lc < lf:
                r = self.simplify(f, self.OR(self.lo[care], self.hi[care]))
            else:
                c0, c1 = (self.lo[care], self.hi[care]) if lc == lf else (care, care)
                if c0 == 0:
                    r = self.simplify(self.hi[f], c1)
                elif c1 == 0:
                    r = self.simplify(self.lo[f], c0)
                else:
                    r = self.mk(lf, self.simplify(self.lo[f], c0), self.simplify(self.hi[f], c1))
            self.cache_simp[k] = r
        return r

    def pick(self, a):
        """some satisfying partial assignment {level: bit}"""
        out = {}
        while a > 1:
            if self.hi[a] != 0 and self.lo[a] == 0:
                out[self.level[a]] = 1
                a = self.hi[a]
            elif self.lo[a] != 0:
                out[self.level[a]] = 0
                a = self.lo[a]
            else:
                out[self.level[a]] = 1
                a = self.hi[a]
        return out if a == 1 else None

    # ---- bit vectors (tuples LSB first)
    def const(self, v, w):
        return tuple((v >> i) & 1 for i in range(w))

    def vadd(self, a, b, cin=0):
        out = []
        c = cin
        for x, y in zip(a, b):
            xy = self.XOR(x, y)
            out.append(self.XOR(xy, c))
            c = self.OR(self.AND(x, y), self.AND(c, xy))
        return tuple(out), c

    def vnot(self, a):
        return tuple(self.NOT(x) for x in a)

    def vsub(self, a, b):
        r, c = self.vadd(a, self.vnot(b), 1)
        return r, c

    def veq(self, a, b):
        r = 1
        for x, y in zip(reversed(a), reversed(b)):
            r = self.AND(r, self.NOT(self.XOR(x, y)))
            if r == 0:
                return 0
        return r

    def vult(self, a, b):
        r = 0
        for x, y in zip(a, b):  # LSB to MSB
            r = self.ITE(self.XOR(x, y), y, r)
        return r

    def vslt(self, a, b):
        return self.vult(a[:-1] + (self.NOT(a[-1]),), b[:-1] + (self.NOT(b[-1]),))

    def vite(self, c, a, b):
        return tuple(self.ITE(c, x, y) for x, y in zip(a, b))

    # ---- values of a vector under a condition
    def values(self, vec, cond, limit=300):
        """all values the vector can take under cond, or None if more than limit"""
        out = []

        def rec(i, c, acc):
            if c == 0:
                return True
            if i < 0:
                out.append((acc, c))
                return len(out) <= limit
            b = vec[i]
            if b == 0 or b == 1:
                return rec(i - 1, c, acc | (b << i))
            return rec(i - 1, self.AND(c, b), acc | (1 << i)) and rec(i - 1, self.AND(c, self.NOT(b)), acc)

        if not rec(len(vec) - 1, cond, 0):
            return None
        return out

    # ---- serialisation
    def dump(self, roots):
        """-> (nodes, refs): nodes = [(symname, bit, lo, hi)], refs into it (0,1 constants)"""
        idx = {0: 0, 1: 1}
        nodes = []

        def rec(a):
            if a in idx:
                return idx[a]
            lo, hi = rec(self.lo[a]), rec(self.hi[a])
            nm, bit = self.atom_of(self.level[a])
            nodes.append((nm, bit, lo, hi))
            idx[a] = len(nodes) + 1
            return idx[a]

        return nodes, [rec(r) for r in roots]

    def loads(self, nodes, refs):
        m = [0, 1]
        for nm, bit, lo, hi in nodes:
            a = self.atom(self.sym(nm, bit + 1), bit)
            m.append(self.ITE(a, m[hi], m[lo]))
        return [m[r] for r in refs]
