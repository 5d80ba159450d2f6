"""Instruction forms: operand summaries, forms of the driver, composition of a whole row.

An operand summary maps the number of tokens read to (condition, word, reuse
flags), each a Boolean function of the tokens read (t0 is the look-ahead token on
entry) and of the word before (op).  A row is the sequence of the summaries of its
operands; composing them renumbers the tokens and substitutes the word.
"""
import re

from interp import Unsupported

TOK = re.compile(r"\bt(\d+)\b")


class Group:
    """acceptance after reading n tokens: pc, word bits, reuse bits (all under pc)"""
    __slots__ = ("n", "pc", "v", "r", "vk", "rk")


class OpSum:
    __slots__ = ("name", "groups", "asserts", "leaves", "key", "reads_op")


class Forms:
    def __init__(self, nx):
        self.nx = nx
        self.I, self.B, self.D = nx.I, nx.B, nx.D
        self._sum = {}
        self._ren = {}
        self._lvl = {}
        self._mask = {}
        self.opbits = self.B.bits("op", 64)
        self.oplev = {self.B.level[b]: i for i, b in enumerate(self.opbits)}
        self.opr = self.B.bits("op.reuse", 3)
        self.oprlev = {self.B.level[b]: i for i, b in enumerate(self.opr)}

    # ----------------------------------------------------------- summaries
    def summary(self, fname):
        s = self._sum.get(fname)
        if s is None:
            s = self._sum[fname] = self.build(self.nx.summarize(fname))
        return s

    def build(self, raw):
        B = self.B
        s = OpSum()
        s.name = raw.name
        s.leaves = raw.leaves
        acc = {}
        endless = any(l.out == "die:long" and l.pc != 0 for l in raw.leaves)
        for l in raw.leaves:
            if l.out != "ok" or l.pc == 0:
                continue
            if l.value is None or l.reuse is None:
                raise Unsupported("word never set by %s" % raw.name)
            if l.pos is None or l.la is None or str(l.la) != str(l.pos - 1):
                raise Unsupported("look-ahead of %s is token %s at position %s" % (raw.name, l.la, l.pos))
            n = l.pos - 1
            if endless and n > 3:
                continue    # Isa.ends reports it; only its shortest readings are compared
            pc, v, r = acc.get(n, (0, (0,) * 64, (0,) * 32))
            acc[n] = (B.OR(pc, l.pc),
                      tuple(B.OR(a, B.AND(l.pc, b)) for a, b in zip(v, l.value)),
                      tuple(B.OR(a, B.AND(l.pc, b)) for a, b in zip(r, l.reuse)))
        s.groups = []
        for n in sorted(acc):
            pc, v, r = acc[n]
            s.groups.append(self.group(n, pc, v, r))
        s.asserts = []
        for l in raw.leaves:
            for e in l.ev:
                if e[0] == "assert":
                    for c in e[2]:
                        s.asserts.append((c, e[1], e[3]))
        s.key = tuple((g.n, g.pc, g.v, g.r) for g in s.groups)
        return s

    def group(self, n, pc, v, r):
        g = Group()
        g.n, g.pc, g.v = n, pc, v
        if any(r[3:]):
            g.r = r
        else:
            g.r = r[:3]
        g.vk = tuple(self.classify(pc, f, b) for f, b in zip(v, self.opbits))
        g.rk = tuple(self.classify(pc, f, b) for f, b in zip(g.r, self.opr))
        return g

    def classify(self, pc, f, b):
        """f = pc & word bit after; b = word bit before"""
        B = self.B
        if f == B.AND(pc, b):
            return ("keep",)
        lv = B.level[b]
        g = B.restrict(f, {lv: 0})
        if f == B.AND(pc, B.OR(b, g)):
            return ("or", g)
        return ("gen",)

    def mask(self, s):
        """bits of the word that the operand reads or writes"""
        m = self._mask.get(id(s))
        if m is None:
            m = self.writes(s) | self.reads(s)
            self._mask[id(s)] = m
        return m

    def writes(self, s):
        m = 0
        for g in s.groups:
            for i, k in enumerate(g.vk):
                if k[0] != "keep":
                    m |= 1 << i
        return m

    def reads(self, s):
        B = self.B
        m = 0
        for g in s.groups:
            fs = [g.pc]
            for k, v in zip(g.vk, g.v):
                if k[0] == "or":
                    fs.append(k[1])
                elif k[0] == "gen":
                    fs.append(v)
            for f in fs:
                for lv in B.support(f):
                    i = self.oplev.get(lv)
                    if i is not None:
                        m |= 1 << i
        return m

    # ---------------------------------------------------------- renumbering
    def shift_name(self, nm, k):
        return TOK.sub(lambda m: "t%d" % (int(m.group(1)) + k), nm)

    def shifted(self, f, k):
        """f with every token index increased by k"""
        if k == 0 or f < 2:
            return f
        memo = self._ren.setdefault(k, {})
        B = self.B

        def at(lv):
            r = self._lvl.get((lv, k))
            if r is None:
                nm, bit = B.atom_of(lv)
                n2 = self.shift_name(nm, k)
                w = B.symwidth[B.symid[nm]]
                r = self._lvl[(lv, k)] = B.bits(n2, w)[bit] if n2 != nm else B.mk(lv, 0, 1)
            return r

        return B.subst(f, at, memo)

    def put_word(self, f, v, r, memo):
        """substitute the word and reuse flags before by v and r"""
        B = self.B
        if f < 2:
            return f

        def at(lv):
            i = self.oplev.get(lv)
            if i is not None:
                return v[i]
            i = self.oprlev.get(lv)
            if i is not None:
                return r[i]
            return B.mk(lv, 0, 1)

        return B.subst(f, at, memo)

    # ---------------------------------------------------------- composition
    def step(self, states, s, on_assert=None):
        """states: {pos: (pc, v, r)}; apply operand summary s"""
        B = self.B
        out = {}
        for pos, (pc, v, r) in sorted(states.items()):
            memo = {}
            if on_assert is not None:
                for c, loc, where in s.asserts:
                    x = B.AND(pc, self.put_word(self.shifted(c, pos), v, r, memo))
                    on_assert(x, loc, where, pos)
            for g in s.groups:
                p2 = B.AND(pc, self.put_word(self.shifted(g.pc, pos), v, r, memo))
                if p2 == 0:
                    continue
                nv = []
                for i in range(64):
                    k = g.vk[i]
                    if k[0] == "keep":
                        nv.append(v[i])
                    elif k[0] == "or":
                        nv.append(B.OR(v[i], self.put_word(self.shifted(k[1], pos), v, r, memo)))
                    else:
                        nv.append(self.put_word(self.shifted(g.v[i], pos), v, r, memo))
                nr = []
                for i in range(3):
                    k = g.rk[i]
                    if k[0] == "keep":
                        nr.append(r[i])
                    elif k[0] == "or":
                        nr.append(B.OR(r[i], self.put_word(self.shifted(k[1], pos), v, r, memo)))
                    else:
                        nr.append(self.put_word(self.shifted(g.r[i], pos), v, r, memo))
                self.merge(out, pos + g.n, p2, tuple(nv), tuple(nr))
        return out

    def merge(self, out, pos, pc, v, r):
        B = self.B
        o = out.get(pos)
        if o is None:
            out[pos] = (pc, v, r)
            return
        pc0, v0, r0 = o
        out[pos] = (B.OR(pc0, pc),
                    tuple(a if a == b else B.OR(B.AND(pc0, a), B.AND(pc, b)) for a, b in zip(v0, v)),
                    tuple(a if a == b else B.OR(B.AND(pc0, a), B.AND(pc, b)) for a, b in zip(r0, r)))

    def initial(self, const):
        """word with the fixed bits and any guard"""
        B = self.B
        g = B.bits("guard", 4)
        v = list(B.const(const, 64))
        for i in range(4):
            v[16 + i] = B.OR(v[16 + i], g[i])
        return {0: (1, tuple(v), (0, 0, 0))}

    def normal(self, states):
        """canonical form of a composed row"""
        B = self.B
        return tuple((pos, pc, tuple(B.AND(pc, x) for x in v), tuple(B.AND(pc, x) for x in r))
                     for pos, (pc, v, r) in sorted(states.items()) if pc != 0)
