"""Field discipline: no bit is claimed twice (C01), no integer loses information (C02)."""
from isa import Const


class Fields:
    def __init__(self, isa):
        self.isa, self.F, self.B, self.D = isa, isa.F, isa.B, isa.D
        self.bad = []
        self.count = {"forms": 0, "operands in forms": 0, "bit claims": 0, "assertions": 0, "claims decided by the token context": 0,
                      "rewritten bits": 0}

    # --------------------------------------------------------------- overlap
    def overlap(self):
        done = {}
        for f in self.isa.forms:
            if f.guarded:
                continue
            self.count["forms"] += 1
            self.row(f, done)

    def row(self, f, done):
        F, B = self.F, self.B
        ops = [o if isinstance(o, Const) else F.summary(o) for o in f.ops]
        GUARD = 0xF << 16
        ones = f.const
        may = 0            # bits an earlier operand may have set
        rmay = 0
        if ones & GUARD:
            self.bad.append((f.where, "%s: fixed bits overlap the guard field" % f.name))
        writers = []
        for i, o in enumerate(ops):
            if isinstance(o, Const):
                x = o.bits & (ones | may | GUARD)
                if x:
                    self.bad.append((f.where, "%s: fixed bits %x are set twice" % (f.name, x)))
                ones |= o.bits
                continue
            self.count["operands in forms"] += 1
            w = F.writes(o)
            key = (o.key, ones & F.mask(o), may & F.mask(o), rmay)
            r = done.get(key)
            if r is None:
                r = done[key] = self.claims(o, ones, may | GUARD, rmay, writers)
            for text in r:
                self.bad.append((f.where, "%s: operand %s: %s" % (f.name, o.name, text)))
            if w & GUARD:
                self.bad.append((f.where, "%s: operand %s writes the guard field" % (f.name, o.name)))
            may |= w
            for g in o.groups:
                if len(g.r) != 3:
                    self.bad.append((f.where, "%s: operand %s sets a reuse flag that does not exist" % (f.name, o.name)))
                    continue
                for b, k in enumerate(g.rk):
                    if k[0] != "keep":
                        rmay |= 1 << b
            writers.append(o)

    def env(self, f, ones, may, rmay, extra=None):
        """word bits before the operand: fixed ones, unwritten zeros, others unknown"""
        F, B = self.F, self.B
        a = {}
        for lv in B.support(f):
            i = F.oplev.get(lv)
            if i is not None:
                if ones >> i & 1:
                    a[lv] = 1
                elif not may >> i & 1:
                    a[lv] = 0
                continue
            i = F.oprlev.get(lv)
            if i is not None and not rmay >> i & 1:
                a[lv] = 0
        if extra:
            a.update(extra)
        return B.restrict(f, a) if a else f

    def claims(self, o, ones, may, rmay, writers):
        F, B = self.F, self.B
        out = []
        for c, loc, where in o.asserts:
            self.count["assertions"] += 1
            x = self.env(c, ones, may, rmay)
            if x != 0:
                x = self.context(x, writers)
            if x != 0:
                out.append("an assertion at %s fails for %s" % (loc, self.isa.describe(x)))
        for g in o.groups:
            for i, k in enumerate(g.vk):
                if k[0] == "keep":
                    continue
                if k[0] == "gen":
                    self.count["rewritten bits"] += 1
                    continue
                self.count["bit claims"] += 1
                if not (ones | may) >> i & 1:
                    continue
                x = B.restrict(B.AND(g.pc, k[1]), {B.level[F.opbits[i]]: 1})
                x = self.env(x, ones, may, rmay)
                if x != 0:
                    x = self.context(B.AND(x, F.opbits[i] if may >> i & 1 else 1), writers)
                if x != 0:
                    out.append("bit %d already belongs to %s, for %s" % (
                        i, "the fixed bits" if ones >> i & 1 else "another field", self.isa.describe(x)))
                    break
            for i, k in enumerate(g.rk):
                if k[0] == "keep":
                    continue
                self.count["bit claims"] += 1
                if k[0] == "gen":
                    out.append("reuse flag %d of another operand is changed" % i)
                elif rmay >> i & 1:
                    x = B.restrict(B.AND(g.pc, k[1]), {B.level[F.opr[i]]: 1})
                    if x != 0:
                        out.append("reuse flag %d already belongs to another operand" % i)
            gen = [i for i, k in enumerate(g.vk) if k[0] == "gen"]
            if gen and not self.recoverable(g, gen, ones, may, writers):
                out.append("bits %s of other fields are rewritten so that they cannot be told apart" % gen)
        return out

    def context(self, x, writers):
        """replace the unknown word bits by what the earlier operands can put there"""
        F, B = self.F, self.B
        need = {F.oplev[lv] for lv in B.support(x) if lv in F.oplev}
        self.count["claims decided by the token context"] += 1
        st = self.before(need, writers)
        if st is None:
            return x
        out = 0
        for pc, v in st:
            y = B.subst(x, lambda lv: v[F.oplev[lv]] if F.oplev.get(lv) in v else B.mk(lv, 0, 1), {})
            out = B.OR(out, B.AND(pc, y))
        return out

    def before(self, need, writers):
        """what the earlier operands can have put into the given bits: [(condition, {bit: function})]"""
        F, B = self.F, self.B
        ws = [o for o in writers if any(F.writes(o) >> i & 1 for i in need)]
        if len(ws) > 5:
            return None
        st = [(1, {i: 0 for i in need})]
        for n, o in enumerate(ws):
            nst = []
            for pc, v in st:
                for g in o.groups:
                    p2 = B.AND(pc, F.shifted(g.pc, 40 * (n + 1)))
                    # bits read from the word elsewhere stay unknown
                    nv = dict(v)
                    for i in need:
                        k = g.vk[i]
                        if k[0] == "or":
                            nv[i] = B.OR(v[i], F.shifted(k[1], 40 * (n + 1)))
                        elif k[0] == "gen":
                            return None
                    if p2 != 0:
                        nst.append((p2, nv))
            st = nst
        return st

    def recoverable(self, g, gen, ones, may, writers):
        """two words that differ before must differ after (same tokens)"""
        F, B = self.F, self.B
        read = set()
        for i in gen:
            for lv in B.support(g.v[i]):
                j = F.oplev.get(lv)
                if j is not None:
                    read.add(j)
        read |= set(gen)
        read = sorted(read)
        other = {i: B.bits("op'", 64)[i] for i in read}

        def copy(f):
            return B.subst(f, lambda lv: other[F.oplev[lv]] if F.oplev.get(lv) in other else B.mk(lv, 0, 1), {})

        def known(f):
            return self.env(f, ones, may, 7)

        pc = known(g.pc)
        st = self.before(set(read), writers)
        if st is not None:
            reach = 0
            for c, v in st:
                for i in read:
                    if may >> i & 1 and not ones >> i & 1:
                        c = B.AND(c, B.NOT(B.XOR(F.opbits[i], v[i])))
                reach = B.OR(reach, B.exists(c, lambda lv: lv not in F.oplev, {}))
            pc = B.AND(pc, reach)
        diff = 0
        same = B.AND(pc, copy(pc))
        for i in read:
            a = known(F.opbits[i])
            b = copy(a)
            diff = B.OR(diff, B.XOR(a, b))
        same = B.AND(same, diff)
        for i in range(64):
            k = g.vk[i]
            if k[0] == "keep" and i not in read:
                continue
            if k[0] == "keep":
                v = F.opbits[i]
            elif k[0] == "or":
                v = B.OR(F.opbits[i], k[1])
            else:
                v = g.v[i]
            a = known(v)
            same = B.AND(same, B.NOT(B.XOR(a, copy(a))))
        return same == 0

    # ------------------------------------------------------------- integers
    def injective(self, fn, s):
        """two accepted values of one integer never give the same word; -> list of texts"""
        F, B, D = self.F, self.B, self.D
        out = []
        n = 0
        for g in s.groups:
            allsyms = set()
            for x in (g.pc,) + g.v:
                allsyms |= B.support_syms(x)
            syms = {nm for nm in allsyms if nm.endswith((".imm", ".reg"))}
            for nm in sorted(syms):
                k = int(nm[1:].split(".")[0])
                if "t%d.f32" % k in allsyms or any(x.startswith("half(") for x in allsyms):
                    continue        # written as a number: precision is decided with C20
                n += 1
                w = 64 if nm.endswith(".imm") else 8
                a = B.bits(nm, w)
                b = B.bits(nm + "'", w)
                mp = {B.level[x]: y for x, y in zip(a, b)}
                memo = {}

                def copy(f):
                    return B.subst(f, lambda lv: mp.get(lv) if lv in mp else B.mk(lv, 0, 1), memo)

                kind = D.is_kind(k, "immediate" if w == 64 else "regster")
                zero = {B.level[x]: 0 for x in F.opbits}
                pc = B.restrict(B.AND(g.pc, kind), zero)
                c = B.AND(pc, copy(pc))
                for i in range(64):
                    if g.vk[i][0] == "keep":
                        continue
                    v = B.restrict(g.vk[i][1] if g.vk[i][0] == "or" else g.v[i], zero)
                    if B.support_syms(v).isdisjoint({nm}):
                        continue
                    c = B.AND(c, B.NOT(B.XOR(v, copy(v))))
                    if c == 0:
                        break
                if c != 0:
                    ne = 0
                    for x, y in zip(a, b):
                        ne = B.OR(ne, B.XOR(x, y))
                    c = B.AND(c, ne)
                if c != 0:
                    out.append((nm, self.isa.describe(c)))
        return out, n
