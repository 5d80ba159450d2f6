"""Operands whose meaning is arithmetic, stated by formula instead of by table."""
from half import rne
import struct


class Specs:
    def __init__(self, F):
        self.F = F
        self.nx, self.I, self.B, self.D = F.nx, F.I, F.B, F.D

    def build(self, cases):
        """cases: (tokens read, condition, {bit: function}); conditions are disjoint"""
        B, D, F = self.B, self.D, self.F
        acc = {}
        for n, c, bits in cases:
            for k in range(n + 1):
                c = B.AND(c, D.valid(k))
            pc, v = acc.get(n, (0, (0,) * 64))
            w = [B.OR(F.opbits[i], bits.get(i, 0)) for i in range(64)]
            acc[n] = (B.OR(pc, c), tuple(B.OR(a, B.AND(c, b)) for a, b in zip(v, w)))
        groups = []
        for n in sorted(acc):
            pc, v = acc[n]
            groups.append((n, pc, v, tuple(B.AND(pc, b) for b in F.opr)))
        return tuple(groups)

    def ident(self, k, s):
        B, D = self.B, self.D
        return B.AND(D.is_kind(k, "identifier"), D.strset(k, [D.index[s]]) if s in D.index else 0)

    # branch target: target - address after the instruction, 24 bits, sign at the end
    def label(self):
        B, D = self.B, self.D
        pc = B.bits("ctx.pc", 64)
        cases = []
        for kind, target, ok in (("identifier", B.bits("label(t0)", 64), B.bits("islabel(t0)", 1)[0]),
                                 ("immediate", B.bits("t0.imm", 64), 1)):
            d = B.vsub(B.vsub(target, pc)[0], B.const(8, 64))[0]
            # -2^23 <= d < 2^23: all bits from 23 up are equal
            same = 1
            for b in d[24:]:
                same = B.AND(same, B.NOT(B.XOR(b, d[23])))
            c = B.AND(B.AND(D.is_kind(0, kind), ok), same)
            cases.append((1, c, {**{20 + i: d[i] for i in range(23)}, 43: d[23]}))
        return self.build(cases)

    def special(self, emit, qnan, inf):
        """INF and QNAN with optional sign; emit(pattern, negative)"""
        B, D = self.B, self.D
        out = []
        for text, pat in (("QNAN", qnan), ("INF", inf)):
            out.append((1, self.ident(0, text), emit(pat, 0)))
            for sign, neg in (("plus", 0), ("minus", 1)):
                out.append((2, B.AND(D.is_kind(0, sign), self.ident(1, text)), emit(pat, neg)))
        return out

    def finite(self, f):
        return self.B.NOT(self.I.all1(f[23:31]))

    # single precision immediate: leading 19 bits of magnitude and the sign, or all 32 bits
    def single(self, width):
        B, D, I = self.B, self.D, self.I

        def emit(raw):
            if width == 32:
                return {20 + i: raw[i] for i in range(32)}
            d = {20 + i: raw[12 + i] for i in range(19)}
            d[56] = raw[31]
            return d

        f = B.bits("t0.f32", 32)
        imm = B.bits("t0.imm", 64)
        as_f = I.bits(None, I.fconv_bits("sitofp", imm, 64, 32), 32)
        # representable: at most 24 significant bits
        mag = B.vite(imm[63], B.vsub((0,) * 64, imm)[0], imm)
        rep = 1
        seen = 0
        for p in range(63, -1, -1):
            c = B.AND(mag[p], B.NOT(seen))
            seen = B.OR(seen, mag[p])
            if p > 23:
                rep = B.AND(rep, B.NOT(B.AND(c, B.NOT(I.none(mag[:p - 23])))))
        cases = [(1, B.AND(D.is_kind(0, "float_immediate"), self.finite(f)), emit(f)),
                 (1, B.AND(D.is_kind(0, "immediate"), rep), emit(as_f))]
        cases += self.special(lambda pat, neg: emit(B.const(pat | neg << 31, 32)), 0x7fc00000, 0x7f800000)
        return self.build(cases)

    # double precision immediate: leading 19 bits of magnitude and the sign
    def double(self):
        B, D, I = self.B, self.D, self.I

        def emit(raw, sign):
            d = {20 + i: raw[44 + i] for i in range(19)}
            d[56] = sign
            return d

        f = B.bits("t0.f32", 32)
        d = I.bits(None, I.fconv_bits("fpext", f, 32, 64), 64)
        imm = B.bits("t0.imm", 64)
        di = I.bits(None, I.fconv_bits("sitofp", imm, 64, 64), 64)
        cases = [(1, B.AND(D.is_kind(0, "float_immediate"), self.finite(f)), emit(d, f[31])),
                 (1, D.is_kind(0, "immediate"), emit(di, imm[63]))]
        cases += self.special(lambda pat, neg: emit(B.const(pat, 64), neg), 0x7ff8000000000000, 0x7ff0000000000000)
        return self.build(cases)

    # half precision immediate: 9 leading bits of magnitude and a sign bit elsewhere, or all 16 bits
    def half(self, width, offset, neg_bit):
        B, D, I = self.B, self.D, self.I

        def emit(raw, sign):
            if width == 16:
                return {offset + i: raw[i] for i in range(16)}
            d = {offset + i: raw[6 + i] for i in range(9)}
            d[neg_bit] = sign
            return d

        f = B.bits("t0.f32", 32)
        h = rne(B, f)[0]
        imm = B.bits("t0.imm", 64)
        hi = rne(B, I.bits(None, I.fconv_bits("sitofp", imm, 64, 32), 32))[0]
        cases = [(1, B.AND(D.is_kind(0, "float_immediate"), self.finite(f)), emit(h, f[31])),
                 (1, D.is_kind(0, "immediate"), emit(hi, imm[63]))]
        if width == 16:
            cases += self.special(lambda pat, neg: emit(B.const(pat | neg << 15, 16), neg), 0x7fff, 0x7c00)
        else:
            cases += self.special(lambda pat, neg: emit(B.const(pat, 16), neg), 0x7fff, 0x7c00)
        return self.build(cases)

    def get(self, name):
        m = name.split("/")
        if m[0] == "label":
            return self.label()
        if m[0] == "single":
            return self.single(int(m[1]))
        if m[0] == "double":
            return self.double()
        if m[0] == "half":
            return self.half(int(m[1]), int(m[2]), int(m[3]))
        raise KeyError(name)

    ALL = ["label", "single/20", "single/32", "double", "half/9/20/29", "half/9/30/56", "half/16/20/-1", "half/16/36/-1"]
