"""Single to half precision, as a function of the 32 bits (C21, C20)."""

def rne(B, b):
    """round to nearest, ties to even, of the single-precision number with bits b: (16 bits, condition that b is a NaN)"""
    man, exp, sign = b[:23], b[23:31], b[31]

    def eq(v):
        return B.veq(exp, B.const(v, 8))
    top = eq(255)
    zero_man = B.veq(man, B.const(0, 23))
    nan, inf = B.AND(top, B.NOT(zero_man)), B.AND(top, zero_man)
    mag = (0,) * 15

    def rounded(kept, guard, sticky):
        """15 bits kept, plus one if above the middle or in the middle and odd"""
        up = B.AND(guard, B.OR(sticky, kept[0]))
        return B.vadd(kept, (up,) + (0,) * 14)[0]

    def any_(bits):
        s = 0
        for x in bits:
            s = B.OR(s, x)
        return s

    # exponents of numbers that are at least the smallest normal half number: 2^-14 .. 2^15
    for e in range(113, 143):
        kept = man[13:] + B.const(e - 112, 5)
        mag = B.vite(eq(e), rounded(kept, man[12], any_(man[:12])), mag)
    # below: shifted right into a subnormal, down to half of the smallest one
    for e in range(102, 113):
        full = man + (1,)
        sh = 126 - e
        kept = full[sh:] + (0,) * (15 - len(full[sh:])) if sh <= 23 else (0,) * 15
        mag = B.vite(eq(e), rounded(tuple(kept), full[sh - 1], any_(full[:sh - 1])), mag)
    # above: infinity (65520 and more round there already within exponent 142)
    big = B.AND(B.NOT(top), B.vult(B.const(142, 8), exp))
    mag = B.vite(B.OR(big, inf), B.const(0x7C00, 15), mag)
    return tuple(mag) + (sign,), nan


def check(nx, r):
    I, B = nx.I, nx.B
    if not nx.half_fns:
        r.fact("no function from single to half precision", "decided where the operands use it")
        return
    b = B.bits("single", 32)
    want, nan = rne(B, b)
    for fn in nx.half_fns:
        st = nx.new_state()
        t0 = len(I.terminals)
        res = I.run(nx.mod.fn(fn), [b], st)
        terms = I.terminals[t0:]
        del I.terminals[t0:]
        r.count("conversion functions")
        seen = 0
        for s, k, kw in terms:
            r.bad(fn, "converting %s ends in %s" % (show(B, s.pc), k))
        for s, v in res:
            r.count("paths of the conversion")
            seen = B.OR(seen, s.pc)
            for e in s.events():
                if e[0] in ("badshift", "uninit", "oob"):
                    r.bad(e[1], "%s: %s" % (e[0], e[2]))
            v = I.resolve(s, v)
            got = I.bits(s, v, 16)
            d = 0
            for i in range(16):
                d = B.OR(d, B.XOR(got[i], want[i]))
            d = B.AND(B.AND(s.pc, B.NOT(nan)), d)
            if d != 0:
                r.bad(fn, "%s is not rounded to the nearest half-precision number" % show(B, d))
            n = B.AND(s.pc, nan)
            ok = 1
            for i in range(10, 15):
                ok = B.AND(ok, got[i])
            m = 0
            for i in range(10):
                m = B.OR(m, got[i])
            d = B.AND(n, B.NOT(B.AND(B.AND(ok, m), B.NOT(B.XOR(got[15], b[31])))))
            if d != 0:
                r.bad(fn, "the NaN %s does not stay a NaN of its sign" % show(B, d))
        r.count("input bits quantified over", 32)
        r.fact("nodes of the canonical form", len(B.unique))


def show(B, c):
    v = 0
    for lv, x in dict(B.pick(c) or {}).items():
        nm, bit = B.atom_of(lv)
        if nm == "single":
            v |= x << bit
    return "0x%08x" % v
