"""The text domain: source text as a sequence of unknown characters, and the lexical grammar.

The text has at most N characters, each an unknown byte; byte N is the terminator.  The
scanner is interpreted over it with exact joins (joins.py), so conditions on the text are
Boolean functions of its bytes.  strtoll and strtof are modelled: which characters they
take is exact; the value is exact for short integers and a named unknown otherwise.
"""
from interp import Die, Obj, Ptr, UNDEF, Unsupported
from ir import IntTy
from joins import ExactJoin, ExactReturns
from nxmodel import A_FATAL_TOK, A_TOKENIZE, Nx

WS = " \t\r\n"
OPS = "+-~|[]@,;"
SEP = WS + "." + OPS + "\0"
OPKIND = {"+": "plus", "-": "minus", "~": "tilde", "|": "vbar", "[": "bracket_left", "]": "bracket_right",
          "@": "at", ";": "semicolon", ",": "comma"}
DIG = "0123456789"
ERANGE = 34


class Text:
    """chars of the text at most N long, as Boolean functions"""

    def __init__(self, I, N, prefix=""):
        """N characters, of which the first are known"""
        self.I, self.B, self.N = I, I.B, N
        self.prefix = prefix
        self.c = [self.B.const(ord(ch), 8) for ch in prefix]
        self.c += [self.B.bits("c%d" % i, 8) for i in range(len(prefix), N)] + [(0,) * 8]
        self._memo = {}
        I.textdom = self
        o = Obj(None, "text", "undef", name="the text")
        I.glob["TEXT"] = o
        self.full = [1]
        for i in range(N):
            self.full.append(self.B.AND(self.full[-1], self.B.NOT(self.isin(i, "\0"))))

    # ------------------------------------------------------------ predicates
    def isin(self, i, chars):
        k = (i, chars)
        r = self._memo.get(k)
        if r is None:
            B = self.B
            r = 0
            for ch in set(chars):
                r = B.OR(r, B.veq(self.c[i], B.const(ord(ch), 8)))
            self._memo[k] = r
        return r

    def load(self, I, st, p, o, size):
        B = self.B
        out = []
        for j in range(size):
            off = p.off + j
            if off < 0:
                st.event("overread", I.where(), "the text is read before its beginning")
                raise Die("fault", why="out of bounds")
            if off > self.N:
                if B.AND(st.pc, self.full[self.N]) != 0 or B.AND(st.pc, 1) != 0:
                    st.event("overread", I.where(), "the text is read behind its end")
                raise Die("fault", why="out of bounds")
            if B.AND(st.pc, B.NOT(self.full[off])) != 0:
                st.event("overread", I.where(), "the text is read behind its end")
                st.pc = B.AND(st.pc, self.full[off])
                if st.pc == 0:
                    raise Die("fault", why="out of bounds")
            out += list(self.c[off])
        return I.norm(tuple(out))

    # ------------------------------------------------------------ conversions
    def digit(self, i, base):
        """(condition, value bits (4)) of a digit of the base at i"""
        B = self.B
        c = self.c[i]
        if base <= 10:
            return self.isin(i, DIG[:base]), tuple(c[:4])
        al = self.isin(i, "abcdefABCDEF")
        v = B.vite(al, B.vadd(c[:4], B.const(9, 4))[0], c[:4])
        return B.OR(self.isin(i, DIG), al), v

    def strtoll(self, q, base):
        """[(condition, end offset, value bits(64), range error)]"""
        key = ("strtoll", q, base)
        r = self._memo.get(key)
        if r is not None:
            return r
        B, N = self.B, self.N
        out = []
        start = 1
        s = q
        while start != 0:
            # leading white space
            body = B.AND(start, B.NOT(self.isin(s, " \t\n\v\f\r")))
            for neg, sg in ((0, ""), (0, "+"), (1, "-")):
                c = B.AND(body, self.isin(s, sg) if sg else B.NOT(self.isin(s, "+-")))
                if c != 0:
                    self._number(out, c, q, s + len(sg), neg, base)
            start = B.AND(start, self.isin(s, " \t\n\v\f\r")) if s < N else 0
            s += 1
        r = self._memo[key] = out
        return r

    def _number(self, out, c, q, s, neg, base):
        B, N = self.B, self.N
        hexp = 0
        if base in (0, 16) and s + 2 <= N:
            hexp = B.AND(B.AND(self.isin(s, "0"), self.isin(s + 1, "xX")), self.digit(s + 2, 16)[0])
            self._digits(out, B.AND(c, hexp), q, s + 2, neg, 16, base)
        c = B.AND(c, B.NOT(hexp))
        if base == 0:
            z = self.isin(s, "0")
            self._digits(out, B.AND(c, z), q, s, neg, 8, base)
            self._digits(out, B.AND(c, B.NOT(z)), q, s, neg, 10, base)
        else:
            self._digits(out, c, q, s, neg, base, base)

    def _digits(self, out, c, q, s, neg, b, base):
        B, N = self.B, self.N
        n = 0
        val = (0,) * 64
        while c != 0:
            d, v = self.digit(s + n, b) if s + n < N else (0, None)
            stop = B.AND(c, B.NOT(d))
            if stop != 0:
                if n == 0:
                    out.append((stop, q, (0,) * 64, 0))
                elif n <= 3:
                    x = B.vsub((0,) * 64, val)[0] if neg else val
                    out.append((stop, s + n, x, 0))
                else:
                    nm = "strtoll(%d,%d,%d)" % (q, s + n, base)
                    er = B.bits("erange(%d,%d,%d)" % (q, s + n, base), 1)[0] if n >= 15 else 0
                    sat = (neg ^ 1,) * 63 + (neg,)
                    out.append((stop, s + n, B.vite(er, sat, B.bits(nm, 64)), er))
            c = B.AND(c, d)
            if c == 0:
                break
            if n < 3:
                acc = (0,) * 64
                for k in range(5):
                    if b >> k & 1:
                        acc = B.vadd(acc, ((0,) * k + val)[:64])[0]
                val = B.vadd(acc, tuple(v) + (0,) * 60)[0]
            n += 1

    def strtof(self, q):
        """[(condition, end offset, 32 bits)]: decimal and hexadecimal literals"""
        key = ("strtof", q)
        r = self._memo.get(key)
        if r is not None:
            return r
        B, N = self.B, self.N
        ends = {}
        start = 1
        s = q
        while start != 0:
            body = B.AND(start, B.NOT(self.isin(s, " \t\n\v\f\r")))
            for sg in ("", "+-"):
                c = B.AND(body, self.isin(s, sg) if sg else B.NOT(self.isin(s, "+-")))
                p = s + (1 if sg else 0)
                if c == 0:
                    continue
                special = self.isin(p, "iInN") if p < N else 0
                if B.AND(c, special) != 0:
                    self._floatend(ends, B.AND(c, special), None)
                c = B.AND(c, B.NOT(special))
                hx = B.AND(self.isin(p, "0"), self.isin(p + 1, "xX")) if p + 2 <= N else 0
                if hx != 0:
                    # 0x needs a digit, possibly after a point
                    nx = self.digit(p + 2, 16)[0] if p + 2 < N else 0
                    if p + 3 < N:
                        nx = B.OR(nx, B.AND(self.isin(p + 2, "."), self.digit(p + 3, 16)[0]))
                    hx = B.AND(hx, nx)
                    self._mantissa(ends, B.AND(c, hx), q, p + 2, 16, "pP")
                self._mantissa(ends, B.AND(c, B.NOT(hx)), q, p, 10, "eE")
            start = B.AND(start, self.isin(s, " \t\n\v\f\r")) if s < N else 0
            s += 1
        out = []
        for e in sorted(ends, key=lambda x: -1 if x is None else x):
            c = ends[e]
            if e is None:
                out.append((c, None, None))
            elif e == q:
                out.append((c, q, (0,) * 32))
            else:
                out.append((c, e, B.bits("strtof(%d,%d)" % (q, e), 32)))
        r = self._memo[key] = out
        return r

    def _floatend(self, ends, c, e):
        if c != 0:
            ends[e] = self.B.OR(ends.get(e, 0), c)

    def _mantissa(self, ends, c, q, s, b, exps):
        """digits, optional point and digits, optional exponent"""
        B, N = self.B, self.N
        i = 0
        while c != 0:
            d = self.digit(s + i, b)[0] if s + i < N else 0
            stop = B.AND(c, B.NOT(d))
            if stop != 0:
                pt = self.isin(s + i, ".") if s + i < N else 0
                self._exponent(ends, B.AND(stop, B.NOT(pt)), q, s + i, exps, i > 0)
                f = B.AND(stop, pt)
                j = 0
                while f != 0:
                    p = s + i + 1 + j
                    d2 = self.digit(p, b)[0] if p < N else 0
                    self._exponent(ends, B.AND(f, B.NOT(d2)), q, p, exps, i + j > 0)
                    f = B.AND(f, d2)
                    j += 1
            c = B.AND(c, d)
            i += 1

    def _exponent(self, ends, c, q, p, exps, any_digit):
        B, N = self.B, self.N
        if c == 0:
            return
        if not any_digit:
            self._floatend(ends, c, q)
            return
        has = 0
        if p + 1 < N:
            e = self.isin(p, exps)
            for sg in ("", "+-"):
                x = B.AND(B.AND(c, e), self.isin(p + 1, sg) if sg else B.NOT(self.isin(p + 1, "+-")))
                k = p + 1 + (1 if sg else 0)
                if k >= N:
                    continue
                x = B.AND(x, self.isin(k, DIG))
                has = B.OR(has, x)
                while x != 0:
                    k += 1
                    d = self.isin(k, DIG) if k < N else 0
                    self._floatend(ends, B.AND(x, B.NOT(d)), k)
                    x = B.AND(x, d)
        self._floatend(ends, B.AND(c, B.NOT(has)), p)


# ------------------------------------------------------------------ the grammar
class Grammar:
    """the specified token at every position: {(kind, start, end): (condition, data)}"""

    def __init__(self, T, kinds):
        self.T, self.B, self.N = T, T.B, T.N
        self.out = {}
        self.kinds = kinds

    def put(self, kind, s, e, cond, data=()):
        B = self.B
        if cond == 0:
            return
        k = (kind, s, e)
        if k in self.out:
            c0, d0 = self.out[k]
            self.out[k] = (B.OR(c0, cond), tuple(B.vite(c0, a, b) for a, b in zip(d0, data)))
        else:
            self.out[k] = (cond, data)

    def token(self, p, c):
        """the token read from position p, under c"""
        T, B, N = self.T, self.B, self.N
        s = p
        while c != 0:
            w = T.isin(s, WS) if s < N else 0
            self.start(s, B.AND(c, B.NOT(w)))
            c = B.AND(c, w)
            s += 1

    def ident(self, s, first, c):
        """identifier from s, at least up to (not including) `first`; labels are skipped"""
        T, B, N = self.T, self.B, self.N
        e = first
        while c != 0:
            sep = T.isin(e, SEP) if e < N else 1
            stop = B.AND(c, sep)
            if stop != 0:
                lab = T.isin(e - 1, ":")
                self.put("identifier", s, e, B.AND(stop, B.NOT(lab)))
                if B.AND(stop, lab) != 0:
                    self.token(e, B.AND(stop, lab))
            c = B.AND(c, B.NOT(sep))
            e += 1

    def start(self, s, c):
        T, B, N = self.T, self.B, self.N
        if c == 0:
            return
        end = T.isin(s, "\0")
        self.put("none", s, s, B.AND(c, end))
        c = B.AND(c, B.NOT(end))
        if c == 0:
            return
        at = lambda i, chars: T.isin(i, chars) if i <= N else 0
        dig1 = at(s + 1, DIG)
        # operators
        for ch, k in OPKIND.items():
            x = B.AND(c, at(s, ch))
            if ch in "+-":
                x = B.AND(x, B.NOT(dig1))
            self.put(k, s, s + 1, x)
            c = B.AND(c, B.NOT(x))
        # predicates
        neg = B.AND(c, at(s, "!"))
        c = B.AND(c, B.NOT(neg))
        pos = B.AND(c, at(s, "Pp"))
        c = B.AND(c, B.NOT(pos))
        self.predicate(s, s, 0, pos)
        if s + 1 <= N:
            self.predicate(s, s + 1, 1, B.AND(neg, at(s + 1, "Pp")))
        # numbers
        n = B.AND(c, B.OR(at(s, "+-"), B.AND(at(s, DIG), B.NOT(at(s + 1, "D")))))
        c = B.AND(c, B.NOT(n))
        self.number(s, n)
        # registers
        r = B.AND(c, at(s, "R"))
        c = B.AND(c, B.NOT(r))
        self.register(s, r)
        self.ident(s, s + 1, c)

    def predicate(self, s, p, neg, c):
        T, B, N = self.T, self.B, self.N
        at = lambda i, chars: T.isin(i, chars) if i <= N else 0
        nb = (neg,) + (0,) * 31
        ix = B.AND(c, B.AND(at(p + 1, "Tt" + DIG), at(p + 2, SEP)))
        t = B.AND(ix, at(p + 1, "Tt"))
        self.put("predicate", s, p + 2, t, (B.const(7, 32), nb))
        d = B.AND(ix, at(p + 1, "0123456"))
        self.put("predicate", s, p + 2, d, (tuple(T.c[p + 1][:4]) + (0,) * 28 if p + 1 <= N else B.const(0, 32), nb))
        # P7, P8, P9 are refused
        self.ident(s, p + 1, B.AND(c, B.NOT(ix)))

    def number(self, s, c):
        T, B, N = self.T, self.B, self.N
        run = DIG + "+-"
        e = s
        nohex = c
        withhex = 0
        while nohex != 0 or withhex != 0:
            d = T.isin(e, run)
            h = T.isin(e, "abcdefABCDEFxX")
            stop = B.AND(B.OR(nohex, withhex), B.NOT(B.OR(d, h)))
            if stop != 0:
                pt = T.isin(e, ".")
                self.integer(s, e, B.AND(stop, B.AND(B.NOT(pt), T.isin(e, SEP))))
                f = B.AND(B.AND(stop, nohex), pt)
                k = e + 1
                while f != 0:
                    dd = T.isin(k, DIG)
                    self.floating(s, k, B.AND(f, B.AND(B.NOT(dd), T.isin(k, SEP))))
                    f = B.AND(f, dd)
                    k += 1
            withhex = B.OR(B.AND(withhex, B.OR(d, h)), B.AND(nohex, h))
            nohex = B.AND(nohex, d)
            e += 1

    def integer(self, s, e, c):
        B = self.B
        if c == 0:
            return
        for cond, end, val, er in self.T.strtoll(s, 0):
            if end == e:
                self.put("immediate", s, e, B.AND(B.AND(c, cond), B.NOT(er)), (val,))

    def floating(self, s, e, c):
        B = self.B
        if c == 0:
            return
        for cond, end, val in self.T.strtof(s):
            if end == e:
                x = B.AND(c, cond)
                ok = 0
                for b in val[23:31]:
                    ok = B.OR(ok, B.NOT(b))
                self.put("float_immediate", s, e, B.AND(x, ok), (val,))

    def register(self, s, c):
        T, B, N = self.T, self.B, self.N
        z = B.AND(c, T.isin(s + 1, "Z"))
        if z != 0:
            self.put("regster", s, s + 2, B.AND(z, T.isin(s + 2, SEP)), (B.const(255, 8),))
        c = B.AND(c, B.NOT(z))
        # digits up to a separator
        k = s + 1
        run = c
        ok = 0
        while run != 0:
            d = T.isin(k, DIG) if k < N else 0
            stop = B.AND(run, B.AND(B.NOT(d), T.isin(k, SEP)))
            if k > s + 1 and stop != 0:
                ok = B.OR(ok, stop)
                for cond, end, val, er in T.strtoll(s + 1, 10):
                    if end == k:
                        x = B.AND(B.AND(stop, cond), B.vult(val, B.const(255, 64)))
                        self.put("regster", s, k, x, (val[:8],))
            run = B.AND(run, d)
            k += 1
        self.ident(s, s + 1, B.AND(c, B.NOT(ok)))


# ------------------------------------------------------------------ the scanner
class Scanner:
    def __init__(self, N, prefix=""):
        self.nx = nx = Nx(reference=False)
        self.I, self.B, self.D = nx.I, nx.B, nx.D
        self.N = N
        self.T = Text(self.I, N, prefix)
        I = self.I
        I.hooks.pop(A_TOKENIZE)
        I.max_visits = 100000
        I.glob["ERRNO"] = Obj(4, "errno", "undef", name="errno")
        I.hooks["@__errno_location"] = lambda I_, st, args, ins: [(st, Ptr("ERRNO", 0))]
        for n in ("strtoll", "__isoc23_strtoll", "strtol", "__isoc23_strtol"):
            I.hooks["@" + n] = self.m_strtoll
        I.hooks["@strtof"] = self.m_strtof
        self.zero = False

    def textptr(self, st, p):
        p = self.I.deref(st, p)
        if p.obj != "TEXT":
            raise Unsupported("conversion of something that is not the text")
        return p.off

    def m_strtoll(self, I, st, args, ins):
        q = self.textptr(st, args[0])
        base = I.const_of(st, args[2])
        if base not in (0, 8, 10, 16):
            raise Unsupported("conversion in base %s" % base)
        return self.convert(st, args[1], [(c, e, v, er) for c, e, v, er in self.T.strtoll(q, base)], q)

    def m_strtof(self, I, st, args, ins):
        q = self.textptr(st, args[0])
        alts = []
        for c, e, v in self.T.strtof(q):
            if e is None:
                if self.B.AND(c, st.pc) != 0:
                    st.event("conversion", I.where(), "a literal may be read as inf or nan")
                continue
            alts.append((c, e, v, None))
        return self.convert(st, args[1], alts, q)

    def convert(self, st, endp, alts, q):
        I, B = self.I, self.B
        endp = I.resolve(st, endp)
        out = []
        for c, e, v, er in alts:
            pc = B.AND(st.pc, c)
            if pc == 0:
                continue
            if B.AND(pc, B.NOT(self.T.full[max(e, q)])) != 0:
                st.event("overread", I.where(), "a literal is converted behind the end of the text")
            s = st.fork()
            s.pc = pc
            if endp != 0:
                I.put(s, I.deref(s, endp), 8, Ptr("TEXT", e))
            if er is None:
                # a finite literal is not a NaN
                mant = 0
                ex = 1
                for b in v[:23]:
                    mant = B.OR(mant, b)
                for b in v[23:31]:
                    ex = B.AND(ex, b)
                s.pc = B.AND(s.pc, B.NOT(B.AND(ex, mant)))
            elif er != 0:
                old = I.obj(s, "ERRNO").cells.get(0, (4, 0))[1]
                old = (0,) * 32 if old is UNDEF else I.bits(s, old, 32)
                I.put(s, Ptr("ERRNO", 0), 4, I.norm(B.vite(er, B.const(ERANGE, 32), old)))
            out.append((s, I.norm(tuple(v))))
        return out

    def start(self, assume=1, line="L", column="C"):
        nx, I, B = self.nx, self.I, self.B
        st = nx.new_state()
        c = I.new_obj(st, nx.lay["context"]["size"], "ctx", name="context")
        ctx = nx.make_ctx(st, 0)
        self.foff = {f[0]: f for f in nx.lay["context"]["fields"]}
        for f in nx.stream:
            if f[1] == nx.pos_off:
                I.put(st, Ptr(ctx.obj, f[1]), 8, Ptr("TEXT", 0))
            else:
                w = f[2] * 8
                I.put(st, Ptr(ctx.obj, f[1]), f[2], 0 if self.zero else B.bits("start.%s" % f[0], w))
        I.put(st, Ptr("ERRNO", 0), 4, B.bits("errno", 32))
        st.pc = assume
        return st, ctx

    def pos(self, st, ctx):
        c = self.I.obj(st, ctx.obj).cells.get(ctx.off + self.nx.pos_off)
        if c is None or type(c[1]) is not Ptr or c[1].obj != "TEXT":
            raise Unsupported("the read position is lost")
        return c[1].off
