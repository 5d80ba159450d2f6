"""context::tokenize against the lexical grammar (C11, C12, C19, C22)."""
from chars import DIG, Grammar, OPKIND, SEP, WS, Scanner
from interp import Ptr, UNDEF, Unsupported
from joins import ExactJoin, ExactReturns, NoProgress
from nxmodel import A_TOKENIZE

AGAIN = 0x41


class Lexer:
    """interprets tokenize over one family of texts and compares it with the grammar"""

    def __init__(self, r, props):
        self.r = r
        self.props = props

    def bad(self, props, where, text):
        if self.r.prop in props.split():
            self.r.bad(where, text)

    def family(self, name, N, assume=None, zero=True, cut=True):
        """every text of at most N characters for which assume holds"""
        r = self.r
        self.S = S = Scanner(N)
        S.zero = zero
        self.nx, self.I, self.B, self.D, self.T = S.nx, S.I, S.B, S.D, S.T
        I, B, D, T, nx = S.I, S.B, S.D, S.T, S.nx
        st, ctx = S.start()
        self.ctx = ctx
        a = 1 if assume is None else assume(T)
        st.pc = a
        tok = I.new_obj(st, D.tok_size, "token", name="token")
        filename = self.file_field(st, ctx)
        self.cut = []

        def again(I_, st, args, ins):
            """a recursive call: the rest of the text, from here"""
            p = S.pos(st, ctx)
            if p == 0 or I.deref(st, args[1]) != ctx:
                return NotImplemented
            self.cut.append((p, st.pc, self.position(st, ctx)))
            I.put(st, Ptr(I.deref(st, args[0]).obj, D.off["type"]), 4, AGAIN)
            return [(st, None)]

        if cut:
            I.hooks[A_TOKENIZE] = again
        try:
            with ExactJoin(I, lambda s: S.pos(s, ctx)), ExactReturns(I):
                res = I.call(st, A_TOKENIZE, [tok, ctx])
        except NoProgress as e:
            self.bad("C22", e.where, "a loop of the scanner does not read on (%s)" % e.fn)
            return
        r.count("families of texts")
        r.sample(name)
        r.count("paths of the scanner", len(res) + len(I.terminals))
        ev = list(I.log) + [e for s, _ in res for e in s.events()] + [e for s, _, _ in I.terminals for e in s.events()]
        self.events(ev)
        for s, kind, kw in I.terminals:
            if kind == "unreachable":
                continue
            if kind != "fatal":
                self.bad("C12 C10", kw.get("where", "tokenize"), "the scanner ends in %s (%s) on %s" % (kind, kw.get("why"), self.text(s.pc)))
                continue
            self.fatal_at(s, kw.get("at"), filename)
        acc = {}
        seen = 0
        for s, _ in res:
            self.leaf(acc, s, tok, ctx, filename)
        G = Grammar(T, D.kinds)
        if self.cut and cut:
            G.token = lambda p, c, t=G.token: (t(p, c) if p == 0 else G.put("again", p, p, c))
        G.token(0, a)
        self.judge(acc, G.out)

    def fatal_at(self, s, at, filename):
        """a refused token is reported where it starts (texts without labels)"""
        I, B, T = self.I, self.B, self.T
        if at is None:
            self.bad("C19", "tokenize", "%s is refused without a position" % self.text(s.pc))
            return
        self.r.count("refusals of the scanner whose position was compared")
        if at[0] != filename:
            self.bad("C19", "tokenize", "a refusal does not show the file name")
        if UNDEF in at:
            self.bad("C19 C12", "tokenize", "the position of a refused token is not set: %s" % self.text(s.pc))
            return
        lc = self.linecol()
        want = lc[T.N]
        care = s.pc
        for i in range(T.N - 1, -1, -1):
            sp = T.isin(i, WS)
            want = tuple(B.vite(sp, a, b) for a, b in zip(want, lc[i]))
            care = B.AND(care, B.NOT(T.isin(i, ":")))
        for nm, got, w in zip(("line", "column"), at[1:], want):
            got = I.bits(s, got, 32)
            d = 0
            for a, b in zip(got, w):
                d = B.OR(d, B.AND(care, B.XOR(a, b)))
            if d != 0:
                self.bad("C19", "tokenize", "the %s of the refused token in %s is wrong" % (nm, self.text(d)))

    # ------------------------------------------------------------- leaves
    def file_field(self, st, ctx):
        f = {x[0]: x for x in self.nx.lay["context"]["fields"]}.get("filename")
        if f is None:
            raise Unsupported("context has no field filename")
        return self.I.obj(st, ctx.obj).cells[f[1]][1]

    def position(self, s, ctx):
        I = self.I
        out = []
        f = {x[0]: x for x in self.nx.lay["context"]["fields"]}
        for nm in ("line", "column"):
            c = I.obj(s, ctx.obj).cells.get(f[nm][1])
            out.append(I.bits(s, c[1], 32))
        return tuple(out)

    def cell(self, s, o, off, size):
        from ir import IntTy
        v = self.I.load(s, Ptr(o.obj, off), IntTy(size * 8))
        return self.I.resolve(s, v)

    def leaf(self, acc, s, tok, ctx, filename):
        I, B, D = self.I, self.B, self.D
        e = self.S.pos(s, ctx)
        ty = self.cell(s, tok, D.off["type"], 4)
        if ty is UNDEF:
            self.bad("C11 C12", "tokenize", "the kind of a token is never set")
            return
        ty = I.bits(s, ty, 32)
        names = dict((v, k) for k, v in D.kinds.items())
        names[AGAIN] = "again"
        rest = s.pc
        for v, k in sorted(names.items()):
            c = B.AND(s.pc, B.veq(ty, B.const(v, 32)))
            if c == 0:
                continue
            rest = B.AND(rest, B.NOT(c))
            start = None
            data = ()
            if k == "again":
                start = e
            elif k == "identifier":
                d = D.off["data"]
                (o1, z1, _, _), (o2, z2, _, _) = D.slots[v]
                n, p = self.cell(s, tok, d + o1, 8), I.load(s, Ptr(tok.obj, d + o2), _ptr())
                p = I.resolve(s, p)
                if type(p) is not Ptr or p.obj != "TEXT" or type(n) is not int:
                    self.bad("C11 C13", "tokenize", "the text of an identifier is not part of the source: %s" % self.text(c))
                    continue
                start = p.off
                if p.off + n != e:
                    self.bad("C11", "tokenize", "an identifier of %d characters is read as %d: %s" % (e - p.off, n, self.text(c)))
                    continue
            elif v in D.slots:
                vals = []
                for off, size, _, _ in D.slots[v]:
                    x = self.cell(s, tok, D.off["data"] + off, size)
                    if x is UNDEF:
                        self.bad("C11 C12 C13", "tokenize", "the value of a token of kind %s is not set: %s" % (k, self.text(c)))
                        x = None
                    else:
                        x = I.bits(s, x, size * 8)
                    vals.append(x)
                if None in vals:
                    continue
                data = tuple(vals)
            if k != "again":
                fn = I.load(s, Ptr(tok.obj, D.off["filename"]), _ptr())
                if I.resolve(s, fn) != filename:
                    self.bad("C19", "tokenize", "the token does not carry the file name")
                where = tuple(I.bits(s, self.cell(s, tok, D.off[x], 4), 32) for x in ("line", "column"))
            else:
                where = ()
            self.put(acc, (k, start, e), c, data, where, self.position(s, ctx))
        if rest != 0:
            self.bad("C11 C13", "tokenize", "a token of no kind is returned: %s" % self.text(rest))

    def put(self, acc, key, c, *vecs):
        B = self.B
        flat = tuple(x for v in vecs for x in v)
        if key in acc:
            c0, f0 = acc[key]
            if B.AND(c0, c) != 0:
                raise Unsupported("overlapping paths")
            acc[key] = (B.OR(c0, c), tuple(B.vite(c0, a, b) for a, b in zip(f0, flat)))
        else:
            acc[key] = (c, flat)

    # -------------------------------------------------------------- judge
    def linecol(self):
        """position before every character"""
        B, T = self.B, self.T
        if self.S.zero:
            l, c = B.const(0, 32), B.const(0, 32)
        else:
            l, c = B.bits("start.line", 32), B.bits("start.column", 32)
        out = [(l, c)]
        for i in range(T.N):
            nl, tab = T.isin(i, "\n"), T.isin(i, "\t")
            l2 = B.vite(nl, B.vadd(l, B.const(1, 32))[0], l)
            c2 = B.vite(nl, B.const(0, 32), B.vite(tab, B.vadd(c, B.const(4, 32))[0], B.vadd(c, B.const(1, 32))[0]))
            l, c = l2, c2
            out.append((l, c))
        return out

    def judge(self, acc, want):
        I, B, r = self.I, self.B, self.r
        lc = self.linecol()
        exp = {}
        for (k, s, e), (c, data) in want.items():
            if k == "float_immediate":
                data = (I.bits(None, I.fconv(_st(), "fpext", data[0], 32, 64), 64),)
            where = () if k == "again" else lc[s]
            self.put(exp, (k, s if k in ("identifier", "again") else None, e), c, data, where, lc[e])
        for key in sorted(set(acc) | set(exp), key=str):
            r.count("kinds x lengths of tokens compared with the grammar")
            k = key[0]
            a, b = acc.get(key, (0, None)), exp.get(key, (0, None))
            nm = "a skipped label" if k == "again" else "%s token" % k
            x = B.AND(a[0], B.NOT(b[0]))
            if x != 0:
                self.bad("C11", "tokenize", "%s is read as %s%s, which it is not" % (self.text(x), nm, self.slice(key)))
            x = B.AND(b[0], B.NOT(a[0]))
            if x != 0:
                self.bad("C11", "tokenize", "%s is not read as %s%s" % (self.text(x), nm, self.slice(key)))
            c = B.AND(a[0], b[0])
            if c == 0:
                continue
            n = len(a[1])
            npos = 2 if k == "again" else 4
            for i, (u, v) in enumerate(zip(a[1], b[1])):
                d = 0
                for p, q in zip(u, v):
                    d = B.OR(d, B.AND(c, B.XOR(p, q)))
                if d == 0:
                    continue
                if i < n - npos:
                    self.bad("C11", "tokenize", "the value of the %s in %s is wrong" % (nm, self.text(d)))
                elif i < n - 2:
                    self.bad("C19", "tokenize", "the %s of the token in %s is wrong" % (("line", "column")[i - (n - 4)], self.text(d)))
                else:
                    self.bad("C19", "tokenize", "the %s after the token in %s is wrong" % (("line", "column")[i - (n - 2)], self.text(d)))

    def slice(self, key):
        return " of %d characters" % (key[2] - key[1]) if key[0] == "identifier" else " ending at character %d" % key[2]

    def text(self, c):
        """a text for which c holds"""
        B = self.B
        a = B.pick(c) or {}
        val = {}
        for lv, v in (a.items() if isinstance(a, dict) else a):
            nm, bit = B.atom_of(lv)
            if nm[:1] == "c" and nm[1:].isdigit():
                val.setdefault(int(nm[1:]), {})[bit] = v
        out = bytearray()
        n = len(self.T.prefix)
        if n:
            out += b"(%d characters)" % n
        for i in range(n, self.T.N):
            ch = sum(v << b for b, v in val.get(i, {}).items())
            if ch == 0:
                if i in val:
                    break
                ch = 32
            out.append(ch)
        return repr(bytes(out))[1:]

    def events(self, evs):
        for e in evs:
            if e[0] in ("overread", "oob", "uaf", "nullderef", "uninit", "badshift", "constwrite"):
                self.bad("C12 C14" if e[0] in ("uninit", "constwrite") else "C12", e[1], "%s: %s" % (e[0], e[2]))
            elif e[0] == "filename":
                self.bad("C14", e[1], e[2])
            elif e[0] == "msgarg":
                self.bad("C18", e[1], e[2])
            elif e[0] == "assert":
                if any(c != 0 for c in e[2]):
                    self.bad("C11 C10", e[1], "an assertion of the scanner can fail on %s" % self.text([c for c in e[2] if c != 0][0]))
            elif e[0] == "conversion":
                self.bad("C11", e[1], e[2])


def _ptr():
    from ir import PTR
    return PTR


def _st():
    from interp import State
    return State()


# ------------------------------------------------------------------ families
def no_space(T):
    return T.B.NOT(T.isin(0, WS))


def only(chars, first=None, tail=None):
    """texts whose characters are all among the given"""
    def f(T):
        c = 1
        for i in range(T.N):
            s = first if i == 0 and first else chars
            c = T.B.AND(c, T.isin(i, s + "\0" if i else s))
        return c
    return f


def families(tier):
    num = DIG + "+-"
    q = [("any text of 4 characters", 4, None, True, False),
         ("any text of 3 characters, from any line and column", 3, None, False, True),
         ("texts of 8 characters without leading space", 8, no_space, True, True),
         ("integers of 22 digits", 22, only(DIG, first=num), True, True),
         ("hexadecimal literals of 20 characters", 20, only("09aFx", first="0"), True, True),
         ("floating-point literals of 14 characters", 14, only("019.", first=DIG + "-"), True, True),
         ("identifiers and labels of 40 characters", 40, only("AxP0_#:;", first="AxP._#"), True, True),
         ("white space of 24 characters", 24, only(WS), True, True),
         ("registers of 24 characters", 24, only(DIG + ";", first="R"), True, True)]
    if tier != "quick":
        q += [("any text of 5 characters", 5, None, True, False),
              ("texts of 12 characters without leading space", 12, no_space, True, True),
              ("identifiers and labels of 100 characters", 100, only("AxP0_#:;", first="AxP._#"), True, True),
              ("floating-point literals of 22 characters", 22, only("019.", first=DIG + "-"), True, True),
              ("white space of 64 characters", 64, only(WS), True, True)]
    return q


def tasks(tier):
    return [lambda r, a=a: Lexer(r, None).family(*a) for a in families(tier)]
