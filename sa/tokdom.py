"""The token domain: symbolic tokens, their payloads and identifier text.

An identifier's text is an element of a finite alphabet: every identifier-like
string literal of the module (with and without a leading dot), near misses of
each (one character more, one fewer, other case) and representatives for
anything else.  The element is an unknown index of IDX bits, so a set of texts
is a Boolean function like everything else.
"""
import re

from interp import Agg, Die, Maybe, NeedSplit, Obj, Ptr, TokRaw, Undef, UNDEF, Unsupported, MASK

IDX = 12


def literal_pool(interp, extra=()):
    """identifier-like NUL-terminated strings in the module's constant data"""
    pool = set()
    for name, g in interp.mod.globals.items():
        if g.external:
            continue
        ty = g.ty
        if g.init and g.init[0] == "bytes":
            pool.update(_runs(g.init[1]))
        elif g.init and g.init[0] == "agg":
            _agg(g.init, pool)
    pool.update(extra)
    return {s for s in pool if re.fullmatch(r"[.]?[A-Za-z0-9_]{1,40}", s)}


def _runs(b):
    return [x.decode("latin-1") for x in b.split(b"\0") if x and all(32 <= c < 127 for c in x)]


def _agg(v, pool):
    for e in v[2]:
        if e[0] == "bytes":
            pool.update(_runs(e[1]))
        elif e[0] == "agg":
            _agg(e, pool)


class TokDom:
    def __init__(self, interp, layout, literals):
        self.I = interp
        self.B = interp.B
        self.lay = layout
        tf = {f[0]: f for f in layout["token"]["fields"]}
        need = ("data", "type", "line", "column", "filename")
        for n in need:
            if n not in tf:
                raise Unsupported("struct token has no field %s" % n)
        self.off = {n: tf[n][1] for n in tf}
        self.tok_size = layout["token"]["size"]
        self.kinds = layout["enums"].get("token_type")
        if not self.kinds:
            raise Unsupported("enum token_type not found")
        for k in ("identifier", "regster", "predicate", "immediate", "float_immediate", "none", "at",
                  "semicolon"):
            if k not in self.kinds:
                raise Unsupported("token_type::%s not found" % k)
        self.kname = {v: k for k, v in self.kinds.items()}
        # payload slots per kind: (offset in data, size, suffix, bits)
        uf = {f[0]: f for f in layout["token_data"]["fields"]}
        pf = {f[0]: f for f in layout["token_predicate"]["fields"]}
        self.slots = {}
        d = self.off["data"]
        K = self.kinds
        self.slots[K["regster"]] = [(uf["regster"][1], uf["regster"][2], "reg", 8)]
        self.slots[K["immediate"]] = [(uf["immediate"][1], uf["immediate"][2], "imm", 64)]
        self.slots[K["float_immediate"]] = [(uf["float_immediate"][1], uf["float_immediate"][2], "flt", 64)]
        p0 = uf["predicate"][1]
        self.slots[K["predicate"]] = [(p0 + pf["index"][1], pf["index"][2], "pidx", 3),
                                      (p0 + pf["negated"][1], pf["negated"][2], "pneg", 1)]
        s0 = uf["string"][1]
        self.slots[K["identifier"]] = [(s0, 8, "len", 64), (s0 + 8, 8, "ptr", 64)]
        self.data_size = layout["token_data"]["size"]
        self.literals = literals
        self._alphabet(literals)
        self._memo = {}

    # ------------------------------------------------------------ alphabet
    def _alphabet(self, lits):
        base = set()
        for l in lits:
            b = l[1:] if l.startswith(".") else l
            base.add(b)
        al = set()
        for b in base:
            al.add(b)
            al.add("." + b)
        near = set()
        for b in base:
            for pre in ("", "."):
                near.add(pre + b + "X")
                if len(b) > 1:
                    near.add(pre + b[:-1])
            if b != b.lower() and len(b) <= 6:
                near.add("." + b.lower())
        special = [".", "zz_other", ".zz_other"]
        order = special + sorted(al) + sorted(near - al)
        lim = 1 << IDX
        if len(special) + len(al) > lim:
            raise Unsupported("alphabet too large: %d" % len(al))
        self.alpha = order[:lim]
        self.index = {s: i for i, s in enumerate(self.alpha)}
        self.nreal = len(self.alpha)

    def sbits(self, k):
        return self.B.bits("t%s.str" % k, IDX)

    def minterm(self, k, i):
        key = ("m", k, i)
        r = self._memo.get(key)
        if r is None:
            B = self.B
            r = 1
            bits = self.sbits(k)
            for b in range(IDX):
                r = B.AND(r, bits[b] if i >> b & 1 else B.NOT(bits[b]))
            self._memo[key] = r
        return r

    def strset(self, k, idxs):
        """Boolean function: text of token k is one of the given elements"""
        idxs = tuple(sorted(idxs))
        key = ("s", k, idxs)
        r = self._memo.get(key)
        if r is None:
            if len(idxs) <= 24:
                r = 0
                for i in idxs:
                    r = self.B.OR(r, self.minterm(k, i))
            else:
                f = bytearray(1 << IDX)
                for i in idxs:
                    f[i] = 1
                r = self._build(k, f)
            self._memo[key] = r
        return r

    def strvals(self, k, f):
        """elements i for which f (over the text of token k only) holds"""
        B = self.B
        bits = self.sbits(k)
        lv = {B.level[b]: j for j, b in enumerate(bits)}
        out = []

        def rec(a, val, care):
            if a == 0:
                return
            if a == 1:
                free = [j for j in range(IDX) if not care >> j & 1]
                for c in range(1 << len(free)):
                    v = val
                    for n, j in enumerate(free):
                        if c >> n & 1:
                            v |= 1 << j
                    if v < self.nreal:
                        out.append(v)
                return
            j = lv[B.level[a]]
            rec(B.lo[a], val, care | 1 << j)
            rec(B.hi[a], val | 1 << j, care | 1 << j)

        rec(f, 0, 0)
        return sorted(out)

    def _build(self, k, arr):
        B = self.B
        bits = self.sbits(k)
        lv = [B.level[b] for b in bits]
        cur = [int(x) for x in arr]
        for b in range(IDX):  # collapse LSB first
            l = lv[b]
            cur = [B.mk(l, cur[2 * i], cur[2 * i + 1]) for i in range(len(cur) // 2)]
        return cur[0]

    def func(self, k, key, f, width):
        """vector of Boolean functions giving f(element text) as an integer"""
        kk = ("f", k, key, width)
        r = self._memo.get(kk)
        if r is None:
            vals = [f(s) for s in self.alpha]
            vals += [0] * ((1 << IDX) - len(vals))
            out = []
            for b in range(width):
                arr = [(v >> b) & 1 for v in vals]
                if not any(arr):
                    out.append(0)
                else:
                    out.append(self._build(k, arr))
            r = tuple(out)
            self._memo[kk] = r
        return r

    def valid(self, k):
        """atoms of token k describe a possible token"""
        key = ("valid", k)
        r = self._memo.get(key)
        if r is None:
            B = self.B
            kb = self.kbits(k)
            r = 0
            for v in self.kname:
                r = B.OR(r, B.veq(kb, B.const(v, 4)))
            # the text index is meaningful only for identifiers; keep it in range always
            if self.nreal < (1 << IDX):
                r = B.AND(r, B.vult(self.sbits(k), B.const(self.nreal, IDX)))
            self._memo[key] = r
        return r

    def kbits(self, k):
        return self.B.bits("t%s.kind" % k, 4)

    def is_kind(self, k, kind):
        if isinstance(kind, str):
            kind = self.kinds[kind]
        return self.B.veq(self.kbits(k), self.B.const(kind, 4))

    def kinds_under(self, pc, k):
        out = []
        for v in self.kname:
            if self.B.AND(pc, self.is_kind(k, v)) != 0:
                out.append(v)
        return out

    # ------------------------------------------------------------- tokens
    def admit(self, st, k):
        if k not in st.tokens:
            st.tokens = st.tokens | {k}
            st.pc = self.B.AND(st.pc, self.valid(k))

    def write_token(self, I, st, p, k):
        """write symbolic token k to the object at p"""
        self.admit(st, k)
        o = I.wobj(st, p.obj)
        base = p.off
        I._clear(st, o, base, self.tok_size)
        o.cells.pop(base, None)
        for s in range(base, base + self.tok_size):
            o.cells.pop(s, None)
        d = base + self.off["data"]
        o.cells[base + self.off["filename"]] = (8, Ptr("FILENAME", 0))
        for i in range(0, self.data_size, 8):
            o.cells[d + i] = (8, TokRaw(k, i, 8))
        o.cells[base + self.off["type"]] = (4, self.kbits(k) + (0,) * 28)
        o.cells[base + self.off["line"]] = (4, self.B.bits("t%s.line" % k, 32))
        o.cells[base + self.off["column"]] = (4, self.B.bits("t%s.column" % k, 32))

    def token_at(self, I, st, p):
        """which symbolic token does the object at p hold?  (None if not one)"""
        o = I.obj(st, p.obj)
        c = o.cells.get(p.off + self.off["type"])
        if c is None or type(c[1]) is not tuple:
            return None
        nm = I.symname(c[1][:4])
        if nm is None or not nm.endswith(".kind"):
            return None
        return nm[1:-5]

    def resolve(self, I, st, v):
        ks = self.kinds_under(st.pc, v.k)
        if len(ks) == 1:
            for off, size, suf, bits in self.slots.get(ks[0], ()):
                if off == v.off and size <= v.size:
                    if size < v.size:
                        # wider load than the member: upper bytes were never set
                        st.event("kind", I.where(), "payload of a %s token read as %d bytes" % (
                            self.kname[ks[0]], v.size))
                        return I.fresh("undef", v.size * 8)
                    if suf == "len":
                        return self.func(v.k, ("len", 0), lambda s: len(s), 64)
                    if suf == "ptr":
                        return Ptr(("tokstr", v.k), 0)
                    if suf == "flt":
                        return self.literal(I, st, v.k)
                    b = self.B.bits("t%s.%s" % (v.k, suf), bits)
                    return b + (0,) * (size * 8 - bits)
                if off == v.off and size > v.size and suf in ("imm", "pidx", "pneg", "reg"):
                    b = self.B.bits("t%s.%s" % (v.k, suf), bits) + (0,) * (size * 8 - bits)
                    return b[:v.size * 8]
        names = sorted(self.kname[x] for x in ks)
        st.event("kind", I.where(), "payload bytes %d..%d of a token that can be %s are used" % (
            v.off, v.off + v.size, "/".join(names)))
        return I.fresh("undef", v.size * 8)

    def literal(self, I, st, k):
        """a floating-point literal: a finite single-precision number held in a double"""
        f = self.B.bits("t%s.f32" % k, 32)
        st.pc = self.B.AND(st.pc, self.B.NOT(I.all1(f[23:31])))
        return I.fconv(st, "fpext", f, 32, 64)

    # ------------------------------------------------------- token text
    def obj_hook(self, I):
        """make ('tokstr', k) objects available"""
        orig = I.obj

        def obj(st, oid):
            if type(oid) is tuple and oid and oid[0] == "tokstr":
                o = I.glob.get(oid)
                if o is None:
                    o = Obj(None, "tokstr", name=oid)
                    o.name = oid[1]
                    I.glob[oid] = o
                return o
            return orig(st, oid)

        I.obj = obj

    def char(self, I, st, o, off, size):
        if size != 1:
            raise Unsupported("wide read of token text")
        k = o.name
        # one past the end is the separator that ended the identifier
        return I.norm(self.func(k, ("char", off), lambda s: ord(s[off]) if 0 <= off < len(s) else 0x20, 8))

    def text_of(self, I, st, p, n):
        """(k, key, g) such that g(element) is the text at p of length n; n may be unknown"""
        k = I.obj(st, p.obj).name
        off = p.off
        if type(off) is not int:
            raise Unsupported("symbolic offset into token text")
        if type(n) is int:
            return k, ("const", off, n), lambda s: s[off:off + n]
        full = self.func(k, ("len", 0), lambda s: len(s), 64)
        suf = full if off == 0 else self.sub_len(I, st, k, off)
        if n == full and off == 0 or n == suf:
            return k, ("suffix", off), lambda s: s[off:]
        # generic: evaluate n for every element
        bits = I.bits(st, n, 64)
        for b in bits:
            for nm in self.B.support_syms(b):
                if nm != "t%s.str" % k:
                    raise Unsupported("length of text depends on %s" % nm)
        vals = {}
        for i, s in enumerate(self.alpha):
            assign = {self.B.level[b]: (i >> j) & 1 for j, b in enumerate(self.sbits(k))}
            v = 0
            for j, b in enumerate(bits):
                if b > 1:
                    b = self.B.restrict(b, assign)
                v |= b << j
            vals[s] = v
        return k, ("gen", off, bits), lambda s: s[off:off + vals[s]]

    def sub_len(self, I, st, k, off):
        full = self.func(k, ("len", 0), lambda s: len(s), 64)
        return I.binop(st, "sub", full, off, 64)

    def compare(self, I, st, pa, na, pb, nb, eqonly=False):
        """three-way comparison of two character ranges, at least one of token text"""
        oa, ob = I.obj(st, pa.obj), I.obj(st, pb.obj)
        sign = 1
        if oa.kind != "tokstr":
            pa, na, pb, nb = pb, nb, pa, na
            oa, ob = ob, oa
            sign = -1
        if ob.kind == "tokstr":
            if oa.name != ob.name:
                raise Unsupported("comparison of two tokens' text")
            raise Unsupported("comparison of a token's text with itself")
        n = I.const_of(st, nb)
        lit = bytes(I.const_of(st, I.load(st, Ptr(pb.obj, pb.off + i), I.I8)) for i in range(n)).decode("latin-1")
        k, key, g = self.text_of(I, st, pa, na)
        eq = self.eqset(k, key, g, lit)
        if st.x is not None and str(k).isdigit() and int(k) < 200:
            st.x["eq"] = eq
        lt = self.B.bits("cmp(%s,%r,%r)" % (k, key if len(repr(key)) < 60 else hash(key), lit), 1)[0]
        ne = self.B.NOT(eq)
        # result: 0 if equal, otherwise +-1 with unknown sign
        return I.norm((ne,) + (self.B.AND(ne, lt),) * 31)

    def eqset(self, k, key, g, lit):
        kk = ("eq", k, key, lit)
        r = self._memo.get(kk)
        if r is None:
            inv = self._memo.get(("inv", key))
            if inv is None:
                inv = {}
                for i, s in enumerate(self.alpha):
                    inv.setdefault(g(s), []).append(i)
                self._memo[("inv", key)] = inv
            r = self.strset(k, inv.get(lit, []))
            self._memo[kk] = r
        return r

    def memcmp(self, I, st, name, a, b, n):
        if name in ("strcmp", "strncmp"):
            # compare with the terminator/length semantics of C strings
            ka = I.obj(st, a.obj).kind
            tok, lit = (a, b) if ka == "tokstr" else (b, a)
            l = I.cstring(st, lit).decode("latin-1")
            if name == "strcmp":
                # token text is not NUL terminated: a C-string comparison runs past it
                st.event("overread", I.where(), "token text used as a NUL-terminated string")
                return I.fresh("strcmp", 32)
            c = I.const_of(st, n)
            k, key, g = self.text_of(I, st, tok, c)
            want = l[:c]
            if len(want) < c:
                st.event("overread", I.where(), "token text compared past its end")
                return I.fresh("strncmp", 32)
            eq = self.eqset(k, key, g, want)
            return I.norm((self.B.NOT(eq),) + (0,) * 31)
        na = n
        ka, kb = I.obj(st, a.obj).kind, I.obj(st, b.obj).kind
        tok, lit = (a, b) if ka == "tokstr" else (b, a)
        if type(n) is int:
            return self.compare(I, st, tok, n, lit, n)
        # unknown length: equal iff the literal starts with the text (length n)
        c = I.bits(st, n, 64)
        o = I.obj(st, lit.obj)
        k, key, g = self.text_of(I, st, tok, n)
        inv = {}
        idx = []
        body = {}

        def litn(m):
            if m not in body:
                body[m] = bytes(I.const_of(st, I.load(st, Ptr(lit.obj, lit.off + i), I.I8))
                                for i in range(m)).decode("latin-1") if o.size is None or lit.off + m <= o.size else None
            return body[m]

        for i, s in enumerate(self.alpha):
            t = g(s)
            if litn(len(t)) == t:
                idx.append(i)
        eq = self.strset(k, idx)
        return I.norm((self.B.NOT(eq),) + (0,) * 31)


# ------------------------------------------------------------ library models
def install_string_models(I, D):
    SV = "_ZNKSt17basic_string_viewIcSt11char_traitsIcEE"

    def sv_of(st, p):
        from ir import IntTy, PTR
        p = I.deref(st, p)
        n = I.resolve(st, I.load(st, p, IntTy(64)))
        q = I.resolve(st, I.load(st, Ptr(p.obj, p.off + 8), PTR))
        return q, n

    def has_tok(st, *ps):
        for p in ps:
            if type(p) is Ptr and I.obj(st, p.obj).kind == "tokstr":
                return True
        return False

    def cmp_cstr(I_, st, args, ins):
        q, n = sv_of(st, args[0])
        r = I.resolve(st, args[1])
        if not has_tok(st, q, r):
            return NotImplemented
        return [(st, D.compare(I, st, q, n, r, len(I.cstring(st, r))))]

    def cmp_sv(I_, st, args, ins):
        q, n = sv_of(st, args[0])
        n2, r = I.resolve(st, args[1]), I.resolve(st, args[2])
        if not has_tok(st, q, r):
            return NotImplemented
        return [(st, D.compare(I, st, q, n, r, n2))]

    def eq_sv(I_, st, args, ins):
        n1, q, n2, r = [I.resolve(st, a) for a in args]
        if not has_tok(st, q, r):
            return NotImplemented
        v = D.compare(I, st, q, n1, r, n2)
        b = I.bits(st, v, 32)[0]
        return [(st, I.norm((I.B.NOT(b),)))]

    I.hooks["@" + SV + "7compareEPKc"] = cmp_cstr
    I.hooks["@" + SV + "7compareES2_"] = cmp_sv
    I.pattern_hooks.append((lambda n: n.startswith("@_ZSteqIcSt11char_traitsIcEEbSt17basic_string_viewIT_T0_E"), eq_sv))
