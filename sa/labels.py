"""Labels: which are defined where, and what a reference finds (C08)."""
import re

from chars import DIG, Scanner
from interp import Agg, Die, Obj, Ptr, UNDEF, Unsupported
from ir import IntTy, PTR
from joins import ExactJoin, ExactReturns, NoProgress
from nxmodel import A_FINDLABEL

ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
WORD = ALPHA + DIG + "_"
MAPS = re.compile(r"@_ZNK?St(13unordered_map|3map)I")


class MapModel:
    """std::unordered_map / std::map from text to integer, as a set of possible entries

    An entry is known by the part of the text its key was copied from.  `entries` is an
    object with two cells per entry: present, and value.
    """

    def __init__(self, S):
        self.S, self.I, self.B, self.T = S, S.I, S.B, S.T
        self.I.pattern_hooks.insert(0, (lambda n: MAPS.match(n) is not None, self.op))
        self.I._ph_cache.clear()
        self.lookup = None
        self.ops = 0

    def start(self, st):
        p = self.I.new_obj(st, None, "map", name="labels")
        self.map = p.obj
        return p

    # ------------------------------------------------------------------ keys
    def string(self, st, p):
        """(start, length) in the text of the std::string at p"""
        I = self.I
        p = I.deref(st, p)
        b = I.deref(st, I.load(st, p, PTR))
        n = I.const_of(st, I.load(st, Ptr(p.obj, p.off + 8), IntTy(64)))
        return self.slice(st, b, n)

    def slice(self, st, b, n):
        I, T = self.I, self.T
        if n == 0:
            return (0, 0)
        if b.obj == "TEXT":
            return (b.off, n)
        first = None
        for i in range(n):
            v = I.load(st, Ptr(b.obj, b.off + i), IntTy(8))
            if v is UNDEF:
                I.undef_use(st, "key of a map")
                raise Die("undef")
            v = tuple(I.bits(st, v, 8))
            if first is None:
                first = [s for s in range(T.N) if tuple(T.c[s]) == v]
            first = [s for s in first if s + i < T.N and tuple(T.c[s + i]) == v]
        if not first:
            raise Unsupported("the key of a map is not a part of the text at %s" % I.where())
        return (first[0], n)

    def key(self, st, name, p, mangled):
        """key argument: string or string_view by reference"""
        return self.string(st, p)

    # --------------------------------------------------------------- entries
    def off(self, k):
        return (k[0] * 4096 + k[1]) * 16

    def cells(self, st):
        return self.I.obj(st, self.map).cells

    def entries(self, st):
        """[(start, length, present, value)]"""
        out = []
        c = self.cells(st)
        for off in sorted(c):
            if off % 16 == 0:
                s, n = divmod(off // 16, 4096)
                out.append((s, n, self.I.bits(st, c[off][1], 8)[0], self.I.bits(st, c.get(off + 8, (8, 0))[1], 64)))
        return out

    def same(self, r, a, b, n):
        """r, and the n characters from a and from b are equal"""
        B, T = self.B, self.T
        for i in range(n):
            r = B.AND(r, B.veq(T.c[a + i], T.c[b + i]))
            if r == 0:
                break
        return r

    def find(self, st, k):
        """(condition that the key is there, value)"""
        B = self.B
        if self.lookup is not None:
            return self.lookup(k)
        have, val = 0, (0,) * 64
        for s, n, p, v in self.entries(st):
            if n != k[1] or p == 0:
                continue
            c = self.same(B.AND(p, st.pc), s, k[0], n)
            if c != 0:
                val = B.vite(c, v, val)
                have = B.OR(have, c)
        return have, val

    def add(self, st, k, value):
        c = self.I.wobj(st, self.map).cells
        o = self.off(k)
        c[o] = (1, 1)
        c[o + 8] = (8, value)

    def split(self, st, have):
        """[(state, there?)]"""
        B = self.B
        out = []
        for t, c in ((1, B.AND(st.pc, have)), (0, B.AND(st.pc, B.NOT(have)))):
            if c != 0:
                s = st.fork()
                s.pc = c
                out.append((s, t))
        return out

    def node(self, st, name, k, v):
        """what an iterator to an entry points at"""
        I = self.I
        base = 32 if "St3map" in name else 8
        n = I.new_obj(st, base + 48, "node", name="label")
        I.put(st, Ptr(n.obj, base + 32), 8, I.norm(tuple(v)) if type(v) is tuple else v)
        return n

    # ------------------------------------------------------------ operations
    def op(self, I, st, args, ins):
        name = ins.a[0][1]
        self.ops += 1
        m = re.search(r"EE(C[12]|D[12]|aS)E?(.*)$", name)
        meth = re.search(r"EEE?(\d+)([a-z_]+)", name)
        short = None
        for x in re.finditer(r"(\d+)(insert_or_assign|try_emplace|emplace|insert|find|contains|count|end|cend|at|reserve|clear|size|empty)(?=I|E)", name):
            if int(x.group(1)) == len(x.group(2)):
                short = x.group(2)
        if short is None and re.search(r"EEEixE", name):
            short = "index"
        if short is None:
            if m:
                return self.special(st, m.group(1), args)
            raise Unsupported("map operation %s" % name)
        if short in ("end", "cend"):
            return [(st, 0)]
        if short == "reserve":
            return [(st, None)]
        if short in ("find", "contains", "count", "at"):
            k = self.key(st, name, args[1], name)
            have, v = self.find(st, k)
            if short in ("contains", "count"):
                w = 1 if short == "contains" else 64
                return [(st, I.norm((have,) + (0,) * (w - 1)))]
            out = []
            for s, t in self.split(st, have):
                if short == "at":
                    if not t:
                        s.event("throw", I.where(), "a label that is not there is accessed")
                        I.terminals.append((s, "throw", {"where": I.where(), "why": "map::at"}))
                        continue
                    n = self.node(s, name, k, v)
                    out.append((s, Ptr(n.obj, n.off + (64 if "St3map" in name else 40))))
                else:
                    out.append((s, self.node(s, name, k, v) if t else 0))
            return out
        if self.lookup is not None:
            raise Unsupported("the label map is changed while a label is looked up")
        if short == "index":
            k = self.key(st, name, args[1], name)
            have, v = self.find(st, k)
            if have != 0:
                st.event("dupkey", I.where(), "an entry may be overwritten")
            self.add(st, k, 0)
            return [(st, Ptr(self.map, self.off(k) + 8))]
        if short == "insert":
            if len(args) != 2:
                raise Unsupported("map operation %s" % name)
            p = I.deref(st, args[1])
            k = self.string(st, p)
            val = I.load(st, Ptr(p.obj, p.off + 32), IntTy(64))
        else:
            k = self.key(st, name, args[1], name)
            vt = re.search(r"J(.*?)EE", name)
            q = I.deref(st, args[2])
            wide = 32 if re.search(r"(RK?i|OKi|i)E", name) and not re.search(r"R?K?lE", name) else 64
            val = I.load(st, q, IntTy(wide))
            if wide == 32:
                b = I.bits(st, val, 32)
                val = I.norm(tuple(b) + (b[31],) * 32)
        if val is UNDEF:
            I.undef_use(st, "value of a map")
            raise Die("undef")
        have, old = self.find(st, k)
        out = []
        for s, t in self.split(st, have):
            if not t:
                self.add(s, k, val)
            elif short == "insert_or_assign":
                s.event("dupkey", I.where(), "an entry is overwritten")
                self.add(s, k, val)
            if t:
                it = self.node(s, name, k, old)
            else:
                # an iterator points into the map itself
                it = Ptr(self.map, self.off(k) + 8 - (64 if "St3map" in name else 40))
            out.append((s, Agg([it, 0 if t else 1])))
        return out

    def special(self, st, what, args):
        I = self.I
        if what in ("C1", "C2"):
            I.put(st, I.deref(st, args[0]), 56, "labels")
            return [(st, None)]
        if what in ("D1", "D2"):
            return [(st, None)]
        return [(st, args[0])]


class Labels:
    def __init__(self, r):
        self.r = r

    def ctor(self, mod):
        for n in ("@_ZN7contextC1EPKcS1_", "@_ZN7contextC2EPKcS1_"):
            if mod.fn(n) is not None:
                return n
        raise Unsupported("the constructor of context is not found")

    def family(self, name, N, assume=None, prefix=""):
        r = self.r
        S = Scanner(N, prefix)
        nx, I, B, T = S.nx, S.I, S.B, S.T
        M = MapModel(S)
        st = nx.new_state()
        M.start(st)
        size = nx.lay["context"]["size"]
        ctx = I.new_obj(st, size, "ctx", name="context")
        fname = I.new_obj(st, 8, "heap", name="filename", zero=True)
        a = 1 if assume is None else assume(T)
        st.pc = a

        def pos(s):
            c = I.obj(s, ctx.obj).cells.get(nx.pos_off)
            return c[1].off if c is not None and type(c[1]) is Ptr and c[1].obj == "TEXT" else -1

        try:
            with ExactJoin(I, pos), ExactReturns(I):
                res = I.call(st, self.ctor(nx.mod), [ctx, fname, Ptr("TEXT", 0)])
        except NoProgress as e:
            if r.prop == "C22":
                r.bad(e.where, "a loop of the label reader does not read on (%s)" % e.fn)
            return
        r.count("families of texts read for labels")
        r.count("paths of the label reader", len(res) + len(I.terminals))
        r.sample(name)
        self.S, self.T, self.B, self.I = S, T, B, I
        evs = [e for s, _ in res for e in s.events()] + [e for s, _, _ in I.terminals for e in s.events()] + list(I.log)
        for e in evs:
            if e[0] in ("overread", "oob", "uaf", "nullderef", "uninit", "badshift", "constwrite"):
                self.bad("C12 C14" if e[0] in ("uninit", "constwrite") else "C12", e[1], "%s: %s" % (e[0], e[2]))
            elif e[0] == "filename":
                self.bad("C14", e[1], e[2])
            elif e[0] == "msgarg":
                self.bad("C18", e[1], e[2])
            elif e[0] == "assert" and any(c != 0 for c in e[2]):
                self.bad("C08 C10", e[1], "an assertion of the label reader can fail on %s" % self.text([c for c in e[2] if c != 0][0]))
        want, dup = self.spec(a)
        done = 0
        have = {}
        for s, _ in res:
            done = B.OR(done, s.pc)
            self.after(s, ctx)
            for st0, n, p, v in M.entries(s):
                c = B.AND(s.pc, p)
                if c == 0:
                    continue
                o = have.get((st0, n))
                have[(st0, n)] = (c, v) if o is None else (B.OR(o[0], c), B.vite(o[0], o[1], v))
        died = 0
        for s, kind, kw in I.terminals:
            if kind == "unreachable":
                continue
            if kind != "fatal":
                self.bad("C08 C12", kw.get("where", "generate_labels"), "the label reader ends in %s (%s) on %s" % (kind, kw.get("why"), self.text(s.pc)))
                continue
            died = B.OR(died, s.pc)
            self.fatal_at(s, kw.get("at"), fname)
        x = B.AND(died, B.NOT(dup))
        if x != 0:
            self.bad("C08", "generate_labels", "the labels of %s are refused although none is defined twice" % self.text(x))
        x = B.AND(dup, done)
        if x != 0:
            self.bad("C08", "generate_labels", "the labels of %s are accepted although one is defined twice" % self.text(x))
        for k in sorted(set(have) | set(want)):
            r.count("possible labels x texts")
            c1, v1 = have.get(k, (0, None))
            c2, v2 = want.get(k, (0, None))
            c2 = B.AND(c2, done)
            x = B.AND(c1, B.NOT(c2))
            if x != 0:
                self.bad("C08", "generate_labels", "%s: characters %d to %d are taken for a label" % (self.text(x), k[0], k[0] + k[1] - 1))
                continue
            x = B.AND(c2, B.NOT(c1))
            if x != 0:
                self.bad("C08", "generate_labels", "%s: the label at characters %d to %d is not seen" % (self.text(x), k[0], k[0] + k[1] - 1))
                continue
            if c1 == 0:
                continue
            d = 0
            for p, q in zip(v1, v2):
                d = B.OR(d, B.AND(c1, B.XOR(p, q)))
            if d != 0:
                self.bad("C08", "generate_labels", "%s: the label at characters %d to %d does not denote the address of the next instruction" % (
                    self.text(d), k[0], k[0] + k[1] - 1))

    def bad(self, props, where, text):
        if self.r.prop in props.split():
            self.r.bad(where, text)

    def text(self, c):
        import lexer
        L = lexer.Lexer(self.r, None)
        L.B, L.T = self.B, self.T
        return L.text(c)

    def after(self, s, ctx):
        """the context is at the beginning of the text again"""
        I, B, nx = self.I, self.B, self.S.nx
        cells = I.obj(s, ctx.obj).cells
        p = cells.get(nx.pos_off)
        if p is None or p[1] != Ptr("TEXT", 0):
            self.bad("C08 C07 C11", "generate_labels", "reading does not start over after the labels")
        cf = nx.cf
        for nm in ("line", "column"):
            c = cells.get(cf[nm][1])
            if c is None or c[1] is UNDEF or I.norm(tuple(B.AND(s.pc, x) for x in I.bits(s, c[1], 32))) != 0:
                self.bad("C19", "generate_labels", "the %s is not that of the beginning of the text after the labels were read" % nm)
        c = cells.get(cf["pc"][1])
        if c is None or c[1] is UNDEF:
            self.bad("C08 C12", "generate_labels", "the address of the first instruction is not set")
            return
        v = I.bits(s, c[1], 64)
        ok = B.OR(B.veq(v, B.const(0, 64)), B.veq(v, B.const(8, 64)))
        if B.AND(s.pc, B.NOT(ok)) != 0:
            self.bad("C08", "generate_labels", "the first instruction is not at address 8")

    def spec(self, a):
        """{(start, length): (condition, address)}, condition that a label is defined twice"""
        B, T = self.B, self.T
        N = T.N
        # number of semicolons before each character
        cnt = [{0: 1}]
        for i in range(N):
            semi = T.isin(i, ";")
            nw = {}
            for k, c in cnt[-1].items():
                for d, x in ((1, B.AND(c, semi)), (0, B.AND(c, B.NOT(semi)))):
                    if x != 0:
                        nw[k + d] = B.OR(nw.get(k + d, 0), x)
            cnt.append(nw)
        want = {}
        dup = 0
        self.dups = {}
        for s in range(N):
            c = B.AND(a, T.full[s])
            if s:
                c = B.AND(c, T.isin(s - 1, "\n"))
            c = B.AND(c, T.isin(s, ALPHA))
            addr = (0,) * 64
            for k, x in cnt[s].items():
                addr = B.vite(x, B.const(8 * (k + k // 3 + 1), 64), addr)
            e = s + 1
            while c != 0 and e < N:
                x = B.AND(c, T.isin(e, ":"))
                if x != 0:
                    want[(s, e - s)] = (x, addr)
                c = B.AND(c, T.isin(e, WORD))
                e += 1
        ks = sorted(want)
        for i, (s, n) in enumerate(ks):
            for s2, n2 in ks[i + 1:]:
                if n2 != n:
                    continue
                x = B.AND(want[(s, n)][0], want[(s2, n2)][0])
                for j in range(n):
                    if x == 0:
                        break
                    x = B.AND(x, B.veq(T.c[s + j], T.c[s2 + j]))
                dup = B.OR(dup, x)
                if x != 0:
                    self.dups[s2] = B.OR(self.dups.get(s2, 0), x)
        return want, dup

    def fatal_at(self, s, at, fname):
        """a label that is defined again is reported where it starts"""
        import lexer
        I, B = self.I, self.B
        if at is None:
            self.bad("C19", "generate_labels", "a label defined twice is refused without a position: %s" % self.text(s.pc))
            return
        if at[0] != fname:
            self.bad("C19", "generate_labels", "a refusal does not show the file name")
        if UNDEF in at:
            self.bad("C19 C12", "generate_labels", "the position of a label defined twice is not set")
            return
        L = lexer.Lexer(self.r, None)
        L.B, L.T, L.S = B, self.T, self.S
        L.S.zero = True
        lc = L.linecol()
        rest = s.pc
        self.r.count("refusals of labels whose position was compared")
        for s2 in sorted(self.dups):
            c = B.AND(rest, self.dups[s2])
            rest = B.AND(rest, B.NOT(self.dups[s2]))
            for nm, got, w in zip(("line", "column"), at[1:], lc[s2]):
                d = 0
                for a, b in zip(I.bits(s, got, 32), w):
                    d = B.OR(d, B.AND(c, B.XOR(a, b)))
                if d != 0:
                    self.bad("C19", "generate_labels", "the %s of the label defined twice in %s is wrong" % (nm, self.text(d)))

    # --------------------------------------------------------------- lookup
    def find(self, n):
        """find_label over a name of n characters: the entry of exactly that name, or nothing"""
        r = self.r
        S = Scanner(n + 2)
        nx, I, B, T = S.nx, S.I, S.B, S.T
        self.S, self.T, self.B, self.I = S, T, B, I
        M = MapModel(S)
        st, ctx = S.start()
        M.start(st)
        I.hooks.pop(A_FINDLABEL)
        asked = []
        have, val = B.bits("islabel", 1)[0], B.bits("label", 64)

        def lookup(k):
            asked.append(k)
            return (have, val) if k == (0, n) else (B.bits("isother", 1)[0], B.bits("other", 64))

        M.lookup = lookup
        st.pc = T.full[n]
        res = I.call(st, A_FINDLABEL, [ctx, n, Ptr("TEXT", 0)])
        r.count("lengths of names looked up")
        done = 0
        for s, v in res:
            done = B.OR(done, s.pc)
            if type(v) is not Agg:
                raise Unsupported("result of find_label")
            flag = I.bits(s, v.v[1], 8)[0]
            x = B.AND(s.pc, B.XOR(flag, have))
            if x != 0:
                self.bad("C08", "find_label", "a name of %d characters is %s although it is %s" % (
                    n, "found" if B.AND(x, flag) else "not found", "not defined" if B.AND(x, flag) else "defined"))
                continue
            c = B.AND(s.pc, flag)
            if c != 0:
                got = I.bits(s, v.v[0], 64)
                if any(B.AND(c, B.XOR(p, q)) != 0 for p, q in zip(got, val)):
                    self.bad("C08", "find_label", "the value found is not that of the label")
        if B.AND(T.full[n], B.NOT(done)) != 0:
            self.bad("C08 C12", "find_label", "looking up a name does not return")


def only(chars):
    def f(T):
        c = 1
        for i in range(T.N):
            c = T.B.AND(c, T.isin(i, chars + "\0"))
        return c
    return f


def once(chars, what):
    """texts of the given characters, with each of `what` at most once"""
    def f(T):
        B = T.B
        r = 1
        for x in what:
            none, one = 1, 0
            for i in range(T.N):
                ok = T.isin(i, chars + "\0")
                w = T.isin(i, x)
                none, one = B.AND(ok, B.AND(none, B.NOT(w))), B.AND(ok, B.OR(B.AND(one, B.NOT(w)), B.AND(none, w)))
            r = B.AND(r, B.OR(none, one))
        return r
    return f


def tasks(tier):
    fam = [("any text of 5 characters", 5, None),
           ("texts of 10 characters among A b 1 _ : ; newline space", 10, only("Ab1_:;\n ")),
           ("texts of 10 characters among A b : newline", 10, only("Ab:\n")),
           ("texts of 20 characters among A : ; newline with one label", 20, once("A:;\n", "A:")),
           ("9000 instructions, then 6 characters", 9007, only("A:;\n"), ";" * 9000 + "\n")]
    if tier != "quick":
        fam += [("texts of 12 characters among A b 1 _ : ; newline space", 12, only("Ab1_:;\n ")),
                ("texts of 26 characters among A : ; newline with one label", 26, once("A:;\n", "A:")),
                ("100000 instructions, then 6 characters", 100007, only("A:;\n"), ";" * 100000 + "\n")]
    out = [lambda r, a=a: Labels(r).family(*a) for a in fam]
    out += [lambda r, n=n: Labels(r).find(n) for n in (1, 2, 5, 20)]
    return out
