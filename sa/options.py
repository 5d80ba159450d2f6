"""Options and containers: context::parse_option and context::binary, end to end (C15, C16).

From the constructor on, every chain of options within the bound is read from symbolic tokens, and at every point the
output of context::binary is compared with the container that the options read so far describe.  Nothing is assumed
about how the context keeps them.
"""
from interp import Agg, Ptr, UNDEF, Unsupported
from ir import IntTy, PTR
from layout import words
from nxmodel import A_BINARY_PREFIX, A_FINDLABEL, A_GENLABELS, A_OPTION

TYPES = {"vertex": 0, "tess_control": 1, "hull": 1, "tess_eval": 2, "domain": 2, "geometry": 3, "fragment": 4, "pixel": 4, "compute": 5}
MAGIC = 0x48534B44
NAMES = list(TYPES) + [".dksh", ".type", ".num_gprs", ".shared_memory", ".local_memory", ".workgroup_size"]
EVENTS = {"filename": "C14", "overread": "C12", "oob": "C12", "uaf": "C12", "nullderef": "C12", "uninit": "C12 C14", "constwrite": "C12 C14",
          "kind": "C13 C16", "msgarg": "C18", "position": "C19", "throw": "C10 C12", "badshift": "C16"}


class Spec:
    """what the options so far said"""
    __slots__ = ("type", "dksh", "gprs", "dims", "shared", "local")

    def __init__(self, B, o=None, **kw):
        c = lambda v, w: B.const(v, w)
        self.type, self.dksh = None, False
        self.gprs, self.dims = c(8, 32), (c(1, 32),) * 3
        self.shared, self.local = c(0, 32), c(0, 32)
        if o is not None:
            for k in self.__slots__:
                setattr(self, k, getattr(o, k))
        for k, v in kw.items():
            setattr(self, k, v)


class Options:
    def __init__(self, nx, r):
        self.nx, self.I, self.B, self.D, self.r = nx, nx.I, nx.B, nx.D, r
        fns = [n for n in nx.mod.functions if n.startswith(A_BINARY_PREFIX) and "[" not in n and nx.mod.fn(n) is not None]
        if len(fns) != 1:
            raise Unsupported("context::binary not found")
        self.binary = fns[0]
        if nx.mod.fn(A_OPTION) is None:
            raise Unsupported("context::parse_option not found")
        self.seen = set()

    def bad(self, props, where, text):
        if self.r.prop in props.split() and (where, text) not in self.seen:
            self.seen.add((where, text))
            self.r.bad(where, text)

    def eq(self, k, text):
        return self.D.func(k, ("is", text), lambda s: s == text, 1)[0]

    def events(self, evs):
        for e in evs:
            if e[0] in EVENTS:
                self.bad(EVENTS[e[0]], e[1], "%s: %s" % (e[0], e[2]))
            elif e[0] == "assert" and any(c != 0 for c in e[2]):
                self.bad("C10 C15 C16", e[1], "an assertion can fail")

    # ----------------------------------------------------------------- run
    def run(self, depth, chain, sizes, window=0):
        """depth: options of any kind in a row; chain: further value options after '.dksh compute'"""
        self.window = window
        nx, I, B, D = self.nx, self.I, self.B, self.D
        saved = dict(I.hooks)
        I.hooks[A_GENLABELS] = lambda I_, st, args, ins: [(st, None)]
        I.hooks[A_FINDLABEL] = self.find_label
        log0 = len(I.log)
        try:
            st = nx.new_state()
            ctx = self.ctx = I.new_obj(st, nx.lay["context"]["size"], "ctx", name="context")
            self.tok = I.new_obj(st, D.tok_size, "token", name="token")
            ctor = [n for n in ("@_ZN7contextC1EPKcS1_", "@_ZN7contextC2EPKcS1_") if nx.mod.fn(n) is not None]
            if not ctor:
                raise Unsupported("the constructor of context is not found")
            res = I.call(st, ctor[0], [ctx, Ptr("FILENAME", 0), Ptr("CTXPTR_text", 0)])
            if len(res) != 1:
                raise Unsupported("the constructor of context forks")
            st = res[0][0]
            nx.setpos(st, ctx, 1)
            D.write_token(I, st, self.tok, 0)
            st.pc = B.AND(st.pc, B.NOT(B.bits("label(main)", 64)[63]))     # addresses are not negative
            root = Spec(B)
            self.output(st, root, sizes[:4], "no options")
            todo = [(st, root, 0, ())]
            while todo:
                s, sp, p, hist = todo.pop()
                full = len(hist) < depth
                if not full and not (hist[:1] == ("dksh=5",) and len(hist) < chain + 1 and not any("=" in h for h in hist[1:])):
                    continue
                for s2, sp2, p2, name in self.option(s, sp, p, hist, full):
                    h = hist + (name,)
                    big = h == ("dksh=5",)
                    self.output(s2, sp2, sizes if big else sizes[:2] if len(h) > 2 else sizes[:4], " ".join(h))
                    todo.append((s2, sp2, p2, h))
            self.events(I.log[log0:])
        finally:
            I.hooks.clear()
            I.hooks.update(saved)

    def find_label(self, I, st, args, ins):
        n, p = I.resolve(st, args[1]), I.resolve(st, args[2])
        if type(p) is not Ptr or type(n) is not int:
            raise Unsupported("entry point name at %s" % I.where())
        o = I.obj(st, p.obj)
        name = "".join(chr(I.load(st, Ptr(p.obj, p.off + i), IntTy(8))) for i in range(n))
        has = self.B.bits("islabel(%s)" % name, 1)
        v = self.B.bits("label(%s)" % name, 64)
        return [(st, Agg([v, has + (0,) * 7]))]

    # -------------------------------------------------------------- options
    def cases(self, sp, p):
        """[(condition, state afterwards, tokens read after the name, name)]"""
        B, D = self.B, self.D
        out = []

        def line(k):
            return B.bits("t%d.line" % k, 32)

        def same(k):
            return B.veq(line(k), line(p))

        def text(k, *names):
            c = 0
            for n in names:
                c = B.OR(c, self.eq(k, n))
            return B.AND(D.is_kind(k, "identifier"), c)

        def value(k, hi):
            v = B.bits("t%d.imm" % k, 64)
            return B.AND(B.AND(D.is_kind(k, "immediate"), same(k)), B.NOT(B.vult(B.const(hi, 64), v))), v[:32]

        end = lambda n: B.NOT(same(p + n + 1))
        for opt in (".dksh", ".type"):
            if sp.type is not None:
                continue
            for code in range(6):
                c = B.AND(text(p, opt), text(p + 1, *[n for n, v in TYPES.items() if v == code]))
                c = B.AND(B.AND(c, same(p + 1)), end(1))
                out.append((c, Spec(B, sp, type=code, dksh=sp.dksh or opt == ".dksh"), 1, "%s=%d" % (opt[1:], code)))
        for opt, hi, f in ((".num_gprs", 255, "gprs"), (".shared_memory", 0x7fffffff - 0xff, "shared"), (".local_memory", 0x7fffffff // 64, "local")):
            c, v = value(p + 1, hi)
            out.append((B.AND(B.AND(text(p, opt), c), end(1)), Spec(B, sp, **{f: v}), 1, opt[1:]))
        c = text(p, ".workgroup_size")
        vs = []
        for i in range(3):
            x, v = value(p + 1 + i, 0xffffffff)
            c = B.AND(c, x)
            vs.append(v)
        out.append((B.AND(c, end(3)), Spec(B, sp, dims=tuple(vs)), 3, "workgroup_size"))
        return out

    def option(self, st, sp, p, hist, full):
        nx, I, B, D, r = self.nx, self.I, self.B, self.D, self.r
        st = st.fork()
        # an option begins with a dot; lines never decrease
        c = B.AND(D.is_kind(p, "identifier"), D.func(p, ("dot",), lambda s: s[:1] == ".", 1)[0])
        for k in range(p, p + 5):
            D.admit(st, k + 1)
            a, b = B.bits("t%d.line" % k, 32), B.bits("t%d.line" % (k + 1), 32)
            c = B.AND(c, B.NOT(B.vult(b, a)))
            # six bits of the lines vary, each window of them in turn
            for x in a[:self.window] + a[self.window + 6:] + b[:self.window] + b[self.window + 6:]:
                c = B.AND(c, B.NOT(x))
        st.pc = B.AND(st.pc, c)
        if not full:
            v = 0
            for n in (".num_gprs", ".shared_memory", ".local_memory", ".workgroup_size"):
                v = B.OR(v, self.eq(p, n))
            st.pc = B.AND(st.pc, v)
        care = st.pc
        t0 = len(I.terminals)
        res = I.call(st, A_OPTION, [self.ctx, self.tok])
        terms = I.terminals[t0:]
        del I.terminals[t0:]
        cases = self.cases(sp, p)
        what = "after " + " ".join("." + h for h in hist) if hist else "first"
        r.count("chains of options")
        for s, k, kw in terms:
            r.count("paths of parse_option")
            self.events(s.events())
            if k == "unreachable":
                continue
            if k != "fatal":
                self.bad("C16 C12 C10", kw.get("where", "parse_option"), "reading an option ends in %s (%s)" % (k, kw.get("why")))
                continue
            for c, sp2, n, name in cases:
                x = B.AND(s.pc, c)
                if x != 0:
                    self.bad("C16", "parse_option", "a valid option is refused (%s): %s, %s" % (kw.get("msg"), what, self.show(x, p)))
        out = []
        for s, _ in res:
            r.count("paths of parse_option")
            self.events(s.events())
            rest = s.pc
            for c, sp2, n, name in cases:
                x = B.AND(s.pc, c)
                if x == 0:
                    continue
                r.count("accepted options compared with their meaning")
                rest = B.AND(rest, B.NOT(c))
                s2 = s.fork()
                # only the values are needed from here on
                old = {"t%d." % k for k in range(p, p + n + 1)}
                s2.pc = B.exists(x, lambda lv: (lambda nm: nm.endswith(".line") or nm.split(".")[0] + "." in old and not nm.endswith(".imm"))(B.atom_of(lv)[0]))
                if nx.getpos(s2, self.ctx) != p + n + 2 or str(D.token_at(I, s2, self.tok)) != str(p + n + 1):
                    self.bad("C16 C22", "parse_option", "after an option reading does not go on with the token that follows it: %s" % self.show(x, p))
                    continue
                out.append((s2, sp2, p + n + 1, name))
            if rest != 0:
                self.bad("C16 C10", "parse_option", "accepted although it is not a valid option: %s, %s" % (what, self.show(rest, p)))
                if self.kinds_off(rest, p):
                    self.bad("C13", "parse_option", "a token of the wrong kind is taken as an option's value: %s, %s" % (what, self.show(rest, p)))
        return out

    def kinds_off(self, c, p):
        B, D = self.B, self.D
        v = B.AND(B.AND(c, B.NOT(D.is_kind(p + 1, "immediate"))), B.NOT(D.is_kind(p + 1, "identifier")))
        return v != 0 or B.AND(B.AND(c, D.is_kind(p + 1, "identifier")), B.NOT(B.OR(self.eq(p, ".type"), self.eq(p, ".dksh")))) != 0

    def show(self, c, p):
        B, D = self.B, self.D
        out = []
        a = {}
        for lv, v in dict(B.pick(c) or {}).items():
            nm, bit = B.atom_of(lv)
            a.setdefault(nm, {})[bit] = v
        for k in range(p, p + 5):
            ks = [n for n in D.kinds if B.AND(c, D.is_kind(k, n)) != 0]
            kind = ks[0] if len(ks) == 1 else "any"
            t = kind
            if kind == "immediate":
                t = str(_sgn(sum(v << b for b, v in a.get("t%d.imm" % k, {}).items())))
            elif kind == "identifier":
                names = [n for n in NAMES
                         if B.AND(c, self.eq(k, n)) != 0]
                t = repr(names[0]) if len(names) == 1 else "identifier"
            ln = "t%d.line" % k
            if k > p and B.AND(c, B.veq(B.bits(ln, 32), B.bits("t%d.line" % p, 32))) == 0:
                t += " (next line)"
            out.append(t)
            if kind == "any":
                break
        return " ".join(out)

    # --------------------------------------------------------------- output
    def output(self, st, sp, sizes, what):
        nx, I, B, r = self.nx, self.I, self.B, self.r
        has, lab = B.bits("islabel(main)", 1)[0], B.bits("label(main)", 64)
        aligned = B.veq(lab[:5], B.const(8, 5))
        for n in sizes:
            s = st.fork()
            code = I.new_obj(s, max(8 * n, 8), "heap", name="code")
            for i in range(n):
                I.put(s, Ptr(code.obj, 8 * i), 8, B.bits("w%d" % i, 64))
            ret = I.new_obj(s, 24, "vector", name="result")
            ok = s.pc
            if sp.type not in (None, 5):
                ok = 0
            elif sp.dksh:
                ok = B.AND(ok, B.AND(has, aligned))
            want = [B.bits("w%d" % i, 64) for i in range(n)]
            if sp.dksh:
                want = self.container(sp, n) + want
                want += [B.const(0, 64)] * (-n % 32)
            t0 = len(I.terminals)
            before = dict(I.obj(s, self.ctx.obj).cells)
            visits = I.max_visits
            I.max_visits = max(visits, 2 * n + 1000)
            try:
                res = I.call(s, self.binary, [ret, self.ctx, code, n])
            finally:
                I.max_visits = visits
            terms = I.terminals[t0:]
            del I.terminals[t0:]
            tag = "%s, %d words" % (what, n)
            for x, k, kw in terms:
                r.count("paths of context::binary")
                self.events(x.events())
                if k == "unreachable":
                    continue
                if k != "fatal":
                    self.bad("C15 C12 C10", kw.get("where", "binary"), "writing the result ends in %s (%s)" % (k, kw.get("why")))
                elif B.AND(x.pc, ok) != 0:
                    self.bad("C15 C16", kw.get("where", "binary"), "refused although the source is complete: %s" % tag)
            for x, _ in res:
                r.count("paths of context::binary")
                self.events(x.events())
                if B.AND(x.pc, B.NOT(ok)) != 0:
                    self.bad("C15 C16 C10", "binary", "accepted although the program type cannot be written or the entry point is not defined or aligned: %s" % tag)
                    continue
                got = words(I, x, ret)
                r.count("outputs compared with the container layout")
                r.count("words compared with the container layout", len(want))
                if len(got) != len(want):
                    self.bad("C15", "binary", "%d words instead of %d: %s" % (len(got), len(want), tag))
                    continue
                for i, (a, b) in enumerate(zip(got, want)):
                    if a is None:
                        self.bad("C15 C12 C14", "binary", "%s: word %d of the output was never set" % (tag, i))
                        continue
                    if all(u == v or B.AND(x.pc, B.XOR(u, v)) == 0 for u, v in zip(a, b)):
                        continue
                    if sp.dksh and i < 32:
                        self.bad("C15 C16", "binary", "%s: %s is wrong" % (what, self.field(x, i, a, b)))
                    else:
                        self.bad("C15 C07" if sp.dksh else "C15 C07", "binary", "word %d of the code is not the one assembled: %s" % (i - (32 if sp.dksh else 0), tag))

    NAMES = ("magic", "header size", "control size", "code size", "program offset", "program count",
             "type", "entry point", "register count", "constant buffer offset", "constant buffer size", "scratch size",
             "workgroup size x", "workgroup size y", "workgroup size z", "shared memory size", "local memory size (positive)",
             "local memory size (negative)", "call stack size", "barrier count", "reserved word")

    def field(self, st, i, a, b):
        B = self.B
        for h in (0, 1):
            for u, v in zip(a[32 * h:32 * h + 32], b[32 * h:32 * h + 32]):
                if B.AND(st.pc, B.XOR(u, v)) != 0:
                    k = 2 * i + h
                    return "the " + self.NAMES[k] if k < len(self.NAMES) else "padding word %d" % k
        return "?"

    def container(self, sp, n):
        B = self.B
        c = lambda v: B.const(v, 32)

        def up(v, a):
            x = B.vadd(v, B.const((1 << a) - 1, 32))[0]
            return (0,) * a + tuple(x[a:])
        local = up(sp.local, 4)
        scratch = B.vadd((0,) * 5 + local[:27], c(0x800))[0]
        lab = B.bits("label(main)", 64)
        entry = B.vsub(lab, B.const(8, 64))[0][:32]
        w = [c(MAGIC), c(24), c(256), c((8 * n + 255) & ~255), c(24), c(1)]
        w += [c(sp.type), entry, sp.gprs, c(0), c(0), scratch]
        w += list(sp.dims) + [up(sp.shared, 8), local, c(0), c(0x800), c(0)]
        w += [c(0)] * (64 - len(w))
        return [tuple(w[i]) + tuple(w[i + 1]) for i in range(0, 64, 2)]


def _sgn(v):
    return v - (1 << 64) if v >> 63 else v


def tasks(tier):
    def f(r):
        import checks
        sizes = (0, 4, 32, 36) + tuple(range(8, 132, 4)) + (4096, 8192, 8196, 33000)
        if tier != "quick":
            sizes += tuple(range(132, 600, 4)) + (70000,)
        Options(checks.nx(), r).run(2 if tier == "quick" else 3, 3 if tier == "quick" else 4, sizes)
        for w in (6, 12, 18, 25):
            Options(checks.nx(), r).run(1, 0, sizes[:1], w)
    return [f]
