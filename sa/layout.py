"""Program layout: what nxas::assemble makes of the instructions it is given (C07)."""
from interp import Ptr, UNDEF, Unsupported
from nxmodel import A_ASSEMBLE_PREFIX, A_GENLABELS, A_PARSE

NOP = 0x50B0000000070F00
NEUTRAL = 0x7E0


def make_string(I, st, text, name):
    """a std::string with the given contents"""
    buf = I.new_obj(st, len(text) + 1, "heap", name=name, zero=True)
    for i, c in enumerate(text + b"\0"):
        I.put(st, Ptr(buf.obj, i), 1, c)
    s = I.new_obj(st, 32, "string", name=name)
    I.put(st, Ptr(s.obj, 0), 8, buf)
    I.put(st, Ptr(s.obj, 8), 8, len(text))
    I.put(st, Ptr(s.obj, 16), 8, len(text))
    I.put(st, Ptr(s.obj, 24), 8, 0)
    return s


def expected(B, n):
    out = []
    for g in range(0, n, 3):
        ctl = []
        for k in range(3):
            if g + k < n:
                ctl += list(B.bits("i%d.sched" % (g + k), 17)) + list(B.bits("i%d.reuse" % (g + k), 3)) + [0]
            else:
                ctl += list(B.const(NEUTRAL, 21))
        out.append(tuple(ctl + [0]))
        for k in range(3):
            if g + k < n:
                out.append(B.bits("i%d.value" % (g + k), 64))
    while len(out) % 4:
        out.append(B.const(NOP, 64))
    return out


class Layout:
    def __init__(self, nx, r, counts):
        self.nx, self.r = nx, r
        fns = [n for n in nx.mod.functions if n.startswith(A_ASSEMBLE_PREFIX) and "[" not in n and nx.mod.fn(n) is not None]
        if len(fns) != 1:
            raise Unsupported("nxas::assemble not found")
        self.fn = fns[0]
        saved = nx.I.hooks.get(A_PARSE), nx.I.hooks.get(A_GENLABELS)
        visits = nx.I.max_visits
        try:
            for n in counts:
                nx.I.max_visits = max(visits, 2 * n + 1000)
                self.one(n)
        finally:
            nx.I.max_visits = visits
            for k, h in zip((A_PARSE, A_GENLABELS), saved):
                if h is None:
                    nx.I.hooks.pop(k, None)
                else:
                    nx.I.hooks[k] = h

    def one(self, n):
        nx, I, B, r = self.nx, self.nx.I, self.nx.B, self.r
        st = nx.new_state()
        code = make_string(I, st, b";" * n, "code")
        name = Ptr("FILENAME", 0)
        ret = I.new_obj(st, 24, "vector", name="result")
        st.x = {"k": 0, "fed": ()}

        def parse(I_, st, args, ins):
            k = st.x["k"]
            p = I.deref(st, args[1])
            st.x = dict(st.x, k=k + 1)
            for f in ("value", "reuse", "sched"):
                nm, off, size, ty = nx.of[f]
                c = I.load(st, Ptr(p.obj, p.off + off), _int(size * 8))
                if c != 0:
                    r.bad(I.where(), "an instruction is assembled into a word that is not empty (%s)" % f)
            if k < n:
                I.put(st, Ptr(p.obj, p.off + nx.of["value"][1]), 8, B.bits("i%d.value" % k, 64))
                I.put(st, Ptr(p.obj, p.off + nx.of["reuse"][1]), 4, B.bits("i%d.reuse" % k, 3) + (0,) * 29)
                I.put(st, Ptr(p.obj, p.off + nx.of["sched"][1]), 4, B.bits("i%d.sched" % k, 17) + (0,) * 15)
                return [(st, 1)]
            if k > n:
                r.bad(I.where(), "instructions are read after the end of the text")
            return [(st, 0)]

        I.hooks[A_PARSE] = parse
        I.hooks[A_GENLABELS] = lambda I_, st, args, ins: [(st, None)]
        t0 = len(I.terminals)
        res = I.call(st, self.fn, [ret, code, name])
        terms = I.terminals[t0:]
        del I.terminals[t0:]
        for s, kind, kw in terms:
            if kind == "unreachable":
                for e in s.events():
                    if e[0] == "filename" and r.prop == "C14":
                        r.bad(e[1], e[2])
                continue
            r.bad(kw.get("where", self.fn), "assembling %d instructions ends in %s (%s)" % (n, kind, kw.get("why") or kw.get("msg")))
        want = expected(B, n)
        for s, _ in res:
            for e in s.events():
                if e[0] not in ("token", "fail"):
                    if e[0] == "assert" and all(c == 0 for c in e[2]):
                        continue
                    r.bad(e[1], "%s with %d instructions: %s" % (e[0], n, e[2] if e[0] != "assert" else "assertion can fail"))
            if s.x["k"] != n + 1:
                r.bad(self.fn, "%d of %d instructions are read" % (s.x["k"] - 1, n))
            got = words(I, s, ret)
            r.count("program lengths")
            r.count("words of laid-out programs", len(want))
            if len(got) != len(want):
                r.bad(self.fn, "%d instructions give %d words instead of %d" % (n, len(got), len(want)))
                continue
            for i, (a, b) in enumerate(zip(got, want)):
                if a is None:
                    r.bad(self.fn, "%d instructions: word %d was never set" % (n, i))
                elif a != b:
                    r.bad(self.fn, "%d instructions: word %d is not %s" % (n, i, "the control word of the next instructions" if i % 4 == 0
                          else "instruction %d" % (i - i // 4) if i - i // 4 - 1 < n else "a no-op"))


def words(I, st, ret):
    """the contents of a vector of words; None for one that was never set"""
    o = I.obj(st, ret.obj)
    if 0 not in o.cells or 8 not in o.cells:
        raise Unsupported("result vector")
    b, e = o.cells[0][1], o.cells[8][1]
    if b == e:
        return []
    if type(b) is not Ptr or type(e) is not Ptr or b.obj != e.obj:
        raise Unsupported("result vector")
    out = []
    for off in range(b.off, e.off, 8):
        v = I.resolve(st, I.load(st, Ptr(b.obj, off), _int(64)))
        out.append(None if v is UNDEF else I.bits(st, v, 64))
    return out


def _int(w):
    from ir import IntTy
    return IntTy(w)
