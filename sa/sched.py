"""Scheduling annotations: what the code does with them against the specification (C06)."""
from driver import Driver, SPAN
from interp import Unsupported
from joins import ExactJoin
from nxmodel import A_PARSE


class SchedDriver(Driver):
    """the instruction driver with the annotation reader replaced by 'any scheduling fields'"""

    def run(self):
        I, nx = self.I, self.nx
        self.readers = {}

        def cand(n):
            f = self.nx.mod.fn(n)
            return f is not None and n != A_PARSE and len(f.params) == 4 and all(p[0].k == "ptr" for p in f.params) and not f.varargs

        def hook(I_, st, args, ins):
            if st.x is None or "hist" not in st.x:
                return NotImplemented
            name = ins.a[0][1]
            try:
                a = [I.deref(st, x) for x in args]
                if self.D.token_at(I, st, a[2]) is None:
                    return NotImplemented
                for p, real, size in ((a[1], self.ctx, nx.lay["context"]["size"]), (a[3], self.op, nx.lay["opcode"]["size"])):
                    # the real one or a working copy
                    if p != real and (I.obj(st, p.obj).kind != "stack" or I.obj(st, p.obj).size - p.off < size):
                        return NotImplemented
                if type(nx.getpos(st, a[1])) is not int:
                    return NotImplemented
            except Exception:
                return NotImplemented
            self.readers.setdefault(name, 0)
            self.readers[name] += 1
            before = nx.op_field(st, a[3], "value"), nx.op_field(st, a[3], "reuse")
            n = len(st.x["hist"])
            out = self.indirect(I, st, name, args, ins)
            for s, _ in out:
                if s.x["hist"]:
                    I.put(s, self.op_at(a[3], "sched"), 4, self.B.bits("s", 32))
                    # the word is not touched (checked on the reader itself)
                    I.put(s, self.op_at(a[3], "value"), 8, before[0])
                    I.put(s, self.op_at(a[3], "reuse"), 4, before[1])
                else:
                    I.put(s, self.op_at(a[3], "sched"), 4, self.B.bits("es", 32))
            return out

        I.pattern_hooks.append((cand, hook))
        try:
            return Driver.run(self, True)
        finally:
            I.pattern_hooks.pop()

    def op_at(self, op, f):
        from interp import Ptr
        return Ptr(op.obj, op.off + self.nx.of[f][1])


def spec(nx, start, assume, lim=12):
    """{tokens read: (condition, 32 scheduling bits)} for annotations that start at token `start`"""
    B, D = nx.B, nx.D
    Z = dict(pc=assume, hs=0, s=(0,) * 4, hw=0, w=(1,) * 3, hr=0, r=(1,) * 3, y=0, m=(0,) * 6)
    states = {start: Z}
    out = {}

    def text(k, *names):
        c = 0
        for n in names:
            if n not in D.index:
                raise Unsupported("annotation %s is not a text of the program" % n)
            c = B.OR(c, D.strset(k, [D.index[n]]))
        return B.AND(D.is_kind(k, "identifier"), c)

    def small(k, n, w):
        """integer literal 0..n"""
        imm = B.bits("t%d.imm" % k, 64)
        c = D.is_kind(k, "immediate")
        for b in imm[w:]:
            c = B.AND(c, B.NOT(b))
        return B.AND(c, B.NOT(B.vult(B.const(n, w), imm[:w]))), imm[:w]

    def add(pos, st):
        if st["pc"] == 0:
            return
        o = states.get(pos)
        if o is None:
            states[pos] = st
            return
        n = {"pc": B.OR(o["pc"], st["pc"])}
        for k in o:
            if k == "pc":
                continue
            a, b = o[k], st[k]
            n[k] = a if a == b else (B.vite(o["pc"], a, b) if isinstance(a, tuple) else B.ITE(o["pc"], a, b))
        states[pos] = n

    while states:
        p = min(states)
        st = states.pop(p)
        if p - start > 3 * lim:
            raise Unsupported("annotation specification does not end")
        pc = B.AND(st["pc"], D.valid(p))
        end = B.AND(pc, B.NOT(D.is_kind(p, "at")))
        if end != 0:
            raw = st["s"] + (st["y"],) + st["w"] + st["r"] + st["m"] + (0,) * 15
            out[p - start] = (end, raw)
        pc = B.AND(B.AND(pc, D.is_kind(p, "at")), D.valid(p + 1))
        if pc == 0:
            continue
        # @WAIT n
        v = D.valid(p + 2)
        c, x = small(p + 2, 15, 4)
        c = B.AND(B.AND(pc, B.AND(text(p + 1, "WAIT"), v)), B.AND(c, B.NOT(st["hs"])))
        add(p + 3, dict(st, pc=c, hs=1, s=x))
        c5, x = small(p + 2, 5, 3)
        c = B.AND(B.AND(pc, B.AND(text(p + 1, "WB"), v)), B.AND(c5, B.NOT(st["hw"])))
        add(p + 3, dict(st, pc=c, hw=1, w=x))
        c = B.AND(B.AND(pc, B.AND(text(p + 1, "RB"), v)), B.AND(c5, B.NOT(st["hr"])))
        add(p + 3, dict(st, pc=c, hr=1, r=x))
        c = B.AND(pc, B.AND(text(p + 1, "Y", "YIELD"), B.NOT(st["y"])))
        add(p + 2, dict(st, pc=c, y=1))
        bit = tuple(B.veq(x, B.const(i, 3)) for i in range(6))
        dup = 0
        for a, b in zip(bit, st["m"]):
            dup = B.OR(dup, B.AND(a, b))
        c = B.AND(B.AND(pc, B.AND(text(p + 1, "DEP"), v)), B.AND(c5, B.NOT(dup)))
        add(p + 3, dict(st, pc=c, m=tuple(B.OR(a, b) for a, b in zip(bit, st["m"]))))
    return out


class Sched:
    def __init__(self, nx, r):
        self.nx, self.r = nx, r
        self.I, self.B, self.D = nx.I, nx.B, nx.D
        d = SchedDriver(nx)
        res = d.run()
        n = 0
        direct = 0
        readers = set()
        for st, ret in res:
            h = st.x["hist"]
            if not h:
                if ret != 0 and (type(ret) is int or self.B.AND(st.pc, ret[0]) != 0):
                    r.bad("parse_instruction", "an instruction is accepted although reading its annotations failed")
                continue
            n += 1
            s = nx.op_field(st, d.op, "sched")
            if d.readers and h[-1].fn in d.readers:
                direct += 1
                readers.add(h[-1].fn)
                if s != self.B.bits("s", 32):
                    r.bad(h[-1].where, "the scheduling fields read from the annotations are changed afterwards")
            elif d.readers:
                r.bad(h[-1].where, "annotations are not read after the operands of %s" % [c.fn for c in h][:3])
        r.count("accepted forms whose scheduling fields come from the annotation reader", direct)
        if not d.readers:
            self.inline(d, res)
            return
        for fn in sorted(readers):
            # every list of up to three annotations (thorough: four), any texts and values
            for p in (1, 7) if r.tier == "quick" else (1, 7, 10):
                self.reader(fn, self.no_annotation_from(p))
                r.count("families of annotation lists")
            # the longest lists, in several orders, with any values
            long = ["WAIT", "WB", "RB", "Y"] + ["DEP"] * 6
            orders = [long[i:] + long[:i] for i in range(len(long))]
            orders += [o[::-1] for o in orders[:4]] + [["DEP"] * 3 + ["YIELD", "RB", "WAIT"] + ["DEP"] * 3 + ["WB"]]
            if r.tier == "quick":
                orders = orders[::8]
            for o in orders:
                self.reader(fn, self.texts(o))
                r.count("families of annotation lists")
                r.sample("@" + " @".join(o))

    def no_annotation_from(self, p):
        B, D = self.B, self.D
        c = 1
        for k in range(p, p + 3):
            c = B.AND(c, B.NOT(D.is_kind(k, "at")))
        return c

    def texts(self, names):
        """the annotations are these, in this order (fewer if an earlier one is malformed)"""
        B, D = self.B, self.D
        c = 1
        p = 0
        for n in names:
            c = B.AND(c, B.AND(D.is_kind(p, "at"), B.AND(D.is_kind(p + 1, "identifier"), D.strset(p + 1, [D.index[n]]))))
            p += 2 if n in ("Y", "YIELD") else 3
        return B.AND(c, self.no_annotation_from(p))

    def reader(self, fn, assume):
        """summary of the annotation reader against the specification"""
        nx, I, B, D, r = self.nx, self.I, self.B, self.D, self.r
        st = nx.new_state()
        ctx = nx.make_ctx(st, 1)
        tok = I.new_obj(st, D.tok_size, "token", name="token")
        D.write_token(I, st, tok, 0)
        op = nx.make_op(st)
        I.put(st, _at(op, nx, "sched"), 4, 0)
        err = I.new_obj(st, nx.err_size, "error", name="error")
        st.pc = B.AND(st.pc, assume)
        before = dict(I.obj(st, ctx.obj).cells)
        t0 = len(I.terminals)
        with ExactJoin(I, lambda s: nx.getpos(s, ctx)) as j:
            res = I.call(st, fn, [err, ctx, tok, op])
        terms = I.terminals[t0:]
        del I.terminals[t0:]
        for s, kind, kw in terms:
            if kind not in ("fatal", "raise"):
                r.bad(fn, "reading annotations can end in %s" % kind)
        acc = {}
        for s, _ in res:
            l = nx.leaf(s, ctx, tok, op, err, before)
            r.count("paths of the annotation reader")
            for e in l.ev:
                if e[0] not in ("token", "fail", "assert"):
                    r.bad(e[1], "%s: %s" % (e[0], e[2]))
                if e[0] == "assert" and any(c != 0 for c in e[2]):
                    r.bad(e[1], "an assertion can fail while annotations are read")
            if l.out == "err":
                continue
            if l.out != "ok":
                r.bad(fn, "the result of the annotation reader is never set")
                continue
            if any(e[0] == "fail" for e in l.ev):
                r.bad(fn, "an error found in an annotation is lost")
            if l.value != B.bits("op", 64):
                r.bad(fn, "reading annotations changes the instruction word")
            if l.reuse != B.bits("op.reuse", 3) + (0,) * 29:
                r.bad(fn, "reading annotations changes the reuse flags")
            if str(l.la) != str(l.pos - 1):
                r.bad(fn, "a token is lost while annotations are read")
            v = nx.op_field(s, op, "sched")
            self.put(acc, l.pos - 1, l.pc, I.bits(s, v, 32))
        self.judge(fn, acc, spec(nx, 0, assume), 0)

    def put(self, acc, n, pc, v):
        B = self.B
        p0, v0 = acc.get(n, (0, (0,) * 32))
        acc[n] = (B.OR(p0, pc), tuple(B.OR(a, B.AND(pc, b)) for a, b in zip(v0, v)))

    def judge(self, fn, acc, want, start):
        B, D, r = self.B, self.D, self.r
        names = [("stall", 0, 4), ("yield", 4, 5), ("write barrier", 5, 8), ("read barrier", 8, 11), ("wait mask", 11, 17), ("padding", 17, 32)]
        from isa import Isa
        show = lambda f: Isa.describe(self, f)
        self.show = lambda p: Isa.show(self, p)
        for n in sorted(set(acc) | set(want)):
            r.count("lengths of annotation lists (tokens)")
            pc, v = acc.get(n, (0, (0,) * 32))
            wp, wv = want.get(n, (0, (0,) * 32))
            if pc != 0 and pc == B.AND(pc, D.is_kind(start + n, "semicolon")):
                wp = B.AND(wp, D.is_kind(start + n, "semicolon"))
            x = B.AND(pc, B.NOT(wp))
            if x != 0:
                r.bad(fn, "annotations are accepted that must be refused: %s" % show(x))
            x = B.AND(wp, B.NOT(pc))
            if x != 0:
                r.bad(fn, "annotations are refused that must be accepted: %s" % show(x))
            both = B.AND(pc, wp)
            for nm, lo, hi in names:
                r.count("fields x list lengths compared with the specification")
                for b in range(lo, hi):
                    x = B.AND(both, B.XOR(v[b], wv[b]))
                    if x != 0:
                        r.bad(fn, "the %s (bit %d of the control fields) is wrong for %s" % (nm, b, show(x)))
                        break

    def inline(self, d, res):
        raise Unsupported("no function reads the annotations: (ctx, token, op) expected")


def _at(op, nx, f):
    from interp import Ptr
    return Ptr(op.obj, op.off + nx.of[f][1])
