"""nxas-specific setup: anchors, symbolic environment, operand summaries, rows."""
import re
import time

import frontend
import stdmodel
from interp import Agg, Die, Interp, Maybe, Obj, Ptr, State, TokRaw, UNDEF, Unsupported, MASK
from ir import IntTy, PTR
from tokdom import TokDom, install_string_models, literal_pool, IDX

A_TOKENIZE = "@_ZN7context8tokenizeEv"
A_FAIL = "@_Z4failRK5tokenPKcz"
A_FATAL_TOK = "@_Z11fatal_errorRK5tokenPKcz"
A_FATAL = "@_Z11fatal_errorPKcz"
A_RAISE = "@_ZN5error5raiseEv"
A_FINDLABEL = "@_ZNK7context10find_labelESt17basic_string_viewIcSt11char_traitsIcEE"
A_PARSE = "@_Z17parse_instructionR7contextR6opcode"
A_OPTION = "@_ZN7context12parse_optionER5token"
A_ASSEMBLE_PREFIX = "@_ZN4nxas8assembleE"
A_BINARY_PREFIX = "@_ZNK7context6binaryE"
A_GENLABELS = "@_ZN7context15generate_labelsEv"
A_NEXT = "@_ZN7context4nextEv"
A_MAIN = "@main"


class Nx:
    """one analysis session over the current tree"""

    def __init__(self, reference=True):
        """reference: the texts of the instruction-set reference belong to the alphabet too"""
        self.mod, self.lay, self.srcs = frontend.load()
        self.I = I = Interp(self.mod)
        self.B = I.B
        for a in (A_TOKENIZE, A_FAIL, A_PARSE):
            if self.mod.fn(a) is None:
                raise Unsupported("anchor %s not found" % a)
        self.base = State()
        self._ctors()
        extra = self._global_strings()
        if reference:
            import golden
            import options
            extra |= set(golden.names()) | set(options.NAMES)
        self.D = D = TokDom(I, self.lay, literal_pool(I, extra))
        I.tokdom = D
        D.obj_hook(I)
        install_string_models(I, D)
        stdmodel.install(I)
        cf = {f[0]: f for f in self.lay["context"]["fields"]}
        self.cf = cf
        of = {f[0]: f for f in self.lay["opcode"]["fields"]}
        for n in ("value", "reuse", "sched"):
            if n not in of:
                raise Unsupported("struct opcode has no field %s" % n)
        self.of = of
        self.stream_fields()
        self.install()
        self.err_size = self.lay["error"]["size"]

    # ------------------------------------------------------- global state
    def _ctors(self):
        I = self.I
        g = self.mod.globals.get("@llvm.global_ctors")
        st = self.base
        if g is not None and g.init and g.init[0] == "agg":
            for e in g.init[2]:
                f = I.constant(e[2][1])
                r = I.run(self.mod.fn(f.obj), [], st)
                if len(r) != 1:
                    raise Unsupported("global initialisation forks")
                st = r[0][0]
        self.base = st
        # contents of globals after initialisation become the shared image
        for oid, o in list(st.mem.items()):
            I.glob[oid] = o
        self.heap0 = st.nobj
        I.global_writes.clear()

    def _global_strings(self):
        out = set()
        for oid, o in self.base.mem.items():
            run = bytearray()
            last = None
            for off in sorted(o.cells):
                sz, v = o.cells[off]
                if type(v) is not int:
                    run = bytearray()
                    last = None
                    continue
                if last is not None and off != last:
                    run = bytearray()
                for b in v.to_bytes(sz, "little") if v < 1 << (8 * sz) else b"":
                    if b == 0:
                        if 1 < len(run) < 24:
                            s = run.decode("latin-1")
                            if re.fullmatch(r"[A-Z][A-Z0-9]+", s):
                                out.add(s)
                        run = bytearray()
                    elif 32 < b < 127:
                        run.append(b)
                    else:
                        run = bytearray()
                last = off + sz
            if 1 < len(run) < 24:
                s = run.decode("latin-1")
                if re.fullmatch(r"[A-Z][A-Z0-9]+", s):
                    out.add(s)
        return out

    def new_state(self):
        st = State()
        st.nobj = self.heap0
        return st

    def stream_fields(self):
        """fields of context that tokenize (transitively) writes: the read position"""
        mod = self.mod
        seen = {}
        offs = set()

        def visit(name, argi):
            fn = mod.fn(name)
            if fn is None or (name, argi) in seen:
                return
            seen[(name, argi)] = 1
            this = {fn.params[argi][1]: 0}
            for b in fn.blocks.values():
                for i in b.insns:
                    if i.op == "gep" and i.a[1][0][1][0] == "l" and i.a[1][0][1][1] in this:
                        try:
                            off = self.I._gep_off(i.a[0], [x[1][2] for x in i.a[1][1:]])
                        except Exception:
                            continue
                        this[i.res] = this[i.a[1][0][1][1]] + off
                    elif i.op == "store" and i.a[1][0] == "l" and i.a[1][1] in this:
                        offs.add(this[i.a[1][1]])
                    elif i.op == "call" and i.a[0][0] == "g":
                        for j, (t, a) in enumerate(i.a[1]):
                            if a[0] == "l" and this.get(a[1]) == 0:
                                visit(i.a[0][1], j)

        fn = mod.fn(A_TOKENIZE)
        # sret first, then this
        visit(A_TOKENIZE, 1)
        self.stream = []
        for f in self.lay["context"]["fields"]:
            if f[1] in offs:
                self.stream.append(f)
        ptrs = [f for f in self.stream if f[3].endswith("*")]
        if len(ptrs) != 1:
            raise Unsupported("cannot identify the read position of context: %r" % (self.stream,))
        self.pos_off = ptrs[0][1]

    # --------------------------------------------------------------- hooks
    def install(self):
        I, D, B = self.I, self.D, self.B

        def getpos(st, ctx):
            o = I.obj(st, ctx.obj)
            c = o.cells.get(ctx.off + self.pos_off)
            if c is None or type(c[1]) is not Ptr or c[1].obj != "STREAM":
                raise Unsupported("context read position is not a stream position at %s" % I.where())
            return c[1].off

        self.getpos = getpos

        def setpos(st, ctx, pos):
            for f in self.stream:
                if f[1] == self.pos_off:
                    I.put(st, Ptr(ctx.obj, ctx.off + f[1]), 8, Ptr("STREAM", pos))
                else:
                    I.put(st, Ptr(ctx.obj, ctx.off + f[1]), f[2], B.bits("pos%d.%s" % (pos, f[0]), f[2] * 8))

        self.setpos = setpos

        def tokenize(I_, st, args, ins):
            sret, ctx = I.deref(st, args[0]), I.deref(st, args[1])
            pos = getpos(st, ctx)
            for f in self.stream:
                if f[1] == self.pos_off:
                    continue
                c = I.obj(st, ctx.obj).cells.get(ctx.off + f[1])
                want = B.bits("pos%d.%s" % (pos, f[0]), f[2] * 8)
                if c is None or c[1] != want:
                    st.event("position", I.where(), "%s is not restored together with the read position" % f[0])
            D.write_token(I, st, sret, pos)
            setpos(st, ctx, pos + 1)
            st.event("token", pos, I.where())
            hook = self.on_token
            if hook is not None:
                hook(st, pos)
            return [(st, None)]

        self.on_token = None
        self.on_fail = None
        I.glob["ERRMSG"] = Obj(4096, "errmsg", "opaque", name="message")
        I.hooks[A_TOKENIZE] = tokenize

        def message_args(st, args, first):
            """use of every variadic argument"""
            import fmtcheck
            fmt = self.fmt(st, args[first - 1])
            if fmt is None:
                st.event("msgarg", I.where(), "the format of a diagnostic is not a literal")
                return
            self.messages.add((I.where(), fmt))
            for t in fmtcheck.values(self, st, fmt, args[first:]):
                st.event("msgarg", I.where(), t)

        self.messages = set()

        def fail(I_, st, args, ins):
            sret, tokp, fmt = I.deref(st, args[0]), I.deref(st, args[1]), args[2]
            message_args(st, args, 3)
            k = D.token_at(I, st, tokp)
            msg = self.fmt(st, fmt)
            st.event("fail", I.where(), k, msg)
            I.put(st, sret, self.err_size, Ptr("ERRMSG", 0))
            if self.on_fail is not None:
                self.on_fail(st)
            return [(st, None)]

        I.hooks[A_FAIL] = fail

        def fatal_tok(I_, st, args, ins):
            message_args(st, args, 2)
            p = I.deref(st, args[0])
            k = D.token_at(I, st, p)
            at = None
            if k is None:
                at = tuple(I.resolve(st, I.load(st, Ptr(p.obj, p.off + D.off[f]), t)) for f, t in
                           (("filename", PTR), ("line", IntTy(32)), ("column", IntTy(32))))
            raise Die("fatal", tok=k, msg=self.fmt(st, args[1]), at=at)

        def fatal(I_, st, args, ins):
            message_args(st, args, 1)
            raise Die("fatal", tok=None, msg=self.fmt(st, args[0]))

        def raise_(I_, st, args, ins):
            m = I.resolve(st, I.load(st, I.deref(st, args[0]), PTR))
            if m == 0 or type(m) is Maybe and B.AND(st.pc, B.NOT(m.c)) != 0:
                st.event("nullderef", I.where(), "an error without message is raised")
            elif m is UNDEF:
                I.undef_use(st, "error")
            raise Die("raise")

        I.hooks[A_FATAL_TOK] = fatal_tok
        I.hooks[A_FATAL] = fatal
        I.hooks[A_RAISE] = raise_

        def find_label(I_, st, args, ins):
            n, p = I.resolve(st, args[1]), I.resolve(st, args[2])
            if type(p) is Ptr and I.obj(st, p.obj).kind == "tokstr":
                k = I.obj(st, p.obj).name
                nm = "t%s" % k
            else:
                nm = "text"
            has = B.bits("islabel(%s)" % nm, 1)
            v = B.bits("label(%s)" % nm, 64)
            return [(st, Agg([v, has + (0,) * 7]))]

        I.hooks[A_FINDLABEL] = find_label
        self.hashmap_models()

        # single to half conversion: a named term here, decided on its own (C21)
        self.half_fns = [n for n in list(self.mod.functions) if self.is_half(self.mod.fn(n))]
        self.half_opaque = False

        def half(I_, st, args, ins):
            if not self.half_opaque:
                return NotImplemented
            v = I.resolve(st, args[0])
            if v is UNDEF:
                I.undef_use(st, "converted value")
                raise Die("undef")
            if type(v) is int:
                return NotImplemented
            t = I.fterm(v)
            bits = B.bits("half(%s)" % t, 16)
            return [(st, bits[:15] + (I.bits(st, v, 32)[31],))]

        for n in self.half_fns:
            I.hooks[n] = half

    def is_half(self, f):
        """functions of type uint16_t(float)"""
        return f is not None and (f.ret_text == "i16" and len(f.params) == 1 and f.params[0][0].k == "float")

    def hashmap_models(self):
        """copying the label map around keeps it the same map"""
        I = self.I

        def um(n):
            return n.startswith(("@_ZNSt13unordered_map", "@_ZNKSt13unordered_map"))

        def h(I_, st, args, ins):
            return self.map_op(st, ins, args)

        I.pattern_hooks.append((um, h))

    def map_op(self, st, ins, args):
        I = self.I
        name = ins.a[0][1]
        m = re.search(r"EE(C[12]|D[12]|aS)E?(.*)$", name)
        if m and m.group(1) in ("C1", "C2"):
            p = I.deref(st, args[0])
            tag = "empty"
            if len(args) > 1 and m.group(2).startswith(("RKSE", "RKS", "OS")):
                q = I.deref(st, args[1])
                tag = I.obj(st, q.obj).cells.get(q.off, (8, "empty"))[1]
            I.put(st, p, 56, tag)
            return [(st, None)]
        if m and m.group(1) in ("D1", "D2"):
            return [(st, None)]
        if m and m.group(1) == "aS":
            p, q = I.deref(st, args[0]), I.deref(st, args[1])
            I.put(st, p, 56, I.obj(st, q.obj).cells.get(q.off, (56, "empty"))[1])
            return [(st, args[0])]
        raise Unsupported("unordered_map operation %s" % name)

    def fmt(self, st, p):
        try:
            return self.I.cstring(st, p).decode("latin-1")
        except Exception:
            return None

    # ------------------------------------------------------ environments
    def make_ctx(self, st, pos=0):
        """a context in an arbitrary state, at stream position pos"""
        I, B = self.I, self.B
        c = I.new_obj(st, self.lay["context"]["size"], "ctx", name="context")
        o = I.wobj(st, c.obj)
        for nm, off, size, ty in self.lay["context"]["fields"]:
            if ty.startswith("unordered_map"):
                o.cells[off] = (size, "labels")
            elif ty.startswith("optional<std::__cxx11::basic_string"):
                o.cells[off + size - 8] = (1, 0)   # never engaged by the code (checked separately)
            elif ty.startswith("optional<"):
                o.cells[off] = (4, B.bits("ctx.%s" % nm, 32))
                o.cells[off + 4] = (1, B.bits("ctx.has_%s" % nm, 1) + (0,) * 7)
            elif ty.startswith("array<"):
                for i in range(0, size, 4):
                    o.cells[off + i] = (4, B.bits("ctx.%s[%d]" % (nm, i // 4), 32))
            elif ty == "bool":
                o.cells[off] = (1, B.bits("ctx.%s" % nm, 1) + (0,) * 7)
            elif ty.endswith("*"):
                o.cells[off] = (8, Ptr("CTXPTR_" + nm, 0))
            elif size in (1, 2, 4, 8):
                o.cells[off] = (size, B.bits("ctx.%s" % nm, size * 8))
            else:
                raise Unsupported("context field %s of type %s" % (nm, ty))
        self.setpos(st, c, pos)
        return c

    def make_op(self, st, sym="op"):
        I, B = self.I, self.B
        p = I.new_obj(st, self.lay["opcode"]["size"], "op", name="opcode")
        o = I.wobj(st, p.obj)
        o.cells[self.of["value"][1]] = (8, B.bits(sym, 64))
        o.cells[self.of["reuse"][1]] = (4, B.bits(sym + ".reuse", 3) + (0,) * 29)
        o.cells[self.of["sched"][1]] = (4, B.bits(sym + ".sched", 32))
        return p

    def op_field(self, st, p, f):
        nm, off, size, ty = self.of[f]
        return self.I.load(st, Ptr(p.obj, p.off + off), IntTy(size * 8))

    # --------------------------------------------------- operand summaries
    def summarize(self, fname):
        """all behaviours of one operand function -> Summary"""
        I, D, B = self.I, self.D, self.B
        st = self.new_state()
        ctx = self.make_ctx(st, 1)
        tok = I.new_obj(st, D.tok_size, "token", name="token")
        D.write_token(I, st, tok, 0)
        op = self.make_op(st)
        err = I.new_obj(st, self.err_size, "error", name="error")
        before = dict(I.obj(st, ctx.obj).cells)
        t0 = len(I.terminals)

        def limit(st, pos):
            if pos > 26:
                raise Die("long")
        saved, self.on_token = self.on_token, limit
        try:
            res = I.call(st, fname, [err, ctx, tok, op])
        finally:
            self.on_token = saved
        terms = I.terminals[t0:]
        del I.terminals[t0:]
        leaves = []
        for s, _ in res:
            leaves.append(self.leaf(s, ctx, tok, op, err, before))
        for s, kind, kw in terms:
            leaves.append(Leaf("die:" + kind, s.pc, None, None, None, None, s.events(), kw))
        return Summary(fname, leaves)

    def leaf(self, s, ctx, tok, op, err, before):
        I, D, B = self.I, self.D, self.B
        m = I.obj(s, err.obj).cells.get(0)
        if m is None:
            out = "undef"
        elif m[1] == 0:
            out = "ok"
        elif type(m[1]) is Ptr:
            out = "err"
        else:
            out = "unknown"
        ev = s.events()
        pos = self.getpos(s, ctx)
        la = D.token_at(I, s, tok)
        extra = []
        after = I.obj(s, ctx.obj).cells
        soff = {f[1] for f in self.stream}
        for off in set(before) | set(after):
            if off in soff:
                continue
            if before.get(off) != after.get(off):
                extra.append("ctx+%d" % off)
        value = I.bits(s, self.op_field(s, op, "value"), 64)
        reuse = I.bits(s, self.op_field(s, op, "reuse"), 32)
        sched = self.op_field(s, op, "sched")
        if sched != B.bits("op.sched", 32):
            extra.append("op.sched")
        return Leaf(out, s.pc, pos, la, value, reuse, ev, {"extra": extra})


class Leaf:
    __slots__ = ("out", "pc", "pos", "la", "value", "reuse", "ev", "kw")

    def __init__(self, out, pc, pos, la, value, reuse, ev, kw):
        self.out, self.pc, self.pos, self.la, self.value, self.reuse, self.ev, self.kw = \
            out, pc, pos, la, value, reuse, ev, kw


class Summary:
    def __init__(self, name, leaves):
        self.name = name
        self.leaves = leaves
