"""The instruction driver: which forms exist, in which order, and what surrounds them.

parse_instruction is interpreted once for every possible instruction at the
same time.  Operand functions (indirect calls that receive the context, the
look-ahead token and the word) are replaced by "succeeds with any result" and
"fails leaving anything behind"; states that meet at a loop head are joined.
Every way to return success yields one Form.
"""
from interp import Die, Maybe, NoProgress, Obj, Ptr, UNDEF, Unsupported, TokRaw
from ir import IntTy
from nxmodel import A_PARSE, A_OPTION, A_FAIL

SPAN = 1000
MSG = Ptr("ERRMSG", 0)


class Call:
    __slots__ = ("fn", "value", "reuse", "sched", "la", "pos", "where", "n")


class Driver:
    def __init__(self, nx):
        self._ft, self._sy, self._ind = {}, {}, {}
        self.nx = nx
        self.I, self.B, self.D = nx.I, nx.B, nx.D
        self.alarms = []
        self.forms = []
        self.outcomes = {}

    # ------------------------------------------------------------ the run
    def run(self, sched=False):
        """sched=False: no scheduling annotation follows the operands"""
        nx, I, B, D = self.nx, self.I, self.B, self.D
        st = nx.new_state()
        self.sched = sched
        ctx = self.ctx = nx.make_ctx(st, 0)
        op = self.op = nx.make_op(st)
        o = I.wobj(st, op.obj)
        for f in ("value", "reuse", "sched"):
            o.cells[nx.of[f][1]] = (nx.of[f][2], 0)
        self.pc_off = nx.cf["pc"][1]
        self.ctx0 = dict(I.obj(st, ctx.obj).cells)
        st.x = {"hist": (), "n": 0, "dirty": False, "iter": 0}
        saved = (I.indirect_hook, I.loop_hook, nx.on_token, nx.on_fail, I.hooks.get(A_OPTION))
        I.indirect_hook = self.indirect
        I.merge_returns = True
        I.loop_hook = self.join
        nx.on_token = self.on_token
        nx.on_fail = self.on_fail
        I.hooks[A_OPTION] = self.option
        I.call_stack_base = len(I.call_stack)
        t0 = len(I.terminals)
        try:
            res = I.call(st, A_PARSE, [ctx, op])
        finally:
            I.merge_returns = False
            I.indirect_hook, I.loop_hook, nx.on_token, nx.on_fail, h = saved
            if h is None:
                del I.hooks[A_OPTION]
            else:
                I.hooks[A_OPTION] = h
        self.results = res
        self.deaths = I.terminals[t0:]
        del I.terminals[t0:]
        return res

    def options(self):
        """every token that begins with a dot, first or after an option, goes to parse_option: findings"""
        nx, I, B, D = self.nx, self.I, self.B, self.D
        out = []

        def dot(k):
            return B.AND(D.is_kind(k, "identifier"), D.func(k, ("dot",), lambda s: s[:1] == ".", 1)[0])
        st = nx.new_state()
        ctx = nx.make_ctx(st, 0)
        op = nx.make_op(st)
        o = I.wobj(st, op.obj)
        for f in ("value", "reuse", "sched"):
            o.cells[nx.of[f][1]] = (nx.of[f][2], 0)
        D.admit(st, 0)
        D.admit(st, 1)
        st.pc = B.AND(st.pc, B.AND(dot(0), dot(1)))
        st.x = {"opts": 0}

        def option(I_, st, args, ins):
            k = st.x["opts"]
            c, t = I.deref(st, args[0]), I.deref(st, args[1])
            if c != ctx or str(D.token_at(I, st, t)) != str(k) or nx.getpos(st, ctx) != k + 1:
                out.append((I.where(), "an option is not read from the token that names it"))
            if k == 1:
                raise Die("option2")
            st.x = {"opts": 1}
            D.write_token(I, st, t, 1)
            nx.setpos(st, ctx, 2)
            return [(st, None)]
        saved = I.hooks.get(A_OPTION)
        I.hooks[A_OPTION] = option
        t0 = len(I.terminals)
        try:
            res = I.call(st, A_PARSE, [ctx, op])
        finally:
            if saved is None:
                del I.hooks[A_OPTION]
            else:
                I.hooks[A_OPTION] = saved
        terms = I.terminals[t0:]
        del I.terminals[t0:]
        if res or any(k not in ("option2", "unreachable") for s, k, kw in terms) or not terms:
            out.append(("parse_instruction", "an option that follows another one is not read as an option"))
        return out

    # ---------------------------------------------------------- callbacks
    def on_token(self, st, pos):
        if st.x is None:
            return
        B, D = self.B, self.D
        if pos >= 2 and not self.sched and st.x["hist"] == () and pos < SPAN:
            pass
        st.x["last"] = pos

    def on_fail(self, st):
        if st.x is not None:
            st.x["hist"] = ()
            st.x["dirty"] = True

    def option(self, I, st, args, ins):
        """parse_option: any effect on the context, next token anything"""
        raise Die("option")

    def no_at(self, st, k):
        if not self.sched:
            st.pc = self.B.AND(st.pc, self.B.NOT(self.D.is_kind(k, "at")))

    def indirect(self, I, st, fname, args, ins):
        nx, B, D = self.nx, self.B, self.D
        if len(args) != 4:
            return NotImplemented
        err, ctx, tok, op = [I.deref(st, a) for a in args]
        if ctx != self.ctx or op != self.op:
            # a working copy: what counts is what comes back to the real ones
            for p, size in ((ctx, nx.lay["context"]["size"]), (op, nx.lay["opcode"]["size"])):
                if type(p) is not Ptr or I.obj(st, p.obj).kind not in ("stack", "ctx", "op") or type(p.off) is not int:
                    raise Unsupported("operand called on another context or word at %s" % I.where())
        c = Call()
        c.fn = fname
        c.where = I.where()
        c.value = I.bits(st, nx.op_field(st, op, "value"), 64)
        c.reuse = I.bits(st, nx.op_field(st, op, "reuse"), 32)
        c.sched = nx.op_field(st, op, "sched")
        c.la = D.token_at(I, st, tok)
        c.pos = nx.getpos(st, ctx)
        if st.x["hist"] and c.pos < SPAN:
            # another form is tried although one was complete
            self.alarms.append(("C09", c.where, "a form is tried again after an earlier one was accepted"))
            st.x["hist"] = ()
        n = c.n = len(st.x["hist"])
        if c.la is None or str(c.la) != str(c.pos - 1):
            raise Unsupported("operand called with look-ahead %s at position %s" % (c.la, c.pos))
        # fails: anything may have been changed
        bad = st.fork()
        self.havoc(bad, ctx, tok, op, "e", SPAN // 2)
        I.put(bad, err, nx.err_size, Ptr("ERRMSG", 0))
        bad.x["hist"] = ()
        bad.x["dirty"] = True
        self.havoc(st, ctx, tok, op, "v%d" % n, SPAN * (n + 1))
        I.put(st, err, nx.err_size, 0)
        st.x["hist"] = st.x["hist"] + (c,)
        return [(st, None), (bad, None)]

    def havoc(self, st, ctx, tok, op, name, pos):
        nx, I, B, D = self.nx, self.I, self.B, self.D
        I.put(st, Ptr(op.obj, op.off + nx.of["value"][1]), 8, B.bits(name, 64))
        I.put(st, Ptr(op.obj, op.off + nx.of["reuse"][1]), 4, B.bits(name + ".reuse", 3) + (0,) * 29)
        D.write_token(I, st, tok, pos - 1)
        self.no_at(st, pos - 1)
        nx.setpos(st, ctx, pos)

    # --------------------------------------------------------------- join
    def join(self, I, fn, bname, st, env, depth):
        if fn.name == A_PARSE:
            st.x["iter"] += 1
        n = env["#" + bname] = env.get("#" + bname, 0) + 1
        if n > 1000:
            raise NoProgress(fn.name, bname, I.where())
        if fn.name == A_PARSE and st.x["hist"] == ():
            # which mnemonics were compared before does not matter for the rest
            # (only whether the last one was equal, so that a form after the first of a
            # mnemonic is reached only through the failure of those before it)
            e = st.x.get("eq", 1)
            ne = self.B.NOT(e)
            st.pc = self.B.OR(self.B.AND(e, self.forget_text(self.B.AND(st.pc, e))),
                              self.B.AND(ne, self.forget_text(self.B.AND(st.pc, ne))))
        live = I.live_in(fn)[bname]
        ind = self.inductive(fn, bname)
        phis = {p.res for p in fn.blocks[bname].phis}
        keep = {k: v for k, v in env.items() if k in live or k == "$a" or k == "..." or k[0] == "#"}
        key = [bname, st.x["hist"], st.x["dirty"] if False else None]
        loose = []
        for k in sorted(keep):
            v = keep[k]
            if k[0] == "#":
                continue
            if type(v) is int and k in phis and k not in ind:
                loose.append(k)
            elif type(v) is tuple and k in phis and k not in ind and str(self.I.symname(v)).startswith("join:"):
                loose.append(k)
            else:
                key.append((k, v if type(v) is not list else tuple(v)))
        mem = []
        lm = []
        ex = []
        first_time = fn.name == A_PARSE and n == 1 and st.x["hist"] == ()
        for oid in st.mem:
            o = st.mem[oid]
            if type(oid) is not int:
                if st.mem[oid] is not I.glob.get(oid):
                    mem.append((oid, tuple(sorted(o.cells.items()))))
                continue
            for off in sorted(o.cells):
                c = o.cells[off]
                if type(c[1]) is tuple and (o.kind == "ctx" and off == self.pc_off or o.kind == "stack") and \
                        "ctx.pc" in self.syms(c[1]):
                    lm.append((oid, off))
                    mem.append((oid, off, c[0]))
                elif first_time and o.kind in ("op", "stack") and type(c[1]) is tuple and c[0] <= 8 and not I.loose(c[1]):
                    # ways to take the guard over that part in between
                    ex.append((oid, off))
                    mem.append((oid, off, c[0], "value"))
                elif o.kind == "stack" and c[0] <= 8 and I.loose(c[1]) and not (c[0] == 8 and c[1] == 0):
                    lm.append((oid, off))
                    mem.append((oid, off, c[0]))
                elif o.kind == "stack" and c[0] == 8 and (c[1] == 0 or c[1] == MSG or type(c[1]) is Maybe):
                    # an error that is set or not
                    lm.append((oid, off))
                    mem.append((oid, off, "error"))
                else:
                    mem.append((oid, off, c))
            mem.append((oid, o.freed))
        try:
            key = (tuple(key), tuple(mem))
            hash(key)
        except TypeError:
            return False
        d = I.deferred[depth]
        old = d.get(key)
        if old is None:
            d[key] = (st, keep, bname)
            return True
        so, eo, _ = old
        disjoint = self.B.AND(so.pc, st.pc) == 0
        if not disjoint and any(so.mem[i].cells[j] != st.mem[i].cells[j] and type(so.mem[i].cells[j][1]) is tuple
                                and not I.loose(so.mem[i].cells[j][1]) for i, j in lm):
            return False
        if not disjoint and any(so.mem[i].cells[j] != st.mem[i].cells[j] for i, j in ex):
            return False
        first = so.pc
        for oid, off in ex:
            a, b = so.mem[oid].cells[off], st.mem[oid].cells[off]
            if a != b:
                w = 8 * a[0]
                I.wobj(so, oid).cells[off] = (a[0], I.norm(self.B.vite(self.B.simplify(so.pc, self.B.OR(so.pc, st.pc)),
                                                                       I.bits(so, a[1], w), I.bits(st, b[1], w))))
        so.pc = self.B.OR(so.pc, st.pc)
        for k in list(so.conc):
            if st.conc.get(k) != so.conc[k]:
                del so.conc[k]
        so.tokens = so.tokens & st.tokens if so.tokens != st.tokens else so.tokens
        so.nobj = max(so.nobj, st.nobj)
        so.x["dirty"] = so.x["dirty"] or st.x["dirty"]
        so.x["iter"] = max(so.x["iter"], st.x["iter"])
        for k in keep:
            if k[0] == "#":
                eo[k] = max(eo.get(k, 0), keep[k])
        for k in loose:
            if eo[k] != keep[k]:
                w = self.width_of(fn, bname, k)
                eo[k] = self.B.bits("join:%s:%s" % (bname, k), w)
        for oid, off in lm:
            a, b = so.mem[oid].cells[off], st.mem[oid].cells[off]
            if a != b and (MSG in (a[1], b[1]) or Maybe in (type(a[1]), type(b[1]))):
                I.wobj(so, oid).cells[off] = (8, Maybe(MSG, self.B.bits("join:%d:%d" % (oid, off), 1)[0]))
            elif a != b and not (I.loose(a[1]) and I.loose(b[1])):
                I.wobj(so, oid).cells[off] = (8, I.norm(self.B.vite(first, I.bits(so, a[1], 64), I.bits(st, b[1], 64))))
            elif a != b:
                I.wobj(so, oid).cells[off] = (a[0], self.B.bits("join:%d:%d" % (oid, off), 8 * a[0]))
        return True

    def forget_text(self, pc):
        B = self.B

        def text(lv):
            nm = B.atom_of(lv)[0]
            return nm.endswith(".str") and nm[1:-4].isdigit() and int(nm[1:-4]) < SPAN // 4

        return B.exists(pc, text, self._ft)

    def syms(self, v):
        r = self._sy.get(v)
        if r is None:
            r = set()
            for b in v:
                r |= self.B.support_syms(b)
            self._sy[v] = r
        return r

    def width_of(self, fn, bname, k):
        for p in fn.blocks[bname].phis:
            if p.res == k:
                return p.ty.w
        raise Unsupported("phi width")

    def inductive(self, fn, bname):
        key = (id(fn), bname)
        r = self._ind.get(key)
        if r is None:
            defs = {i.res: i for b in fn.blocks.values() for i in b.insns if i.res}
            r = set()
            for p in fn.blocks[bname].phis:
                for pred, v in p.a.items():
                    if v[0] != "l":
                        continue
                    i = defs.get(v[1])
                    if i is None:
                        continue
                    if i.op in ("add", "sub", "gep"):
                        base = i.a[0] if i.op in ("add", "sub") else i.a[1][0][1]
                        other = i.a[1] if i.op in ("add", "sub") else i.a[1][1][1]
                        if base == ("l", p.res) and other[0] == "i":
                            r.add(p.res)
            self._ind[key] = r
        return r
