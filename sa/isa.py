"""The instruction set as the current tree implements it: mnemonics, forms, operands.

The forms come out of the interpretation of parse_instruction (driver.py).  What
surrounds the operands is checked here against its specification; the operands
themselves are summarised in forms.py.
"""
import re

from driver import Driver, SPAN
from forms import Forms
from interp import Unsupported

SCHED_NEUTRAL = 0x7E0


class Const:
    """pseudo operand: fixed bits, no token"""
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits


class Form:
    __slots__ = ("mnems", "guarded", "order", "const", "ops", "nopred", "where", "post")

    @property
    def name(self):
        return "/".join(self.mnems)


class Isa:
    def __init__(self, nx, want_sched=False):
        self.nx = nx
        self.I, self.B, self.D = nx.I, nx.B, nx.D
        self.drv = Driver(nx)
        self.log0 = len(self.I.log) if hasattr(self.I, "log") else 0
        self.results = self.drv.run()
        self.F = Forms(nx)
        self.bad = []       # (property ids, where, text)
        self.count = {}
        self.forms = []
        self.extract()

    def report(self, props, where, text):
        self.bad.append((tuple(props.split()), where, text))

    def n(self, what, k=1):
        self.count[what] = self.count.get(what, 0) + k

    # ------------------------------------------------------------ projection
    def project(self, f, keep):
        """exists all atoms whose symbol is not kept"""
        B = self.B
        return B.exists(f, lambda lv: not keep(B.atom_of(lv)[0]), {})

    def tok(self, nm):
        m = re.match(r"t(\d+)\.", nm)
        return int(m.group(1)) if m else None

    # --------------------------------------------------------------- extract
    def extract(self):
        B, D, I, nx = self.B, self.D, self.I, self.nx
        for p, w, t in self.drv.alarms:
            self.report(p, w, t)
        self.surroundings()
        eof = 0
        for st, ret in self.results:
            r = I.const_of(st, ret) if type(ret) is not int else ret
            if r == 0:
                if st.x["hist"]:
                    self.report("C10 C07", "parse_instruction", "an instruction was read but 'no more instructions' is returned")
                    continue
                eof += 1
                self.check_eof(st)
                continue
            self.form(st)
        self.n("paths to the end of the text", eof)
        self.forms.sort(key=lambda f: (f.guarded, f.order))
        self.mnem = {}
        for f in self.forms:
            for m in f.mnems:
                self.mnem.setdefault((m, f.guarded), []).append(f)
        allm = sorted({m for m, _ in self.mnem})
        for m in allm:
            a, b = self.mnem.get((m, 0), []), self.mnem.get((m, 1), [])
            if [(x.const, x.ops) for x in a] != [(x.const, x.ops) for x in b]:
                self.report("C05 C03", "parse_instruction", "%s has other forms with a guard than without" % m)
        self.ends()

    def ends(self):
        """how operands end: accepting or failing, never otherwise, and leaving the context alone"""
        fields = self.nx.lay["context"]["fields"]
        last = {id(fs[-1]) for fs in self.mnem.values()}
        seen = set()
        for f in self.forms:
            for o in f.ops:
                if not isinstance(o, str):
                    continue
                s = self.F.summary(o)
                for l in s.leaves:
                    if l.pc == 0 or l.out == "err":
                        continue
                    if l.out == "ok":
                        for e in l.kw["extra"]:
                            if not e.startswith("ctx+") or (o, e) in seen:
                                continue
                            seen.add((o, e))
                            off = int(e[4:])
                            fld = "/".join(x[0] for x in fields if x[1] <= off < x[1] + x[2])
                            self.report("C08 C07" if off == self.drv.pc_off else "C14 C16", o, "reading an operand changes context::%s" % fld)
                        continue
                    if l.out == "die:unreachable":
                        continue
                    if l.out in ("die:fatal", "die:raise"):
                        # the forms that follow would not be tried
                        if id(f) not in last and (o, "fatal") not in seen:
                            seen.add((o, "fatal"))
                            self.report("C09 C03", f.where, "%s: operand %s ends the program instead of failing, so that no other form is tried: %s" % (
                                f.name, o, self.describe(l.pc)))
                    elif l.out == "die:long":
                        if (o, "long") not in seen:
                            seen.add((o, "long"))
                            self.report("C03 C04 C10", o, "an operand reads on without end: %s" % self.describe(l.pc))
                    elif (o, l.out) not in seen:
                        seen.add((o, l.out))
                        self.report("C10 C12 C01", o, "reading an operand ends in %s (%s): %s" % (l.out.split(":")[-1], l.kw.get("why"), self.describe(l.pc)))

    EVENTS = {"filename": "C14", "overread": "C12", "oob": "C12", "uaf": "C12", "nullderef": "C12 C10 C18", "uninit": "C12 C14", "constwrite": "C12 C14",
              "divzero": "C12", "kind": "C13", "throw": "C10 C12", "position": "C19 C09", "msgarg": "C18", "badshift": "C02"}

    def surroundings(self):
        """what happens around the operands, on every path, accepted or not"""
        seen = set()
        opt = 0
        for s, kind, kw in self.drv.deaths:
            if kind == "option":
                opt = self.B.OR(opt, self.project(s.pc, lambda nm: nm in ("t0.kind", "t0.str")))
            self.n("paths of parse_instruction that end in a diagnostic")
            if kind not in ("fatal", "raise", "option", "unreachable"):
                self.report("C10 C12", kw.get("where", "parse_instruction"), "reading an instruction ends in %s (%s)" % (kind, kw.get("why")))
        B, D = self.B, self.D
        dot = B.AND(D.is_kind(0, "identifier"), D.func(0, ("dot",), lambda s: s[:1] == ".", 1)[0])
        dot = self.project(B.AND(dot, D.valid(0)), lambda nm: nm in ("t0.kind", "t0.str"))
        if opt != dot:
            self.report("C16", "parse_instruction", "parse_option is not called for exactly the tokens that begin with a dot")
        for w, t in self.drv.options():
            self.report("C16", w, t)
        for evs in [self.I.log[self.log0:]] + [s.events() for s, _, _ in self.drv.deaths] + [s.events() for s, _ in self.results]:
            for e in evs:
                if e[0] in self.EVENTS and e not in seen:
                    seen.add(e)
                    self.report(self.EVENTS[e[0]], e[1], "%s: %s" % (e[0], e[2]))
                elif e[0] == "assert" and e not in seen and any(c != 0 for c in e[2]):
                    seen.add(e)
                    self.report("C01 C10", e[1], "an assertion can fail while an instruction is read")

    def check_eof(self, st):
        B, D = self.B, self.D
        k = self.project(st.pc, lambda nm: nm == "t0.kind")
        if B.AND(k, B.NOT(D.is_kind(0, "none"))) != 0:
            self.report("C10 C07", "parse_instruction", "'no more instructions' is returned although text follows")

    def form(self, st):
        nx, B, D, I = self.nx, self.B, self.D, self.I
        h = st.x["hist"]
        pc = st.pc
        ctx, op = self.drv.ctx, self.drv.op
        # the token after the operands
        endpos = nx.getpos(st, ctx)
        m = self.mnemonic_token(st)
        guarded = 1 if m else 0
        f = Form()
        f.guarded = guarded
        f.order = st.x["iter"]
        where = h[0].where if h else "parse_instruction"
        f.where = where
        text = self.project(pc, lambda nm: nm == "t%d.str" % m)
        idx = D.strvals(m, text)
        if len(idx) > 8:
            self.report("C03 C04 C09", where, "a form is accepted for any mnemonic")
            return
        f.mnems = [D.alpha[i] for i in idx]
        nm = f.name
        if not f.mnems:
            raise Unsupported("form without mnemonic")
        # guard
        if guarded:
            g = tuple(B.bits("t1.pidx", 3)) + tuple(B.bits("t1.pneg", 1))
            gc = self.project(pc, lambda n: n in ("t1.pidx", "t1.pneg"))
            true = B.veq(g, B.const(7, 4))
            if gc == 1:
                f.nopred = 0
            elif gc == true:
                f.nopred = 1
            else:
                f.nopred = None
                self.report("C05", where, "%s: some guards are refused and others are not" % nm)
        else:
            g = B.const(7, 4)
            f.nopred = None
        # the word: fixed bits and guard are there before the operands, or are added after
        seq = [c.value for c in h] + [I.bits(st, nx.op_field(st, op, "value"), 64)]
        before = (0,) * 64
        ops = []
        gseen = [0] * 4
        const = 0
        for i, v in enumerate(seq):
            extra = 0
            for b in range(64):
                if v[b] == before[b]:
                    continue
                if v[b] == 1 or v[b] == B.OR(before[b], 1):
                    extra |= 1 << b
                elif 16 <= b < 20 and v[b] == B.OR(before[b], g[b - 16]):
                    gseen[b - 16] = 1
                else:
                    self.report("C09 C03 C01" if i == 0 else "C01 C03 C10", where,
                                "%s: bit %d of the word %s is %s" % (
                                    nm, b, "before the first operand" if i == 0 else "after operand %d" % i,
                                    self.describe(v[b])))
                    return
            if i == 0 and not guarded:
                # the guard is constant true
                if extra >> 16 & 0xF == 7:
                    extra &= ~(7 << 16)
                    gseen = [1] * 4
            if extra:
                ops.append(Const(extra))
            if i < len(h):
                ops.append(h[i].fn)
                before = B.bits("v%d" % i, 64)
        if guarded and not all(gseen) or not guarded and not all(gseen):
            self.report("C05 C03", where, "%s: the guard does not reach bits 16 to 19 of the word" % nm)
        # reuse flags
        rseq = [c.reuse for c in h] + [I.bits(st, nx.op_field(st, op, "reuse"), 32)]
        before = (0,) * 32
        for i, v in enumerate(rseq):
            if tuple(v) != tuple(before):
                self.report("C06 C09" if i == 0 else "C06", where, "%s: reuse flags %s are not %s" % (
                    nm, "before the first operand" if i == 0 else "after operand %d" % i,
                    "empty" if i == 0 else "kept"))
                break
            before = tuple(B.bits("v%d.reuse" % i, 3)) + (0,) * 29
        # scheduling fields
        for c in h:
            if c.sched != 0:
                self.report("C06 C09", where, "%s: scheduling fields are set before the operands" % nm)
                break
        s = nx.op_field(st, op, "sched")
        s = I.bits(st, s, 32)
        if s != B.const(SCHED_NEUTRAL, 32):
            self.report("C06", where, "%s: without annotations the scheduling fields are %s, not stall 0, no yield, no barriers"
                        % (nm, self.describe_word(s)))
        # positions
        first = h[0].pos if h else endpos
        if first != m + 2:
            self.report("C09 C03", where, "%s: the operands are read from token %d on, the mnemonic is token %d" % (nm, first - 1, m))
            return
        for i, c in enumerate(h):
            want = m + 2 if i == 0 else SPAN * i
            if c.pos != want:
                self.report("C03 C10", where, "%s: tokens are skipped or read again before operand %d" % (nm, i + 1))
                return
        want = SPAN * len(h) if h else m + 2
        if endpos != want:
            self.report("C10 C07 C22", where, "%s: %s after the semicolon" % (
                nm, "a token is lost" if endpos > want else "the position is moved back"))
        last = endpos - 1
        # accepted exactly when the operands are, followed by a semicolon
        semi = D.is_kind(last, "semicolon")
        if B.AND(pc, B.NOT(semi)) != 0:
            self.report("C10 C07 C22", where, "%s: accepted although the instruction is not closed by a semicolon" % nm)
        drop = {499, SPAN // 2 - 1}
        keep = self.project(pc, lambda n: not n.startswith("join:") and self.tok(n) not in drop)
        for k in {self.tok(n) for n in B.support_syms(keep)} - {None}:
            keep = B.AND(keep, D.valid(k))
        exp = B.AND(semi, D.is_kind(m, "identifier"))
        exp = B.AND(exp, D.strset(m, idx))
        if guarded:
            exp = B.AND(exp, B.AND(D.is_kind(0, "at"), D.is_kind(1, "predicate")))
            if f.nopred:
                exp = B.AND(exp, true)
        alltok = [0] + ([1, 2] if guarded else []) + [c.pos - 1 for c in h] + [last]
        for k in alltok:
            exp = B.AND(exp, D.valid(k))
            if k >= SPAN - 1 or k == last:
                exp = B.AND(exp, B.NOT(D.is_kind(k, "at")))
        keep = self.project(keep, lambda n: n != "ctx.pc")
        x = B.AND(keep, B.NOT(exp))
        if x != 0:
            if f.nopred is not None or not guarded:
                self.report("C03 C10 C05", where, "%s: accepted outside the condition of the form: %s" % (nm, self.describe(x)))
        elif keep != exp:
            self.report("C03 C09", where, "%s: refused although all its operands are accepted: %s" % (
                nm, self.describe(B.AND(exp, B.NOT(keep)))))
        # the context
        self.context(st, f, nm, where)
        f.const = sum(o.bits for o in ops[:1] if isinstance(o, Const))
        f.ops = ops
        f.ops, f.const, f.post = self.pull(ops)
        self.forms.append(f)
        self.n("accepted forms")

    def context(self, st, f, nm, where):
        """everything but the read position and the address is left alone; the address moves on"""
        nx, B, I, drv = self.nx, self.B, self.I, self.drv
        after = I.obj(st, drv.ctx.obj).cells
        soff = {x[1] for x in nx.stream}
        pcold = B.bits("ctx.pc", 64)
        low = B.veq(pcold[:5], B.const(0, 5))
        aligned = B.vite(low, B.vadd(pcold, B.const(8, 64))[0], pcold)
        new = B.vadd(aligned, B.const(8, 64))[0]
        self.n("context fields", len(after))
        for off in sorted(set(drv.ctx0) | set(after)):
            if off in soff:
                continue
            a, b = drv.ctx0.get(off), after.get(off)
            if off == drv.pc_off:
                if b is None or tuple(B.AND(st.pc, x) for x in I.bits(st, b[1], 64)) != tuple(B.AND(st.pc, x) for x in new):
                    self.report("C08 C07", where, "%s: the address of the next instruction is not the address of this one plus 8" % nm)
            elif a != b:
                fld = [x[0] for x in nx.lay["context"]["fields"] if x[1] <= off < x[1] + x[2]]
                self.report("C14 C16", where, "%s: reading an instruction changes context::%s" % (nm, "/".join(fld)))

    def mnemonic_token(self, st):
        B, D = self.B, self.D
        k = self.project(st.pc, lambda nm: nm == "t0.kind")
        ks = D.kinds_under(k, 0)
        names = sorted(D.kname[x] for x in ks)
        if names == ["identifier"]:
            return 0
        if names == ["at"]:
            return 2
        self.report("C05 C03 C10", "parse_instruction", "an instruction may start with a token of kind %s" % "/".join(names))
        raise Unsupported("instruction starts with %s" % names)

    def pull(self, ops):
        """fixed bits that no operand reads or writes can be moved to the front"""
        const = 0
        out = []
        post = []
        for o in ops:
            bits = o.bits if isinstance(o, Const) else self.constant_op(o)
            if bits is None:
                out.append(o)
            elif not out or not self.touched(out, bits):
                const |= bits
            else:
                out.append(Const(bits))
                post.append(bits)
        return tuple(out), const, post

    def constant_op(self, fn):
        s = self.F.summary(fn)
        return self.constant_sum(s)

    def constant_sum(self, s):
        """bits if the operand reads nothing, always succeeds and only sets fixed bits"""
        if len(s.groups) != 1:
            return None
        g = s.groups[0]
        if g.n != 0 or g.pc != self.D.valid(0) or any(k[0] != "keep" for k in g.rk):
            return None
        bits = 0
        for i, k in enumerate(g.vk):
            if k[0] == "keep":
                continue
            if k[0] == "or" and self.B.AND(k[1], g.pc) == g.pc:
                bits |= 1 << i
            else:
                return None
        return bits

    def touched(self, ops, bits):
        for o in ops:
            if isinstance(o, Const):
                if o.bits & bits:
                    return True
                continue
            if self.F.mask(self.F.summary(o) if isinstance(o, str) else o) & bits:
                return True
        return False

    # ------------------------------------------------------------- describing
    def describe(self, f):
        """one example of a condition, in words"""
        B, D = self.B, self.D
        if f == 0:
            return "never"
        if f == 1:
            return "always"
        p = B.pick(f)
        return self.show(p)

    def show(self, p):
        B, D = self.B, self.D
        vals = {}
        for lv, b in p.items():
            nm, bit = B.atom_of(lv)
            vals.setdefault(nm, {})[bit] = b
        out = []
        for nm in sorted(vals):
            v = sum(b << i for i, b in vals[nm].items())
            m = re.fullmatch(r"t(\d+)\.(kind|str)", nm)
            if m and m.group(2) == "kind":
                out.append("%s=%s" % (nm, D.kname.get(v, v)))
            elif m:
                out.append("%s=%s" % (nm, D.alpha[v] if v < len(D.alpha) else v))
            else:
                out.append("%s=0x%x" % (nm, v))
        return ", ".join(out[:12])

    def describe_word(self, bits):
        try:
            return "0x%x" % sum(int(b == 1) << i for i, b in enumerate(bits))
        except Exception:
            return "?"
