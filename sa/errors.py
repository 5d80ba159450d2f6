"""The functions that make and print diagnostics, with symbolic positions, formats and lengths (C10, C18, C19).

A formatted text is a list of literals and arguments; its length is a symbol below 2^12 (the sum of two stays far from
where int overflows, and well above any fixed buffer).  The buffer a message is put into has a symbolic size, and every
write to it has to end inside.
"""
from fmtcheck import CONV
from interp import Die, Maybe, Ptr, UNDEF, Unsupported
from ir import IntTy, PTR
from nxmodel import A_FAIL, A_FATAL, A_FATAL_TOK, A_RAISE

W = 12
WRITERS = ("fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite", "puts", "printf", "vprintf", "putchar", "perror", "fflush")


class Errors:
    def __init__(self, nx, r):
        self.nx, self.I, self.B, self.r = nx, nx.I, nx.B, r
        self.bufs = {}
        self.lens = {}

    # ------------------------------------------------------------- models
    def install(self):
        I, B = self.I, self.B
        self.saved = dict(I.hooks)
        h = I.hooks
        for n in (A_FAIL, A_FATAL, A_FATAL_TOK, A_RAISE):
            h.pop(n, None)
        for n in ("@llvm.va_start", "@llvm.va_start.p0"):
            h[n] = self.va_start
        for n in ("@llvm.va_end", "@llvm.va_end.p0"):
            h[n] = self.va_end
        for n in ("@llvm.va_copy", "@llvm.va_copy.p0", "@llvm.va_copy.p0.p0"):
            h[n] = self.va_copy
        for n in ("@_Znam", "@_Znwm", "@malloc"):
            h[n] = self.alloc
        h["@calloc"] = lambda I_, st, a, ins: self.alloc(I_, st, [I.binop(st, "mul", a[0], a[1], 64)], ins)
        for n in ("@llvm.memset.p0.i64", "@memset"):
            h[n] = self.memset
        for n in ("snprintf", "vsnprintf", "sprintf", "vsprintf"):
            h["@" + n] = (lambda n: lambda I_, st, a, ins: self.into(st, n, a))(n)
        h["@strlen"] = self.strlen
        for n in WRITERS:
            h["@" + n] = (lambda n: lambda I_, st, a, ins: self.put(st, n, a))(n)
        for n in ("_ZdaPv", "_ZdaPvm", "_ZdlPv", "_ZdlPvm", "free"):
            h["@" + n] = self.free
        I._ph_cache.clear()

    def restore(self):
        self.I.hooks.clear()
        self.I.hooks.update(self.saved)
        self.I.bufs = None

    def bad(self, prop, text):
        if self.r.prop in prop:
            self.r.bad(self.I.where(), text)

    def va(self, st, p):
        p = self.I.deref(st, p)
        return (p.obj, p.off)

    def va_start(self, I, st, a, ins):
        k = self.va(st, a[0])
        va = dict(st.x["va"])
        if va.get(k) in ("started", "used"):
            self.bad(("C18",), "va_start on a list that is not ended")
        va[k] = "started"
        st.x = dict(st.x, va=va)
        return [(st, None)]

    def va_end(self, I, st, a, ins):
        k = self.va(st, a[0])
        va = dict(st.x["va"])
        if va.get(k) not in ("started", "used"):
            self.bad(("C18",), "va_end on a list that is not started")
        va[k] = "ended"
        st.x = dict(st.x, va=va)
        return [(st, None)]

    def va_copy(self, I, st, a, ins):
        k, s = self.va(st, a[0]), self.va(st, a[1])
        va = dict(st.x["va"])
        if va.get(s) != "started":
            self.bad(("C18",), "va_copy of a list that is %s" % (va.get(s) or "not started"))
        va[k] = "started"
        st.x = dict(st.x, va=va)
        return [(st, None)]

    def use_va(self, st, p):
        k = self.va(st, p)
        va = dict(st.x["va"])
        s = va.get(k)
        if s != "started":
            self.bad(("C18",), "the arguments of a message are read through a list that is %s" % (
                {"used": "used up", "ended": "ended", None: "not started"}[s]))
        va[k] = "used"
        st.x = dict(st.x, va=va)

    def alloc(self, I, st, a, ins):
        n = I.resolve(st, a[0])
        if type(n) is int:
            if n > 1 << 16:
                raise Unsupported("allocation of %d bytes" % n)
            p = I.new_obj(st, n, "heap")
            self.bufs[p.obj] = I.B.const(n, 64)
            return [(st, p)]
        p = I.new_obj(st, None, "buf", name="buffer")
        self.bufs[p.obj] = I.bits(st, n, 64)
        return [(st, p)]

    def free(self, I, st, a, ins):
        p = I.resolve(st, a[0])
        if type(p) is Ptr and p.obj in ("ERRMSG", "OPAQUE"):
            return [(st, None)]
        if type(p) is Ptr:
            o = I.wobj(st, p.obj)
            if o.freed:
                self.bad(("C12", "C18"), "released twice")
            o.freed = True
        return [(st, None)]

    def memset(self, I, st, a, ins):
        p = I.deref(st, a[0])
        if I.obj(st, p.obj).kind != "buf":
            return NotImplemented
        n = I.bits(st, a[2], 64)
        self.region(st, p, n)
        return [(st, a[0])]

    def size_of(self, st, p):
        o = self.I.obj(st, p.obj)
        if o.freed:
            self.bad(("C12", "C18"), "a message is written into released memory")
        return self.bufs[p.obj] if p.obj in self.bufs else None if o.size is None else self.B.const(o.size, 64)

    def off(self, st, p):
        return self.B.const(p.off & (1 << 64) - 1, 64) if type(p.off) is int else self.I.bits(st, p.off, 64)

    def region(self, st, p, n):
        """n bytes from p lie inside"""
        B = self.B
        size = self.size_of(st, p)
        if size is None:
            raise Unsupported("write into %s" % p.obj)
        end = B.vadd(self.off(st, p), n)[0]
        over = B.AND(B.NOT(B.veq(n, B.const(0, 64))), B.OR(B.vult(size, end), B.vult(size, n)))
        if B.AND(st.pc, over) != 0:
            self.bad(("C12", "C18"), "a message can be written past the end of its buffer")

    def pieces(self, st, fmt, args):
        """a format and its arguments as literals and values"""
        out, i, last = [], 0, 0
        for m in CONV.finditer(fmt):
            if m.start() > last:
                out.append(("lit", fmt[last:m.start()]))
            last = m.end()
            c = m.group(5)
            if c == "%":
                out.append(("lit", "%"))
                continue
            if m.group(2) == "*":
                i += 1
            if m.group(3) == ".*":
                i += 1
            v = self.I.resolve(st, args[i]) if i < len(args) else UNDEF
            i += 1
            out.append(("s" if c == "s" else "c" if c == "c" else "d" if c in "di" else c, v))
        if last < len(fmt):
            out.append(("lit", fmt[last:]))
        return tuple(out)

    def text(self, st, n, a):
        """the text of a formatted output call: pieces"""
        if n[0] == "v":
            f = self.I.resolve(st, a[0])
            self.use_va(st, a[1])
            if f == Ptr("FORMAT", 0):
                return (("va", "message"),)
            raise Unsupported("format of a message at %s" % self.I.where())
        fmt = self.nx.fmt(st, a[0])
        if fmt is None:
            f = self.I.resolve(st, a[0])
            if f in (Ptr("FORMAT", 0), Ptr("ERRMSG", 0)):
                self.bad(("C18",), "a text that is not a literal is used as a format")
                return (("str", f),)
            raise Unsupported("format at %s" % self.I.where())
        return self.pieces(st, fmt, a[1:])

    def length(self, t):
        b = self.lens.get(t)
        if b is None:
            B = self.B
            if all(k == "lit" for k, _ in t):
                b = B.const(sum(len(x) for _, x in t), 64)
            else:
                b = B.const(0, 64)
                for piece in t:
                    b = B.vadd(b, self.piece(piece))[0]
            self.lens[t] = b
        return b

    def piece(self, x):
        """length of one piece"""
        B = self.B
        if x[0] == "lit":
            return B.const(len(x[1]), 64)
        b = self.lens.get(x)
        if b is None:
            nm = "msglen%d" % len(self.lens)
            if x[0] in ("d", "i", "u"):
                # an int takes 1 to 11 characters
                v = B.bits(nm, 4)
                v = B.vite(B.vult(B.const(11, 4), v), B.const(11, 4), v)
                b = B.vite(self.I.none(v), B.const(1, 4), v) + (0,) * 60
            else:
                b = B.bits(nm, W) + (0,) * (64 - W)
            self.lens[x] = b
        return b

    def strlen(self, I, st, a, ins):
        p = I.resolve(st, a[0])
        if p == Ptr("FILENAME", 0):
            return [(st, I.norm(self.piece(("s", p))))]
        if type(p) is Ptr and p.obj in st.x["segs"]:
            t = self.contents(st, p)
            if t is not None:
                return [(st, I.norm(self.length(t)))]
        return NotImplemented

    def into(self, st, n, a):
        I, B = self.I, self.B
        bounded = n.endswith("nprintf")
        t = self.text(st, n, a[2:] if bounded else a[1:])
        ln = self.length(t)
        dst = I.resolve(st, a[0])
        ret = I.norm(ln[:32])
        if bounded:
            room = I.bits(st, a[1], 64)
            if B.AND(st.pc, B.NOT(B.veq(room, B.const(0, 64)))) == 0:
                return [(st, ret)]
        else:
            room = B.const((1 << 64) - 1, 64)
        if dst == 0:
            self.bad(("C12", "C18"), "a message is written through a null pointer")
            raise Die("fault", why="null")
        dst = I.deref(st, dst)
        need = B.vadd(ln, B.const(1, 64))[0]
        cut = B.AND(st.pc, B.vult(room, need))
        if cut != 0:
            self.bad(("C18",), "a message can be cut short")
        self.region(st, dst, B.vite(B.vult(room, need), room, need))
        segs = dict(st.x["segs"])
        segs[dst.obj] = segs.get(dst.obj, ()) + ((self.off(st, dst), ln, t),)
        st.x = dict(st.x, segs=segs)
        return [(st, ret)]

    def contents(self, st, p):
        """the text in a buffer, as pieces"""
        B = self.B
        if p == Ptr("ERRMSG", 0):
            return (("message", None),)
        try:
            return (("lit", self.I.cstring(st, p).decode("latin-1")),)
        except Exception:
            pass
        at = self.off(st, p)
        out = ()
        rest = list(st.x["segs"].get(p.obj, ()))
        # later writes win; each has to begin where the one before ends
        while rest:
            nxt = [s for s in rest if B.AND(st.pc, B.NOT(B.veq(s[0], at))) == 0]
            if not nxt:
                break
            s = nxt[-1]
            rest.remove(s)
            for x in nxt[:-1]:
                rest.remove(x)
            out += s[2]
            at = B.vadd(at, s[1])[0]
        if rest:
            return None
        return out or None

    def put(self, st, n, a):
        I = self.I
        stream = None
        if n in ("fprintf", "vfprintf"):
            stream, t = a[0], self.text(st, n, a[1:])
        elif n in ("printf", "vprintf"):
            stream, t = "stdout", self.text(st, n, a)
        elif n in ("fputs", "puts"):
            p = I.resolve(st, a[0])
            if type(p) is Maybe:
                p = p.p
            t = self.contents(st, p) if type(p) is Ptr else None
            if t is None:
                self.bad(("C18",), "a text that was never written is printed")
                t = ()
            if n == "puts":
                stream, t = "stdout", t + (("lit", "\n"),)
            else:
                stream = a[1]
        elif n in ("fputc", "putc", "putchar"):
            c = I.resolve(st, a[0])
            t = (("lit", chr(c & 255)),) if type(c) is int else (("c", c),)
            stream = a[1] if n != "putchar" else "stdout"
        elif n == "fwrite":
            p = I.resolve(st, a[0])
            t = self.contents(st, p) if type(p) is Ptr else None
            stream = a[3]
            if t is None:
                raise Unsupported("fwrite at %s" % I.where())
            if len(t) == 1 and t[0][0] == "lit":
                t = (("lit", t[0][1][:I.const_of(st, a[1]) * I.const_of(st, a[2])]),)
        elif n == "fflush":
            return [(st, 0)]
        else:
            raise Unsupported(n)
        if not isinstance(stream, str):
            v = I.resolve(st, stream)
            stream = "other"
            for nm in ("stderr", "stdout"):
                if I.global_obj("@" + nm) is not None and v == I.resolve(st, I.load(st, Ptr("@" + nm, 0), PTR)):
                    stream = nm
        st.x = dict(st.x, out=st.x["out"] + ((stream, t),))
        return [(st, 0)]

    # -------------------------------------------------------------- checks
    def run(self):
        for nm in ("fail", "fatal_tok", "fatal", "raise_"):
            self.install()
            self.I.bufs = self.bufs
            t0 = len(self.I.terminals)
            try:
                getattr(self, nm)()
                self.r.count("functions that make or print diagnostics")
            except Unsupported as e:
                self.r.fact("not analysed: %s" % nm, str(e))
            finally:
                del self.I.terminals[t0:]
                del self.I.call_stack[:]
                self.restore()

    def state(self):
        nx, I, D = self.nx, self.I, self.nx.D
        st = nx.new_state()
        st.x = {"va": {}, "segs": {}, "out": ()}
        tok = I.new_obj(st, D.tok_size, "heap", name="token", zero=True)
        tf = {f[0]: f for f in nx.lay["token"]["fields"]}
        I.put(st, Ptr(tok.obj, tf["filename"][1]), 8, Ptr("FILENAME", 0))
        I.put(st, Ptr(tok.obj, tf["line"][1]), 4, self.B.bits("line", 32))
        I.put(st, Ptr(tok.obj, tf["column"][1]), 4, self.B.bits("column", 32))
        return st, tok

    def go(self, fn, st, args):
        t0 = len(self.I.terminals)
        f = self.nx.mod.fn(fn)
        if f is None:
            raise Unsupported("%s not found" % fn)
        res = self.I.run(f, args, st)
        t = self.I.terminals[t0:]
        r = self.r
        for s in [s for s, _ in res] + [s for s, k, kw in t]:
            r.count("paths of the diagnostic functions")
            for e in s.events():
                if e[0] in ("oob", "uaf", "nullderef", "uninit", "overread") and r.prop in ("C12", "C18"):
                    r.bad(e[1], "%s (%s)" % (e[2], e[0]))
        for s, _ in res:
            for k, v in s.x["va"].items():
                if v != "ended" and r.prop == "C18":
                    r.bad(fn, "an argument list is %s but not ended" % v)
        return res, t

    def location(self, fn, items):
        """file name, line and column from 1, then the message"""
        B, r = self.B, self.r
        one = B.const(1, 32)
        want = [("s", Ptr("FILENAME", 0)), ("d", B.vadd(B.bits("line", 32), one)[0]), ("d", B.vadd(B.bits("column", 32), one)[0]), ("va", "message")]
        got = [x for x in items if x[0] != "lit"]
        ok = len(got) == 4 and all(g[0] == w[0] or g[0] in "diu" and w[0] == "d" for g, w in zip(got, want)) and \
            all(g[1] == w[1] for g, w in zip(got, want))
        sep = True
        if ok:
            for i, x in enumerate(items[1:]):
                if x[0] != "lit" and items[i][0] != "lit":
                    sep = False
        if not ok or not sep:
            names = {want[0][1]: "the file name", want[1][1]: "the line", want[2][1]: "the column", "message": "the message"}
            self.badp(fn, ("C19",) if any(g == want[3] for g in got) else ("C19", "C10", "C18"), "a diagnostic shows %s instead of file name, line, column (from 1) and message" % (
                ", ".join(names.get(g[1], "something else") for g in got) or "nothing"))

    def badp(self, fn, props, text):
        if self.r.prop in props:
            self.r.bad(fn, text)

    def fail(self):
        I = self.I
        st, tok = self.state()
        ret = I.new_obj(st, self.nx.err_size, "heap", name="error")
        res, t = self.go(A_FAIL, st, [ret, tok, Ptr("FORMAT", 0)])
        for s, k, kw in t:
            self.badp(A_FAIL, ("C10", "C18"), "making an error ends in %s" % k)
        for s, _ in res:
            m = I.resolve(s, I.load(s, ret, PTR))
            if type(m) is Maybe:
                m = m.p if self.B.AND(s.pc, self.B.NOT(m.c)) == 0 else 0
            if m == 0 or m is UNDEF:
                self.badp(A_FAIL, ("C10", "C18"), "the error that is returned is no error")
                continue
            c = self.contents(s, m)
            if c is None:
                self.badp(A_FAIL, ("C18", "C10"), "the message is not in one piece")
                continue
            self.location(A_FAIL, c)

    def ends(self, fn, res, t, body):
        for s, _ in res:
            self.badp(fn, ("C10",), "a fatal error returns")
        for s, k, kw in t:
            if k == "exit":
                c = kw["code"]
                if type(c) is not int or c & 255 == 0:
                    self.badp(fn, ("C10", "C17"), "a fatal error ends with success")
            elif k == "abort":
                pass
            else:
                self.badp(fn, ("C10", "C18"), "printing an error ends in %s" % k)
                continue
            out = s.x["out"]
            if any(o != "stderr" for o, x in out):
                self.badp(fn, ("C10",), "a diagnostic does not go to the error stream")
            items = [x for o, x in out for x in x]
            if not [x for x in items if x[0] != "lit"]:
                self.badp(fn, ("C10", "C18", "C17"), "the message is not printed")
            else:
                body(items)

    def fatal_tok(self):
        st, tok = self.state()
        res, t = self.go(A_FATAL_TOK, st, [tok, Ptr("FORMAT", 0)])
        self.ends(A_FATAL_TOK, res, t, lambda items: self.location(A_FATAL_TOK, items))

    def message(self, fn, kind):
        def f(items):
            got = [x[0] for x in items if x[0] != "lit"]
            if got != [kind] and got != ["s"]:
                self.badp(fn, ("C10", "C18"), "the message is printed %d times" % len(got))
        return f

    def fatal(self):
        st, tok = self.state()
        res, t = self.go(A_FATAL, st, [Ptr("FORMAT", 0)])
        self.ends(A_FATAL, res, t, self.message(A_FATAL, "va"))

    def raise_(self):
        I = self.I
        st, tok = self.state()
        e = I.new_obj(st, self.nx.err_size, "heap", name="error")
        I.put(st, e, self.nx.err_size, Ptr("ERRMSG", 0))
        res, t = self.go(A_RAISE, st, [e])
        self.ends(A_RAISE, res, t, self.message(A_RAISE, "message"))
