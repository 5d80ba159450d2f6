"""The command-line tool: main and what it calls, with every outcome of every file operation (C17).

Streams are modelled by their state bits; each operation that the file system can refuse or cut short has a symbol of
its own.  Arguments are strings of unknown characters; the contents of the input are unknown bytes that arrive in up to
three reads.  nxas::assemble is a function from the text to some words.
"""
import re

from interp import Die, NoProgress, Ptr, UNDEF, Unsupported
from ir import IntTy
from nxmodel import A_ASSEMBLE_PREFIX, A_FATAL, A_FATAL_TOK, A_MAIN

I8, I64 = IntTy(8), IntTy(64)
VB = {"i": 256, "o": 248, "io": 264}
EOF, FAIL, BAD = 2, 4, 1
ARGLEN = 3
KIND = {"St14basic_ifstreamIcSt11char_traitsIcEE": "i", "St14basic_ofstreamIcSt11char_traitsIcEE": "o",
        "St13basic_fstreamIcSt11char_traitsIcEE": "io"}
FILE_RE = re.compile(r"^@_ZNK?(St1[34]basic_[io]?fstreamIcSt11char_traitsIcEE)(.*)$")
IOS_RE = re.compile(r"^@_ZNKSt9basic_iosIcSt11char_traitsIcEE(cvbEv|ntEv|4goodEv|3badEv|4failEv|3eofEv|7rdstateEv)$|"
                    r"^@_ZNSt9basic_iosIcSt11char_traitsIcEE(5clearESt12_Ios_Iostate|8setstateESt12_Ios_Iostate)$")
STR = "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
ESCAPE = re.compile(r"^@(fopen|fopen64|open|open64|openat|creat|freopen|rename|remove|unlink|truncate|ftruncate|mkstemp|link|symlink|system|_exit|_Exit|quick_exit)$")


class Cmdline:
    def __init__(self, nx, r):
        self.nx, self.I, self.B, self.r = nx, nx.I, nx.B, r
        fns = [n for n in nx.mod.functions if n.startswith(A_ASSEMBLE_PREFIX) and "[" not in n and nx.mod.fn(n) is not None]
        if nx.mod.fn(A_MAIN) is None or len(fns) != 1:
            raise Unsupported("main or nxas::assemble not found")
        self.assemble_name = fns[0]

    # ------------------------------------------------------------- models
    def install(self):
        I = self.I
        self.saved = dict(I.hooks), list(I.pattern_hooks)
        h = I.hooks
        h[self.assemble_name] = self.assemble
        h["@strcmp"] = lambda I_, st, a, ins: self.strcmp(st, a, None)
        h["@strncmp"] = lambda I_, st, a, ins: self.strcmp(st, a, I.const_of(st, a[2]))
        h["@strlen"] = self.strlen
        h["@memcmp"] = h["@bcmp"] = self.memcmp
        for n in ("fprintf", "fputs", "puts", "printf", "fputc", "putc", "putchar", "fwrite", "perror", "fflush"):
            h["@" + n] = self.say

        def esc(I_, st, args, ins):
            raise Unsupported("file access the models do not cover at %s" % I.where())
        I.pattern_hooks.insert(0, (lambda n: bool(FILE_RE.match(n)), self.file_member))
        I.pattern_hooks.insert(0, (lambda n: bool(IOS_RE.match(n)), self.ios_member))
        I.pattern_hooks.insert(0, (lambda n: bool(re.match(r"^@_ZNK?S[io](4read|6gcount|5write|5flush|4peek|3get|7getline|5seekg|5tellg|5seekp|5tellp)E", n)), self.stream_member))
        I.pattern_hooks.insert(0, (lambda n: bool(ESCAPE.match(n)), esc))
        I._ph_cache.clear()

    def restore(self):
        I = self.I
        I.hooks.clear()
        I.hooks.update(self.saved[0])
        I.pattern_hooks[:] = self.saved[1]
        I._ph_cache.clear()

    def bad(self, text, where=None):
        self.r.bad(where or self.I.where(), text)

    def put(self, st, **kw):
        st.x = dict(st.x, **kw)

    def choice(self, st, name):
        """an outcome of the file system; True is trouble"""
        return 0 if self.calm else self.B.bits("fs." + name, 1)[0]

    # a stream: x["s:obj:off"] = (kind, name, open, eof, fail, bad, dirty, last count, reads)
    def key(self, st, p, ios=False):
        p = self.I.deref(st, p)
        for k, v in st.x.items():
            if k.startswith("s:"):
                o, off = k[2:].split(":")
                if int(o) == p.obj and int(off) + (VB[v[0]] if ios else 0) == p.off:
                    return k
                if int(o) == p.obj and v[0] == "io" and not ios and int(off) + 16 == p.off:
                    return k
        raise Unsupported("stream that was not constructed at %s" % self.I.where())

    def name(self, st, p, string=False):
        if string:
            p = self.I.deref(st, p)
            p = self.I.load(st, p, self.PTR())
        p = self.I.deref(st, p)
        return self.names.get((p.obj, p.off)) or self.copied(st, p)

    def PTR(self):
        from ir import PTR
        return PTR

    def copied(self, st, p):
        """the argument whose characters are at p"""
        for (obj, off), n in self.names.items():
            i = 0
            while True:
                a = self.I.bits(st, self.I.load(st, Ptr(obj, off + i), I8), 8)
                try:
                    b = self.I.bits(st, self.I.load(st, Ptr(p.obj, p.off + i), I8), 8)
                except Die:
                    break
                if self.B.AND(st.pc, self.B.NOT(self.B.veq(a, b))) != 0:
                    break
                i += 1
                if i > ARGLEN or self.B.AND(st.pc, self.B.NOT(self.B.veq(a, (0,) * 8))) == 0:
                    return n
        return None

    def construct(self, st, kind, p, vtable=True):
        I = self.I
        p = I.deref(st, p)
        if vtable:
            vt = I.new_obj(st, 64, "heap", name="vtable")
            I.put(st, Ptr(vt.obj, 0), 8, VB[kind])
            I.put(st, Ptr(p.obj, p.off), 8, Ptr(vt.obj, 24))
            if kind == "io":
                vt = I.new_obj(st, 64, "heap", name="vtable")
                I.put(st, Ptr(vt.obj, 0), 8, VB[kind] - 16)
                I.put(st, Ptr(p.obj, p.off + 16), 8, Ptr(vt.obj, 24))
        k = "s:%d:%d" % (p.obj, p.off)
        self.put(st, **{k: (kind, None, 0, 0, 0, 0, False, None, 0)})
        return k

    def open(self, st, k, name, mode):
        B = self.B
        s = st.x[k]
        mode = self.I.const_of(st, mode)
        mode |= {"i": 8, "o": 16, "io": 0}[s[0]]
        if s[0] == "i" or not mode & 16:
            t = self.choice(st, "open-in")
            if name != "in":
                self.bad("a file other than the input file is read")
            self.put(st, input=True)
        else:
            if name != "out":
                self.bad("a file other than the output file is written")
            if mode & 1 or mode & 8 and not mode & 32 or mode & 2 and mode & 8:
                self.bad("the output file is not emptied when it is opened")
            if not st.x["assembled"]:
                self.bad("the output file is opened before the source has been assembled")
            t = self.choice(st, "open-out")
            self.put(st, opened_out=st.x["opened_out"] + 1)
            if st.x["opened_out"] > 1:
                self.put(st, written=())
        s = s[:1] + (name, B.NOT(t), s[3], B.OR(s[4], t)) + s[5:]
        self.put(st, **{k: s, "F": B.OR(st.x["F"], t)})

    def file_member(self, I, st, args, ins):
        B = self.B
        name = ins.a[0][1]
        cls, m = FILE_RE.match(self.I.mod.aliases.get(name, name)).groups()
        kind = KIND[cls]
        if m in ("C1Ev", "C2Ev"):
            if m == "C2Ev":
                raise Unsupported("class derived from a stream")
            self.construct(st, kind, args[0])
            return [(st, None)]
        if m.startswith("C1EPKcSt13_Ios_Openmode") or m.startswith("C1ERK" + STR[:4]) or m.startswith("C1ERKNSt7__cxx11"):
            n = self.name(st, args[1], string="RK" in m)
            k = self.construct(st, kind, args[0])
            self.open(st, k, n, args[2])
            return [(st, None)]
        if m.startswith(("4openEPKc", "4openERK")):
            k = self.key(st, args[0])
            if B.AND(st.pc, st.x[k][2]) != 0:
                raise Unsupported("stream opened twice")
            self.open(st, k, self.name(st, args[1], string=m.startswith("4openERK")), args[2])
            return [(st, None)]
        if m == "7is_openEv":
            return [(st, I.norm((st.x[self.key(st, args[0])][2],)))]
        if m == "5closeEv":
            self.close(st, self.key(st, args[0]), "close")
            return [(st, None)]
        if m in ("D1Ev", "D2Ev"):
            k = self.key(st, args[0])
            if m == "D1Ev":
                self.close(st, k, "destroy")
                st.x = {a: b for a, b in st.x.items() if a != k}
            return [(st, None)]
        raise Unsupported("member %s of a file stream at %s" % (m, I.where()))

    def close(self, st, k, how):
        B = self.B
        s = st.x[k]
        t = 0
        if s[0] != "i" and s[6] is not False:
            # what was written is still in the buffer
            t = B.AND(self.choice(st, how + "-out%d" % st.x["n"]), s[2])
            self.put(st, n=st.x["n"] + 1)
        s = s[:2] + (0, s[3], B.OR(s[4], B.OR(t, B.NOT(s[2]) if how == "close" else 0)), s[5], False) + s[7:]
        self.put(st, **{k: s, "F": B.OR(st.x["F"], t)})

    def ios_member(self, I, st, args, ins):
        B = self.B
        name = ins.a[0][1]
        a, b = IOS_RE.match(I.mod.aliases.get(name, name)).groups()
        k = self.key(st, args[0], ios=True)
        s = st.x[k]
        fail = B.OR(s[4], s[5])
        any_ = B.OR(fail, s[3])
        if b:
            v = I.const_of(st, args[1])
            bit = lambda m: 1 if v & m else 0
            n = (bit(EOF), bit(FAIL), bit(BAD))
            if b.startswith("8"):
                n = tuple(B.OR(x, y) for x, y in zip(n, s[3:6]))
            self.put(st, **{k: s[:3] + n + s[6:]})
            return [(st, None)]
        if a == "7rdstateEv":
            return [(st, I.norm((s[5], s[3], s[4]) + (0,) * 29))]
        v = {"cvbEv": B.NOT(fail), "ntEv": fail, "4goodEv": B.NOT(any_), "3badEv": s[5], "4failEv": fail, "3eofEv": s[3]}[a]
        return [(st, I.norm((v,)))]

    def stream_member(self, I, st, args, ins):
        B = self.B
        name = ins.a[0][1]
        name = I.mod.aliases.get(name, name)
        m = re.match(r"^@_ZNK?S[io](4read|6gcount|5write|5flush)E", name)
        if not m:
            raise Unsupported("stream operation %s at %s" % (name, I.where()))
        m = m.group(1)
        k = self.key(st, args[0])
        s = st.x[k]
        good = B.NOT(B.OR(s[3], B.OR(s[4], s[5])))
        if m == "6gcount":
            return [(st, s[7] or 0)]
        if m == "4read":
            return self.read(st, k, args[1], I.const_of(st, args[2]), good, args[0])
        if m == "5write":
            n = I.const_of(st, args[2])
            p = I.deref(st, args[1]) if n else None
            t = B.AND(good, self.choice(st, "write%d" % st.x["n"]))
            lost = B.NOT(good)
            self.put(st, **{k: s[:4] + (s[4], B.OR(s[5], t), True) + s[7:], "n": st.x["n"] + 1,
                            "F": B.OR(st.x["F"], B.OR(t, lost)), "written": st.x["written"] + (((p.obj, p.off, n),) if n else ())})
            return [(st, args[0])]
        t = B.AND(good, self.choice(st, "flush%d" % st.x["n"])) if s[6] else 0
        self.put(st, **{k: s[:5] + (B.OR(s[5], t), False) + s[7:], "n": st.x["n"] + 1, "F": B.OR(st.x["F"], t)})
        return [(st, args[0])]

    def read(self, st, k, buf, n, good, ret):
        """one read: everything that can happen to it"""
        I, B = self.I, self.B
        out = []
        s = st.x[k]
        j = s[8]
        if B.AND(st.pc, B.NOT(good)) != 0:
            f = st.fork() if B.AND(st.pc, good) != 0 else st
            f.pc = B.AND(st.pc, B.NOT(good))
            if s[8] > 8:
                self.bad("reading goes on for ever after a read error or the end of the file")
                raise Die("hang")
            self.put(f, **{k: s[:4] + (1, s[5], s[6], 0, j + 1)})
            out.append((f, ret))
            if f is st:
                return out
            st.pc = B.AND(st.pc, good)
        d = st.x["delivered"]
        cases = [("full", n)] if len(d) < 3 else []
        if self.calm:
            cases = [("eof", min(2, n - 1))]
        else:
            cases += [("eof", c) for c in sorted({0, 1, n - 1} & set(range(n)))]
            cases += [("bad", c) for c in sorted({0, min(1, n)})]
        for what, c in cases:
            f = st.fork()
            p = I.deref(f, buf)
            for i in range(c):
                if n <= 4096 or i < 32 or i >= n - 32 or i % 257 == 0:
                    v = B.bits("in%d.%d" % (j, i), 8)
                else:
                    v = 120
                I.put(f, Ptr(p.obj, p.off + i), 1, v)
            e, b = what == "eof", what == "bad"
            x = {k: s[:3] + (int(e) | s[3], int(e or b) | s[4] if s[4] in (0, 1) else s[4], int(b) | s[5] if s[5] in (0, 1) else s[5], s[6], c, j + 1),
                 "delivered": d + ((j, c, n),)}
            if b:
                x["F"] = 1
            if e:
                x["complete"] = True
            self.put(f, **x)
            self.r.count("outcomes of reads")
            out.append((f, ret))
        return out

    def assemble(self, I, st, args, ins):
        B = self.B
        ret, text, fname = args
        p = I.deref(st, text)
        b = I.resolve(st, I.load(st, p, self.PTR()))
        n = I.const_of(st, I.load(st, Ptr(p.obj, p.off + 8), I64))
        want = [("b", j, i, m) for j, c, m in st.x["delivered"] for i in range(c)]
        if not st.x["input"]:
            self.bad("the source is assembled without reading the input file")
        elif st.x["F"] == 0 and not st.x["complete"]:
            self.bad("the source is assembled before all of the input file has been read")
        elif st.x["F"] == 0:
            if n != len(want):
                self.bad("%d characters are assembled when the input has %d" % (n, len(want)))
            else:
                for i, (_, j, o, m) in enumerate(want):
                    v = I.resolve(st, I.load(st, Ptr(b.obj, b.off + i), I8))
                    w = B.bits("in%d.%d" % (j, o), 8) if m <= 4096 or o < 32 or o >= m - 32 or o % 257 == 0 else B.const(120, 8)
                    if v is UNDEF or tuple(I.bits(st, v, 8)) != tuple(w):
                        self.bad("what is assembled is not what the input file holds (character %d of %d)" % (i, n))
                        break
        if B.AND(st.pc, st.x["F"]) != 0:
            self.bad("the source is assembled although the input could not be read")
        f = I.deref(st, fname)
        if self.names.get((f.obj, f.off)) != "in" and self.copied(st, f) != "in":
            self.bad("the source is assembled under a name that is not the input file's")
        self.r.count("calls of nxas::assemble from the command line")
        q = I.deref(st, ret)
        data = I.new_obj(st, 8 * self.nwords, "heap", name="binary", zero=True)
        I.put(st, Ptr(q.obj, q.off), 8, data)
        I.put(st, Ptr(q.obj, q.off + 8), 8, Ptr(data.obj, 8 * self.nwords))
        I.put(st, Ptr(q.obj, q.off + 16), 8, Ptr(data.obj, 8 * self.nwords))
        self.put(st, assembled=st.x["assembled"] + 1, data=data.obj)
        return [(st, None)]

    def say(self, I, st, args, ins):
        self.put(st, said=True)
        return [(st, 1)]

    # strings of unknown characters
    def at(self, st, p, i):
        v = self.I.resolve(st, self.I.load(st, Ptr(p.obj, p.off + i), I8))
        if v is UNDEF:
            self.bad("characters that were never set are read")
            raise Die("hang")
        return tuple(self.I.bits(st, v, 8))

    def strcmp(self, st, a, lim):
        I, B = self.I, self.B
        p, q = I.deref(st, a[0]), I.deref(st, a[1])
        alive, nz, neg = st.pc, 0, 0
        i = 0
        while alive != 0 and (lim is None or i < lim):
            x, y = self.at(st, p, i), self.at(st, q, i)
            eq = B.veq(x, y)
            ne = B.AND(alive, B.NOT(eq))
            nz = B.OR(nz, ne)
            neg = B.OR(neg, B.AND(ne, B.vult(x, y)))
            alive = B.AND(B.AND(alive, eq), B.NOT(B.veq(x, (0,) * 8)))
            i += 1
            if i > 4096:
                raise Unsupported("strcmp")
        return [(st, I.norm((nz,) + (neg,) * 31))]

    def memcmp(self, I, st, a, ins):
        B = self.B
        n = I.const_of(st, a[2])
        if n == 0:
            return [(st, 0)]
        p, q = I.deref(st, a[0]), I.deref(st, a[1])
        if "tokstr" in (I.obj(st, p.obj).kind, I.obj(st, q.obj).kind):
            return NotImplemented
        same, nz, neg = 1, 0, 0
        for i in range(n):
            x, y = self.at(st, p, i), self.at(st, q, i)
            eq = B.veq(x, y)
            ne = B.AND(same, B.NOT(eq))
            nz = B.OR(nz, ne)
            neg = B.OR(neg, B.AND(ne, B.vult(x, y)))
            same = B.AND(same, eq)
        return [(st, I.norm((nz,) + (neg,) * 31))]

    def strlen(self, I, st, a, ins):
        B = self.B
        p = I.deref(st, a[0])
        out, pc, i = [], st.pc, 0
        while pc != 0:
            z = B.veq(self.at(st, p, i), (0,) * 8)
            c = B.AND(pc, z)
            if c != 0:
                f = st.fork()
                f.pc = c
                out.append((f, i))
            pc = B.AND(pc, B.NOT(z))
            i += 1
            if i > 4096:
                raise Unsupported("strlen")
        return out

    # ----------------------------------------------------------- analyses
    def start(self, args, symbolic):
        """main's arguments; returns the state and what each argument is"""
        I, B = self.I, self.B
        st = self.nx.new_state()
        argc = len(args)
        argv = I.new_obj(st, 8 * (argc + 1), "heap", name="argv", zero=True)
        self.names = {}
        chars = []
        for i, a in enumerate(args):
            text = a.encode() if a is not None else b""
            o = I.new_obj(st, max(len(text), ARGLEN) + 1, "heap", name="argument %d" % i, zero=True)
            if a is None:
                cs = [B.bits("arg%d.%d" % (i, j), 8) for j in range(ARGLEN)] + [(0,) * 8]
            else:
                cs = [B.const(c, 8) for c in text.ljust(ARGLEN, b"\0") + b"\0"]
            for j, c in enumerate(cs):
                I.put(st, Ptr(o.obj, j), 1, I.norm(c))
            chars.append(cs)
            I.put(st, Ptr(argv.obj, 8 * i), 8, o)
            self.names[(o.obj, 0)] = i
        I.put(st, Ptr(argv.obj, 8 * argc), 8, 0)
        st.x = {"F": 0, "assembled": 0, "input": False, "complete": False, "opened_out": 0, "written": (), "delivered": (), "n": 0,
                "said": False, "data": None}
        return st, argv, chars

    def outcomes(self, chars):
        """what the arguments ask for: {(input, output) or None: condition}"""
        B = self.B
        argc = len(chars)
        out = {}

        def isO(cs):
            c = B.veq(cs[0], B.const(ord("-"), 8))
            c = B.AND(c, B.veq(cs[1], B.const(ord("o"), 8)))
            return B.AND(c, B.veq(cs[2], (0,) * 8))

        def go(i, inp, outp, c):
            if c == 0:
                return
            if i >= argc:
                k = (inp, outp) if inp is not None and outp is not None else None
                out[k] = B.OR(out.get(k, 0), c)
                return
            o = isO(chars[i])
            d = B.AND(c, o)
            if outp is not None or i + 1 == argc:
                out[None] = B.OR(out.get(None, 0), d)
            else:
                go(i + 2, inp, i + 1, d)
            d = B.AND(c, B.NOT(o))
            if inp is not None:
                out[None] = B.OR(out.get(None, 0), d)
            else:
                go(i + 1, i, outp, d)

        go(1, None, None, 1)
        return out

    def go(self, st, argc, argv):
        I = self.I
        t0 = len(I.terminals)
        fn = self.nx.mod.fn(A_MAIN)
        args = [argc, argv][:len(fn.params)]
        res = I.run(fn, args, st)
        terms = I.terminals[t0:]
        del I.terminals[t0:]
        return res, terms

    def events(self, s):
        for e in s.events():
            if e[0] in ("token", "fail", "filename"):
                continue
            if e[0] == "assert" and all(c == 0 for c in e[2]):
                continue
            self.bad("%s: %s" % (e[0], e[2]), where=e[1])

    def ended(self, res, terms):
        """(state, 'success' or 'refused', message)"""
        for s, v in res:
            self.events(s)
            v = self.I.resolve(s, v)
            if type(v) is not int:
                raise Unsupported("main returns an unknown status")
            yield s, "success" if v & 255 == 0 else "refused", s.x["said"]
        for s, kind, kw in terms:
            self.events(s)
            if kind in ("fatal", "fatal_tok", "raise"):
                yield s, "refused", True
            elif kind == "exit":
                c = kw["code"]
                if type(c) is not int:
                    raise Unsupported("exit with an unknown status")
                yield s, "success" if c & 255 == 0 else "refused", s.x["said"]
            elif kind in ("unreachable", "hang"):
                continue
            elif kind in ("abort", "throw", "fault"):
                self.bad("the tool ends in %s (%s)" % (kind, kw.get("why")), where=kw.get("where"))
            else:
                raise Unsupported("main ends in %s" % kind)

    def arguments(self):
        """every command line of up to six arguments of up to three characters; no trouble with files"""
        B = self.B
        self.calm, self.nwords = True, 4
        for argc in range(0, 8):
            st, argv, chars = self.start(["nxas"][:argc] + [None] * (argc - 1), True)
            want = self.outcomes(chars)
            names = dict(self.names)
            # which argument is the input is only known on the way: every file name is accepted and compared afterwards
            self.names = {k: "arg%d" % v for k, v in names.items()}
            opened = self.open

            def open_(st, k, name, mode):
                s = st.x[k]
                w = "in" if s[0] == "i" else "out"
                self.put(st, **{"name_" + w: name})
                opened(st, k, w if name is not None else None, mode)

            asm = self.assemble

            def assemble(I, st, args, ins):
                f = I.deref(st, args[2])
                self.put(st, name_text=self.names.get((f.obj, f.off)) or self.copied(st, f))
                keep, self.names = self.names, {(f.obj, f.off): "in"}
                try:
                    return asm(I, st, args, ins)
                finally:
                    self.names = keep

            self.open = open_
            self.I.hooks[self.assemble_name] = assemble
            try:
                res, terms = self.go(st, argc, argv)
            finally:
                self.open = opened
                self.I.hooks[self.assemble_name] = asm
            for s, how, said in self.ended(res, terms):
                self.r.count("paths through main, by arguments")
                if how == "refused" and not said:
                    self.bad("a command line is refused without a message", where=A_MAIN)
                for k, c in want.items():
                    if B.AND(s.pc, c) == 0:
                        continue
                    self.r.count("command lines x paths compared")
                    text = self.show(s, c, chars)
                    if k is None and how == "success":
                        self.bad("a command line with missing or repeated arguments is accepted: %s" % text, where=A_MAIN)
                    elif k is not None and how == "refused":
                        # no file has an empty name: refusing that is as good as failing to open it
                        for i in k:
                            c = B.AND(c, B.NOT(B.veq(chars[i][0], (0,) * 8)))
                        if B.AND(s.pc, c) == 0:
                            continue
                        text = self.show(s, c, chars)
                        self.bad("a complete command line is refused: %s" % text, where=A_MAIN)
                    elif k is not None:
                        x = s.x
                        got = x.get("name_in"), x.get("name_out")
                        if got != ("arg%d" % k[0], "arg%d" % k[1]):
                            self.bad("files are taken from the wrong arguments: %s" % text, where=A_MAIN)
                        elif x.get("name_text") != "arg%d" % k[0]:
                            self.bad("diagnostics name another file than the input: %s" % text, where=A_MAIN)
                        self.success(s)

    def show(self, s, c, chars):
        sat = self.B.pick(self.B.AND(s.pc, c))
        out = []
        for cs in chars[1:]:
            t = ""
            for v in cs:
                n = 0
                for i, b in enumerate(v):
                    while b > 1:
                        b = self.B.hi[b] if sat.get(self.B.level[b], 0) else self.B.lo[b]
                    n |= b << i
                if n == 0:
                    break
                t += chr(n) if 32 < n < 127 else "?"
            out.append(t)
        return " ".join("'%s'" % t for t in out) or "no arguments"

    def success(self, s):
        x = s.x
        B = self.B
        w = A_MAIN
        if not x["assembled"]:
            self.bad("the tool succeeds without assembling", where=w)
            return
        if B.AND(s.pc, x["F"]) != 0:
            self.bad("the tool succeeds although a file operation failed", where=w)
            return
        if not x["opened_out"]:
            self.bad("the tool succeeds without writing the output file", where=w)
            return
        pos = 0
        for obj, off, n in x["written"]:
            if obj != x["data"] or off != pos:
                self.bad("what is written is not what was assembled", where=w)
                return
            pos += n
        if pos != 8 * self.nwords:
            self.bad("%d of %d bytes are written" % (pos, 8 * self.nwords), where=w)

    def files(self, nwords, calm):
        """a complete command line, and everything that can happen to the files"""
        B = self.B
        self.calm, self.nwords = calm, nwords
        for args in (["nxas", "a", "-o", "b"], ["nxas", "-o", "b", "a"]) if nwords == 4 else (["nxas", "a", "-o", "b"],):
            st, argv, chars = self.start(args, False)
            self.names = {k: {args.index("a"): "in", args.index("b"): "out"}.get(v, "argument %d" % v) for k, v in self.names.items()}
            res, terms = self.go(st, len(args), argv)
            for s, how, said in self.ended(res, terms):
                self.r.count("paths through main, by file-system outcome")
                if how == "success":
                    self.success(s)
                else:
                    if not said:
                        self.bad("a failure is not reported", where=A_MAIN)
                    if B.AND(s.pc, B.NOT(s.x["F"])) != 0:
                        self.bad("the tool fails although every file operation succeeded", where=A_MAIN)

    def run(self):
        self.install()
        try:
            self.arguments()
            self.files(4, False)
            for n in (0, 1, 12, 0x2004, 0x10000004, 0x20000004):
                try:
                    self.files(n, True)
                    self.r.count("output sizes")
                except NoProgress:
                    if n < 0x2000:
                        raise
                    # written word by word: the shorter ones decide
                    self.r.fact("output sizes not looked at", "%d words" % n)
        finally:
            self.restore()
