"""Parser for textual LLVM 18 IR (the subset clang emits for this repository).

Functions are split out of the module text and parsed on demand.  Nothing here
knows anything about nxas.
"""
import re

# ----------------------------------------------------------------- types ---
class Ty:
    __slots__ = ("k", "w", "elems", "n", "name", "packed", "_sa")

    def __init__(self, k, w=0, elems=None, n=0, name=None, packed=False):
        self.k, self.w, self.elems, self.n, self.name, self.packed = k, w, elems, n, name, packed
        self._sa = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.elems[0])
        if self.k == "struct":
            return self.name or "{%s}" % ", ".join(map(repr, self.elems))
        return self.k


VOID, PTR, FLOAT, DOUBLE = Ty("void"), Ty("ptr", 64), Ty("float", 32), Ty("double", 64)
OTHER = Ty("other")
_ints = {}


def IntTy(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty("int", w)
    return t


class IRError(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>[ \t]+)
  | (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*")
  | (?P<glob>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
  | (?P<loc>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
  | (?P<cat>\$(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![a-zA-Z0-9._]*)
  | (?P<attr>\#[0-9]+)
  | (?P<quoted>"(?:[^"])*")
  | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)
  | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def lex(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError("lex error at %r" % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    return out


PARAM_ATTRS = {
    "noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly",
    "readnone", "returned", "inreg", "nest", "swiftself", "immarg", "dead_on_unwind", "writable",
    "nofree", "noext", "allocptr", "allocalign",
}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype",
                   "captures", "nofpclass", "range", "preallocated", "inalloca", "byref"}
FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
         "reassoc", "disjoint", "nneg", "samesign"}
CALL_PRE = {"tail", "musttail", "notail"}
CCONV = {"fastcc", "ccc", "coldcc"}


# --------------------------------------------------------------- operands ---
# constants/operands are tuples:
#  ('i', width, value) ('f', width, bits) ('null',) ('undef',) ('zero', ty)
#  ('l', name) ('g', name) ('agg', ty, [ops]) ('bytes', b) ('ce', op, args...)

class Cursor:
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def peekk(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r near %r" % (s, [x[1] for x in self.t[max(0, self.i - 3):self.i + 6]]))

    # types
    def ty(self):
        k, v = self.next()
        if k == "word":
            if v[0] == "i" and v[1:].isdigit():
                r = IntTy(int(v[1:]))
            elif v == "ptr":
                r = PTR
                if self.accept("addrspace"):
                    self.expect("("); self.next(); self.expect(")")
            elif v == "void":
                r = VOID
            elif v == "float":
                r = FLOAT
            elif v == "double":
                r = DOUBLE
            elif v in ("half", "x86_fp80", "metadata", "token", "label", "opaque"):
                r = OTHER
            else:
                raise IRError("unknown type %r" % v)
        elif k == "loc":
            r = self.mod.named(v)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.ty()
            self.expect("]")
            r = Ty("arr", elems=[e], n=n)
        elif v == "{":
            es = []
            while not self.accept("}"):
                es.append(self.ty())
                self.accept(",")
            r = Ty("struct", elems=es)
        elif v == "<":
            if self.accept("{"):
                es = []
                while not self.accept("}"):
                    es.append(self.ty())
                    self.accept(",")
                self.expect(">")
                r = Ty("struct", elems=es, packed=True)
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.ty()
                self.expect(">")
                r = Ty("vec", elems=[e], n=n)
        else:
            raise IRError("type expected, got %r" % v)
        # function types
        while self.peek() == "(" and False:
            pass
        return r

    def attrs(self):
        """skip parameter/return attributes; returns dict of those with args"""
        out = {}
        while True:
            p = self.peek()
            if p in PARAM_ATTRS:
                out[p] = True
                self.i += 1
            elif p in PARAM_ATTRS_ARG:
                self.i += 1
                if self.accept("("):
                    start = self.i
                    depth = 1
                    while depth:
                        q = self.next()[1]
                        if q == "(":
                            depth += 1
                        elif q == ")":
                            depth -= 1
                    out[p] = self.t[start:self.i - 1]
                else:
                    self.next()
                    out[p] = True
            else:
                return out

    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("l", v)
        if k == "glob":
            return ("g", unq(v))
        if k == "num":
            if ty.k == "int":
                return ("i", ty.w, int(v) & ((1 << ty.w) - 1))
            if ty.k in ("float", "double"):
                import struct
                if v.startswith("0x"):
                    bits = int(v, 16)
                else:
                    bits = struct.unpack("<Q", struct.pack("<d", float(v)))[0]
                if ty.k == "float":
                    d = struct.unpack("<d", struct.pack("<Q", bits))[0]
                    import math
                    if math.isnan(d):
                        b = ((bits >> 63) << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff)
                    else:
                        b = struct.unpack("<I", struct.pack("<f", d))[0]
                    return ("f", 32, b)
                return ("f", 64, bits)
            raise IRError("number for %r" % ty)
        if k == "str":
            return ("bytes", cstr(v))
        if k == "word":
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef", ty)
            if v == "zeroinitializer":
                return ("zero", ty)
            if v == "true":
                return ("i", 1, 1)
            if v == "false":
                return ("i", 1, 0)
            if v == "getelementptr":
                while self.peek() in FLAGS or self.peek() == "inrange":
                    self.next()
                    if self.peek() == "(" and self.t[self.i - 1][1] == "inrange":
                        self.expect("("); self.next(); self.expect(","); self.next(); self.expect(")")
                self.expect("(")
                sty = self.ty()
                self.expect(",")
                ops = []
                while True:
                    self.accept("inrange")
                    t = self.ty()
                    ops.append((t, self.value(t)))
                    if not self.accept(","):
                        break
                self.expect(")")
                return ("ce", "gep", sty, ops)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                self.expect("(")
                t = self.ty()
                x = self.value(t)
                self.expect("to")
                t2 = self.ty()
                self.expect(")")
                return ("ce", v, t, x, t2)
            if v in ("sub", "add", "xor", "and", "or", "mul"):
                while self.peek() in FLAGS:
                    self.next()
                self.expect("(")
                t = self.ty(); a = self.value(t); self.expect(",")
                t2 = self.ty(); b = self.value(t2); self.expect(")")
                return ("ce", v, t, a, b)
            if v in ("dso_local_equivalent", "no_cfi"):
                return self.value(ty)
            raise IRError("constant %r" % v)
        if v == "[" or v == "{" or (v == "<" and self.peek() == "{"):
            if v == "<":
                self.expect("{")
                end = "}"
            else:
                end = "]" if v == "[" else "}"
            ops = []
            while not self.accept(end):
                t = self.ty()
                ops.append(self.value(t))
                self.accept(",")
            if v == "<":
                self.expect(">")
            return ("agg", ty, ops)
        raise IRError("value expected, got %r" % v)

    def tv(self):
        t = self.ty()
        self.attrs()
        return t, self.value(t)


def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


def cstr(v):
    body = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        if body[i] == "\\":
            out.append(int(body[i + 1:i + 3], 16))
            i += 3
        else:
            out += body[i].encode("utf-8")
            i += 1
    return bytes(out)


class Insn:
    __slots__ = ("op", "res", "ty", "a", "dbg", "text", "x")

    def __init__(self, op, res, ty, a, dbg, text):
        self.op, self.res, self.ty, self.a, self.dbg, self.text = op, res, ty, a, dbg, text
        self.x = None

    def __repr__(self):
        return self.text.strip()


class Block:
    __slots__ = ("name", "insns", "phis", "body")

    def __init__(self, name):
        self.name = name
        self.insns = []


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False
        self._parse_header()

    def _parse_header(self):
        h = self.header
        # params
        i = h.index("@")
        c = Cursor(lex(h[i:h.rindex(")") + 1] if False else _header_params(h, i)), self.mod)
        c.next()  # name
        c.expect("(")
        self.params = []
        self.varargs = False
        while not c.accept(")"):
            if c.accept("..."):
                self.varargs = True
                continue
            t = c.ty()
            at = c.attrs()
            nm = None
            if c.peekk() == "loc":
                nm = c.next()[1]
            self.params.append((t, nm, at))
            c.accept(",")
        pre = h[:i]
        m = re.search(r'((?:[\w]+|%"[^"]*"|%[\w.]+|\{[^}]*\}|\[[^\]]*\])) $', pre)
        self.ret_text = m.group(1) if m else ""
        m = re.search(r"!dbg (![0-9]+)", h)
        self.dbg = m.group(1) if m else None
        # unnamed params get %0.. numbering
        idx = 0
        ps = []
        for t, nm, at in self.params:
            if nm is None:
                nm = "%%%d" % idx
            if re.fullmatch(r"%[0-9]+", nm):
                idx = int(nm[1:]) + 1
            ps.append((t, nm, at))
        self.params = ps
        self.internal = " internal " in pre or " private " in pre

    @property
    def blocks(self):
        if not self._parsed:
            self._parse()
        return self._blocks

    @property
    def entry(self):
        if not self._parsed:
            self._parse()
        return self._entry

    def _parse(self):
        self._parsed = True
        self._blocks = {}
        cur = None
        numbered = [int(p[1][1:]) for p in self.params if re.fullmatch(r"%[0-9]+", p[1])]
        entry_name = "%%%d" % (max(numbered) + 1 if numbered else 0)
        lines = self.lines
        i = 0
        n = len(lines)
        first = True
        while i < n:
            ln = lines[i]
            i += 1
            if not ln.strip():
                continue
            if not ln.startswith(" "):
                m = re.match(r'("(?:[^"])*"|[-a-zA-Z$._0-9]+):', ln)
                if not m:
                    raise IRError("label? %r" % ln)
                nm = "%" + m.group(1)
                cur = Block(nm)
                self._blocks[nm] = cur
                if first:
                    self._entry = nm
                    first = False
                continue
            if cur is None:
                cur = Block(entry_name)
                self._blocks[entry_name] = cur
                self._entry = entry_name
                first = False
            # multi-line instructions
            st = ln.strip()
            if (st.startswith("switch ") and st.endswith("[")):
                while True:
                    ln2 = lines[i].strip()
                    i += 1
                    st += " " + ln2
                    if ln2.startswith("]"):
                        break
            if " = landingpad " in st or st.startswith("landingpad"):
                while i < n and re.match(r"\s+(catch|cleanup|filter)\b", lines[i]):
                    st += " " + lines[i].strip()
                    i += 1
            if re.search(r"\binvoke\b", st) and i < n and lines[i].strip().startswith("to label"):
                st += " " + lines[i].strip()
                i += 1
            ins = self._insn(st)
            if ins is not None:
                cur.insns.append(ins)
        for b in self._blocks.values():
            b.phis = [x for x in b.insns if x.op == "phi"]
            b.body = [x for x in b.insns if x.op != "phi"]

    def _insn(self, st):
        dbg = None
        m = re.search(r", !dbg (![0-9]+)", st)
        if m:
            dbg = m.group(1)
        # strip metadata attachments
        core = re.sub(r", ![a-zA-Z_.]+ ![0-9]+", "", st)
        core = re.sub(r", ![a-zA-Z_.]+ !\{\}", "", core)
        res = None
        m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', core)
        if m:
            res = m.group(1)
            core = core[m.end():]
        op = core.split(None, 1)[0]
        mod = self.mod
        if op in CALL_PRE:
            core = core.split(None, 1)[1]
            op = core.split(None, 1)[0]
        if op == "call" and ("llvm.dbg." in core or "llvm.experimental.noalias" in core):
            return None
        if op in ("landingpad", "resume"):
            return Insn(op, res, OTHER, None, dbg, st)
        c = Cursor(lex(core), mod)
        c.next()
        if op == "ret":
            t = c.ty()
            return Insn(op, None, t, None if t.k == "void" else c.value(t), dbg, st)
        if op == "br":
            if c.peek() == "label":
                c.next()
                return Insn("jmp", None, None, c.next()[1], dbg, st)
            t = c.ty()
            v = c.value(t)
            c.expect(","); c.expect("label"); a = c.next()[1]
            c.expect(","); c.expect("label"); b = c.next()[1]
            return Insn("br", None, None, (v, a, b), dbg, st)
        if op == "switch":
            t = c.ty()
            v = c.value(t)
            c.expect(","); c.expect("label"); d = c.next()[1]
            c.expect("[")
            cases = []
            while not c.accept("]"):
                t2 = c.ty()
                cv = c.value(t2)
                c.expect(","); c.expect("label")
                cases.append((cv[2], c.next()[1]))
            return Insn("switch", None, t, (v, d, cases), dbg, st)
        if op == "unreachable":
            return Insn(op, None, None, None, dbg, st)
        if op == "phi":
            t = c.ty()
            inc = []
            while True:
                c.expect("[")
                v = c.value(t)
                c.expect(",")
                inc.append((v, c.next()[1]))
                c.expect("]")
                if not c.accept(","):
                    break
            return Insn(op, res, t, {b: v for v, b in inc}, dbg, st)
        if op == "alloca":
            c.accept("inalloca")
            t = c.ty()
            n = ("i", 64, 1)
            while c.accept(","):
                if c.peek() == "align":
                    c.next(); c.next()
                else:
                    t2 = c.ty()
                    n = c.value(t2)
            return Insn(op, res, t, n, dbg, st)
        if op == "load":
            c.accept("volatile")
            if c.peek() == "atomic":
                c.next(); c.accept("volatile")
            t = c.ty()
            c.expect(",")
            t2 = c.ty()
            v = c.value(t2)
            return Insn(op, res, t, v, dbg, st)
        if op == "store":
            c.accept("volatile")
            if c.peek() == "atomic":
                c.next(); c.accept("volatile")
            t = c.ty()
            v = c.value(t)
            c.expect(",")
            t2 = c.ty()
            p = c.value(t2)
            return Insn(op, None, t, (v, p), dbg, st)
        if op == "getelementptr":
            while c.peek() in FLAGS:
                c.next()
            sty = c.ty()
            c.expect(",")
            ops = []
            while True:
                t = c.ty()
                ops.append((t, c.value(t)))
                if not c.accept(","):
                    break
            return Insn("gep", res, PTR, (sty, ops), dbg, st)
        if op in ("icmp", "fcmp"):
            while c.peek() in FLAGS:
                c.next()
            pred = c.next()[1]
            t = c.ty()
            a = c.value(t)
            c.expect(",")
            b = c.value(t)
            return Insn(op, res, t, (pred, a, b), dbg, st)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl",
                  "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv"):
            while c.peek() in FLAGS:
                c.next()
            t = c.ty()
            a = c.value(t)
            c.expect(",")
            b = c.value(t)
            return Insn(op, res, t, (a, b), dbg, st)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp",
                  "fptosi", "fptoui", "fptrunc", "fpext"):
            while c.peek() in FLAGS:
                c.next()
            t = c.ty()
            a = c.value(t)
            c.expect("to")
            t2 = c.ty()
            return Insn(op, res, t2, (t, a), dbg, st)
        if op in ("fneg", "freeze"):
            while c.peek() in FLAGS:
                c.next()
            t = c.ty()
            return Insn(op, res, t, c.value(t), dbg, st)
        if op == "select":
            while c.peek() in FLAGS:
                c.next()
            t0 = c.ty(); cond = c.value(t0); c.expect(",")
            t = c.ty(); a = c.value(t); c.expect(",")
            t2 = c.ty(); b = c.value(t2)
            return Insn(op, res, t, (cond, a, b), dbg, st)
        if op == "extractvalue":
            t = c.ty()
            v = c.value(t)
            idx = []
            while c.accept(","):
                idx.append(int(c.next()[1]))
            return Insn(op, res, t, (v, idx), dbg, st)
        if op == "insertvalue":
            t = c.ty()
            v = c.value(t)
            c.expect(",")
            t2 = c.ty()
            e = c.value(t2)
            idx = []
            while c.accept(","):
                idx.append(int(c.next()[1]))
            return Insn(op, res, t, (v, t2, e, idx), dbg, st)
        if op in ("call", "invoke"):
            while c.peek() in FLAGS or c.peek() in CCONV:
                c.next()
            c.attrs()
            t = c.ty()
            # function type for varargs: ty (params...)
            if c.peek() == "(":
                depth = 0
                while True:
                    q = c.next()[1]
                    if q == "(":
                        depth += 1
                    elif q == ")":
                        depth -= 1
                        if depth == 0:
                            break
            callee = c.value(PTR)
            c.expect("(")
            args = []
            while not c.accept(")"):
                if c.peek() == "metadata":
                    # skip metadata argument
                    while c.peek() not in (",", ")"):
                        c.next()
                else:
                    at = c.ty()
                    c.attrs()
                    args.append((at, c.value(at)))
                c.accept(",")
            normal = None
            unwind = None
            if op == "invoke":
                while c.peek() != "to":
                    c.next()
                c.expect("to"); c.expect("label")
                normal = c.next()[1]
                c.expect("unwind"); c.expect("label")
                unwind = c.next()[1]
            return Insn("call", res, t, (callee, args, normal, unwind), dbg, st)
        if op == "va_arg":
            return Insn("va_arg", res, OTHER, None, dbg, st)
        raise IRError("instruction %r" % st)


def _header_params(h, i):
    """text from '@name(' to its matching ')'"""
    j = h.index("(", i) if h[i + 1] != '"' else h.index("(", h.index('"', i + 2))
    depth = 0
    k = j
    inq = False
    while True:
        ch = h[k]
        if ch == '"':
            inq = not inq
        if not inq:
            if ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
                if depth == 0:
                    return h[i:k + 1]
        k += 1


class GlobalVar:
    def __init__(self, mod, name, text):
        self.mod, self.name, self.text = mod, name, text
        self._p = None

    def _parse(self):
        if self._p is None:
            t = re.sub(r", ![a-zA-Z_.]+ ![0-9]+", "", self.text)
            c = Cursor(lex(t), self.mod)
            c.next(); c.expect("=")
            const = False
            external = False
            tls = False
            while True:
                p = c.peek()
                if p == "external" or p == "extern_weak":
                    external = True
                if p == "thread_local":
                    tls = True
                if p in ("constant", "global"):
                    const = p == "constant"
                    c.next()
                    break
                c.next()
                if c.peek() == "(":
                    while c.next()[1] != ")":
                        pass
            ty = c.ty()
            init = None
            if not external:
                init = c.value(ty)
            self._p = (const, external, ty, init, tls)
        return self._p

    const = property(lambda s: s._parse()[0])
    external = property(lambda s: s._parse()[1])
    ty = property(lambda s: s._parse()[2])
    init = property(lambda s: s._parse()[3])


class Module:
    def __init__(self, text):
        self.structs_text = {}
        self.structs = {}
        self.globals = {}
        self.functions = {}
        self.decls = {}
        self.meta_text = {}
        self.aliases = {}
        self._loc = {}
        self._split(text)

    def _split(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c0 = ln[0]
            if c0 == ";":
                continue
            if c0 == "%":
                nm, rest = ln.split(" = type ", 1)
                self.structs_text[nm] = rest
            elif c0 == "@":
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', ln)
                nm = unq(m.group(1))
                if re.search(r"= (?:[\w_]+ )*alias ", ln):
                    tgt = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', ln)[1]
                    self.aliases[nm] = unq(tgt)
                else:
                    self.globals[nm] = GlobalVar(self, nm, ln)
            elif ln.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                body = [re.sub(r"\s+; preds = .*$", "", b) if not b.startswith(" ") else b for b in body]
                m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                nm = unq(m.group())
                self.functions[nm] = (ln, body)
            elif ln.startswith("declare"):
                m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                self.decls[unq(m.group())] = ln
            elif c0 == "!":
                m = re.match(r"(![0-9]+) = (.*)$", ln)
                if m:
                    self.meta_text[m.group(1)] = m.group(2)

    def fn(self, name):
        name = self.aliases.get(name, name)
        f = self.functions.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = Function(self, name, f[0], f[1])
            self.functions[name] = f
        return f

    def named(self, nm):
        t = self.structs.get(nm)
        if t is None:
            t = Ty("struct", name=nm)
            self.structs[nm] = t
            txt = self.structs_text.get(nm, "opaque")
            if txt.strip() == "opaque":
                t.elems = []
            else:
                c = Cursor(lex(txt), self)
                r = c.ty()
                t.elems, t.packed = r.elems, r.packed
        return t

    # ------------------------------------------------------------- layout
    def sizeof(self, t):
        return self._sa(t)[0]

    def _sa(self, t):
        if t._sa is not None:
            return t._sa
        k = t.k
        if k == "int":
            b = (t.w + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k in ("ptr", "double"):
            r = (8, 8)
        elif k == "float":
            r = (4, 4)
        elif k == "arr":
            s, a = self._sa(t.elems[0])
            r = (s * t.n, a)
        elif k == "vec":
            s, a = self._sa(t.elems[0])
            r = (s * t.n, s * t.n)
        elif k == "struct":
            off, al = 0, 1
            for e in t.elems:
                s, a = self._sa(e)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            r = (16, 16)
        t._sa = r
        return r

    def field_off(self, t, i):
        off = 0
        for j, e in enumerate(t.elems):
            s, a = self._sa(e)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise IRError("field index")

    # -------------------------------------------------------- debug locations
    def loc(self, dbg):
        if dbg is None:
            return "?"
        r = self._loc.get(dbg)
        if r is None:
            txt = self.meta_text.get(dbg, "")
            m = re.search(r"line: (\d+)", txt)
            line = m.group(1) if m else "?"
            m = re.search(r"scope: (![0-9]+)", txt)
            f = self._file(m.group(1)) if m else "?"
            r = "%s:%s" % (f, line)
            # keep the outermost inlinedAt out: front-end IR has none
            self._loc[dbg] = r
        return r

    def _file(self, scope):
        seen = 0
        while scope and seen < 50:
            seen += 1
            txt = self.meta_text.get(scope, "")
            m = re.search(r"\bfile: (![0-9]+)", txt)
            if m:
                ft = self.meta_text.get(m.group(1), "")
                m2 = re.search(r'filename: "([^"]*)"', ft)
                fn = m2.group(1) if m2 else "?"
                j = fn.find("/repo/")
                if j >= 0:
                    fn = fn[j + 6:]
                return fn
            m = re.search(r"scope: (![0-9]+)", txt)
            scope = m.group(1) if m else None
        return "?"
