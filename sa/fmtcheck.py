"""Diagnostics: format strings against their arguments (C18)."""
import re

from interp import Agg, Maybe, Obj, Ptr, UNDEF, Unsupported
from ir import IntTy

CONV = re.compile(r"%([-+ #0']*)(\*|\d+)?(\.(?:\*|\d*))?(hh|h|ll|l|j|z|t|L)?([diouxXeEfFgGaAcspnm%]|$|.)", re.S)


def parse(fmt):
    """[(kind, width in bits, conversion text, has precision)], or text of an error"""
    out = []
    for m in CONV.finditer(fmt):
        flags, width, prec, length, c = m.groups()
        if c == "%":
            continue
        if width == "*":
            out.append(("int", 32, "*", None))
        if prec == ".*":
            out.append(("int", 32, ".*", None))
        if c in "diouxX" and c:
            out.append(("int", 64 if length in ("l", "ll", "j", "z", "t") else 32, m.group(0), None))
        elif c == "c":
            out.append(("int", 32, m.group(0), None))
        elif c == "s":
            out.append(("str", 64, m.group(0), prec))
        elif c == "p":
            out.append(("ptr", 64, m.group(0), None))
        elif c and c in "eEfFgGaA":
            out.append(("double", 64, m.group(0), None))
        elif c == "m":
            pass
        else:
            return "conversion %r" % m.group(0)
    return out


def fits(conv, ty):
    kind, w = conv[0], conv[1]
    if kind == "int":
        return ty.k == "int" and ty.w == w
    if kind == "double":
        return ty.k == "double"
    return ty.k == "ptr"


# ---------------------------------------------------------------- call sites
PRINTF = {"@printf": 0, "@fprintf": 1, "@dprintf": 1, "@sprintf": 1, "@snprintf": 2, "@asprintf": 1, "@syslog": 1}


class Sites:
    """every call with a format and a list of arguments"""

    def __init__(self, nx, r):
        self.nx, self.r, self.mod = nx, r, nx.mod
        self.I = nx.I
        self._written = None
        self.funcs = {}
        for n in self.mod.functions:
            f = self.mod.fn(n)
            if f is not None:
                self.funcs[n] = f
        self.callers = {}
        for n, f in self.funcs.items():
            for b in f.blocks.values():
                for i in b.insns:
                    if i.op == "call" and i.a[0][0] == "g":
                        self.callers.setdefault(i.a[0][1], []).append((f, i))
        self.variadic = {}
        for n, f in self.funcs.items():
            if f.varargs and f.params and f.params[-1][0].k == "ptr":
                self.variadic[n] = len(f.params) - 1
        self.variadic.update({n: k for n, k in PRINTF.items() if n in self.callers})

    def run(self):
        for n, k in sorted(self.variadic.items()):
            for f, i in self.callers.get(n, ()):
                self.site(f, i, n, k)

    def where(self, f, i):
        try:
            return "%s in %s" % (self.I.loc(i), f.name)
        except Exception:
            return f.name

    def site(self, f, i, callee, k):
        r = self.r
        args = i.a[1]
        w = self.where(f, i)
        r.count("call sites with a format")
        fmts = self.strings(f, args[k][1], set())
        if fmts is None:
            # computed: what it is on each path is looked at there
            r.count("formats looked at on paths only")
            return
        for fmt in fmts:
            self.match(w, fmt, [t for t, _ in args[k + 1:]])

    def match(self, w, fmt, types):
        r = self.r
        c = parse(fmt)
        if isinstance(c, str):
            r.bad(w, "%s in %r is not defined" % (c, fmt))
            return
        r.count("conversions matched with arguments", len(c))
        if len(c) != len(types):
            r.bad(w, "%r asks for %d arguments, %d are passed" % (fmt, len(c), len(types)))
            return
        for x, t in zip(c, types):
            if not fits(x, t):
                r.bad(w, "%s in %r gets an argument of type %s" % (x[2], fmt, t.k + (str(t.w) if t.k == "int" else "")))

    def strings(self, f, v, seen):
        """the literals a value can be, or None"""
        if v[0] in ("g", "gep", "ce") or v[0] not in ("l", "i", "null"):
            try:
                p = self.I.constant(v)
                return [self.I.cstring(self.nx.new_state(), p).decode("latin-1")]
            except Exception:
                return None
        if v[0] != "l" or v[1] in seen:
            return [] if v[0] == "l" else None
        seen = seen | {v[1]}
        for idx, (t, nm, at) in enumerate(f.params):
            if nm == v[1]:
                # forwarded: the literals of all callers
                out = []
                for g, j in self.callers.get(f.name, ()):
                    x = self.strings(g, j.a[1][idx][1], set())
                    if x is None:
                        return None
                    out += x
                return out
        j = self.definition(f, v[1])
        if j is None:
            return None
        if j.op == "phi":
            vs = [(f, x) for x in j.a.values()]
        elif j.op == "select":
            vs = [(f, x) for x in j.a if isinstance(x, tuple)][-2:]
        elif j.op == "call" and j.a[0][0] == "g" and j.a[0][1] in self.funcs:
            g = self.funcs[j.a[0][1]]
            if g.name in seen:
                return []
            seen = seen | {g.name}
            vs = [(g, k.a) for b in g.blocks.values() for k in b.insns if k.op == "ret"]
        elif j.op == "load":
            return self.loaded(f, j.a)
        else:
            return None
        out = []
        for g, x in vs:
            y = self.strings(g, x, seen) if isinstance(x, tuple) else None
            if y is None:
                return None
            out += y
        return out

    def definition(self, f, res):
        for b in f.blocks.values():
            for j in list(b.phis or ()) + b.insns:
                if j.res == res:
                    return j
        return None

    def loaded(self, f, v):
        """the literals in a table or variable that nothing writes"""
        while v[0] == "l":
            j = self.definition(f, v[1])
            if j is None or j.op != "gep":
                return None
            v = [x for x in [j.a] + list(j.a) if isinstance(x, tuple) and x and x[0] in ("g", "l", "gep")][0]
        try:
            p = self.I.constant(v)
        except Exception:
            return None
        if type(p) is not Ptr or not isinstance(p.obj, str) or p.obj in self.written():
            return None
        o = self.I.global_obj(p.obj)
        out = []
        for off in sorted(o.cells):
            q = o.cells[off]
            q = q[-1] if isinstance(q, tuple) else q
            if type(q) is Ptr:
                try:
                    out.append(self.I.cstring(self.nx.new_state(), q).decode("latin-1"))
                except Exception:
                    return None
        return out or None

    def written(self):
        """globals used for anything but reading"""
        if self._written is None:
            w = set()

            def names(x):
                if isinstance(x, tuple) and len(x) > 1 and x[0] == "g" and isinstance(x[1], str):
                    yield x[1]
                elif isinstance(x, (tuple, list)):
                    for y in x:
                        yield from names(y)
                elif isinstance(x, dict):
                    for y in x.values():
                        yield from names(y)
            for f in self.funcs.values():
                for b in f.blocks.values():
                    for j in list(b.phis or ()) + b.insns:
                        if j.op in ("load", "gep"):
                            continue
                        if j.op == "call":
                            w.update(n for t, x in j.a[1] for n in names(x))
                        else:
                            w.update(names(j.a))
            self._written = {n for n in w if n not in self.mod.globals or not self.mod.globals[n].const}
        return self._written


# -------------------------------------------------------------------- values
def values(nx, st, fmt, args):
    """findings about the arguments a diagnostic is given on one path"""
    I, B = nx.I, nx.B
    c = parse(fmt)
    if isinstance(c, str) or len(c) != len(args):
        return ["%r does not match its %d arguments" % (fmt, len(args))]
    out = []
    prec = None
    for x, a in zip(c, args):
        a = I.resolve(st, a)
        if a is UNDEF:
            out.append("%s prints a value that was never set" % x[2])
            continue
        if x[2] == ".*":
            prec = a
            continue
        if x[0] != "str":
            continue
        if x[3] is None:
            prec = None
        elif x[3] != ".*":
            prec = int(x[3][1:] or 0)
        out += text(nx, st, x[2], a, prec)
        prec = None
    return out


def text(nx, st, conv, p, prec):
    I, B, D = nx.I, nx.B, nx.D
    if type(p) is Maybe:
        if B.AND(st.pc, B.NOT(p.c)) != 0 and prec != 0:
            return ["%s prints a null pointer" % conv]
        p = p.p
    if p == 0:
        return [] if prec == 0 else ["%s prints a null pointer" % conv]
    if type(p) is not Ptr:
        raise Unsupported("text of a diagnostic at %s" % I.where())
    if p.obj in ("FILENAME", "ERRMSG") or str(p.obj).startswith("CTXPTR_"):
        return []
    o = I.obj(st, p.obj)
    if o.freed:
        return ["%s prints released memory" % conv]
    if o.kind == "tokstr":
        if prec is None:
            return ["%s prints the text of a token without its length" % conv]
        n = D.func(o.name, ("len", 0), lambda s: len(s), 64)[:32]
        b = I.bits(st, prec, 32)
        off = p.off if type(p.off) is int else 0
        have = B.vadd(b, B.const(off, 32))[0]
        if B.AND(st.pc, B.vult(n, have)) != 0:
            return ["%s prints more than the text of the token" % conv]
        return []
    if o.kind == "text":
        if prec is None:
            return ["%s prints the rest of the source" % conv]
        n = I.const_of(st, prec)
        if n >= 1 << 31:
            return ["%s prints with a negative length" % conv]
        T = I.textdom
        if p.off < 0 or p.off + n > T.N or B.AND(st.pc, B.NOT(T.full[p.off + n])) != 0:
            return ["%s prints beyond the end of the source" % conv]
        return []
    # any other memory: terminated within its object, or within the precision
    n = None if prec is None else I.const_of(st, prec)
    i = 0
    while n is None or i < n:
        q = Ptr(p.obj, p.off + i)
        if o.size is not None and q.off >= o.size:
            return ["%s prints beyond the end of %s" % (conv, o.name or o.kind)]
        v = I.resolve(st, I.load_raw(st, q, o, 1))
        if v is UNDEF:
            return ["%s prints bytes that were never set" % conv]
        if v == 0:
            return []
        i += 1
        if i > 100000:
            raise Unsupported("text of a diagnostic at %s" % I.where())
    return []
