"""Abstract interpreter over LLVM IR.

Abstract values
  int            known constant
  tuple          vector of Boolean functions (unknown bits), LSB first
  Ptr            object + constant offset
  Maybe          pointer that is null unless a Boolean function holds
  TokRaw         bytes of a token payload whose meaning depends on the token's kind
  Agg            first-class aggregate
  UNDEF          a value that was never set
States are partitioned by trace; `pc` is the Boolean function of the atoms under
which the partition is reached.
"""
import struct
import sys

from bdd import BDD
from ir import IRError

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    """the analysis cannot decide: the check must end in an error, not a verdict"""


CTYPE = {"isdigit": ("09",), "isalpha": ("az", "AZ"), "isalnum": ("az", "AZ", "09"), "isspace": ("  ", "\t\r"),
         "isupper": ("AZ",), "islower": ("az",), "isxdigit": ("09", "af", "AF"), "isblank": ("  ", "\t\t"),
         "isprint": (" ~",), "isgraph": ("!~",), "ispunct": ("!/", ":@", "[`", "{~"), "iscntrl": ("\0\x1f", "\x7f\x7f")}


class NoProgress(Unsupported):
    """a loop goes round and round without reading on"""

    def __init__(self, fn, block, where):
        Exception.__init__(self, "a loop of %s does not end: %s" % (fn, where))
        self.fn, self.block, self.where = fn, block, where


class NeedSplit(Exception):
    def __init__(self, bits):
        self.bits = bits


class Die(Exception):
    """this partition ends here (noreturn call, memory fault, ...)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.kw = kw


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return type(o) is Ptr and o.obj == self.obj and o.off == self.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class Maybe:
    __slots__ = ("p", "c")

    def __init__(self, p, c):
        self.p = p
        self.c = c

    def __eq__(self, o):
        return type(o) is Maybe and o.p == self.p and o.c == self.c

    def __hash__(self):
        return hash((self.p, self.c))

    def __repr__(self):
        return "Maybe(%r)" % (self.p,)


class TokRaw:
    __slots__ = ("k", "off", "size")

    def __init__(self, k, off, size):
        self.k, self.off, self.size = k, off, size

    def __eq__(self, o):
        return type(o) is TokRaw and (o.k, o.off, o.size) == (self.k, self.off, self.size)

    def __hash__(self):
        return hash((self.k, self.off, self.size))

    def __repr__(self):
        return "tok%s[%d:%d]" % (self.k, self.off, self.off + self.size)


class LazyNZ:
    """truth value 'some bit of the vector is set' (negated if neg), not yet combined"""
    __slots__ = ("b", "neg")

    def __init__(self, b, neg):
        self.b, self.neg = b, neg

    def __eq__(self, o):
        return type(o) is LazyNZ and (o.b, o.neg) == (self.b, self.neg)

    def __hash__(self):
        return hash((self.b, self.neg))


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Agg%r" % (self.v,)


class Obj:
    __slots__ = ("size", "cells", "default", "kind", "freed", "const", "name")

    def __init__(self, size, kind, default="undef", const=False, name=None):
        self.size, self.kind, self.default, self.const, self.name = size, kind, default, const, name
        self.cells = {}
        self.freed = False

    def clone(self):
        o = Obj(self.size, self.kind, self.default, self.const, self.name)
        o.cells = dict(self.cells)
        o.freed = self.freed
        return o


class State:
    __slots__ = ("pc", "mem", "own", "conc", "ev", "tokens", "nobj", "x")

    def __init__(self):
        self.pc = 1
        self.mem = {}
        self.own = set()
        self.conc = {}
        self.ev = None
        self.tokens = frozenset()
        self.nobj = 0
        self.x = None

    def fork(self):
        s = State.__new__(State)
        s.pc = self.pc
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.conc = dict(self.conc)
        s.ev = self.ev
        s.tokens = self.tokens
        s.nobj = self.nobj
        s.x = dict(self.x) if self.x is not None else None
        return s

    def event(self, *item):
        self.ev = (self.ev, item)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


MASK = [(1 << i) - 1 for i in range(130)]


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Interp:
    def __init__(self, mod, bdd=None):
        self.mod = mod
        self.B = bdd or BDD()
        self.hooks = {}          # mangled name -> f(interp, st, args, insn) -> list[(st, ret)]
        self.pattern_hooks = []  # (predicate(name), f)
        self._ph_cache = {}
        self.glob = {}           # materialised globals (shared, initial contents)
        self.terminals = []      # (state, kind, dict)
        self.nsteps = 0
        self.max_visits = 20000
        self.loop_hook = None
        self.indirect_hook = None
        self.fn_seen = set()
        self.branch_seen = {}
        self.call_stack = []
        self.bufs = None
        self._heads = {}
        self._assertblk = {}
        self._live = {}
        self._symname = {}
        self._fmemo = {}
        self._named = {}
        self.merge_returns = False
        self.log = []
        self.tokdom = None       # token domain (resolve)
        self.opaque_n = 0
        self.global_writes = []
        self.track_global_writes = False
        self.deferred = {}
        self.split_limit = 300

    # ------------------------------------------------------------ utilities
    def loc(self, ins=None):
        if ins is not None and getattr(ins, "dbg", None):
            return self.mod.loc(ins.dbg)
        for f, i in reversed(self.call_stack):
            if i is not None and i.dbg:
                return self.mod.loc(i.dbg)
        return "?"

    def where(self):
        """innermost location inside the repository"""
        for f, i in reversed(self.call_stack):
            if i is not None and i.dbg:
                l = self.mod.loc(i.dbg)
                if l.startswith(("src/", "include/")):
                    return l + " in " + f.name
        return self.loc()

    def opaque(self, name, w):
        return self.B.bits(name, w)

    def fresh(self, hint, w):
        self.opaque_n += 1
        return self.B.bits("%s#%d" % (hint, self.opaque_n), w)

    def new_obj(self, st, size, kind, default="undef", name=None, zero=False):
        oid = st.nobj
        st.nobj += 1
        o = Obj(size, kind, default="zero" if zero else default, name=name)
        st.mem[oid] = o
        st.own.add(oid)
        return Ptr(oid, 0)

    def obj(self, st, oid):
        if oid == "FILENAME":
            st.event("filename", self.where(), "the characters of the file name are read")
            raise Die("unreachable", why="file name")
        o = st.mem.get(oid)
        if o is None:
            o = self.global_obj(oid)
            if o is None:
                if type(oid) is int:
                    st.event("uaf", self.where(), "access to a local variable that no longer exists")
                    raise Die("fault", why="use after return")
                raise Unsupported("access to object %r at %s" % (oid, self.where()))
        return o

    def wobj(self, st, oid):
        if oid in st.own:
            return st.mem[oid]
        o = self.obj(st, oid).clone()
        st.mem[oid] = o
        st.own.add(oid)
        return o

    def global_obj(self, oid):
        o = self.glob.get(oid)
        if o is not None:
            return o
        if not isinstance(oid, str):
            return None
        g = self.mod.globals.get(oid)
        if g is None:
            return None
        if g.external:
            o = Obj(None, "extern", "opaque", name=oid)
        else:
            o = Obj(self.mod.sizeof(g.ty), "global", "zero", const=g.const, name=oid)
            self._init(o, 0, g.ty, g.init)
        self.glob[oid] = o
        return o

    def _init(self, o, off, ty, v):
        k = v[0]
        if k == "zero" or (k == "undef"):
            return
        if k == "bytes":
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == "agg":
            t = v[1]
            if t.k == "arr":
                es = self.mod.sizeof(t.elems[0])
                for i, e in enumerate(v[2]):
                    self._init(o, off + i * es, t.elems[0], e)
            else:
                for i, e in enumerate(v[2]):
                    self._init(o, off + self.mod.field_off(t, i), t.elems[i], e)
            return
        o.cells[off] = (self.mod.sizeof(ty), self.constant(v))

    def constant(self, v):
        k = v[0]
        if k == "i" or k == "f":
            return v[2]
        if k == "null":
            return 0
        if k == "undef":
            t = v[1]
            if t.k == "struct" or t.k == "arr":
                n = len(t.elems) if t.k == "struct" else t.n
                return Agg([UNDEF] * n)
            return UNDEF
        if k == "zero":
            t = v[1]
            if t.k == "struct":
                return Agg([self.constant(("zero", e)) for e in t.elems])
            if t.k == "arr":
                return Agg([self.constant(("zero", t.elems[0])) for _ in range(t.n)])
            return 0
        if k == "g":
            nm = v[1]
            nm = self.mod.aliases.get(nm, nm)
            return Ptr(nm, 0)
        if k == "ce":
            if v[1] == "gep":
                base = self.constant(v[3][0][1])
                idx = [self.constant(x[1]) for x in v[3][1:]]
                wid = [x[0].w for x in v[3][1:]]
                off = self._gep_off(v[2], [sgn(i, w) for i, w in zip(idx, wid)])
                return Ptr(base.obj, base.off + off)
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.constant(v[3])
            if v[1] in ("sub", "add"):
                a, b = self.constant(v[3]), self.constant(v[4])
                if type(a) is int and type(b) is int:
                    return (a + b if v[1] == "add" else a - b) & MASK[64]
            raise Unsupported("constant expression %s" % v[1])
        if k == "agg":
            return Agg([self.constant(x) for x in v[2]])
        if k == "bytes":
            return Agg(list(v[1]))
        raise Unsupported("constant %r" % (v,))

    def _gep_off(self, sty, idx):
        off = idx[0] * self.mod.sizeof(sty)
        t = sty
        for i in idx[1:]:
            if t.k == "struct":
                off += self.mod.field_off(t, i)
                t = t.elems[i]
            elif t.k in ("arr", "vec"):
                t = t.elems[0]
                off += i * self.mod.sizeof(t)
            else:
                raise Unsupported("gep into %r" % t)
        return off

    # -------------------------------------------------------------- values
    def const_of(self, st, v):
        """concrete int of v, splitting the partition if necessary"""
        if type(v) is int:
            return v
        v = self.resolve(st, v)
        if type(v) is int:
            return v
        if type(v) is tuple:
            c = st.conc.get(v)
            if c is not None:
                return c
            r = 0
            for i, b in enumerate(v):
                if b == 1:
                    r |= 1 << i
                elif b != 0:
                    raise NeedSplit(v)
            return r
        if v is UNDEF:
            self.undef_use(st, "value")
            raise Die("undef")
        raise Unsupported("constant needed, have %r at %s" % (v, self.where()))

    def resolve(self, st, v):
        if type(v) is TokRaw:
            return self.tokdom.resolve(self, st, v)
        if type(v) is LazyNZ:
            return self.norm((self.force(v),))
        return v

    def force(self, v):
        r = 0
        for x in v.b:
            r = self.B.OR(r, x)
        return self.B.NOT(r) if v.neg else r

    def live_in(self, fn):
        """variables live at entry of each block"""
        r = self._live.get(fn.name)
        if r is not None:
            return r
        use, dfn, phiuse = {}, {}, {}
        for bn, b in fn.blocks.items():
            u, d = set(), set()
            for p in b.phis:
                d.add(p.res)
                for pred, v in p.a.items():
                    if v[0] == "l":
                        phiuse.setdefault(pred, set()).add(v[1])
            for i in b.body:
                for x in locals_of(i):
                    if x not in d:
                        u.add(x)
                if i.res:
                    d.add(i.res)
            use[bn], dfn[bn] = u, d
        live = {bn: set(use[bn]) for bn in fn.blocks}
        changed = True
        while changed:
            changed = False
            for bn in reversed(list(fn.blocks)):
                out = set(phiuse.get(bn, ()))
                for s_ in succs(fn.blocks[bn]):
                    out |= live[s_]
                n = use[bn] | (out - dfn[bn])
                if n != live[bn]:
                    live[bn] = n
                    changed = True
        # at a block's start its phis are set already
        r = {bn: live[bn] | {p.res for p in fn.blocks[bn].phis} for bn in fn.blocks}
        self._live[fn.name] = r
        return r

    undef_bits = False
    defer_order = None

    def undef_use(self, st, what):
        st.event("uninit", self.where(), what)

    def bits(self, st, v, w):
        t = type(v)
        if t is int:
            return tuple((v >> i) & 1 for i in range(w))
        if t is tuple:
            if len(v) == w:
                return v
            if len(v) > w:
                return v[:w]
            return v + (0,) * (w - len(v))
        if t is TokRaw or t is LazyNZ:
            return self.bits(st, self.resolve(st, v), w)
        if v is UNDEF:
            return None
        raise Unsupported("bits of %r at %s" % (v, self.where()))

    @staticmethod
    def norm(bits):
        r = 0
        for i, b in enumerate(bits):
            if b == 1:
                r |= 1 << i
            elif b != 0:
                return bits
        return r

    # -------------------------------------------------------------- memory
    def _check(self, st, p, size, write, lenient=False):
        p = self.deref(st, p)
        o = self.obj(st, p.obj)
        if o.freed:
            st.event("uaf", self.where(), "%s of freed %s" % ("write" if write else "read", o.kind))
            raise Die("fault", why="use after free")
        if type(p.off) is not int:
            p = Ptr(p.obj, self.const_of(st, p.off))
        if o.size is not None and (p.off < 0 or p.off + size > o.size):
            st.event("oob", self.where(), "%s of %d bytes at offset %d of %s of %d bytes" % (
                "write" if write else "read", size, p.off, o.name or o.kind, o.size))
            raise Die("fault", why="out of bounds")
        if write and o.const:
            st.event("constwrite", self.where(), o.name)
        return p, o

    def deref(self, st, p):
        p = self.resolve(st, p)
        if type(p) is Maybe:
            if self.B.AND(st.pc, self.B.NOT(p.c)) != 0:
                st.event("nullderef", self.where(), "possibly null pointer")
                if self.B.AND(st.pc, p.c) == 0:
                    raise Die("fault", why="null dereference")
                st.pc = self.B.AND(st.pc, p.c)
            return p.p
        if type(p) is Ptr:
            return p
        if p == 0:
            st.event("nullderef", self.where(), "null pointer")
            raise Die("fault", why="null dereference")
        if p is UNDEF:
            self.undef_use(st, "pointer")
            raise Die("fault", why="uninitialised pointer")
        raise Unsupported("dereference of %r at %s" % (p, self.where()))

    def load(self, st, p, ty):
        size = self.mod.sizeof(ty)
        if ty.k in ("struct", "arr"):
            n = len(ty.elems) if ty.k == "struct" else ty.n
            out = []
            for i in range(n):
                et = ty.elems[i] if ty.k == "struct" else ty.elems[0]
                off = self.mod.field_off(ty, i) if ty.k == "struct" else i * self.mod.sizeof(et)
                out.append(self.load(st, self.padd(p, off), et))
            return Agg(out)
        p, o = self._check(st, p, size, False)
        v = self.load_raw(st, p, o, size)
        if ty.k == "int" and ty.w < size * 8:
            if type(v) is int:
                v &= MASK[ty.w]
            elif type(v) is tuple:
                v = self.norm(v[:ty.w])
        return v

    def padd(self, p, off):
        if type(p) is Ptr:
            return Ptr(p.obj, p.off + off)
        if type(p) is Maybe:
            return Maybe(Ptr(p.p.obj, p.p.off + off), p.c)
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def load_raw(self, st, p, o, size):
        off = p.off
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if o.kind == "tokstr":
            return self.tokdom.char(self, st, o, off, size)
        if o.kind == "text":
            return self.textdom.load(self, st, p, o, size)
        # gather bytes
        parts = []
        i = 0
        while i < size:
            b = self._byte(st, o, off + i, p)
            parts.append(b)
            i += 1
        # all bytes of one value, in order?
        b0 = parts[0]
        if b0[0] == "v" and b0[2] == 0 and b0[3] == size and all(
                b[0] == "v" and b[1] is b0[1] and b[2] == j for j, b in enumerate(parts)):
            return b0[1]
        und = [b[0] == "u" or b[0] == "v" and b[1] is UNDEF for b in parts]
        if any(und):
            if all(und) or any(b[0] == "v" and type(b[1]) in (Ptr, Maybe, TokRaw, LazyNZ) for b in parts):
                return UNDEF
            # some bytes were never set (padding): they must not matter
            self.undef_bits = True
            parts = [("v", self.fresh("undef", 8), 0, 1) if u else b for u, b in zip(und, parts)]
        if all(b[0] == "v" and type(b[1]) is TokRaw for b in parts):
            t0 = parts[0]
            if all(b[1] is t0[1] and b[2] == t0[2] + j for j, b in enumerate(parts)):
                return TokRaw(t0[1].k, t0[1].off + t0[2], size)
        bits = []
        for b in parts:
            if b[0] == "c":
                bits += [(b[1] >> j) & 1 for j in range(8)]
            else:
                v = b[1]
                if type(v) is Ptr or type(v) is Maybe:
                    raise Unsupported("partial pointer load at %s" % self.where())
                vb = self.bits(st, v, b[3] * 8)
                if vb is None:
                    return UNDEF
                bits += list(vb[b[2] * 8:b[2] * 8 + 8])
        return self.norm(tuple(bits))

    def _byte(self, st, o, off, p):
        for s in (off, off - 1, off - 2, off - 3, off - 4, off - 5, off - 6, off - 7):
            c = o.cells.get(s)
            if c is not None:
                if s + c[0] > off:
                    if type(c[1]) is int:
                        return ("c", (c[1] >> (8 * (off - s))) & 255)
                    return ("v", c[1], off - s, c[0])
                if s == off:
                    continue
        for s in range(off - 8, off - 64, -1):
            c = o.cells.get(s)
            if c is not None and s + c[0] > off:
                return ("v", c[1], off - s, c[0])
        if o.default == "zero":
            return ("c", 0)
        if o.default == "opaque":
            return ("v", self.B.bits("mem(%s+%d)" % (o.name, off), 8), 0, 1)
        return ("u",)

    def store(self, st, p, v, ty):
        if type(v) is Agg:
            for i, x in enumerate(v.v):
                et = ty.elems[i] if ty.k == "struct" else ty.elems[0]
                off = self.mod.field_off(ty, i) if ty.k == "struct" else i * self.mod.sizeof(et)
                self.store(st, self.padd(p, off), x, et)
            return
        size = self.mod.sizeof(ty)
        p, o = self._check(st, p, size, True)
        self._track_write(st, p, o)
        self.put(st, p, size, v)

    def _track_write(self, st, p, o):
        if o.kind in ("global", "extern"):
            self.global_writes.append((o.name, self.where()))

    def put(self, st, p, size, v):
        o = self.wobj(st, p.obj)
        self._clear(st, o, p.off, size)
        o.cells[p.off] = (size, v)

    def _clear(self, st, o, off, size):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            return
        end = off + size
        for s in range(off - 63, end):
            c = cells.get(s)
            if c is None:
                continue
            e = s + c[0]
            if e <= off:
                continue
            if s >= off and e <= end:
                del cells[s]
                continue
            # split partially overwritten cell into bytes
            v = c[1]
            del cells[s]
            for b in range(c[0]):
                if off <= s + b < end:
                    continue
                if type(v) is int:
                    cells[s + b] = (1, (v >> (8 * b)) & 255)
                elif v is UNDEF:
                    pass
                elif type(v) is TokRaw:
                    cells[s + b] = (1, TokRaw(v.k, v.off + b, 1))
                elif type(v) is tuple:
                    vb = v + (0,) * (c[0] * 8 - len(v))
                    cells[s + b] = (1, self.norm(vb[8 * b:8 * b + 8]))
                else:
                    raise Unsupported("partial overwrite of %r" % (v,))

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        s, so = self._check(st, s, n, False)
        d, do = self._check(st, d, n, True)
        self._track_write(st, d, do)
        items = []
        covered = 0
        if so.kind in ("tokstr", "text"):
            for i in range(n):
                items.append((i, 1, self.load_raw(st, Ptr(s.obj, s.off + i), so, 1)))
        else:
            i = 0
            while i < n:
                c = so.cells.get(s.off + i)
                if c is not None and i + c[0] <= n:
                    items.append((i, c[0], c[1]))
                    i += c[0]
                    continue
                b = self._byte(st, so, s.off + i, s)
                if b[0] == "c":
                    items.append((i, 1, b[1]))
                elif b[0] == "v":
                    v = b[1]
                    if type(v) is TokRaw:
                        items.append((i, 1, TokRaw(v.k, v.off + b[2], 1)))
                    elif v is UNDEF:
                        pass
                    else:
                        vb = self.bits(st, v, b[3] * 8)
                        items.append((i, 1, self.norm(vb[8 * b[2]:8 * b[2] + 8])))
                i += 1
        wo = self.wobj(st, d.obj)
        # erase destination range
        self._clear(st, wo, d.off, n)
        c = wo.cells.get(d.off)
        if c is not None and c[0] == n:
            del wo.cells[d.off]
        undef_default = wo.default == "undef"
        for off, sz, v in items:
            wo.cells[d.off + off] = (sz, v)
        if not undef_default:
            have = set()
            for off, sz, v in items:
                have.update(range(off, off + sz))
            for i in range(n):
                if i not in have:
                    wo.cells[d.off + i] = (1, UNDEF)

    def memset(self, st, d, byte, n):
        if n == 0:
            return
        d, do = self._check(st, d, n, True)
        self._track_write(st, d, do)
        wo = self.wobj(st, d.obj)
        self._clear(st, wo, d.off, n)
        wo.cells.pop(d.off, None)
        if d.off == 0 and n == wo.size and byte == 0:
            wo.cells = {}
            wo.default = "zero"
            return
        i = 0
        while i < n:
            sz = 8 if n - i >= 8 and (d.off + i) % 8 == 0 else 4 if n - i >= 4 and (d.off + i) % 4 == 0 else 1
            wo.cells[d.off + i] = (sz, int.from_bytes(bytes([byte]) * sz, "little"))
            i += sz

    # --------------------------------------------------------------- arith
    def binop(self, st, op, a, b, w):
        if type(a) is int and type(b) is int:
            m = MASK[w]
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "mul":
                return (a * b) & m
            if op == "shl":
                return (a << b) & m if b < w else self._badshift(st)
            if op == "lshr":
                return a >> b if b < w else self._badshift(st)
            if op == "ashr":
                return (sgn(a, w) >> b) & m if b < w else self._badshift(st)
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    st.event("divzero", self.where(), "division by zero")
                    raise Die("fault", why="division by zero")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == "sdiv" else sa - q * sb) & m
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        ta, tb = type(a), type(b)
        if (a is UNDEF) != (b is UNDEF) and op in ("and", "or") and (ta is int or tb is int or ta is tuple or tb is tuple):
            # bit by bit: setting all bits one after the other gives a defined value
            u = self.fresh("undef", w)
            self.undef_bits = True
            a, b = (u, b) if a is UNDEF else (a, u)
            ta, tb = type(a), type(b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ta is Maybe and st and self.B.AND(st.pc, self.B.NOT(a.c)) == 0:
            a, ta = a.p, Ptr
        if tb is Maybe and self.B.AND(st.pc, self.B.NOT(b.c)) == 0:
            b, tb = b.p, Ptr
        if ta is Ptr or tb is Ptr:
            if op == "sub" and ta is Ptr and tb is Ptr:
                if a.obj == b.obj:
                    if type(a.off) is int and type(b.off) is int:
                        return (a.off - b.off) & MASK[w]
                    return self.binop(st, "sub", a.off, b.off, w)
                raise Unsupported("difference of pointers to different objects at %s" % self.where())
            if op == "add" and ta is Ptr and tb is int:
                return Ptr(a.obj, a.off + sgn(b, w))
            if op == "sub" and ta is Ptr and tb is int:
                return Ptr(a.obj, a.off - sgn(b, w))
            if op == "sub" and ta is Ptr and b == 0:
                return a
            raise Unsupported("%s on pointers at %s" % (op, self.where()))
        B = self.B
        if op in ("mul", "udiv", "urem", "sdiv", "srem") and (a in st.conc or b in st.conc):
            return self.binop(st, op, st.conc.get(a, a), st.conc.get(b, b), w)
        x = self.bits(st, a, w)
        y = self.bits(st, b, w)
        if op == "add":
            return self.norm(B.vadd(x, y)[0])
        if op == "sub":
            return self.norm(B.vsub(x, y)[0])
        if op == "and":
            return self.norm(tuple(B.AND(i, j) for i, j in zip(x, y)))
        if op == "or":
            return self.norm(tuple(B.OR(i, j) for i, j in zip(x, y)))
        if op == "xor":
            return self.norm(tuple(B.XOR(i, j) for i, j in zip(x, y)))
        if op in ("shl", "lshr", "ashr"):
            if tb is not int:
                if b in st.conc:
                    b = st.conc[b]
                else:
                    vals = B.values(y, st.pc, 64)
                    if vals is None:
                        raise Unsupported("shift by unbounded amount at %s" % self.where())
                    if any(v >= w for v, c in vals):
                        st.event("badshift", self.where(), "shift amount can reach the width")
                    res = None
                    for v, c in vals:
                        if v >= w:
                            continue
                        r = self.bits(st, self._shift(op, x, v, w), w)
                        cc = B.veq(y, B.const(v, w))
                        res = r if res is None else B.vite(cc, r, res)
                    return self.norm(res)
            if b >= w:
                return self._badshift(st)
            return self._shift(op, x, b, w)
        if op == "mul":
            if ta is int:
                a, b, ta, tb, x, y = b, a, tb, ta, y, x
            if tb is int:
                acc = (0,) * w
                for i in range(w):
                    if b >> i & 1:
                        acc = B.vadd(acc, (0,) * i + x[:w - i])[0]
                return self.norm(acc)
            if sum(1 for i in x if i > 1) < sum(1 for i in y if i > 1):
                x, y = y, x
            if sum(1 for i in y if i > 1) <= 4:
                acc = (0,) * w
                for i in range(w):
                    if y[i]:
                        acc = B.vite(y[i], B.vadd(acc, (0,) * i + x[:w - i])[0], acc)
                return self.norm(acc)
            raise NeedSplit(y)
        if op in ("udiv", "urem", "sdiv", "srem") and tb is int and b > 0:
            if b & (b - 1) == 0:
                k = b.bit_length() - 1
                if op == "udiv":
                    return self.norm(x[k:] + (0,) * k)
                if op == "urem":
                    return self.norm(x[:k] + (0,) * (w - k))
                if op == "srem":
                    nz = 0
                    for i in x[:k]:
                        nz = B.OR(nz, i)
                    neg = B.AND(x[-1], nz)
                    return self.norm(x[:k] + (neg,) * (w - k))
                bias = tuple(x[-1] if i < k else 0 for i in range(w))
                y2 = B.vadd(x, bias)[0]
                return self.norm(y2[k:] + (y2[-1],) * k)
        vals = B.values(x, st.pc, 600)
        if vals is not None and tb is int:
            res = None
            for v, c in vals:
                r = B.const(self.binop(st, op, v, b, w), w)
                res = r if res is None else B.vite(B.veq(x, B.const(v, w)), r, res)
            return self.norm(res)
        raise NeedSplit(x if tb is int else y)

    def _badshift(self, st):
        st.event("badshift", self.where(), "shift amount reaches the width")
        return UNDEF

    def _shift(self, op, x, n, w):
        if op == "shl":
            return self.norm((0,) * n + x[:w - n])
        if op == "lshr":
            return self.norm(x[n:] + (0,) * n)
        return self.norm(x[n:] + (x[-1],) * n)

    def icmp(self, st, pred, a, b, w):
        if type(a) is int and type(b) is int:
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            if pred[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            r = pred[1:]
            return int(a < b if r == "lt" else a <= b if r == "le" else a > b if r == "gt" else a >= b)
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ta, tb = type(a), type(b)
        B = self.B
        if ta in (Ptr, Maybe) or tb in (Ptr, Maybe):
            if ta is Maybe and tb is int and b == 0:
                r = B.NOT(a.c)
                return self.norm((r if pred == "eq" else B.NOT(r),))
            if tb is Maybe and ta is int and a == 0:
                r = B.NOT(b.c)
                return self.norm((r if pred == "eq" else B.NOT(r),))
            if ta is Maybe and B.AND(st.pc, B.NOT(a.c)) == 0:
                a, ta = a.p, Ptr
            if tb is Maybe and B.AND(st.pc, B.NOT(b.c)) == 0:
                b, tb = b.p, Ptr
            if ta is Ptr and tb is Ptr:
                if a.obj == b.obj:
                    if type(a.off) is int and type(b.off) is int:
                        x, y = a.off, b.off
                        return {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y,
                                "ugt": x > y, "uge": x >= y, "slt": x < y, "sle": x <= y,
                                "sgt": x > y, "sge": x >= y}[pred] + 0
                    return self.icmp(st, pred, a.off, b.off, 64)
                if pred == "eq":
                    return 0
                if pred == "ne":
                    return 1
                if type(a.obj) is int and type(b.obj) is int and "stl_function.h" in self.where():
                    # std::less orders all pointers, whatever they point to
                    return int(a.obj < b.obj if pred[1:] in ("lt", "le") else a.obj > b.obj)
            elif pred in ("eq", "ne") and (tb is int and b == 0 or ta is int and a == 0):
                return int(pred == "ne")
            raise Unsupported("icmp %s %r %r at %s" % (pred, a, b, self.where()))
        x, y = self.bits(st, a, w), self.bits(st, b, w)
        nx, ny = self.symname(x), self.symname(y)
        if w > 8 and pred not in ("eq", "ne") and nx and ny and nx != ny and (
                B.group_of(nx) is None or B.group_of(nx) != B.group_of(ny)):
            # order of two unrelated unknowns: one atom per (strict) order
            if pred[1:] in ("gt", "le"):
                e = B.bits("%slt(%s,%s)" % (pred[0], ny, nx), 1)[0]
            else:
                e = B.bits("%slt(%s,%s)" % (pred[0], nx, ny), 1)[0]
            return (e if pred[1:] in ("gt", "lt") else B.NOT(e),)
        if pred in ("eq", "ne"):
            if w > 8 and nx and ny and nx != ny and (B.group_of(nx) is None or B.group_of(nx) != B.group_of(ny)):
                # equality of two unrelated unknowns: one atom
                e = B.bits("eq(%s,%s)" % (min(nx, ny), max(nx, ny)), 1)[0]
                return (e if pred == "eq" else B.NOT(e),)
            d = []
            for i, j in zip(x, y):
                e = B.XOR(i, j)
                if e == 1:
                    return int(pred == "ne")
                if e != 0:
                    d.append(e)
            if not d:
                return int(pred == "eq")
            if len(d) > 1:
                return LazyNZ(tuple(d), pred == "eq")
            r = d[0] if pred == "ne" else B.NOT(d[0])
        elif pred == "ult":
            r = B.vult(x, y)
        elif pred == "ugt":
            r = B.vult(y, x)
        elif pred == "ule":
            r = B.NOT(B.vult(y, x))
        elif pred == "uge":
            r = B.NOT(B.vult(x, y))
        elif pred == "slt":
            r = B.vslt(x, y)
        elif pred == "sgt":
            r = B.vslt(y, x)
        elif pred == "sle":
            r = B.NOT(B.vslt(y, x))
        else:
            r = B.NOT(B.vslt(x, y))
        return self.norm((r,))

    # floats: IEEE bit patterns; conversions of unknowns are opaque, named terms
    def symname(self, bits):
        B = self.B
        if type(bits) is not tuple:
            return None
        b = bits[-1]
        if b < 2 or B.lo[b] != 0 or B.hi[b] != 1:
            return None
        r = self._symname.get(bits)
        if r is None:
            r = self._symname[bits] = (self._symname_of(bits),)
        return r[0]

    def _symname_of(self, bits):
        B = self.B
        nm = None
        for i, b in enumerate(bits):
            if b < 2 or B.lo[b] != 0 or B.hi[b] != 1:
                return None
            n, bit = B.atom_of(B.level[b])
            if bit != i or (nm is not None and n != nm):
                return None
            nm = n
        return nm

    def term(self, v):
        if type(v) is int:
            return hex(v)
        n = self.symname(v)
        if n is None:
            n = self._named.get(v)
        if n is None:
            n = "?%d" % len(self._named)
            self._named[v] = n
        return n

    def fconv(self, st, op, v, fw, tw):
        v = self.resolve(st, v)
        if v is UNDEF:
            return UNDEF
        B = self.B
        if type(v) is int:
            if op == "fptrunc":
                d = struct.unpack("<d", struct.pack("<Q", v))[0]
                if d != d:
                    return ((v >> 63) << 31) | 0x7f800000 | ((v >> 29) & 0x7fffff)
                try:
                    return struct.unpack("<I", struct.pack("<f", d))[0]
                except OverflowError:
                    return ((v >> 63) << 31) | 0x7f800000
            if op == "fpext":
                f = struct.unpack("<f", struct.pack("<I", v))[0]
                if f != f:
                    return ((v >> 31) << 63) | 0x7ff0000000000000 | ((v & 0x7fffff) << 29)
                return struct.unpack("<Q", struct.pack("<d", f))[0]
            if op in ("sitofp", "uitofp"):
                iv = sgn(v, fw) if op == "sitofp" else v
                if tw == 32:
                    return int_to_f32(iv)
                return struct.unpack("<Q", struct.pack("<d", float(iv)))[0]
            raise Unsupported(op)
        v = self.bits(st, v, fw)
        key = (op, v, tw)
        r = self._fmemo.get(key)
        if r is None:
            r = self._fmemo[key] = self.fconv_bits(op, v, fw, tw)
            if op == "fpext":
                self._fmemo[("fptrunc", r, fw)] = v
            if type(r) is tuple and self.symname(r) is None:
                self._named[r] = "%s%d(%s)" % (op, tw, self.term(v))
        if op in ("fptosi", "fptoui"):
            lim = self.in_int_range(v, fw, tw, op == "fptosi")
            if self.B.AND(st.pc, self.B.NOT(lim)) != 0:
                st.event("badconv", self.where(), "conversion of a value outside the integer type")
        return r

    def fconv_bits(self, op, v, fw, tw):
        """exact conversions, as Boolean functions of the source bits"""
        B = self.B
        if op in ("sitofp", "uitofp"):
            return self.norm(self.int_to_float(v, op == "sitofp", tw))
        if op == "fpext" and (fw, tw) == (32, 64):
            mant, exp, sign = v[:23], v[23:31], v[31]
            special = self.all1(exp)
            sub = self.none(exp)
            e2 = B.vadd(tuple(exp) + (0, 0, 0), B.const(896, 11))[0]
            m2 = (0,) * 29 + tuple(mant)
            e2 = B.vite(special, (1,) * 11, e2)
            # subnormal: normalise
            es, ms = (0,) * 11, (0,) * 52
            seen = 0
            for p in range(22, -1, -1):
                c = B.AND(mant[p], B.NOT(seen))
                seen = B.OR(seen, mant[p])
                es = B.vite(c, B.const(1023 - 149 + p, 11), es)
                fr = tuple(mant[:p])
                ms = B.vite(c, (0,) * (52 - p) + fr, ms)
            e2 = B.vite(sub, es, e2)
            m2 = B.vite(sub, ms, m2)
            return self.norm(m2 + e2 + (sign,))
        if op in ("fptosi", "fptoui") and fw in (32, 64):
            mb, eb = (23, 8) if fw == 32 else (52, 11)
            bias = (1 << (eb - 1)) - 1
            mant, exp, sign = v[:mb], v[mb:mb + eb], v[-1]
            full = tuple(mant) + (1,)
            out = (0,) * tw
            for e in range(tw):
                c = B.veq(exp, B.const(bias + e, eb))
                if c == 0:
                    continue
                if e >= mb:
                    x = (0,) * (e - mb) + full
                else:
                    x = full[mb - e:]
                x = (x + (0,) * tw)[:tw]
                out = B.vite(c, x, out)
            if op == "fptosi":
                out = B.vite(sign, B.vsub((0,) * tw, out)[0], out)
            return self.norm(out)
        return B.bits("%s%d(%s)" % (op, tw, self.term(v)), tw)

    def all1(self, bits):
        r = 1
        for x in bits:
            r = self.B.AND(r, x)
        return r

    def none(self, bits):
        r = 0
        for x in bits:
            r = self.B.OR(r, x)
        return self.B.NOT(r)

    def int_to_float(self, v, signed, tw):
        B = self.B
        mb, eb = (23, 8) if tw == 32 else (52, 11)
        bias = (1 << (eb - 1)) - 1
        w = len(v)

        def conv(mag):
            m, e = (0,) * mb, (0,) * eb
            seen = 0
            for p in range(w - 1, -1, -1):
                c = B.AND(mag[p], B.NOT(seen))
                seen = B.OR(seen, mag[p])
                if c == 0:
                    continue
                if p <= mb:
                    fr = (0,) * (mb - p) + tuple(mag[:p])
                    ex = B.const(bias + p, eb)
                else:
                    sh = p - mb
                    fr = tuple(mag[sh:p])
                    g = mag[sh - 1]
                    st = 0
                    for x in mag[:sh - 1]:
                        st = B.OR(st, x)
                    up = B.AND(g, B.OR(st, fr[0]))
                    fr, carry = B.vadd(fr, (0,) * mb, up)
                    ex = B.vite(carry, B.const(bias + p + 1, eb), B.const(bias + p, eb))
                m = B.vite(c, fr, m)
                e = B.vite(c, ex, e)
            return m + e

        pos = conv(v)
        if not signed:
            return pos + (0,)
        neg = conv(B.vsub((0,) * w, v)[0])
        return B.vite(v[-1], neg, pos) + (v[-1],)

    def in_int_range(self, v, fw, tw, signed):
        B = self.B
        mb, eb = (23, 8) if fw == 32 else (52, 11)
        bias = (1 << (eb - 1)) - 1
        exp, sign = v[mb:mb + eb], v[-1]
        small = B.vult(exp, B.const(bias + tw - (1 if signed else 0), eb))
        if signed:
            # -2^(tw-1) is representable
            least = B.AND(sign, B.AND(B.veq(exp, B.const(bias + tw - 1, eb)), self.none(v[:mb])))
            return B.OR(small, least)
        return B.AND(small, B.OR(B.NOT(sign), B.vult(exp, B.const(bias, eb))))

    def fterm(self, v):
        return self.term(v)

    def fcmp(self, st, pred, a, b, w):
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        B = self.B
        if type(a) is int and type(b) is int:
            f = (lambda v: struct.unpack("<f", struct.pack("<I", v))[0]) if w == 32 else (
                lambda v: struct.unpack("<d", struct.pack("<Q", v))[0])
            x, y = f(a), f(b)
            un = x != x or y != y
            r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
                 "rd": True, "no": True}[pred[1:]]
            if pred[0] == "o":
                return int((not un) and (r if pred != "ord" else True))
            return int(un or (r if pred != "uno" else False))

        mb, eb = (23, 8) if w == 32 else (52, 11)
        x, y = self.bits(st, a, w), self.bits(st, b, w)

        def nan(v):
            return B.AND(self.all1(v[mb:mb + eb]), B.NOT(self.none(v[:mb])))

        un = B.OR(nan(x), nan(y))
        if pred == "ord":
            return self.norm((B.NOT(un),))
        if pred == "uno":
            return self.norm((un,))
        zx, zy = self.none(x[:-1]), self.none(y[:-1])
        bothz = B.AND(zx, zy)
        same = B.veq(x, y)
        eq = B.OR(bothz, same)
        mlt, mgt = B.vult(x[:-1], y[:-1]), B.vult(y[:-1], x[:-1])
        sx, sy = x[-1], y[-1]
        lt = B.ITE(sx, B.ITE(sy, mgt, 1), B.ITE(sy, 0, mlt))
        lt = B.AND(lt, B.NOT(eq))
        gt = B.AND(B.NOT(lt), B.NOT(eq))
        rel = pred[1:]
        r = {"eq": eq, "ne": B.NOT(eq), "lt": lt, "gt": gt, "le": B.OR(lt, eq), "ge": B.OR(gt, eq)}[rel]
        if pred[0] == "o":
            r = B.AND(r, B.NOT(un))
        else:
            r = B.OR(r, un)
        return self.norm((r,))

    # ------------------------------------------------------------ execution
    def heads(self, fn):
        """loop headers of fn (targets of DFS back edges)"""
        h = self._heads.get(fn.name)
        if h is None:
            h = set()
            color = {}
            stack = [(fn.entry, iter(succs(fn.blocks[fn.entry])))]
            color[fn.entry] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if color.get(s) == 1:
                        h.add(s)
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter(succs(fn.blocks[s]))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._heads[fn.name] = h
        return h

    def is_assert(self, fn, bname):
        k = (fn.name, bname)
        r = self._assertblk.get(k)
        if r is None:
            r = False
            for i in fn.blocks[bname].insns:
                if i.op == "call" and i.a[0][0] == "g" and i.a[0][1] == "@__assert_fail":
                    r = True
                    break
                if i.op not in ("call", "phi", "gep", "jmp", "load"):
                    break
            self._assertblk[k] = r
        return r

    def val(self, env, v):
        if v[0] == "l":
            return env[v[1]]
        return self.constant(v)

    def call(self, st, name, args, ins=None):
        """-> list of (state, return value)"""
        h = self.hooks.get(name)
        if h is None and name not in self._ph_cache:
            for pred, f in self.pattern_hooks:
                if pred(name):
                    self._ph_cache[name] = f
                    break
            else:
                self._ph_cache[name] = None
        if h is None:
            h = self._ph_cache.get(name)
        if h is not None:
            r = h(self, st, args, ins)
            if r is not NotImplemented:
                return r
        fn = self.mod.fn(name)
        if fn is None:
            return self.external(st, name, args, ins)
        return self.run(fn, args, st)

    def external(self, st, name, args, ins):
        n = name[1:]
        if n.startswith("llvm."):
            return self.intrinsic(st, n, args, ins)
        if n in ("_Znwm", "_Znam"):
            sz = self.const_of(st, args[0])
            return [(st, self.new_obj(st, sz, "heap"))]
        if n in ("_ZdlPvm", "_ZdlPv", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t"):
            p = self.resolve(st, args[0])
            if type(p) is Maybe:
                return [(st, None)]
            if type(p) is Ptr and p.obj == "ERRMSG":
                return [(st, None)]
            if type(p) is Ptr:
                o = self.wobj(st, p.obj)
                if o.freed:
                    st.event("uaf", self.where(), "double free")
                    raise Die("fault", why="double free")
                o.freed = True
            return [(st, None)]
        if n == "__assert_fail":
            st.event("assert_always", self.where(), "assertion fails")
            raise Die("abort", why="assertion")
        if n.startswith("_ZSt") and "__throw_" in n:
            st.event("throw", self.where(), n)
            raise Die("throw", why=n)
        if n in ("_ZSt9terminatev", "__clang_call_terminate"):
            raise Die("abort", why="terminate")
        if n == "strlen":
            return [(st, self.strlen(st, args[0]))]
        if n in ("memcmp", "strcmp", "bcmp", "strncmp"):
            return [(st, self.memcmp(st, n, args))]
        if n == "memcpy" or n == "memmove":
            self.memcpy(st, args[0], args[1], self.const_of(st, args[2]))
            return [(st, args[0])]
        if n == "memset":
            self.memset(st, args[0], self.const_of(st, args[1]) & 255, self.const_of(st, args[2]))
            return [(st, args[0])]
        if n in ("memchr", "strchr"):
            return self.search(st, n, args)
        if n in CTYPE or n in ("toupper", "tolower"):
            return [(st, self.ctype(st, n, args[0]))]
        if n in ("__cxa_atexit", "__cxa_guard_release"):
            return [(st, 0)]
        if n == "__cxa_guard_acquire":
            return [(st, 1)]
        if n == "exit":
            raise Die("exit", code=self.resolve(st, args[0]))
        if n == "abort":
            raise Die("abort", why="abort")
        raise Unsupported("call to unmodelled function %s at %s" % (name, self.where()))

    def search(self, st, n, args):
        """memchr, strchr: the character may be unknown, what is searched is walked through"""
        B = self.B
        p = self.deref(st, args[0])
        c = self.bits(st, args[1], 32)[:8]
        lim = self.const_of(st, args[2]) if n == "memchr" else None
        out = []
        i = 0
        while st.pc != 0 and (lim is None or i < lim):
            q = Ptr(p.obj, p.off + i)
            v = self.load(st, q, self.I8)
            if v is UNDEF:
                self.undef_use(st, n)
                raise Die("undef")
            v = self.bits(st, v, 8)
            same = B.veq(v, c)
            x = B.AND(st.pc, same)
            if x != 0:
                s = st.fork()
                s.pc = x
                out.append((s, q))
                st.pc = B.AND(st.pc, B.NOT(same))
            if lim is None:
                end = B.AND(st.pc, B.veq(v, B.const(0, 8)))
                if end != 0:
                    s = st.fork()
                    s.pc = end
                    out.append((s, 0))
                    st.pc = B.AND(st.pc, B.NOT(B.veq(v, B.const(0, 8))))
            i += 1
        if st.pc != 0:
            out.append((st, 0))
        return out

    def ctype(self, st, n, v):
        B = self.B
        v = self.resolve(st, v)
        if v is UNDEF:
            self.undef_use(st, n)
            raise Die("undef")
        b = tuple(self.bits(st, v, 32))
        ok = 1
        for x in b[8:]:
            ok = B.AND(ok, B.NOT(x))
        neg = b[7]
        for x in b[8:]:
            neg = B.AND(neg, x)
        if B.AND(st.pc, B.NOT(B.OR(ok, neg))) != 0:
            st.event("oob", self.where(), "%s of a value that is no character" % n)
        rng = lambda lo, hi: B.AND(B.NOT(B.vult(b[:8], B.const(ord(lo), 8))), B.NOT(B.vult(B.const(ord(hi), 8), b[:8])))
        if n in CTYPE:
            r = 0
            for lo, hi in CTYPE[n]:
                r = B.OR(r, rng(lo, hi))
            return self.norm((B.AND(ok, r),) + (0,) * 31)
        r = B.AND(ok, rng("a", "z") if n == "toupper" else rng("A", "Z"))
        return self.norm(b[:5] + (B.XOR(b[5], r),) + b[6:])

    def cstring(self, st, p):
        p = self.deref(st, p)
        out = bytearray()
        off = self.const_of(st, p.off)
        while True:
            q, o = self._check(st, Ptr(p.obj, off), 1, False)
            c = self.const_of(st, self.load_raw(st, q, o, 1))
            if c == 0:
                return bytes(out)
            out.append(c)
            off += 1
            if len(out) > 4096:
                raise Unsupported("unterminated string")

    def strlen(self, st, p):
        p = self.deref(st, p)
        o = self.obj(st, p.obj)
        if o.kind == "tokstr":
            raise Unsupported("strlen of token text")
        return len(self.cstring(st, p))

    def memcmp(self, st, n, args):
        a, b = self.deref(st, args[0]), self.deref(st, args[1])
        ka, kb = self.obj(st, a.obj).kind, self.obj(st, b.obj).kind
        if "tokstr" in (ka, kb):
            return self.tokdom.memcmp(self, st, n, a, b, args[2] if len(args) > 2 else None)
        if n in ("strcmp",):
            x, y = self.cstring(st, a), self.cstring(st, b)
        elif n == "strncmp":
            c = self.const_of(st, args[2])
            x, y = self.cstring(st, a)[:c], self.cstring(st, b)[:c]
        else:
            c = self.const_of(st, args[2])
            x, y = [bytes(self.const_of(st, self.load(st, Ptr(p.obj, p.off + i), self.I8)) for i in range(c))
                    for p in (a, b)]
        return (0 if x == y else 1 if x > y else -1) & MASK[32]

    from ir import IntTy as _it
    I8 = _it(8)

    def intrinsic(self, st, n, args, ins):
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            self.memcpy(st, args[0], args[1], self.const_of(st, args[2]))
            return [(st, None)]
        if n.startswith("llvm.memset"):
            self.memset(st, args[0], self.const_of(st, args[1]) & 255, self.const_of(st, args[2]))
            return [(st, None)]
        if n.startswith(("llvm.lifetime.start", "llvm.lifetime.end")):
            p = args[1]
            if type(p) is Ptr and p.off == 0:
                o = self.wobj(st, p.obj)
                o.cells = {}
                o.default = "undef"
            return [(st, None)]
        if n.startswith(("llvm.lifetime.end", "llvm.assume", "llvm.donothing", "llvm.invariant",
                         "llvm.stacksave", "llvm.stackrestore", "llvm.va_", "llvm.experimental")):
            return [(st, 0)]
        if n.startswith(("llvm.expect", "llvm.threadlocal.address")):
            return [(st, args[0])]
        if n.startswith("llvm.is.constant"):
            return [(st, 0)]
        w = ins.ty.w if ins is not None else 64
        if n.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            pr = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[n.split(".")[1]]
            c = self.icmp(st, pr, args[0], args[1], w)
            return [(st, self.select(st, c, args[0], args[1], w))]
        if n.startswith("llvm.trap"):
            raise Die("abort", why="trap")
        if n.startswith("llvm.fabs"):
            b = self.bits(st, args[0], w)
            return [(st, self.norm(b[:-1] + (0,)))]
        if n.startswith("llvm.abs"):
            b = self.bits(st, args[0], w)
            neg = self.B.vsub((0,) * w, b)[0]
            return [(st, self.norm(self.B.vite(b[-1], neg, b)))]
        if n.startswith("llvm.is.fpclass"):
            return [(st, self.fpclass(st, args[0], args[1], 64 if n.endswith("f64") else 32))]
        raise Unsupported("intrinsic %s" % n)

    def fpclass(self, st, v, mask, w):
        B = self.B
        b = self.bits(st, v, w)
        m = 52 if w == 64 else 23
        man0 = self.none(b[:m])
        ex0 = self.none(b[m:w - 1])
        ex1 = self.none(tuple(B.NOT(i) for i in b[m:w - 1]))
        neg, q = b[-1], b[m - 1]
        nan = B.AND(ex1, B.NOT(man0))
        inf = B.AND(ex1, man0)
        zero = B.AND(ex0, man0)
        sub = B.AND(ex0, B.NOT(man0))
        norm = B.AND(B.NOT(ex0), B.NOT(ex1))
        pos = B.NOT(neg)
        cls = [B.AND(nan, B.NOT(q)), B.AND(nan, q), B.AND(inf, neg), B.AND(norm, neg), B.AND(sub, neg), B.AND(zero, neg),
               B.AND(zero, pos), B.AND(sub, pos), B.AND(norm, pos), B.AND(inf, pos)]
        r = 0
        for i, c in enumerate(cls):
            if mask >> i & 1:
                r = B.OR(r, c)
        return self.norm((r,))

    def select(self, st, c, a, b, w):
        if c is UNDEF:
            self.undef_use(st, "condition")
            return UNDEF
        c = self.resolve(st, c)
        if type(c) is int:
            return a if c else b
        if self.B.AND(st.pc, self.B.NOT(c[0])) == 0:
            return a
        if self.B.AND(st.pc, c[0]) == 0:
            return b
        if a is b or (type(a) is type(b) and a == b):
            return a
        a, b = self.resolve_lazy(st, a, c[0]), self.resolve_lazy(st, b, self.B.NOT(c[0]))
        if type(a) in (int, tuple) and type(b) in (int, tuple):
            if (type(a) is int and type(b) is int) or w:
                return self.norm(self.B.vite(c[0], self.bits(st, a, w), self.bits(st, b, w)))
        if type(a) is Ptr and b == 0:
            return Maybe(a, c[0])
        if type(b) is Ptr and a == 0:
            return Maybe(b, self.B.NOT(c[0]))
        raise NeedSplit(c)

    def resolve_lazy(self, st, v, cond):
        if type(v) is TokRaw:
            raise NeedSplit((cond,))
        return v

    def run(self, fn, args, st):
        if len(self.call_stack) > 400:
            raise Unsupported("recursion too deep in %s" % fn.name)
        self.fn_seen.add(fn.name)
        env = {}
        for (t, nm, at), a in zip(fn.params, args):
            if "byval" in at and type(a) is Ptr:
                pass
            env[nm] = a
        if fn.varargs:
            env["..."] = args[len(fn.params):]
        results = []
        work = [(st, env, fn.entry, None, 0, True)]
        visits = {}
        heads = self.heads(fn)
        frame = [fn, None]
        self.call_stack.append(frame)
        depth = len(self.call_stack)
        self.deferred[depth] = {}
        try:
            while True:
                if not work:
                    d = self.deferred[depth]
                    if d:
                        k = next(iter(d)) if self.defer_order is None else min(d, key=self.defer_order)
                        st, env, bname = d.pop(k)
                        work.append((st, env, bname, None, 0, False))
                        continue
                    break
                st, env, bname, prev, idx, fresh = work.pop()
                blk = fn.blocks[bname]
                if fresh:
                    if blk.phis:
                        nv = [(p.res, self.val(env, p.a[prev])) for p in blk.phis]
                        for r, v in nv:
                            env[r] = v
                    if bname in heads:
                        if self.loop_hook is not None:
                            if self.loop_hook(self, fn, bname, st, env, depth):
                                continue
                        n = visits.get(bname, 0) + 1
                        visits[bname] = n
                        if n > 10 * self.max_visits:
                            raise NoProgress(fn.name, bname, self.where())
                        n = env["#" + bname] = env.get("#" + bname, 0) + 1
                        if n > self.max_visits:
                            frame[1] = blk.body[0] if blk.body else frame[1]
                            raise NoProgress(fn.name, bname, self.where())
                body = blk.body
                nb = len(body)
                while idx < nb:
                    ins = body[idx]
                    frame[1] = ins
                    self.nsteps += 1
                    op = ins.op
                    try:
                        if op == "call":
                            outs = self.do_call(st, env, ins)
                            if not outs:
                                break
                            normal = ins.a[2]
                            for s2, r in outs[1:]:
                                e2 = dict(env)
                                if ins.res:
                                    e2[ins.res] = r
                                if normal is not None:
                                    work.append((s2, e2, normal, bname, 0, True))
                                else:
                                    work.append((s2, e2, bname, prev, idx + 1, False))
                            st, r = outs[0]
                            if ins.res:
                                env[ins.res] = r
                            if normal is not None:
                                work.append((st, env, normal, bname, 0, True))
                                break
                            idx += 1
                            continue
                        if op == "jmp":
                            work.append((st, env, ins.a, bname, 0, True))
                            break
                        if op == "br":
                            self.do_branch(fn, st, env, ins, bname, work)
                            break
                        if op == "ret":
                            for oid in env.get("$a", ()):
                                st.mem.pop(oid, None)
                            results.append((st, None if ins.a is None else self.val(env, ins.a)))
                            break
                        if op == "switch":
                            self.do_switch(fn, st, env, ins, bname, work)
                            break
                        if op == "unreachable":
                            self.terminals.append((st, "unreachable", {"where": self.where()}))
                            break
                        self.simple(st, env, ins)
                        idx += 1
                    except NeedSplit as e:
                        vals = self.B.values(e.bits, st.pc, self.split_limit)
                        if vals is None:
                            raise Unsupported("unbounded split on %s at %s" % (
                                [sorted(self.B.support_syms(b)) for b in e.bits if b > 1][:1], self.where()))
                        for v, c in vals:
                            s2 = st.fork()
                            s2.pc = c
                            s2.conc[e.bits] = v
                            work.append((s2, dict(env), bname, prev, idx, False))
                        break
                    except Die as e:
                        kw = dict(e.kw)
                        kw.setdefault("where", self.where())
                        self.terminals.append((st, e.kind, kw))
                        break
        finally:
            self.call_stack.pop()
        if self.merge_returns and len(results) > 1:
            results = self.merge(results)
        return results

    def merge(self, results):
        """join the partitions that return with the same value and the same memory"""
        out = []
        groups = {}
        for st, r in results:
            try:
                k = (r if not isinstance(r, Agg) else id(r), st.x and tuple(sorted(st.x.items(), key=str)))
                g = groups.setdefault(k, [])
            except TypeError:
                out.append((st, r))
                continue
            for so in g:
                diff = self.mem_diff(so, st)
                if diff is not None:
                    for oid, off, sz in diff:
                        self.wobj(so, oid).cells[off] = (sz, self.B.bits("join:%d:%d" % (oid, off), 8 * sz))
                    so.pc = self.B.OR(so.pc, st.pc)
                    for c in list(so.conc):
                        if st.conc.get(c) != so.conc[c]:
                            del so.conc[c]
                    if so.tokens != st.tokens:
                        so.tokens = so.tokens & st.tokens
                    so.nobj = max(so.nobj, st.nobj)
                    self.log.extend(e for e in st.events() if e[0] not in ("token", "fail"))
                    break
            else:
                g.append(st)
                out.append((st, r))
        return out

    def mem_diff(self, a, b):
        """integer cells of local variables in which two memories differ, or None if they
        differ in anything else"""
        if a.mem.keys() != b.mem.keys():
            return None
        diff = []
        for oid, o in a.mem.items():
            p = b.mem[oid]
            if o is p:
                continue
            if o.freed != p.freed or o.default != p.default:
                return None
            if o.cells == p.cells:
                continue
            if o.kind != "stack" or o.cells.keys() != p.cells.keys():
                return None
            for off, c in o.cells.items():
                d = p.cells[off]
                if c == d:
                    continue
                if c[0] != d[0] or c[0] > 8 or not (self.loose(c[1]) and self.loose(d[1])):
                    return None
                diff.append((oid, off, c[0]))
        return diff if len(diff) <= 2 else None

    def loose(self, v):
        return type(v) is int or type(v) is tuple and str(self.symname(v)).startswith("join:")

    def simple(self, st, env, ins):
        op = ins.op
        if op == "load":
            env[ins.res] = self.load(st, self.val(env, ins.a), ins.ty)
        elif op == "store":
            v, p = ins.a
            self.store(st, self.val(env, p), self.val(env, v), ins.ty)
        elif op == "gep":
            env[ins.res] = self.gep(st, env, ins)
        elif op == "alloca":
            n = self.const_of(st, self.val(env, ins.a))
            nm = ins.res
            p = env[ins.res] = self.new_obj(st, self.mod.sizeof(ins.ty) * n, "stack", name=nm)
            env["$a"] = env.get("$a", ()) + (p.obj,)
        elif op == "icmp":
            pred, a, b = ins.a
            t = ins.ty
            env[ins.res] = self.icmp(st, pred, self.val(env, a), self.val(env, b), t.w)
        elif op in BINOPS:
            a, b = ins.a
            a, b = self.val(env, a), self.val(env, b)
            if type(a) is LazyNZ and type(b) is int and (op == "xor" and b == 1 or op == "and" and b & 1):
                env[ins.res] = LazyNZ(a.b, not a.neg) if op == "xor" else a
            else:
                env[ins.res] = self.binop(st, op, a, b, ins.ty.w)
        elif op == "zext":
            v = self.val(env, ins.a[1])
            if type(v) is not LazyNZ:
                v = self.resolve(st, v)
            if type(v) is tuple:
                v = v + (0,) * (ins.ty.w - len(v))
            env[ins.res] = v
        elif op == "sext":
            v = self.resolve(st, self.val(env, ins.a[1]))
            fw = ins.a[0].w
            if type(v) is int:
                v = sgn(v, fw) & MASK[ins.ty.w]
            elif type(v) is tuple:
                v = self.bits(st, v, fw)
                v = v + (v[-1],) * (ins.ty.w - fw)
            env[ins.res] = v
        elif op == "trunc":
            v = self.val(env, ins.a[1])
            if type(v) is TokRaw:
                v = self.resolve(st, v)
            if type(v) is int:
                v &= MASK[ins.ty.w]
            elif type(v) is tuple:
                v = self.norm(v[:ins.ty.w])
            elif type(v) in (Ptr, Maybe):
                raise Unsupported("truncated pointer")
            env[ins.res] = v
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
            env[ins.res] = self.val(env, ins.a if op == "freeze" else ins.a[1])
        elif op == "select":
            c, a, b = ins.a
            env[ins.res] = self.select(st, self.val(env, c), self.val(env, a), self.val(env, b), ins.ty.w)
        elif op == "extractvalue":
            v = self.val(env, ins.a[0])
            for i in ins.a[1]:
                if v is UNDEF:
                    break
                v = v.v[i]
            env[ins.res] = v
        elif op == "insertvalue":
            v, t2, e, idx = ins.a
            v = self.val(env, v)
            env[ins.res] = self._insert(v, self.val(env, e), idx)
        elif op in ("sitofp", "uitofp", "fptrunc", "fpext", "fptosi", "fptoui"):
            env[ins.res] = self.fconv(st, op, self.val(env, ins.a[1]), ins.a[0].w, ins.ty.w)
        elif op == "fcmp":
            pred, a, b = ins.a
            if pred in ("true", "false"):
                env[ins.res] = int(pred == "true")
            else:
                env[ins.res] = self.fcmp(st, pred, self.val(env, a), self.val(env, b), ins.ty.w)
        elif op == "fneg":
            b = self.bits(st, self.val(env, ins.a), ins.ty.w)
            env[ins.res] = UNDEF if b is None else self.norm(b[:-1] + (self.B.NOT(b[-1]),))
        elif op in ("landingpad", "resume"):
            raise Die("unwind")
        else:
            raise Unsupported("instruction %s" % ins)

    def _insert(self, v, e, idx):
        v = Agg(list(v.v))
        if len(idx) == 1:
            v.v[idx[0]] = e
        else:
            v.v[idx[0]] = self._insert(v.v[idx[0]], e, idx[1:])
        return v

    def gep(self, st, env, ins):
        sty, ops = ins.a
        base = self.resolve(st, self.val(env, ops[0][1]))
        idx = []
        sym = None
        mod = self.mod
        off = 0
        t = sty
        first = True
        for ty, o in ops[1:]:
            v = self.val(env, o)
            if type(v) is int:
                v = sgn(v, ty.w)
            if first:
                s = mod.sizeof(sty)
                first = False
            elif t.k == "struct":
                off += mod.field_off(t, v)
                t = t.elems[v]
                continue
            else:
                t = t.elems[0]
                s = mod.sizeof(t)
            if type(v) is int:
                off += v * s
            else:
                v = self.resolve(st, v)
                if type(base) is Ptr and self.text_off(st, base, v, s):
                    return self.textdom.gep(self, st, base, v)
                if self.bufs and type(base) is Ptr and base.obj in self.bufs and type(v) is tuple and s == 1 and len(ops) == 2:
                    b = self.bits(st, v, ty.w)
                    b = b + (b[-1],) * (64 - ty.w)
                    o = self.B.const(base.off & MASK[64], 64) if type(base.off) is int else self.bits(st, base.off, 64)
                    return Ptr(base.obj, self.norm(self.B.vadd(o, b)[0]))
                c = self.const_of(st, v)
                off += sgn(c, ty.w) * s
        if type(base) is Ptr:
            if type(base.off) is int:
                return Ptr(base.obj, base.off + off)
            return Ptr(base.obj, self.binop(st, "add", base.off, off & MASK[64], 64)) if off else base
        if type(base) is Maybe:
            if off == 0:
                return base
            return Maybe(Ptr(base.p.obj, base.p.off + off), base.c)
        if base is UNDEF:
            return UNDEF
        if base == 0:
            return off & MASK[64] if off else 0
        raise Unsupported("gep on %r at %s" % (base, self.where()))

    def text_off(self, st, base, v, s):
        return False

    def do_branch(self, fn, st, env, ins, bname, work):
        v, a, b = ins.a
        c = self.val(env, v)
        if type(c) is LazyNZ:
            # assertion that two bit sets are disjoint: one obligation per bit
            bad, good = (b, a) if c.neg else (a, b)
            if self.is_assert(fn, bad):
                conds = tuple(x for x in (self.B.AND(st.pc, y) for y in c.b) if x != 0)
                if conds:
                    st.event("assert", self.mod.loc(ins.dbg), conds, self.where())
                work.append((st, env, good, bname, 0, True))
                return
        c = self.resolve(st, c)
        bs = self.branch_seen.setdefault((fn.name, id(ins)), [0, 0, ins])
        if type(c) is int:
            bs[0 if c else 1] += 1
            work.append((st, env, a if c else b, bname, 0, True))
            return
        if c is UNDEF:
            self.undef_use(st, "branch condition")
            s2 = st.fork()
            work.append((s2, dict(env), b, bname, 0, True))
            work.append((st, env, a, bname, 0, True))
            return
        cb = c[0]
        B = self.B
        if self.undef_bits and any(x.startswith("undef") for x in B.support_syms(cb)):
            self.undef_use(st, "branch condition")
        pt, pf = B.AND(st.pc, cb), B.AND(st.pc, B.NOT(cb))
        for cond, tgt, other, po in ((pt, a, b, pf), (pf, b, a, pt)):
            if self.is_assert(fn, tgt):
                if cond != 0:
                    st.event("assert", self.mod.loc(ins.dbg), (cond,), self.where())
                if po == 0:
                    self.terminals.append((st, "abort", {"where": self.where(), "why": "assertion"}))
                    return
                work.append((st, env, other, bname, 0, True))
                return
        if pt != 0 and pf != 0:
            bs[0] += 1
            bs[1] += 1
            s2 = st.fork()
            s2.pc = pf
            work.append((s2, dict(env), b, bname, 0, True))
            st.pc = pt
            work.append((st, env, a, bname, 0, True))
        elif pt != 0:
            bs[0] += 1
            work.append((st, env, a, bname, 0, True))
        elif pf != 0:
            bs[1] += 1
            work.append((st, env, b, bname, 0, True))

    def do_switch(self, fn, st, env, ins, bname, work):
        v, d, cases = ins.a
        x = self.resolve(st, self.val(env, v))
        if type(x) is int:
            for cv, tgt in cases:
                if cv == x:
                    work.append((st, env, tgt, bname, 0, True))
                    return
            work.append((st, env, d, bname, 0, True))
            return
        if x is UNDEF:
            self.undef_use(st, "switch value")
            raise Die("undef")
        B = self.B
        xb = self.bits(st, x, ins.ty.w)
        rest = st.pc
        # group by target
        tg = {}
        for cv, tgt in cases:
            e = B.veq(xb, B.const(cv, ins.ty.w))
            c = B.AND(rest, e)
            rest = B.AND(rest, B.NOT(e))
            if c != 0:
                tg[tgt] = B.OR(tg.get(tgt, 0), c)
        if rest != 0:
            if self.is_assert(fn, d):
                st.event("assert", self.mod.loc(ins.dbg), (rest,), self.where())
            else:
                tg[d] = B.OR(tg.get(d, 0), rest)
        for tgt, c in tg.items():
            s2 = st.fork()
            s2.pc = c
            work.append((s2, dict(env), tgt, bname, 0, True))

    def do_call(self, st, env, ins):
        callee, args, normal, unwind = ins.a
        av = [self.val(env, a) for t, a in args]
        if callee[0] == "g":
            name = self.mod.aliases.get(callee[1], callee[1])
            return self.call(st, name, av, ins)
        f = self.resolve(st, self.val(env, callee))
        if type(f) is Maybe:
            f = self.deref(st, f)
        if f == 0:
            st.event("nullderef", self.where(), "call through null function pointer")
            raise Die("fault", why="null call")
        if type(f) is not Ptr or not isinstance(f.obj, str):
            raise Unsupported("indirect call through %r at %s" % (f, self.where()))
        if self.indirect_hook is not None:
            r = self.indirect_hook(self, st, f.obj, av, ins)
            if r is not NotImplemented:
                return r
        return self.call(st, f.obj, av, ins)


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}


def locals_of(i):
    """names of the SSA variables an instruction reads"""
    out = []

    def walk(x):
        if type(x) is tuple:
            if len(x) == 2 and x[0] == "l" and type(x[1]) is str:
                out.append(x[1])
            else:
                for y in x:
                    walk(y)
        elif type(x) is list:
            for y in x:
                walk(y)

    walk(i.a)
    return out


def succs(b):
    t = b.insns[-1]
    if t.op == "jmp":
        return [t.a]
    if t.op == "br":
        return [t.a[1], t.a[2]]
    if t.op == "switch":
        return [t.a[1]] + [x[1] for x in t.a[2]]
    if t.op == "call" and t.a[2] is not None:
        return [t.a[2]]
    return []


def int_to_f32(v):
    """round-to-nearest-even conversion of an integer to single precision bits"""
    s = 1 if v < 0 else 0
    m = abs(v)
    if m == 0:
        return 0
    e = m.bit_length() - 1
    if e > 23:
        sh = e - 23
        q, r = m >> sh, m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        if q >> 24:
            q >>= 1
            e += 1
        frac = q & 0x7fffff
    else:
        frac = (m << (23 - e)) & 0x7fffff
    return (s << 31) | ((e + 127) << 23) | frac
