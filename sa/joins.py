"""Joining states that meet at a loop head or at a return, without losing anything.

Two states with the same shape (same objects, same pointers) and disjoint conditions
become one: every value becomes "this one under the first condition, that one under the
second", which is exact in the domain of Boolean functions.
"""
from interp import Agg, Maybe, NoProgress, Ptr, TokRaw, UNDEF


def num(v):
    return type(v) is int or type(v) is tuple


def shape(I, st):
    """(hashable description of all that cannot be joined, cells that can)"""
    mem = []
    lm = []
    for oid in st.mem:
        o = st.mem[oid]
        if o is I.glob.get(oid) or o.kind == "map" or o.freed:
            continue
        for off in sorted(o.cells):
            c = o.cells[off]
            if num(c[1]):
                lm.append((oid, off))
                mem.append((oid, off, c[0]))
            else:
                mem.append((oid, off, c))
        mem.append((oid, o.freed, o.default))
    return (tuple(mem), st.x and tuple(sorted(st.x.items(), key=str))), lm


def absorb(I, so, st, lm):
    """so becomes the join of so and st; -> the condition of the former so"""
    B = I.B
    so_pc = so.pc
    so.pc = B.OR(so.pc, st.pc)
    # anything that tells the two apart will do
    first = B.simplify(so_pc, so.pc)
    for k in list(so.conc):
        if st.conc.get(k) != so.conc[k]:
            del so.conc[k]
    so.tokens = so.tokens & st.tokens
    so.nobj = max(so.nobj, st.nobj)
    for oid in st.mem:
        if st.mem[oid].kind == "map" and st.mem[oid] is not so.mem.get(oid):
            # entries that are not there are absent
            a, b = so.mem[oid].cells, st.mem[oid].cells
            c = I.wobj(so, oid).cells
            for off in set(a) | set(b):
                x, y = a.get(off), b.get(off)
                if x != y:
                    n = (x or y)[0]
                    c[off] = (n, I.norm(B.vite(first, I.bits(so, x[1] if x else 0, 8 * n), I.bits(st, y[1] if y else 0, 8 * n))))
    have = set(so.events())
    for e in st.events():
        if e not in have:
            so.event(*e)
    for oid, off in lm:
        a, b = so.mem[oid].cells[off], st.mem[oid].cells[off]
        if a != b:
            w = 8 * a[0]
            I.wobj(so, oid).cells[off] = (a[0], I.norm(B.vite(first, I.bits(so, a[1], w), I.bits(st, b[1], w))))
    return first


class ExactReturns:
    """join the states a function returns with"""

    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.saved = self.I.merge, self.I.merge_returns
        self.I.merge, self.I.merge_returns = self.merge, True
        return self

    def __exit__(self, *a):
        self.I.merge, self.I.merge_returns = self.saved

    def merge(self, results):
        I = self.I
        out = []
        groups = {}
        for st, r in results:
            try:
                sh, lm = shape(I, st)
                if num(r):
                    rk = ("num", len(r) if type(r) is tuple else 0)
                elif type(r) is Agg:
                    rk = ("agg",) + tuple("num" if num(x) else x for x in r.v)
                else:
                    rk = r
                k = (sh, rk if rk is None or rk[:1] != ("num",) else "num")
                old = groups.get(k)
            except TypeError:
                out.append((st, r))
                continue
            if old is None or I.B.AND(out[old][0].pc, st.pc) != 0:
                groups[k] = len(out)
                out.append((st, r))
                continue
            so, ro = out[old]
            first = absorb(I, so, st, lm)
            out[old] = (so, self.value(first, so, ro, st, r))
        return out

    def value(self, first, so, a, st, b):
        I = self.I
        if type(a) is Agg:
            return Agg([self.value(first, so, x, st, y) for x, y in zip(a.v, b.v)])
        if a == b or not num(a):
            return a
        w = max(len(v) if type(v) is tuple else max(1, v.bit_length()) for v in (a, b))
        if w > 1 and type(a) is int and type(b) is int:
            w = 8 if w <= 8 else 32 if w <= 32 else 64
        return I.norm(I.B.vite(first, I.bits(so, a, w), I.bits(st, b, w)))


class ExactJoin:
    def __init__(self, I, pos, only=None):
        """pos(st): ordering of states (those that read less text first)"""
        self.I, self.B, self.pos, self.only = I, I.B, pos, only
        self.joined = 0
        self.limit = 3000

    def __enter__(self):
        self.saved = (self.I.loop_hook, self.I.defer_order)
        self.I.loop_hook = self.hook
        self.I.defer_order = lambda k: k[0]
        return self

    def __exit__(self, *a):
        self.I.loop_hook, self.I.defer_order = self.saved

    @staticmethod
    def num(v):
        return type(v) is int or type(v) is tuple

    def hook(self, I, fn, bname, st, env, depth):
        if self.only is not None and not self.only(fn):
            return False
        live = I.live_in(fn)[bname]
        keep = {k: v for k, v in env.items() if k in live or k in ("$a", "...")}
        rounds = {k: v for k, v in env.items() if k[:2] == "@@"}
        p = self.pos(st)
        key = [bname]
        loose = []
        for k in sorted(keep):
            v = keep[k]
            if self.num(v) and k != "...":
                loose.append(k)
                key.append(k)
            else:
                key.append((k, tuple(v) if type(v) is list else v))
        mem, lm = shape(I, st)
        try:
            key = (p, tuple(key), mem)
            hash(key)
        except TypeError:
            return False
        d = I.deferred[depth]
        # how often this path came here without reading on
        rk = "@@" + bname
        was = env.get(rk)
        n = was[1] + 1 if was is not None and was[0] == p else 1
        keep.update(rounds)
        keep[rk] = (p, n)
        if n > self.limit:
            raise NoProgress(fn.name, bname, I.where())
        old = d.get(key)
        if old is None:
            d[key] = (st, keep, bname)
            return True
        so, eo, _ = old
        eo[rk] = (p, max(n, eo[rk][1]))
        if self.B.AND(so.pc, st.pc) != 0:
            env[rk] = (p, n)
            return False
        first = absorb(I, so, st, lm)
        for k in loose:
            a, b = eo[k], keep[k]
            if a != b:
                w = self.width(fn, bname, k, a, b)
                eo[k] = I.norm(self.B.vite(first, I.bits(so, a, w), I.bits(st, b, w)))
        self.joined += 1
        return True

    def width(self, fn, bname, k, a, b):
        for blk in fn.blocks.values():
            for p in blk.phis:
                if p.res == k:
                    return getattr(p.ty, "w", 64)
        for v in (a, b):
            if type(v) is tuple:
                return len(v)
        return 64
