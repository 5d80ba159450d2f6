"""Comparison of the instruction set of the tree with the reference, by meaning.

Operands are compared as functions (tokens read, acceptance, word and reuse flags after),
not by name; where the operand boundaries of a form differ, the differing stretch is
composed on both sides and compared as one function.
"""
import difflib

import golden
from isa import Const
from specs import Specs


class RefOp:
    """an operand of the reference; same shape as OpSum"""
    def __init__(self, F, name, key):
        self.name = name
        self.key = key
        self.groups = [F.group(*g) for g in key]
        self.asserts = []


class Ref:
    def __init__(self, isa):
        self.isa, self.F = isa, isa.F
        raw = golden.load_raw()
        ld = golden.Loader(isa.nx, raw["nodes"], raw["texts"])
        S = Specs(self.F)
        self.ops = {}
        for nm, o in raw["operands"].items():
            key = S.get(o) if isinstance(o, str) else golden.load_op(ld, self.F, o)
            self.ops[nm] = RefOp(self.F, nm, key)
        self.forms = {}
        for m, fs in raw["mnemonics"].items():
            self.forms[m] = [RefForm(self, f) for f in fs]


class RefForm:
    def __init__(self, ref, f):
        self.const = int(f["fixed"], 16)
        self.nopred = f["unpredicated"]
        self.ops = [Const(int(o["fixed"], 16)) if isinstance(o, dict) else ref.ops[o] for o in f["operands"]]
        self.keys = [okey(o) for o in self.ops]


def okey(o):
    return ("const", o.bits) if isinstance(o, Const) else o.key


class Diff:
    __slots__ = ("props", "where", "text")


class Compare:
    def __init__(self, isa, guarded=1):
        self.isa, self.F, self.B, self.D = isa, isa.F, isa.B, isa.D
        self.ref = Ref(isa)
        self.diffs = []
        self.count = {"forms": 0, "operands": 0, "operands equal by canonical form": 0, "stretches composed": 0}
        self._seg = {}
        self.extra_mnemonics = []
        self.run(guarded)

    def report(self, props, where, text):
        d = Diff()
        d.props, d.where, d.text = set(props.split()) if isinstance(props, str) else set(props), where, text
        self.diffs.append(d)

    # -------------------------------------------------------------- mnemonics
    def run(self, guarded):
        isa = self.isa
        cur = {m: fs for (m, g), fs in isa.mnem.items() if g == guarded}
        for m in sorted(cur):
            if m not in self.ref.forms:
                self.extra_mnemonics.append(m)
        for m in sorted(self.ref.forms):
            if m not in cur:
                self.report("C03 C04", "table", "%s is not assembled any more" % m)
                continue
            self.mnemonic(m, cur[m], self.ref.forms[m])

    def sums(self, f):
        return [o if isinstance(o, Const) else self.F.summary(o) for o in f.ops]

    def mnemonic(self, m, cs, rs):
        cs = [(c, self.sums(c)) for c in cs]
        used = [None] * len(rs)
        left = list(range(len(cs)))
        exact = {}
        # equal forms, in order
        sigc = [(c.const, tuple(okey(o) for o in ss)) for c, ss in cs]
        sigr = [(r.const, tuple(r.keys)) for r in rs]
        for j, sr in enumerate(sigr):
            for i in left:
                if sigc[i] == sr:
                    used[j] = i
                    left.remove(i)
                    break
        # the rest: by meaning, nearest position first
        for j in range(len(rs)):
            if used[j] is not None:
                continue
            for i in sorted(left, key=lambda i: abs(i - j)):
                if self.equal(cs[i], rs[j]):
                    used[j] = i
                    left.remove(i)
                    break
        # what is left differs: pair by likeness and describe
        for j in range(len(rs)):
            if used[j] is not None or not left:
                continue
            i = max(left, key=lambda i: self.likeness(cs[i], rs[j], i, j))
            if self.likeness(cs[i], rs[j], i, j)[0] <= 0:
                continue
            used[j] = i
            left.remove(i)
            self.describe(m, j, cs[i], rs[j])
        for j in range(len(rs)):
            if used[j] is None:
                self.report("C03 C04", "table", "%s: form %d (%s) is missing" % (m, j + 1, self.shape(rs[j].ops)))
        for i in left:
            self.report("C03 C04", cs[i][0].where, "%s: a form that does not exist in the architecture (%s)" % (m, self.shape(cs[i][1])))
        # order matters only between forms that can accept the same text
        ui = [u for u in used if u is not None]
        if ui != sorted(ui):
            for a in range(len(rs)):
                for b in range(a + 1, len(rs)):
                    if used[a] is not None and used[b] is not None and used[a] > used[b]:
                        if self.meet(rs[a].ops, rs[b].ops):
                            self.report("C03 C09", "table", "%s: forms %d and %d can accept the same text and their order changed" % (m, a + 1, b + 1))
        for j, i in enumerate(used):
            if i is None:
                continue
            self.count["forms"] += 1
            c, r = cs[i][0], rs[j]
            if c.guarded and c.nopred != r.nopred:
                self.report("C05", c.where, "%s: %s" % (m, "a guard is accepted although the instruction cannot be predicated"
                            if r.nopred else "a guard is refused although the instruction can be predicated"))

    def shape(self, ops):
        return ", ".join("fixed" if isinstance(o, Const) else o.name.replace("@", "") for o in ops)[:200]

    def likeness(self, c, r, i, j):
        f, ss = c
        a, b = [okey(o) for o in ss], r.keys
        sm = difflib.SequenceMatcher(None, [hash(x) for x in a], [hash(x) for x in b], autojunk=False)
        same = 2 * sum(x.size for x in sm.get_matching_blocks())
        return (same / max(1, len(a) + len(b)) + (0.5 if f.const == r.const else 0) + 0.01, -abs(i - j))

    # ------------------------------------------------------------------ forms
    def segments(self, ss, r):
        a, b = [okey(o) for o in ss], r.keys
        if a == b:
            return []
        sm = difflib.SequenceMatcher(None, a, b, autojunk=False)
        return [(i1, i2, j1, j2) for tag, i1, i2, j1, j2 in sm.get_opcodes() if tag != "equal"]

    def equal(self, c, r):
        f, ss = c
        if f.const != r.const:
            return False
        segs = self.segments(ss, r)
        if all(self.seg_equal(ss[i1:i2], r.ops[j1:j2]) for i1, i2, j1, j2 in segs):
            return True
        if len(segs) > 1:
            i1, j1 = segs[0][0], segs[0][2]
            i2, j2 = segs[-1][1], segs[-1][3]
            if i2 - i1 <= 5 and j2 - j1 <= 5:
                return self.seg_equal(ss[i1:i2], r.ops[j1:j2])
        return False

    def seg_equal(self, xs, ys):
        k = (tuple(map(okey, xs)), tuple(map(okey, ys)))
        e = self._seg.get(k)
        if e is None:
            if max(len(xs), len(ys)) > 5:
                e = False
            else:
                self.count["stretches composed"] += 1
                e = self.compose(xs) == self.compose(ys)
            self._seg[k] = e
        return e

    def compose(self, ops):
        F, B = self.F, self.B
        st = {0: (self.D.valid(0), F.opbits, F.opr)}
        for o in ops:
            if isinstance(o, Const):
                st = {p: (pc, tuple(B.OR(x, o.bits >> i & 1) for i, x in enumerate(v)), r) for p, (pc, v, r) in st.items()}
            else:
                st = F.step(st, o)
        return F.normal(st)

    def meet(self, xs, ys, limit=4000):
        """can two forms accept the same token sequence?  (bits of the word are ignored)"""
        F, B, D = self.F, self.B, self.D
        isop = lambda lv: lv in F.oplev or lv in F.oprlev
        budget = [limit]

        def groups(o):
            if isinstance(o, Const):
                return [(0, 1)]
            return [(g.n, B.exists(g.pc, isop, {})) for g in o.groups]

        def go(i, pi, j, pj, cond):
            budget[0] -= 1
            if budget[0] < 0:
                return True
            if i == len(xs) and j == len(ys):
                return pi == pj
            if j == len(ys) or i < len(xs) and pi <= pj:
                for n, pc in groups(xs[i]):
                    c = B.AND(cond, F.shifted(pc, pi))
                    if c != 0 and go(i + 1, pi + n, j, pj, c):
                        return True
                return False
            for n, pc in groups(ys[j]):
                c = B.AND(cond, F.shifted(pc, pj))
                if c != 0 and go(i, pi, j + 1, pj + n, c):
                    return True
            return False

        return go(0, 0, 0, 0, 1)

    # ------------------------------------------------------------ differences
    def describe(self, m, j, c, r):
        f, ss = c
        head = "%s form %d" % (m, j + 1)
        if f.const != r.const:
            self.report("C03", f.where, "%s: the fixed bits are %016x instead of %016x" % (head, f.const, r.const))
        for i1, i2, j1, j2 in self.segments(ss, r):
            xs, ys = ss[i1:i2], r.ops[j1:j2]
            if self.seg_equal(xs, ys):
                continue
            what = "operand %s instead of %s" % (self.shape(xs) or "nothing", self.shape(ys) or "nothing")
            if len(xs) > 2 or len(ys) > 2:
                self.report("C03", f.where, "%s: %s" % (head, what))
                if len(xs) > 5 or len(ys) > 5:
                    continue
            props, ex = self.difference(self.compose(xs), self.compose(ys))
            syms = self.symbols(ys)
            if any("f32" in nm or nm.startswith("half(") for nm in syms):
                props.add("C20")
            if not props - {"C01"} and any(nm.endswith(".str") for nm in syms):
                props.add("C04")    # what an omitted modifier gives
            self.report(props | {"C03"}, f.where, "%s: %s; %s" % (head, what, ex))

    def difference(self, a, b):
        B, D, F = self.B, self.D, self.F
        A = {n: (pc, v, r) for n, pc, v, r in a}
        R = {n: (pc, v, r) for n, pc, v, r in b}
        props = set()
        ex = None
        z = (0, (0,) * 64, (0,) * 3)
        for n in sorted(set(A) | set(R)):
            pa, va, ra = A.get(n, z)
            pb, vb, rb = R.get(n, z)
            care = 1
            for k in range(n + 1):
                care = B.AND(care, D.valid(k))
            both = B.AND(pa, pb)
            for f, t in ((B.AND(pa, B.NOT(pb)), "accepted but should not be"), (B.AND(pb, B.NOT(pa)), "refused but should be accepted")):
                if f != 0:
                    props |= self.blame(B.simplify(f, care))
                    if t[0] == "a":
                        props.add("C10")
                        for k in range(n + 1):
                            sel = lambda lv, k=k: B.atom_of(lv)[0] != "t%d.kind" % k
                            if B.AND(B.exists(f, sel, {}), B.NOT(B.exists(pb, sel, {}))) != 0:
                                props.add("C13")
                    if any(B.AND(f, D.is_kind(k, "identifier")) != 0 for k in range(n)):
                        props.add("C04")
                    ex = ex or "%s: %s" % (t, self.isa.describe(f))
            for i in range(64):
                f = B.AND(both, B.XOR(va[i], vb[i]))
                if f != 0:
                    props |= self.blame(B.simplify(f, both))
                    for h in (va[i], vb[i]):
                        props |= self.blame(B.simplify(h, both))
                    ex = ex or "bit %d of the word differs for %s" % (i, self.isa.describe(f))
            for i in range(max(len(ra), len(rb))):
                f = B.AND(both, B.XOR(ra[i] if i < len(ra) else 0, rb[i] if i < len(rb) else 0))
                if f != 0:
                    props.add("C06")
                    ex = ex or "reuse flag %d differs for %s" % (i, self.isa.describe(f))
        return props, ex or "the tokens read differ"

    def symbols(self, ops):
        out = set()
        for o in ops:
            if not isinstance(o, Const):
                for g in o.groups:
                    for f in (g.pc,) + tuple(g.v):
                        out |= self.B.support_syms(f)
        return out

    def blame(self, f):
        out = set()
        for nm in self.B.support_syms(f):
            if "label(" in nm or nm == "ctx.pc":
                out |= {"C08", "C02"}
            if "f32" in nm or nm.startswith("half("):
                out.add("C20")
            elif ".imm" in nm or nm.endswith(".reg"):
                out.add("C02")
            elif nm.endswith(".str"):
                out.add("C04")
            elif ".p" in nm and nm.startswith("t"):
                out.add("C05")
            elif nm.startswith("op.reuse"):
                out.add("C06")
            elif nm == "op":
                out.add("C01")
        return out
