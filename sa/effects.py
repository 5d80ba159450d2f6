"""Effects over the call graph: what assembling can leave behind or depend on besides the text (C14).

Every function that nxas::assemble can reach (calls, and functions whose address is taken in one of them or in a table
one of them uses) is looked at: no store and no call may change a variable with static storage, unless that is the
one-time initialisation of a local static with values that do not depend on the call; no callee may deliver something
from outside; no variable may be read that other code changes.
"""
import re

from ir import unq
from nxmodel import A_ASSEMBLE_PREFIX
from interp import Unsupported

# library functions: parameters they write through (others: none)
EXTERN_WRITES = {
    "strtoll": (1,), "strtol": (1,), "strtoull": (1,), "strtoul": (1,), "strtof": (1,), "strtod": (1,), "strtold": (1,),
    "memcpy": (0,), "memmove": (0,), "memset": (0,), "strcpy": (0,), "strncpy": (0,), "snprintf": (0,), "vsnprintf": (0,),
    "sprintf": (0,), "free": (), "realloc": (0,), "fgets": (0,), "fread": (0,),
}
OUTSIDE = re.compile(r"""^(getenv|secure_getenv|setenv|putenv|time|clock|clock_gettime|gettimeofday|times|rand|srand|rand_r|random|srandom|[a-z]rand48
    |getrandom|arc4random.*|getpid|getppid|gettid|getuid|geteuid|pthread_self|gethostname|getcwd|get_current_dir_name|isatty|sysconf
    |open|open64|openat|fopen|fopen64|freopen|read|pread|fread|fgets|fgetc|getc|getchar|getline|scanf|fscanf|stat|fstat|lstat|access|readlink|opendir|readdir
    |setlocale|uselocale|newlocale|dlopen|dlsym|nl_langinfo|localeconv|localtime|gmtime|strftime|mktime
    |_ZNSt13random_device.*|_ZNSt6chrono.*3nowEv|_ZNSt6locale.*|_ZNSt14basic_ifstream.*|_ZNSt13basic_filebuf.*|_ZNSt10filesystem.*
    |_ZNSt11this_thread.*|_ZNSi.*|_ZNSirs.*|_ZSt3cin|__rdtsc|llvm\.readcyclecounter|llvm\.x86\.rd.*)$""", re.X)


def walk(x):
    """names of globals and locals in an operand"""
    if isinstance(x, tuple):
        if len(x) > 1 and x[0] in ("g", "l") and isinstance(x[1], str):
            yield x[0], x[1]
            return
        for y in x:
            yield from walk(y)
    elif isinstance(x, list):
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from walk(y)


class Effects:
    def __init__(self, nx, r):
        self.nx, self.mod, self.I, self.r = nx, nx.mod, nx.I, r
        self.funcs = {n: self.mod.fn(n) for n in self.mod.functions if self.mod.fn(n) is not None}
        self.insns = {n: [j for b in f.blocks.values() for j in list(b.phis or ()) + b.insns] for n, f in self.funcs.items()}
        self.pidx = {n: {nm: k for k, (t, nm, at) in enumerate(f.params)} for n, f in self.funcs.items()}
        self.wparam = {n: set() for n in self.funcs}        # parameters written through
        self.rparam = {n: set() for n in self.funcs}        # parameters the result is derived from
        self.gwrites = {}                                   # function -> {(global, where)}
        self.defs = {n: {j.res: j for j in js if j.res} for n, js in self.insns.items()}
        self.roots_ = {}

    def where(self, n, j):
        try:
            return "%s in %s" % (self.I.loc(j), n)
        except Exception:
            return n

    # ---------------------------------------------------------- the program
    def canon(self, n):
        """the function an alias stands for"""
        if n in self.funcs or n in self.mod.globals:
            return n
        f = self.mod.fn(n)
        return f.name if f is not None and f.name in self.funcs else n

    def callee(self, j):
        return self.canon(j.a[0][1]) if j.a[0][0] == "g" else None

    def reach(self, starts):
        seen, todo, globs = set(), list(starts), set()
        while todo:
            n = self.canon(todo.pop())
            if n in seen:
                continue
            seen.add(n)
            if n in self.mod.globals:
                globs.add(n)
                g = self.mod.globals[n]
                if not g.external and g.init is not None:
                    todo += [nm for k, nm in walk(g.init) if k == "g"]
                continue
            for j in self.insns.get(n, ()):
                todo += [nm for k, nm in walk(j.a) if k == "g"]
        return {n for n in seen if n in self.funcs}, globs, {n for n in seen if n not in self.funcs and n not in self.mod.globals}

    def mutable(self, g):
        v = self.mod.globals.get(g)
        return v is not None and not v.const and not v.external and not unq(g).lstrip("@").startswith(("_ZGV", "llvm."))

    # -------------------------------------------------------------- roots
    def roots(self, n):
        """local -> what it points into: globals and parameters"""
        r = self.roots_.get(n)
        if r is not None:
            return r
        R = {p: {("p", k)} for p, k in self.pidx[n].items()}
        js = self.insns[n]
        stores = {}
        changed = True
        while changed:
            changed = False
            for j in js:
                if j.op == "store" and j.a[0] is not None:
                    # kept in a local variable
                    src = self.of(R, j.a[0])
                    for k, nm in walk(j.a[1]):
                        if k == "l" and src and self.is_alloca(n, nm) and not src <= R.get(nm, set()):
                            R.setdefault(nm, set()).update(src)
                            changed = True
                if not j.res:
                    continue
                if j.op in ("gep", "phi", "select", "bitcast", "inttoptr", "ptrtoint", "load", "freeze", "extractvalue", "insertvalue", "add", "sub"):
                    if j.op == "load" and j.ty is not None and j.ty.k == "int" and j.ty.w < 64:
                        continue
                    v = self.of(R, j.a)
                elif j.op == "call":
                    c = self.callee(j)
                    v = set()
                    if c in self.funcs:
                        for k in self.rparam[c]:
                            if k < len(j.a[1]):
                                v |= self.of(R, j.a[1][k][1])
                    elif c and "llvm.threadlocal.address" in c:
                        v = self.of(R, j.a[1][0][1])
                else:
                    continue
                if v and not v <= R.get(j.res, set()):
                    R.setdefault(j.res, set()).update(v)
                    changed = True
        self.roots_[n] = R
        return R

    def is_alloca(self, n, nm):
        seen = set()
        while nm not in seen:
            seen.add(nm)
            d = self.defs[n].get(nm)
            if d is None:
                return False
            if d.op == "alloca":
                return True
            if d.op != "gep":
                return False
            b = d.a[1][0][1]
            if b[0] != "l":
                return False
            nm = b[1]
        return False

    def of(self, R, v):
        out = set()
        for k, nm in walk(v):
            if k == "g":
                out.add(("g", nm))
            else:
                out |= R.get(nm, set())
        return out

    # ------------------------------------------------------------ summaries
    def written(self, n, j):
        """operands a statement writes through"""
        if j.op == "store":
            return [j.a[1]]
        if j.op != "call":
            return []
        c = self.callee(j)
        args = [v for t, v in j.a[1]]
        if c is None:
            return [v for t, v in j.a[1] if t.k == "ptr"]
        if c in self.funcs:
            return [args[k] for k in self.wparam[c] if k < len(args)]
        nm = unq(c).lstrip("@")
        if nm.startswith("llvm."):
            return args[:1] if nm.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) else []
        if nm in EXTERN_WRITES:
            return [args[k] for k in EXTERN_WRITES[nm] if k < len(args)]
        if nm.startswith("__cxa_guard"):
            return []
        if nm.startswith("_ZN") and not nm.startswith("_ZNK") and args:
            return args[:1]         # member functions of library classes
        return []

    def summarize(self):
        for _ in range(30):
            changed = False
            self.roots_.clear()
            for n in self.funcs:
                R = self.roots(n)
                for j in self.insns[n]:
                    for v in self.written(n, j):
                        for k, x in self.of(R, v):
                            if k == "p" and x not in self.wparam[n] and not self.own_copy(n, v):
                                self.wparam[n].add(x)
                                changed = True
                    if j.op == "ret" and j.a is not None and j.ty.k != "void":
                        for k, x in self.of(R, j.a):
                            if k == "p" and x not in self.rparam[n]:
                                self.rparam[n].add(x)
                                changed = True
            if not changed:
                return
        raise Unsupported("effects do not settle")

    def own_copy(self, n, v):
        """the memory written is a local variable itself (not what is kept in it)"""
        ls = [nm for k, nm in walk(v) if k == "l"]
        return v[0] == "l" and len(ls) == 1 and self.is_alloca(n, ls[0])

    # ---------------------------------------------------------------- check
    def run(self):
        r = self.r
        starts = [n for n in self.funcs if n.startswith(A_ASSEMBLE_PREFIX)]
        if not starts:
            raise Unsupported("nxas::assemble not found")
        self.summarize()
        fs, globs, ext = self.reach(starts)
        ctors, _, _ = self.reach(["@llvm.global_ctors"]) if "@llvm.global_ctors" in self.mod.globals else (set(), 0, 0)
        main, _, _ = self.reach([n for n in ("@main",) if n in self.funcs])
        r.count("functions reachable from nxas::assemble", len(fs))
        r.count("variables with static storage that they use", len([g for g in globs if self.mutable(g)]))
        r.need("functions reachable from nxas::assemble", 300)
        r.fact("library functions called", sorted(unq(e).lstrip("@") for e in ext if not e.startswith("@llvm."))[:80])
        for n in sorted(fs):
            for j in self.insns[n]:
                if j.op == "call":
                    c = self.callee(j)
                    if c is not None and c not in self.funcs and OUTSIDE.match(unq(c).lstrip("@")):
                        r.bad(self.where(n, j), "assembling depends on the outside: it calls %s" % unq(c).lstrip("@"))
        changed_elsewhere = {}
        for n in sorted(set(self.funcs) - ctors - fs):
            if n in main:
                for g, w in self.direct(n):
                    changed_elsewhere.setdefault(g, w)
        for n in sorted(fs):
            for g, w in self.direct(n):
                r.bad(w, "assembling leaves something behind in the variable %s" % unq(g).lstrip("@"))
            r.count("statements looked at", len(self.insns[n]))
        for g in sorted(globs):
            if g in changed_elsewhere:
                r.bad(changed_elsewhere[g], "assembling uses the variable %s, which is changed here" % unq(g).lstrip("@"))

    def direct(self, n):
        """(global, where) for what this function changes itself"""
        R = self.roots(n)
        out = []
        for j in self.insns[n]:
            for v in self.written(n, j):
                if self.own_copy(n, v):
                    continue
                for k, g in self.of(R, v):
                    if k == "g" and self.mutable(g):
                        init = self.initialises(n, j, g)
                        if init == "constant":
                            continue
                        out.append((g, self.where(n, j)))
        return out

    # ------------------------------------------- one-time initialisation
    def initialises(self, n, j, g):
        """is this the guarded initialisation of the static g, with values that are the same for every call?"""
        f = self.funcs[n]
        acq = [(b, i) for b in f.blocks.values() for i in b.insns if i.op == "call" and self.callee(i) == "@__cxa_guard_acquire"]
        if not acq:
            return None
        guard = "@_ZGV" + unq(g).lstrip("@")[2:] if unq(g).lstrip("@").startswith("_Z") else None
        blk = [b for b in f.blocks.values() if any(i is j for i in b.insns)]
        if not blk or guard is None:
            return None
        for b, i in acq:
            names = [nm for k, nm in walk(i.a[1]) if k == "g"]
            if not names or unq(names[0]) != unq(guard):
                continue
            if self.reaches_without(f, b.name, blk[0].name):
                continue
            return "varies" if self.varies(n, j) else "constant"
        return None

    def reaches_without(self, f, avoid, to):
        from interp import succs
        seen, todo = set(), [f.entry]
        while todo:
            x = todo.pop()
            if x in seen or x == avoid:
                continue
            seen.add(x)
            if x == to:
                return True
            todo += list(succs(f.blocks[x]))
        return False

    def varies(self, n, j):
        """does what is written depend on the parameters?"""
        params = set(self.pidx[n])
        tainted = set(params)
        js = self.insns[n]
        changed = True
        while changed:
            changed = False
            for k in js:
                ls = {nm for t, nm in walk(k.a) if t == "l"}
                if not (ls & tainted):
                    continue
                new = set()
                if k.res:
                    new.add(k.res)
                if k.op == "store":
                    if {nm for t, nm in walk(k.a[0]) if t == "l"} & tainted:
                        new |= {nm for t, nm in walk(k.a[1]) if t == "l"}
                elif k.op == "call":
                    new |= {nm for v in self.written(n, k) for t, nm in walk(v) if t == "l"}
                new -= tainted
                if new:
                    tainted |= new
                    changed = True
        return bool({nm for t, nm in walk(j.a) if t == "l"} & tainted)
