"""Models of standard-library operations that are used everywhere (trusted, not analysed)."""
from interp import Die, Maybe, Obj, Ptr, UNDEF, Unsupported
from ir import IntTy, PTR

I64 = IntTy(64)


def install(I):
    UP = "St10unique_ptrIA_cSt14default_deleteIS0_EE"

    def cell(st, p):
        p = I.deref(st, p)
        v = I.load(st, p, PTR)
        return p, I.resolve(st, v)

    def release(st, v):
        if v == 0 or type(v) is Maybe:
            return
        if v is UNDEF:
            I.undef_use(st, "unique_ptr that was never set")
            raise Die("undef")
        if type(v) is Ptr and v.obj == "ERRMSG":
            return
        I.external(st, "@_ZdaPv", [v], None)

    def dtor(I_, st, args, ins):
        p, v = cell(st, args[0])
        release(st, v)
        return [(st, None)]

    def move_ctor(I_, st, args, ins):
        q, v = cell(st, args[1])
        I.put(st, q, 8, 0)
        I.store(st, args[0], v, PTR)
        return [(st, None)]

    def move_assign(I_, st, args, ins):
        q, v = cell(st, args[1])
        I.put(st, q, 8, 0)
        p, old = cell(st, args[0])
        I.put(st, p, 8, v)
        release(st, old)
        return [(st, args[0])]

    def tobool(I_, st, args, ins):
        p, v = cell(st, args[0])
        return [(st, I.icmp(st, "ne", v, 0, 64))]

    def get(I_, st, args, ins):
        p, v = cell(st, args[0])
        return [(st, v)]

    def null(I_, st, args, ins):
        I.store(st, args[0], 0, PTR)
        return [(st, None)]

    for n in ("D1", "D2"):
        I.hooks["@_ZN" + UP + n + "Ev"] = dtor
    for n in ("C1", "C2"):
        I.hooks["@_ZN" + UP + n + "EOS3_"] = move_ctor
        I.hooks["@_ZN" + UP + n + "IS2_vEEv"] = null
    I.hooks["@_ZN" + UP + "aSEOS3_"] = move_assign
    I.hooks["@_ZNK" + UP + "cvbEv"] = tobool
    I.hooks["@_ZNK" + UP + "3getEv"] = get

    # optional<string>: never engaged in this program unless an analysis says so
    OS = "St8optionalINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEE"

    def oflag(st, p):
        p = I.deref(st, p)
        return I.resolve(st, I.load(st, Ptr(p.obj, p.off + 32), IntTy(8)))

    def oassign(I_, st, args, ins):
        if oflag(st, args[0]) == 0 and oflag(st, args[1]) == 0:
            return [(st, args[0])]
        return NotImplemented

    def octor(I_, st, args, ins):
        if oflag(st, args[1]) == 0:
            p = I.deref(st, args[0])
            I.put(st, Ptr(p.obj, p.off + 32), 1, 0)
            return [(st, None)]
        return NotImplemented

    I.hooks["@_ZN" + OS + "aSERKS6_"] = oassign
    for n in ("C1", "C2"):
        I.hooks["@_ZN" + OS + n + "ERKS6_"] = octor
