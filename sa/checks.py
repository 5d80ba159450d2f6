"""The checks, one function per property."""
from interp import Unsupported
from nxmodel import Nx

_cache = {}


def nx():
    if "nx" not in _cache:
        _cache["nx"] = Nx()
    return _cache["nx"]


def isa():
    if "isa" not in _cache:
        from isa import Isa
        _cache["isa"] = Isa(nx())
    return _cache["isa"]


def compare():
    if "cmp" not in _cache:
        from compare import Compare
        _cache["cmp"] = Compare(isa())
    return _cache["cmp"]


def operands():
    i = isa()
    return sorted({o for f in i.forms for o in f.ops if isinstance(o, str)})


def common(r):
    """facts about the instruction set, and what its extraction reported for this property"""
    i = isa()
    r.fact("source files", [s.split("/repo/")[-1] for s in nx().srcs])
    r.fact("functions in the linked module", len(nx().mod.functions))
    r.fact("operand functions", len(operands()))
    r.fact("mnemonics", len({m for m, g in i.mnem}))
    r.count("forms x {unguarded, guarded} extracted from parse_instruction", len(i.forms))
    r.need("forms x {unguarded, guarded} extracted from parse_instruction", 400)
    for props, where, text in i.bad:
        if r.prop in props:
            r.bad(where, text)


def reference(r):
    c = compare()
    r.count("forms compared with the reference", c.count["forms"])
    r.count("operand places compared with the reference", sum(len(f.ops) for f in isa().forms if f.guarded))
    r.fact("stretches composed because operand boundaries differ", c.count["stretches composed"])
    r.fact("mnemonics not in the reference", c.extra_mnemonics)
    for d in c.diffs:
        if r.prop in d.props or r.prop == "C21" and "C20" in d.props and "half" in d.text:
            r.bad(d.where, d.text)


def c01(r):
    r.rules("for every form and operand, the bits it can set are disjoint from the fixed bits, the guard field and every bit "
            "an earlier operand of the form can have set, under all tokens; no assertion on the way can fail",
            "an operand that rewrites bits must keep different earlier contents distinguishable")
    common(r)
    from fields import Fields
    f = Fields(isa())
    f.overlap()
    r.counts(f.count)
    for w, t in f.bad:
        r.bad(w, t)
    r.need("bit claims", 1500)
    reference(r)
    r.sample(*["%s: %s" % (x.name, [o for o in x.ops]) for x in isa().forms[:3]])


def c02(r):
    r.rules("for every operand, two different accepted values of an integer or register never give the same word (same other tokens)",
            "the accepted range and the field of every integer equal the reference")
    common(r)
    from fields import Fields
    f = Fields(isa())
    seen = set()
    for fn in operands():
        s = isa().F.summary(fn)
        if s.key in seen:
            continue
        seen.add(s.key)
        bad, n = f.injective(fn, s)
        r.count("integer places of operands", n)
        for nm, ex in bad:
            r.bad(fn, "two values of the same integer give the same word: %s" % ex)
        if n:
            r.sample(fn)
    r.need("integer places of operands", 60)
    events(r, ("badshift",))
    reference(r)


def c03(r):
    r.rules("the forms of every mnemonic (fixed bits, operand order, field positions, defaults, accepted tokens) equal the reference, as functions")
    common(r)
    reference(r)
    r.need("forms compared with the reference", 200)
    r.sample(*["%s %016x %s" % (x.name, x.const, len(x.ops)) for x in isa().forms[:8]])


def c04(r):
    r.rules("in every operand place the texts accepted and the code each gives equal the reference, over all texts of the alphabet "
            "(every text of the source and the reference, near misses, and representatives of any other text)")
    common(r)
    reference(r)
    r.fact("texts", nx().D.nreal)
    r.need("forms compared with the reference", 200)


def c05(r):
    r.rules("bits 16..19 are the guard as written, 7 without one; exactly the forms that cannot be predicated refuse other guards; "
            "predicate operands equal the reference")
    common(r)
    reference(r)
    r.need("forms compared with the reference", 200)


def c09(r):
    r.rules("at the first operand of every form, however many forms failed before (each leaving arbitrary contents behind), "
            "the word is the guard and the fixed bits only, the flags are empty and the read position is after the mnemonic; "
            "the first form that accepts ends the search")
    common(r)
    reference(r)


def c20(r):
    r.rules("every floating-point operand equals its formula: leading bits and sign for every finite literal and integer, INF and QNAN patterns")
    common(r)
    reference(r)
    from specs import Specs
    S = Specs(isa().F)
    keys = {isa().F.summary(fn).key for fn in operands()}
    n = 0
    for nm in S.ALL:
        if nm != "label" and S.get(nm) in keys:
            n += 1
            r.sample(nm)
    r.count("floating-point operand kinds equal to their formula", n)


def events(r, kinds):
    """findings of the interpreter inside operands"""
    F = isa().F
    for fn in operands():
        s = F.summary(fn)
        for l in s.leaves:
            r.count("paths of operand functions")
            for e in l.ev:
                if e[0] in kinds:
                    r.bad(e[1], "%s (%s)" % (e[2], e[0]))


def c06(r):
    r.rules("at the end of every form the control fields are those of the annotation reader and nothing changes them afterwards",
            "the annotation reader, from any word, on every list of annotations within the bound, accepts exactly the specified lists and "
            "gives exactly the specified fields; it leaves the word and the reuse flags alone",
            "reuse flags of every operand equal the reference, and no operand sets a flag that does not exist",
            "for every short program the control words consist of exactly the fields and reuse flags of their instructions")
    import par

    def annotations(r):
        from sched import Sched
        Sched(Nx(), r)

    def slots(r):
        from layout import Layout
        Layout(Nx(), r, range(0, 8))

    def forms(r):
        common(r)
        reference(r)
        for fn in operands():
            r.count("operands whose reuse flags were inspected")
            if any(len(g.r) > 3 for g in isa().F.summary(fn).groups):
                r.bad(fn, "sets a reuse flag that does not exist")
    par.run(r, [forms, annotations, slots])
    r.need("accepted forms whose scheduling fields come from the annotation reader", 400)
    r.need("program lengths", 8)


def c07(r):
    r.rules("for every number of instructions within the bound, with arbitrary words, reuse flags and control fields, the result of "
            "nxas::assemble equals the specified sequence of control words, instruction words and padding, as functions",
            "every accepted form advances the address by one slot and ends at its semicolon; the end of the text is the only other way out")
    def lengths(ns):
        def f(r):
            from layout import Layout
            Layout(Nx(), r, ns)
        return f
    import par
    par.run(r, [lengths([66000]), common, lengths(range(0, 130)), lengths([255, 256, 257, 258, 300, 1000, 5000])] +
            ([] if r.tier == "quick" else [lengths(range(130, 800)), lengths([140000])]))
    r.need("program lengths", 138)


def texts(r, *more):
    """the scanner and the label reader over every family of texts, and further parts, in parallel"""
    import labels
    import lexer
    import par
    par.run(r, list(more) + labels.tasks(r.tier) + lexer.tasks(r.tier))
    r.need("families of texts", 9)
    r.need("families of texts read for labels", 5)
    r.need("kinds x lengths of tokens compared with the grammar", 200)


def c08(r):
    r.rules("the label reader, over every text of each family, defines exactly the labels at the start of a line, each with the address of "
            "the instruction that follows, and refuses exactly the texts that define one twice",
            "a name is looked up as it is written; the operand that takes a label equals target minus own address minus 8 and refuses what does not fit",
            "every accepted form advances the address by one slot; a form that fails restores it")
    import labels
    import par

    def forms(r):
        common(r)
        reference(r)
        r.need("forms compared with the reference", 200)
    par.run(r, [forms] + labels.tasks(r.tier))
    r.need("families of texts read for labels", 5)
    r.need("lengths of names looked up", 4)


def c11(r):
    r.rules("context::tokenize, over every text of each family, gives exactly the token (kind, extent, value) of the lexical grammar, and refuses exactly what it refuses")
    texts(r)


def diagnostics(r):
    """the functions that make and print diagnostics"""
    from errors import Errors
    Errors(nx(), r).run()


def c10(r):
    r.rules("every operand, the annotation reader and the driver accept exactly the token sequences the reference accepts, for all tokens: "
            "a check that fails and is not passed on shows as an accepted sequence",
            "an instruction is accepted only at its semicolon; the end of the text is the only way to end without error",
            "the diagnostic functions print to the error stream and end the program with a failure status; an error is never empty")

    def forms(r):
        common(r)
        reference(r)
        r.need("forms compared with the reference", 200)
        diagnostics(r)

    def sched(r):
        from sched import Sched
        Sched(Nx(), r)
    import labels
    import lexer
    import par
    par.run(r, [forms, sched] + labels.tasks(r.tier) + lexer.tasks(r.tier))


def c13(r):
    r.rules("on every path of every operand and of the driver, the part of a token's value that is read belongs to the kind the token has there",
            "the kinds of tokens accepted in every operand place equal the reference",
            "the scanner sets the value of every token it returns")

    def forms(r):
        common(r)
        events(r, ("kind",))
        reference(r)
        r.need("forms compared with the reference", 200)
        r.need("paths of operand functions", 1000)
    texts(r, forms, options_)


def c18(r):
    r.rules("at every call with a format, the number and types of the arguments are those the format asks for",
            "on every path to a diagnostic, texts printed are terminated or within their length, and every argument was set",
            "the message buffer holds prefix, message and terminator whatever their lengths; argument lists are started, used once and ended")

    def sites(r):
        from fmtcheck import Sites
        Sites(nx(), r).run()
        diagnostics(r)
        r.need("call sites with a format", 100)

    def ops(r):
        common(r)
        events(r, ("msgarg",))
        r.count("diagnostics reached", len(nx().messages))
    texts(r, sites, ops, options_)


def c19(r):
    r.rules("every token carries the line and column of its first character, and the scanner stands at the line and column after its last",
            "reading starts over at line 0, column 0 after the labels were read",
            "a refused token and a label defined twice are reported where they start",
            "a diagnostic shows file name, line and column (from 1) of the token it is given")

    def forms(r):
        common(r)
        diagnostics(r)
    texts(r, forms)


def c22(r):
    r.rules("every loop of the scanner and of the label reader advances the read position on every round",
            "every operand, the annotation reader, the driver and the option reader end for all tokens; an accepted instruction ends behind its semicolon, "
            "an option behind its line",
            "the layout of the program and of the container ends for every length within the bound")

    def ends(r, f):
        """only whether f ends matters here"""
        from report import Report
        q = Report(r.prop, r.tier)
        f(q)
        for k, n in q.ob.items():
            r.count(k, n)

    def sched(r):
        from sched import Sched
        ends(r, lambda q: Sched(Nx(), q))

    def layout(r):
        from layout import Layout
        ends(r, lambda q: Layout(Nx(), q, range(0, 14)))
    texts(r, common, options_, sched, layout)


MEMORY = ("overread", "oob", "uaf", "nullderef", "uninit", "constwrite", "divzero")


def c12(r):
    r.rules("no path of the scanner, the label reader, the operands or the instruction driver reads outside its object or uses a value never set")

    def ops(r):
        common(r)
        events(r, MEMORY)
        diagnostics(r)
    texts(r, ops, options_)


def c21(r):
    r.rules("for all 32-bit inputs the result of the conversion is the nearest half-precision number, ties to even; infinities and NaN stay what they are",
            "every half-precision operand is the formula built from that conversion")
    import half
    half.check(nx(), r)
    common(r)
    reference(r)
    r.need("forms compared with the reference", 200)


def options_(r):
    import options
    for f in options.tasks(r.tier):
        f(r)


def c15(r):
    r.rules("for every chain of options within the bound with arbitrary values and every code size within the bound, the words context::binary returns "
            "equal the container the options describe, as functions; it refuses exactly what has no complete description")
    options_(r)
    r.need("outputs compared with the container layout", 100)
    r.need("accepted options compared with their meaning", 50)


def c16(r):
    r.rules("for every chain of options within the bound, over all following tokens and lines, parse_option accepts exactly the options of the specification and goes on with the token after",
            "every option shows unchanged in the output, the last one of its kind wins, and nothing else changes",
            "options are read before the first instruction and between instructions")

    def opts(r):
        options_(r)
        r.need("accepted options compared with their meaning", 50)
        r.need("chains of options", 20)
    import par
    par.run(r, [opts, common])


def c14(r):
    r.rules("no function reachable from nxas::assemble changes a variable with static storage (one-time initialisation with constant values excepted), "
            "reads one that other code changes, or calls a function whose result comes from outside",
            "no path reads the characters of the file name or a value that was never set",
            "the words are the specified functions of the tokens and of nothing else (C03, C07)")

    def effects(r):
        from effects import Effects
        Effects(Nx(), r).run()

    def ops(r):
        common(r)
        events(r, ("uninit", "constwrite", "filename"))
        from layout import Layout
        Layout(nx(), r, range(0, 8))
    texts(r, effects, ops, options_)


def c17(r):
    r.rules("for every command line within the bounds, main takes input and output from the arguments the syntax names, or refuses",
            "on every path through main and what it calls, with every outcome of every file operation: success is returned only if all of the input "
            "was read and assembled, and all of the result was written, with the stream in order after its last flush",
            "the output file is opened only after nxas::assemble returned, and emptied",
            "the functions that end the program print a message and a failure status")
    from cmdline import Cmdline
    Cmdline(nx(), r).run()
    diagnostics(r)
    r.need("paths through main, by arguments", 8)
    r.need("paths through main, by file-system outcome", 20)


TABLE = {"C17": c17, "C14": c14, "C15": c15, "C16": c16, "C21": c21, "C10": c10, "C13": c13, "C18": c18, "C08": c08, "C11": c11, "C12": c12, "C19": c19, "C22": c22, "C06": c06, "C07": c07, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C09": c09, "C20": c20}


def run(prop, r):
    TABLE[prop](r)

DECLINED = {}
ISA = "abstract interpretation of parse_instruction and all operand functions to canonical Boolean functions; "
TEXT = "abstract interpretation of the scanner and the label reader over families of symbolic texts with exact joins; "
TECHNIQUE = {
    "C06": ("abstract interpretation of the annotation reader to canonical Boolean functions of the tokens, compared with the specification; dataflow of the fields from there to the end of every form", ", the bound on the length of annotation lists"),
    "C07": ("partial evaluation of nxas::assemble for every program length within the bound, words symbolic; dataflow of address and position through parse_instruction", ", the bound on the program length"),
    "C08": (TEXT + "label table compared with the specification as a function of the text; branch operands compared with their formula", ", the bounds on the texts"),
    "C10": (ISA + "error-propagation (must-fail) analysis of every operand and of the driver, effect analysis of the diagnostic functions", ", the reference spec/isa.json"),
    "C11": (TEXT + "token (kind, extent, value) compared with the lexical grammar as a function of the text", ", the bounds on the texts"),
    "C12": (TEXT + "bounds, initialisation, lifetime and null-dereference analysis of every path, operands and driver included", ", the bounds on the texts"),
    "C13": (ISA + "typestate analysis of token unions: every read of a token's value on every path against the kind established there", ", the reference spec/isa.json"),
    "C14": ("effect analysis over the call graph: writes to static storage, calls whose result depends on the environment; dataflow of the file name and of uninitialised memory", ""),
    "C15": ("abstract interpretation of context::binary with every option symbolic, compared with the container layout", ", the bound on the program length"),
    "C16": ("abstract interpretation of context::parse_option over all token sequences, compared with the specification; dataflow of the option fields", ""),
    "C17": ("typestate analysis of the streams and of the results of main and read_file on every path", ", the models of the stream classes"),
    "C18": ("format-string analysis of every call site and of the arguments on every path; symbolic-length dataflow of the message buffer", ", that the C library's formatted output honours its arguments"),
    "C19": (TEXT + "positions compared with the count of characters and lines; dataflow of the position into the diagnostic", ", the bounds on the texts"),
    "C21": ("abstract interpretation of the conversion to canonical Boolean functions of the 32 input bits, compared with round-to-nearest-even", ""),
    "C22": (TEXT + "progress of every loop: the read position advances on every round", ", the bounds on the texts"),
}
