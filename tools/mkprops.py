#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Fields of one instruction never overlap or corrupt each other",
 "In the 64-bit word of every accepted instruction, the bits contributed by the opcode, the guard predicate and each operand or modifier (and, in its control word, each reuse flag) are disjoint: in no combination of operands can one change a bit that belongs to another. A combination that would need the same bit twice is refused with a diagnostic; it is never assembled and never crashes the assembler.",
 ["inputs"], "for every mnemonic, every form of it, and every combination of operand spellings and values",
 "The 1085 encoding tests sample a few operand combinations per form and each compares one word; the combinations of optional modifiers of a single form run to many thousands.",
 ["src/opcode.h", "src/operand.h", "src/helper.cpp", "src/table.h", "src/parse.cpp"],
 [("overlap assertion when bits are merged into the word", "src/opcode.h:opcode::add_bits"), ("per-form operand lists", "src/table.h:table")],
 [("opcode.value", "the word under construction", "src/opcode.h"), ("opcode.reuse", "reuse flags under construction", "src/opcode.h")],
 ["nxas::assemble result words"])

prop("C02", "Integer operands are encoded exactly or refused",
 "Every integer written as an operand (immediate, address offset, constant-buffer index and offset, mask, shift count, texture index, branch displacement, register number) is either represented without loss in its field, so that two different accepted values never give the same word, or the instruction is refused with a diagnostic. A value is never truncated, wrapped, rounded to an alignment or spilled outside its field.",
 ["inputs"], "for every integer operand slot of every form and every 64-bit value",
 "Tests use one or two values per slot, mostly small; the limits of most slots are never exercised and a value beyond the limit is tested for only a handful of slots.",
 ["src/helper.cpp", "src/operand.h"],
 [("range check before encoding", "src/helper.cpp:convert_integer"), ("signed/unsigned field writers", "src/operand.h:assemble_uint, assemble_int, uimm_extended, memory::address, label"), ("20-bit immediates and constant buffers", "src/helper.cpp:assemble_signed_20bit_immediate, assemble_constant_buffer")])

prop("C03", "Every instruction form is assembled to its own architectural encoding",
 "For every accepted instruction, the mnemonic and the shape of its operands select the fixed opcode bits of that form, and each register, predicate, constant, address and modifier lands at that form's architectural bit position with that form's operand order and defaults for what is omitted. Two forms that mean different operations or take their operands in different roles never assemble to the same word.",
 ["inputs", "programs"], "for every row of the instruction set, every operand kind in it and every value of it",
 "Some forms have no test at all and most have one or two, so a wrong position, default or opcode bit in an untested operand of a form passes.",
 ["src/table.h", "src/operand.h", "src/helper.cpp", "src/parse.cpp"],
 [("instruction table: opcode bits and operand list per form", "src/table.h:table"), ("operand encoders", "src/operand.h"), ("first form that parses wins", "src/parse.cpp:parse_instruction")],
 observe=["nxas::assemble result words"])

prop("C04", "Each modifier slot accepts exactly its own vocabulary",
 "In every modifier or keyword slot of every form exactly the architecture's names for that slot are accepted, each giving its own code; omitting an optional one gives the slot's documented default. Anything else in that place (an unknown, misspelt, empty, repeated or misplaced modifier, or a missing mandatory one) makes the assembler refuse the instruction.",
 ["inputs"], "for every modifier slot of every form and every spelling",
 "There are several hundred accepted spellings and infinitely many wrong ones; the failure tests contain no wrong modifier spelling except scheduling ones.",
 ["src/operand.h", "src/helper.cpp"],
 [("vocabulary tables and lookup", "src/helper.cpp:find_in_table, src/operand.h DEFINE_DOT_TABLE / DEFINE_FLAG uses")])

prop("C05", "Guard predicates are encoded as written and only where legal",
 "An instruction without a guard carries the always-true predicate; a guard @Pn, @!Pn, @PT or @!PT is encoded with exactly its index and negation in the guard field. An instruction that the architecture cannot predicate is refused whenever its guard is anything other than always-true, and a predicate operand that cannot be negated is refused when written negated.",
 ["inputs"], "for every instruction form and every guard spelling",
 "Tests put a guard on a few mnemonics only, and none exercises a guard on an instruction that cannot be predicated.",
 ["src/parse.cpp", "src/operand.h", "src/table.h"],
 [("guard parsing and default", "src/parse.cpp:parse_instruction, assemble_predicate"), ("unpredicable forms", "src/parse.cpp:parse_insn NO_PRED")])

prop("C06", "Scheduling annotations and reuse flags reach the right control bits",
 "For every instruction, stall count, yield, write barrier, read barrier and wait mask given by its annotations, in any order, are each checked for range and duplication and encoded in their own bits of that instruction's control slot, and an omitted annotation gives its documented neutral value. A reuse flag on a source operand sets exactly that operand slot's reuse bit, and is refused on operands that have none.",
 ["inputs"], "for every sequence of annotations of any length and order, and every register operand",
 "The tests never look at the control word, only at the instruction word; failure tests cover a few single bad annotations.",
 ["src/parse.cpp", "src/opcode.h", "src/helper.cpp", "src/nxas.cpp"],
 [("annotation parser", "src/parse.cpp:assemble_sched"), ("reuse parser", "src/helper.cpp:try_reuse"), ("control word assembly", "src/nxas.cpp:generate_sched")],
 [("opcode.sched", "control fields of one instruction", "src/opcode.h")])

prop("C07", "Programs are laid out as control-word bundles in source order",
 "For a program of n instructions the code is, in source order, groups of one control word followed by up to three instruction words, where the control word holds the control fields of exactly those instructions at their slots and the neutral value in slots without an instruction; the end is padded with unpredicated no-ops to a multiple of four words. Nothing is dropped, duplicated, reordered or added, for any n including zero.",
 ["inputs", "programs"], "for every number of instructions and every instruction contents",
 "Every test assembles exactly one instruction and compares one word of the output.",
 ["src/nxas.cpp", "src/write.cpp"],
 [("bundling and padding loop", "src/nxas.cpp:assemble, generate_sched"), ("raw output", "src/write.cpp:context::binary")])

prop("C08", "Labels and branches resolve to the real instruction addresses",
 "A label, a word closed by a colon at the start of a line, denotes the byte address of the instruction that follows it in the emitted code, control words included, and a branch-like instruction encodes exactly target minus the address after itself, for forward and backward references alike. A reference to an undefined label, a displacement that does not fit, and a label defined twice are refused.",
 ["inputs", "programs"], "for every program: any number of instructions before, between and after labels, and any label names and line structure",
 "No test contains a label or more than one instruction.",
 ["src/context.cpp", "src/parse.cpp", "src/operand.h"],
 [("label pre-pass with its own address counter", "src/context.cpp:context::generate_labels"), ("address counter of the main pass", "src/parse.cpp:parse_instruction"), ("displacement encoding", "src/operand.h:label")],
 [("context.pc", "byte address of the instruction being assembled", "src/context.h"), ("context.labels", "label to address", "src/context.h")])

prop("C09", "A form that was tried and failed leaves no trace",
 "When several forms of a mnemonic are tried, each is tried from the same source position with the same guard and an otherwise empty word, so the result is that of the first form that matches as if the earlier ones had never been tried. If none matches the instruction is refused.",
 ["inputs"], "for every mnemonic, every number of failed forms before the match and every point at which each failed",
 "Tests reach only a few failure points of earlier forms and would not notice leftovers that happen to be zero.",
 ["src/parse.cpp"],
 [("snapshot and restore of source position and word", "src/parse.cpp:parse_instruction")],
 [("saved_context/saved_op", "snapshot restored after each failed form", "src/parse.cpp")])

prop("C10", "A failed check anywhere always makes the assembly fail",
 "No error found while reading an operand, annotation or instruction is ever lost: every instruction that reaches the output passed all of its checks and was closed by its semicolon. Any refused input ends with a diagnostic on the error stream and a failure exit status, and yields no result.",
 ["inputs"], "for every input and every check that can fail on it",
 "Only 25 rejected inputs are tested, each on its own; there are several hundred distinct failure points.",
 ["src/error.h", "src/error.cpp", "src/helper.cpp", "src/operand.h", "src/parse.cpp", "src/options.cpp"],
 [("error values and their propagation", "src/error.h:CHECK, class error"), ("fatal errors", "src/error.cpp:fatal_error, error::raise")])

prop("C11", "Tokens are recognised by one exact lexical grammar",
 "For every text the next token is what the lexical grammar says: registers R0-R254 and RZ with a decimal index, predicates P0-P6/PT with optional negation, integer and floating literals taken whole, single-character operators, words ending in a colon skipped as labels, and identifiers up to the next separator. A malformed or out-of-range literal, a register or predicate index out of range and a misplaced '!' are refused; any other word that starts like a register or predicate but is not one (P2R, RED, a bare R) is an identifier. Nothing is ever read as a different token or value.",
 ["inputs"], "for every byte string from the start of a token",
 "Tests use a few dozen distinct lexemes, nearly all well formed.",
 ["src/context.cpp"],
 [("tokenizer", "src/context.cpp:context::tokenize")])

prop("C12", "No input makes the assembler read outside its data",
 "For every input text, whether accepted or refused, the assembler reads only inside the text, its vocabulary tables and its own buffers, and uses no value that was never set.",
 ["inputs"], "for every input, including ones that end in the middle of a token or use unknown words in any slot",
 "Out-of-bounds reads need inputs that end inside a token or miss in a particular table, and go unnoticed without instrumentation.",
 ["src/context.cpp", "src/helper.cpp", "src/operand.h", "src/nxas.cpp", "src/error.cpp"],
 [("terminator tests before each advance", "src/context.cpp:context::tokenize, next, generate_labels"), ("null-terminated vocabularies", "src/helper.cpp:find_in_table"), ("result array sized by semicolons", "src/nxas.cpp:assemble")])

prop("C13", "A token is only ever used as the kind of token it is",
 "A token's value is interpreted as a register, predicate, integer, float or text only when the token was recognised as that kind; a token of another kind in that place is refused. In particular no option or operand accepts a token of the wrong kind and uses its raw memory.",
 ["inputs"], "for every place that takes a token and every kind of token put there",
 "Tests seldom put a token of the wrong kind in a slot, and raw-memory use often looks like a plausible value.",
 ["src/token.h", "src/helper.cpp", "src/operand.h", "src/parse.cpp", "src/options.cpp"],
 [("kind check before payload use", "src/helper.cpp:confirm_type and token.type tests")],
 [("token.data", "untagged union, tag in token.type", "src/token.h")])

prop("C14", "Assembly is a pure function of the source text",
 "The words returned for a source text depend only on that text: not on earlier or concurrent assemblies in the process, on the file name, on the environment or on uninitialised memory. Assembling leaves no state behind in the process.",
 ["inputs", "histories", "schedules"], "for every text and every history or interleaving of assemblies in one process",
 "Each test is one assembly in a fresh process.",
 ["src/nxas.cpp", "src/context.cpp", "src/parse.cpp", "src/operand.h", "src/dksh.cpp", "src/write.cpp"],
 [("all mutable state lives in per-call objects; tables are constant", "src/nxas.cpp:assemble, src/table.h, src/operand.h")])

prop("C15", "Shader containers describe their contents exactly",
 "When a container is requested, the file consists of a control section of the stated, 256-byte-aligned size followed by a code section of the stated, 256-byte-aligned size holding the code unchanged and zero padding, and nothing else. Its header has the container magic, header size, program offset and program count, and the program header's type, entry point, register count, scratch size and the compute block state what the source said.",
 ["inputs", "configurations"], "for every program length, program type and option values",
 "No test produces a container.",
 ["src/dksh.cpp", "src/write.cpp"],
 [("container header", "src/dksh.cpp:context::write_dksh"), ("section padding", "src/write.cpp:context::binary")])

prop("C16", "Source options take effect exactly as written or are refused",
 "Each option line (container/type, register count, workgroup size, shared and local memory) takes values of the right kind, written on its own line, and carries them unchanged to the output. A missing, ill-typed or out-of-range value, a repeated or invalid program type, an unknown option and trailing text on the line are refused.",
 ["inputs"], "for every option name and every token sequence after it",
 "No test contains an option.",
 ["src/options.cpp"],
 [("option parser", "src/options.cpp:context::parse_option")])

prop("C17", "The command line writes complete output or reports failure",
 "The tool exits with success only if the input was read, it assembled, and every byte of the result was written to the output file; any failure to read, assemble, open or write ends in a diagnostic and a failure status. The output file is not touched before the source has been assembled successfully, and missing or repeated arguments are refused.",
 ["inputs", "fault_sequences"], "for every command line, input file and file-system failure point",
 "The tests never run the command-line tool.",
 ["src/command_line.cpp"],
 [("argument loop, read_file and output stream", "src/command_line.cpp:main, read_file")])

prop("C18", "Every diagnostic is well formed",
 "Every diagnostic is printed with arguments of the kinds and number its message format asks for, through a buffer that is large enough, so reporting an error never reads invalid memory or prints garbage.",
 ["inputs"], "for every diagnostic the tool can print and every token it can print it for",
 "Failure tests only check the exit status; the text of a message is never examined.",
 ["src/error.cpp", "src/helper.cpp", "src/operand.h", "src/parse.cpp", "src/options.cpp", "src/context.cpp", "src/command_line.cpp"],
 [("printf-style reporters", "src/error.cpp:fail, fatal_error, error::raise")])

prop("C19", "Diagnostics point at the right source position",
 "A token carries the line and column at which it starts, counted from the beginning of the text, and a diagnostic about a token shows the file name and exactly that position. The position is not disturbed by earlier tokens, labels, blank lines or forms that were tried before.",
 ["inputs"], "for every text and every token in it",
 "No test looks at a reported position.",
 ["src/context.cpp", "src/error.cpp", "src/parse.cpp"],
 [("position counting", "src/context.cpp:context::next, tokenize"), ("reporting", "src/error.cpp:fail, fatal_error")])

prop("C20", "Floating-point immediates keep sign, specials and leading bits",
 "A floating-point immediate is encoded as the leading bits of its IEEE representation of the slot's width with its sign in the slot's sign position, for every literal including negative zero; INF and QNAN, with or without sign, give the corresponding special values. An integer literal used as a single-precision immediate is refused when single precision cannot hold it.",
 ["inputs"], "for every floating-point slot and every literal, INF and QNAN with any sign",
 "Tests use a few literals per width and none with a negative zero or an unrepresentable integer.",
 ["src/helper.cpp", "src/operand.h"],
 [("float, double and half immediates", "src/helper.cpp:assemble_float_immediate, assemble_double_immediate, assemble_half_float_immediate")])

prop("C21", "Half-precision conversion rounds correctly for every value",
 "Converting a single-precision literal to half precision gives the IEEE round-to-nearest-even result for every input, including subnormals, overflow to infinity, infinities and NaN.",
 ["inputs"], "for all 2^32 single-precision values",
 "Tests contain a handful of half-precision literals, all exactly representable.",
 ["src/fp16.h"],
 [("conversion by exponent case", "src/fp16.h:fp32_to_fp16")])

prop("C22", "Assembly terminates on every input",
 "On every finite text the assembler ends, with a result or a diagnostic: each scanning loop consumes text on every round, and no instruction is parsed without consuming at least its semicolon.",
 ["inputs"], "for every finite input text",
 "Tests are finite well-formed single instructions.",
 ["src/context.cpp", "src/parse.cpp", "src/nxas.cpp", "src/options.cpp"],
 [("scanning loops", "src/context.cpp:context::tokenize, generate_labels"), ("instruction loop", "src/nxas.cpp:assemble")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
