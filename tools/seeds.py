"""The planted bugs: edits of /repo and demonstrations (see mkseed.py)."""
SEEDS = {}


def seed(id, prop, needs, breaks, edits, cases=None, demo=None, files=None):
    d = {"property": prop, "needs": needs, "breaks": breaks, "edits": edits}
    if cases:
        d["cases"] = cases
    if demo:
        d["demo"] = demo
    if files:
        d["files"] = files
    SEEDS[id] = d


seed("cbuf-align", "C02", "a constant buffer offset that is 2 modulo 4",
     "such an offset is accepted and loses its low bits, so two different offsets give the same word",
     [("src/helper.cpp", "    if (offset % 4) {\n", "    if (offset & 1) {\n")],
     [("FADD R0, R1, c[1][6];", "fail"), ("FADD R0, R1, c[1][8];", "?")])

seed("wait-twice", "C06", "a stall of zero clocks followed by another stall annotation",
     "the second annotation is accepted and replaces the first instead of being refused",
     [("src/parse.cpp", "            if (stall) {", "            if (stall.value_or(0)) {")],
     [("NOP @WAIT 0 @WAIT 5;", "fail"), ("NOP @WAIT 5;", "?"), ("NOP @WAIT 5 @WAIT 0;", "fail")])

seed("stale-reuse", "C09", "an instruction with a .reuse register where an earlier form of the mnemonic fails after reading it",
     "the reuse flag read by the failed form stays set in the instruction of the form that succeeds",
     [("src/parse.cpp", "        op = saved_op;\n", "        op.value = saved_op.value;\n")],
     [("FADD R0, R1.reuse, 1.5;\nNOP;\n", "?"), ("MOV R0, R1.reuse, 3;\n", "?")])

seed("last-control", "C07", "a program whose number of instructions is not a multiple of three",
     "the control fields of the slot after the last instruction come from an unused entry instead of being neutral",
     [("src/nxas.cpp", "    if (index + address >= num_instructions) {", "    if (index + address > num_instructions) {")],
     [("NOP;\nNOP;\n", "?")])

seed("negative-zero", "C20", "a negative zero as 20-bit immediate",
     "the sign of the immediate is lost",
     [("src/helper.cpp", "        if (raw >> 31 != 0) {\n            op.add_bits(1ULL << 56);\n        }\n", "        if (raw >> 31 != 0 && value != 0.0f) {\n            op.add_bits(1ULL << 56);\n        }\n")],
     [("FADD R0, R1, -QNAN;", "?"), ("FADD R0, R1, -0.0;", "?")])

seed("abs-drop", "C10", "two vertical bars with nothing between them",
     "the error of the inner operand is dropped and register R0 is assembled",
     [("src/operand.h", "    CHECK(inner(ctx, token, op));\n\n    if (is_absolute) {\n        CHECK(confirm", "    const error message = inner(ctx, token, op);\n    if (message && !is_absolute) {\n        return fail(token, \"invalid operand\");\n    }\n    if (is_absolute) {\n        CHECK(confirm")],
     [("FADD R0, R1, ||;", "fail"), ("FADD R0, R1, |R3|;", "?")])

seed("half-tiny", "C21", "a half-precision immediate between 2^-25 and 2^-24",
     "the smallest subnormals are flushed to zero instead of rounded",
     [("src/fp16.h", "} else if (exp > 101) {", "} else if (exp > 102) {")],
     [("HADD2_32I R0, R1, 0.000000059, 0.000000045;", "?")])

seed("reg-octal", "C11", "a register index written with a leading zero",
     "the index is read as octal: R010 becomes R8",
     [("src/context.cpp", "std::strtoll(contents + 1, &conversion_end, 10)", "std::strtoll(contents + 1, &conversion_end, 0)")],
     [("MOV R010, R1;", "?"), ("MOV R10, R1;", "?")])

seed("branch-range", "C08", "a branch displacement of exactly 2^23",
     "it is accepted and encoded as displacement 0",
     [("src/operand.h", "    if (value > max || value < min) {\n        return fail(token, \"label out", "    if (value > max + 1 || value < min) {\n        return fail(token, \"label out")],
     [("BRA 8388624;", "fail"), ("BRA 8388616;", "?")])

seed("texs-r127", "C03", "TEXS with R127 as second destination register",
     "the single-destination component encoding is chosen although there are two destinations",
     [("src/operand.h", "    if (((op.value >> 28) & 0xFF) == 0xFF) {", "    if (((op.value >> 28) & 0x7F) == 0x7F) {")],
     [("TEXS R127, R4, R6, R8, 0x28, 2D, RGBA;", "?"), ("TEXS R2, R4, R6, R8, 0x28, 2D, RGBA;", "?")])

seed("third-reuse", "C06", "the reuse flag of the third source in the third instruction of a bundle",
     "the flag does not reach the control word",
     [("src/nxas.cpp", "    return (op.sched.raw | (static_cast<uint64_t>(op.reuse) << 17)) << (address * 21);", "    const uint64_t control = op.sched.raw | (static_cast<uint64_t>(op.reuse) << 17);\n    return (control << (address * 21)) & 0x1FFFFFFFFFFFFFFFULL;")],
     [("NOP;\nNOP;\nFFMA R0, R1, R2, R3.reuse;\n", "?"), ("FFMA R0, R1, R2, R3.reuse;\n", "?")])

seed("index-u16", "C07", "a program of more than 65535 instructions",
     "control words after the 65536th instruction come from the beginning of the program",
     [("src/nxas.cpp", "static uint64_t generate_sched(std::span<const opcode> opcodes, size_t index,", "static uint64_t generate_sched(std::span<const opcode> opcodes, uint16_t index,")],
     demo=r"""#!/bin/bash
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
N=$PWD/_build/nxas
python3 - "$D" <<'EOF'
import sys
with open(sys.argv[1] + "/in.asm", "w") as f:
    for i in range(65700):
        f.write("NOP @WAIT %d;\n" % (15 if i < 3000 else 1))
EOF
timeout 200 "$N" "$D/in.asm" -o "$D/out.bin" || exit 1
python3 - "$D" <<'EOF'
import struct, sys
b = open(sys.argv[1] + "/out.bin", "rb").read()
w = struct.unpack("<%dQ" % (len(b) // 8), b)
for i in range(65700):
    c = w[i // 3 * 4] >> i % 3 * 21 & 0x1fffff
    if c != 0x7e0 | (15 if i < 3000 else 1):
        sys.exit("control fields of instruction %d: %x" % (i, c))
EOF
""")

LINK = r"""#!/bin/bash
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++20 -O1 %s -I include "$H/demo.cpp" %s -o "$D/demo" || exit 3
timeout 60 "$D/demo" 2> "$D/err"
st=$?
tail -3 "$D/err"
exit $st
"""

seed("kept-words", "C14", "a longer program assembled earlier in the same process",
     "the table of decoded instructions outlives the call; what an earlier program left there makes the next one fail",
     [("src/nxas.cpp", "    std::vector<opcode> opcodes(max_decode_instructions);", "    static std::vector<opcode> opcodes;\n    if (opcodes.size() < max_decode_instructions) {\n        opcodes.assign(max_decode_instructions, {});\n    }")],
     demo=LINK % ("", "_build/libnxas_lib.a"),
     files={"demo.cpp": r"""#include <nxas.h>
#include <string>
#include <vector>
int main()
{
    const auto a = nxas::assemble("MOV R0, R1;", "a");
    nxas::assemble("FADD R0, R1.reuse, R2;\nNOP @WAIT 3;\nNOP;\nNOP;\n", "b");
    return nxas::assemble("MOV R0, R1;", "a") == a ? 0 : 1;
}
"""})

seed("scratch-size", "C15", "a container with local memory",
     "the scratch size counts the local memory of one thread instead of a warp",
     [("src/dksh.cpp", "(local_pos_sz + local_neg_sz) * 32 + crs_sz", "local_pos_sz + local_neg_sz * 32 + crs_sz")],
     [(".dksh compute\n.local_memory 0x20\nmain:\nEXIT;\n", "?")])

seed("shared-u16", "C16", "a shared memory size above 65535",
     "the value is taken modulo 65536",
     [("src/options.cpp", "        shared_mem_size = static_cast<int>(token.data.immediate);", "        shared_mem_size = static_cast<uint16_t>(token.data.immediate);")],
     [(".dksh compute\n.shared_memory 0x10100\nmain:\nEXIT;\n", "?")])

seed("append", "C17", "an output file that exists already",
     "the result is added to what the file held",
     [("src/command_line.cpp", "        std::ofstream outfp(output_file, std::ios::binary);", "        std::ofstream outfp(output_file, std::ios::binary | std::ios::app);")],
     demo=r"""#!/bin/bash
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
N=$PWD/_build/nxas
echo "NOP;" > "$D/in.asm"
"$N" "$D/in.asm" -o "$D/a.bin" || exit 1
cp "$D/a.bin" "$D/b.bin"
echo more >> "$D/b.bin"
"$N" "$D/in.asm" -o "$D/b.bin" || exit 1
cmp "$D/a.bin" "$D/b.bin"
""")

seed("short-buffer", "C18", "an error in an operand at a position with more than eight digits",
     "the buffer of the message is too short and the message is cut off",
     [("src/error.cpp", "#include <cstdlib>\n", "#include <cstdlib>\n#include <cstring>\n"),
      ("src/error.cpp", "    const int length = first_length + second_length + 1;", "    // escape sequences and separators take 30 characters, the position up to 8\n    const int length = static_cast<int>(std::strlen(token.filename)) + 38 + second_length + 1;")],
     [("\n" * 10000 + " " * 2000 + "NOP @WAIT 16;", "fail:inclusively"), ("NOP @WAIT 16;", "fail:inclusively")])

seed("column-early", "C19", "white space before the token a diagnostic is about",
     "the position is taken before the white space is skipped",
     [("src/context.cpp", "    while (is_contained(\" \\t\\r\\n\", *text)) {\n        next();\n    }\n    token token;\n    token.filename = filename;\n    token.line = line;\n    token.column = column;\n", "    token token;\n    token.filename = filename;\n    token.line = line;\n    token.column = column;\n    while (is_contained(\" \\t\\r\\n\", *text)) {\n        next();\n    }\n")],
     [("NOP;\n    FOO R0;", "fail:2:5"), ("FOO R0;", "fail:1:1")])

seed("form-feed", "C22", "a form feed between two tokens",
     "skipping it never ends",
     [("src/context.cpp", "    while (is_contained(\" \\t\\r\\n\", *text)) {\n        next();\n    }\n    token token;", "    while (is_contained(\" \\t\\r\\n\\f\", *text)) {\n        while (is_contained(\" \\t\\r\\n\", *text)) {\n            next();\n        }\n    }\n    token token;")],
     [("MOV R0, \fR1;", "fail"), ("MOV R0, R1;", "?")])

seed("end-separator", "C12", "a text that ends in the middle of an instruction, in a word",
     "the scanner runs past the end of the text",
     [("src/context.cpp", "|| is_operator(character) || !character;", "|| is_operator(character);")],
     demo=LINK % ("-g -fsanitize=address -I src", "src/context.cpp src/dksh.cpp src/error.cpp src/helper.cpp src/nxas.cpp src/options.cpp src/parse.cpp src/token.cpp src/write.cpp"),
     files={"demo.cpp": r"""#include <cstdlib>
#include <nxas.h>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
extern "C" const char* __asan_default_options()
{
    return "exitcode=99";
}
int main()
{
    // refused with a diagnostic: exit status 1; found by the sanitizer: 99
    if (const pid_t p = fork()) {
        int st = 0;
        waitpid(p, &st, 0);
        return WIFEXITED(st) && WEXITSTATUS(st) == 1 ? 0 : 1;
    }
    const std::string text = " MOV R0, ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    nxas::assemble(text, "a");
    _exit(0);
}
"""})

seed("negated-pt", "C05", "the predicate operand !PT where no negation is possible",
     "it is accepted and encoded as PT",
     [("src/operand.h", "    } else {\n        if (token.data.predicate.negated) {\n            return fail(token, \"predicate can't be negated\");", "    } else {\n        if (token.data.predicate.negated && token.data.predicate.index != 7) {\n            return fail(token, \"predicate can't be negated\");")],
     [("PSETP.AND.AND P0, !PT, P1, P2, P3;", "fail"), ("PSETP.AND.AND P0, PT, P1, P2, P3;", "?")])

seed("flag-twice", "C04", "a modifier flag that is written twice",
     "the repetition is accepted",
     [("src/operand.h", "    if (equal(token, flag)) {\n        op.add_bits(1ULL << address);\n        token = ctx.tokenize();\n    }\n    return {};", "    while (equal(token, flag)) {\n        op.value |= 1ULL << address;\n        token = ctx.tokenize();\n    }\n    return {};")],
     [("FADD.FTZ.FTZ R0, R1, R2;", "fail"), ("FADD.FTZ R0, R1, R2;", "?")])

seed("pred-base", "C13", "a predicate as the base of an address",
     "the predicate's memory is used as a register number",
     [("src/operand.h", "        if (token.type == token_type::regster) {\n            regster = token.data.regster;", "        if (token.type == token_type::regster || token.type == token_type::predicate) {\n            regster = token.data.regster;")],
     [("LDG.E R0, [P3];", "fail"), ("LDG.E R0, [R3];", "?")])
