"""Bugs written from the text of the properties alone; used by trial.py."""
C, H, O, P, N, X, E, T, D, W, L = ("src/context.cpp", "src/helper.cpp", "src/operand.h", "src/parse.cpp", "src/nxas.cpp", "src/options.cpp",
                                "src/error.cpp", "src/token.cpp", "src/dksh.cpp", "src/write.cpp", "src/table.h")


def b(name, props, *edits):
    return (name, "bug", props.split(), list(edits))


def same(name, props, *edits):
    """meant as a bug, but changes nothing"""
    return (name, "same", props.split(), list(edits))


MORE = [
 # C01
 b("m-addor", "C01", ("src/opcode.h", "    assert((value & bits) == 0);\n    value |= bits;", "    value |= bits;"), (O, "        if (op.value & (1ULL << address)) {\n            return fail(token, \"negation can't be combined with .PO\");\n        }\n        op.add_bits(1ULL << address);\n        token = ctx.tokenize();\n    }\n    return {};\n}\n\ntemplate <int address>\nDEFINE_OPERAND(tilde)", "        op.add_bits(1ULL << address);\n        token = ctx.tokenize();\n    }\n    return {};\n}\n\ntemplate <int address>\nDEFINE_OPERAND(tilde)")),
 b("m-aoffi54", "C01 C03", (O, "DEFINE_DOT_TABLE(clamp, 1, 49, \"IGN\", \"\", \"TRAP\");", "DEFINE_DOT_TABLE(clamp, 1, 49, \"IGN\", \"\", \"TRAP\", \"SDCL\", \"NEAR\");")),
 b("m-sint", "C01 C02", (O, "    const uint64_t raw = value & ((1ULL << bits) - 1);", "    const uint64_t raw = value & ((2ULL << bits) - 1);")),
 b("m-reuse16", "C01 C06", (H, "    case 20:\n        op.add_reuse(reuse_flag::gpr20);", "    case 20:\n        op.add_reuse(reuse_flag::gpr20 | (op.reuse & reuse_flag::gpr8 ? 8U : 0U));")),
 # C02
 b("m-addr", "C02", (O, "                const int64_t max = max_bits(is_zero_reg ? size : (size - 1));", "                const int64_t max = max_bits(size);")),
 b("m-cbidx", "C02", (H, "CHECK(convert_integer(token, 0, max_bits(5), &value));\n    op.add_bits(static_cast<uint64_t>(value) << 34);", "CHECK(convert_integer(token, 0, max_bits(6), &value));\n    op.add_bits(static_cast<uint64_t>(value & 0x1f) << 34);")),
 b("m-uext", "C02 C03", (O, "    if (value >= 0x80000) {\n        value -= 0x80000;", "    if (value > 0x80000) {\n        value -= 0x80000;")),
 b("m-imm20", "C02", (H, "CHECK(convert_integer(token, -(1 << 19), max_bits(19),", "CHECK(convert_integer(token, -(1 << 19), max_bits(20),"), (H, "    op.add_bits(raw << 20);\n    op.add_bits(negative << 56);", "    op.add_bits((raw & max_bits(19)) << 20);\n    op.add_bits(negative << 56);")),
 b("m-convert", "C02 C10", (H, "    int64_t value = token.data.immediate;\n    if (value < min || value > max) {", "    const int64_t value = token.data.immediate;\n    if (value < min || value > max + (min < 0 ? 0 : 1) * (max == 0xffff)) {")),
 # C03
 b("m-row", "C03", (L, "INSN(0xEFA070000000FF00ULL, 0, \"AL2P\", al2p::o, amem::size,                  dgpr<0>),", "INSN(0xEFA0700000000000ULL, 0, \"AL2P\", al2p::o, amem::size,                  dgpr<0>),")),
 b("m-sr", "C03 C04", (O, "        \"SR_LTMASK\",\n        \"SR_LEMASK\",", "        \"SR_LEMASK\",\n        \"SR_LTMASK\",")),
 b("m-texs", "C03 C04", (O, "op.add_bits(0x0140000000000000ULL);", "op.add_bits(0x0160000000000000ULL);")),
 b("m-swz", "C03", (O, "    if (((op.value >> 28) & 0xFF) == 0xFF) {", "    if (((op.value >> 28) & 0x7F) == 0x7F) {")),
 # C04
 b("m-case", "C04 C10", (H, "    return token.data.string.compare(string) == 0;", "    return token.data.string.starts_with(string) && (token.data.string.size() == std::strlen(string) || std::strlen(string) > 9);")),
 b("m-prefix", "C04", (H, "        if (prefix.compare(text.substr(0, std::size(prefix))) != 0) {\n            return {};\n        }\n        text = text.substr(std::size(prefix));", "        if (text.starts_with(prefix)) {\n            text = text.substr(std::size(prefix));\n        }")),
 b("m-hole", "C04", (H, "    if (text.empty()) {\n        // empty", "    if (text.empty() && prefix.empty()) {\n        // empty")),
 b("m-default", "C04 C03", (O, "    DEFINE_DOT_TABLE(format, 1, 48, \"U32\", \"S32\");\n}\n\nnamespace bpt", "    DEFINE_DOT_TABLE(format, 0, 48, \"U32\", \"S32\");\n}\n\nnamespace bpt")),
 b("m-fallthru", "C04", (O, "            token = ctx.tokenize();\n            [[fallthrough]];\n        case 4: // .F16x2.RN", "            token = ctx.tokenize();\n            break;\n        case 4: // .F16x2.RN")),
 b("m-twice", "C04", (O, "    if (equal(token, flag)) {\n        op.add_bits(1ULL << address);\n        token = ctx.tokenize();\n    }\n    return {};", "    while (equal(token, flag)) {\n        op.value |= 1ULL << address;\n        token = ctx.tokenize();\n    }\n    return {};")),
 # C05
 b("m-nopred", "C05", (P, "((op.value >> 16) & 0xF) != TRUE_PREDICATE", "((op.value >> 16) & 0x7) != TRUE_PREDICATE")),
 b("m-negable", "C05", (O, "        if (token.data.predicate.negated) {\n            return fail(token, \"predicate can't be negated\");\n        }\n    }\n    token = ctx.tokenize();\n    return {};\n}\n\ntemplate <int address>\nDEFINE_OPERAND(inverted_pred)", "        if (token.data.predicate.negated && token.data.predicate.index != 7) {\n            return fail(token, \"predicate can't be negated\");\n        }\n    }\n    token = ctx.tokenize();\n    return {};\n}\n\ntemplate <int address>\nDEFINE_OPERAND(inverted_pred)")),
 b("m-flag", "C05", (L, "NO_PRED, \"", "0, \"")),
 b("m-pt", "C05", (P, "    bits |= (token.data.predicate.negated ? 1 : 0) << 3;", "    bits |= (token.data.predicate.negated && bits != TRUE_PREDICATE ? 1 : 0) << 3;")),
 # C06
 b("m-wait15", "C06", (P, "token.data.immediate > 15", "token.data.immediate > 16")),
 b("m-rb", "C06", (P, "        .read_barrier = read_barrier.value_or(7),", "        .read_barrier = read_barrier.value_or(write_barrier.value_or(7)),")),
 b("m-dep", "C06", (P, "            const uint32_t mask = 1U << token.data.immediate;\n            if (wait_barrier & mask) {", "            const uint32_t mask = 1U << token.data.immediate;\n            if (wait_barrier == mask) {")),
 b("m-yield", "C06", (P, "            if (yield) {\n                return fail(token, \"yield already specified\");\n            }\n", "            if (yield && equal(token, \"YIELD\")) {\n                return fail(token, \"yield already specified\");\n            }\n")),
 b("m-sched17", "C06 C07", (N, "(static_cast<uint64_t>(op.reuse) << 17)", "(static_cast<uint64_t>(op.reuse & (address == 2 ? 3 : 7)) << 17)")),
 # C07
 same("m-reserve", "C07", (N, "    while (blob.size() % 4) {", "    while (blob.size() % 4 > 1) {")),
 b("m-empty", "C07", (N, "    while (blob.size() % 4) {", "    while (blob.empty() || blob.size() % 4) {")),
 b("m-semi", "C07", (N, "    const size_t num_instructions = index - 1;", "    const size_t num_instructions = index > 12 ? index - 2 : index - 1;")),
 b("m-seven", "C07", (N, "        if (index % 3 == 0) {", "        if (index % 3 == 0 && index != 300) {")),
 # C08
 b("m-pc", "C08", (C, "            if (pc % 0x20 == 0) {\n                pc += 8;\n            }\n        }\n        next();", "            if (pc % 0x20 == 0 && text[1]) {\n                pc += 8;\n            }\n        }\n        next();"), (C, "    pc = 8;\n\n    while", "    pc = 8;\n\n    if (*text == ';') {\n        pc = 16;\n    }\n    while")),
 b("m-dup", "C08", (C, "            if (!labels.insert({label, pc}).second) {", "            if (const auto [it, fresh] = labels.insert({label, pc}); !fresh && it->second != pc) {")),
 b("m-under", "C08", (C, "        while (is_alnum(*text) || *text == '_') {", "        while (is_alnum(*text)) {")),
 b("m-back", "C08", (O, "    static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 1;", "    static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 9;")),
 b("m-find", "C08", (C, "    const auto it = labels.find(std::string{label});", "    const auto it = labels.find(std::string{label.substr(0, 16)});")),
 # C09
 b("m-once", "C09", (P, "        op = saved_op;\n    }\n    if", "        if (score > 1) {\n            op = saved_op;\n        }\n    }\n    if")),
 b("m-ctx", "C09", (P, "        ctx = saved_context;\n", "        if (score > 2) {\n            ctx = saved_context;\n        }\n")),
 b("m-best", "C09", (P, "        if (!insn_error) {", "        if (!insn_error || score > 1003) {")),
 same("m-savelate", "C09", (P, "    const opcode saved_op = op;\n", "    opcode saved_op = op;\n"), (P, "        ctx = saved_context;\n        op = saved_op;", "        ctx = saved_context;\n        op = saved_op;\n        saved_op.reuse |= op.reuse;\n        saved_op.sched = op.sched;")),
 same("m-sched0", "C09 C06", (P, "    op.sched.values = {", "    if (!stall && !yield && !write_barrier && !read_barrier && !wait_barrier && op.sched.raw) {\n        return {};\n    }\n    op.sched.values = {")),
 # C10
 b("m-mirror", "C10", (O, "    if (op.value != old_op_value) {\n        return fail", "    if ((op.value & ~old_op_value) != 0) {\n        return fail")),
 b("m-confirm", "C10", (O, "        CHECK(confirm_type(token, token_type::vbar));\n        token = ctx.tokenize();\n    }\n    return {};", "        if (token.type == token_type::vbar) {\n            token = ctx.tokenize();\n        }\n    }\n    return {};")),
 b("m-addrbr", "C10", (O, "        CHECK(confirm_type(token, token_type::bracket_right));\n        token = ctx.tokenize();\n        return {};\n    }\n}\n\nDEFINE_OPERAND(flow_tests)", "        confirm_type(token, token_type::bracket_right);\n        token = ctx.tokenize();\n        return {};\n    }\n}\n\nDEFINE_OPERAND(flow_tests)")),
 # C13
 b("m-zero", "C13", (O, "    if (token.type != token_type::immediate || token.data.immediate != 0) {", "    if (token.data.immediate != 0) {")),
 b("m-guardkind", "C13 C10", (P, "    CHECK(confirm_type(token, token_type::predicate));\n\n    if (!is_neg", "    if (token.type != token_type::regster) {\n        CHECK(confirm_type(token, token_type::predicate));\n    }\n\n    if (!is_neg")),
 # C20
 b("m-neginf", "C20", (H, "        if (negate) {\n            value = -value;\n        }", "        if (negate && value > 0) {\n            value = -value;\n        }")),
 b("m-dbl", "C20", (H, "    op.add_bits((static_cast<uint64_t>(raw << 1) >> 45) << 20);", "    op.add_bits((static_cast<uint64_t>((raw + (1ULL << 43)) << 1) >> 45) << 20);")),
 b("m-intf", "C20", (H, "static_cast<int64_t>(value) != token.data.immediate", "static_cast<int32_t>(static_cast<int64_t>(value)) != static_cast<int32_t>(token.data.immediate)")),
 b("m-h9", "C20", (H, "static_cast<uint16_t>(value << 1) >> 7", "static_cast<uint16_t>(value << 1) >> 7 & 0xff")),
]
