"""A second set of bugs written from the text of the properties alone; used by tools/trial.py."""
C, H, O, P, N, X, E, T, D, W, L, CL = ("src/context.cpp", "src/helper.cpp", "src/operand.h", "src/parse.cpp", "src/nxas.cpp", "src/options.cpp",
                                       "src/error.cpp", "src/token.cpp", "src/dksh.cpp", "src/write.cpp", "src/table.h", "src/command_line.cpp")


def b(name, props, *edits):
    return (name, "bug", props.split(), list(edits))


MORE = [
 # C10
 b("n-longmsg", "C10", (E, "    const int length = first_length + second_length + 1;\n", "    const int length = first_length + second_length + 1;\n    if (length > 1024) {\n        return {};\n    }\n")),
 b("n-schedsemi", "C10 C06", (P, "    if (error message = assemble_sched(ctx, token, op); message) {", "    if (error message = assemble_sched(ctx, token, op);\n        message && token.type != token_type::semicolon) {")),
 b("n-exitline", "C10", (E, "    va_end(ap);\n    std::fputc('\\n', stderr);\n\n    std::exit(EXIT_FAILURE);\n}\n\nvoid fatal_error(const char* fmt, ...)", "    va_end(ap);\n    std::fputc('\\n', stderr);\n\n    std::exit(token.line + 1);\n}\n\nvoid fatal_error(const char* fmt, ...)")),
 b("n-reusedrop", "C10 C06", (H, "    token = ctx.tokenize();\n    return try_reuse(ctx, token, op, address);", "    token = ctx.tokenize();\n    if (equal(token, \".reuse\")) {\n        try_reuse(ctx, token, op, address);\n        if (equal(token, \".reuse\")) {\n            token = ctx.tokenize();\n        }\n    }\n    return {};")),
 b("n-mirrorreuse", "C06 C10 C03", (O, "    if (op.value != old_op_value) {\n        return fail", "    if (op.value != old_op_value && !op.reuse) {\n        return fail")),
 # C11
 b("n-base", "C11", (C, "std::strtoll(contents, &conversion_end, 0)", "std::strtoll(contents, &conversion_end, has_hex ? 16 : 10)")),
 b("n-p7", "C11", (C, "(*index > 6 || *index < 0)", "(*index > 7 || *index < 0)")),
 b("n-comment", "C11", (C, "    while (is_contained(\" \\t\\r\\n\", *text)) {\n        next();\n    }\n    token token;", "    while (is_contained(\" \\t\\r\\n\", *text) || (*text == '/' && text[1] == '/')) {\n        if (*text == '/') {\n            while (*text && *text != '\\n') {\n                next();\n            }\n            continue;\n        }\n        next();\n    }\n    token token;")),
 b("n-float0", "C11 C20", (C, "std::abs(token.data.float_immediate) > std::numeric_limits<float>::max()", "token.data.float_immediate > std::numeric_limits<float>::max()")),
 b("n-colonword", "C11", (C, "    if (text[-1] == ':') {", "    if (text[-1] == ':' && text - contents < 64) {")),
 b("n-erange", "C11", (C, "            if (errno == ERANGE) {", "            if (errno == ERANGE && token.data.immediate > 0) {")),
 # C12
 b("n-peek2", "C12", (C, "is_contained(\"+-\", character)) && text[1] != 'D') {", "is_contained(\"+-\", character)) && text[1] != 'D' && text[2] != 'D') {")),
 b("n-tempcode", "C12", (N, "    context ctx(filename, code.c_str());", "    context ctx(filename, (code + '\\n').c_str());")),
 b("n-unset", "C12", (O, "    const std::optional<int64_t> value = find_in_table(token, table, \".\");\n    if (!value) {\n        return fail(token, \"expected .AND, .OR or .XOR\");\n    }\n    op.add_bits(*value << address);", "    const std::optional<int64_t> value = find_in_table(token, table, \".\");\n    if (!value && token.type == token_type::identifier) {\n        return fail(token, \"expected .AND, .OR or .XOR\");\n    }\n    op.add_bits(*value << address);")),
 b("n-noterm", "C12", (O, "{\"RN\", \"RM\", \"RP\", \"RZ\", nullptr};\n        const std::optional result", "{\"RN\", \"RM\", \"RP\", \"RZ\"};\n        const std::optional result")),
 # C13
 b("n-negpred", "C13 C10", (O, "    CHECK(confirm_type(token, token_type::predicate));\n    op.add_bits(static_cast<uint64_t>(7 - token", "    if (token.type != token_type::identifier) {\n        CHECK(confirm_type(token, token_type::predicate));\n    }\n    op.add_bits(static_cast<uint64_t>(7 - token")),
 b("n-optfloat", "C13 C16", (X, "            if (token.type != token_type::immediate) {\n                fatal_error(token, \"expected workgroup sizes\");", "            if (token.type != token_type::immediate && (i < 2 || token.type == token_type::identifier)) {\n                fatal_error(token, \"expected workgroup sizes\");")),
 # C15
 b("n-pad32", "C15", (W, "(32 - code_size % 32) % 32", "32 - code_size % 32")),
 b("n-local8", "C15", (D, "    return (value + 0xf) & ~0xf;", "    return (value + 0xf) & 0xffff0;")),
 b("n-codesz", "C15", (D, "align256(code_size * sizeof(uint64_t))", "static_cast<uint16_t>(align256(code_size * sizeof(uint64_t)))")),
 b("n-fragdepth", "C15", (D, "        program_header.frag.early_fragment_tests = early_fragment_tests;", "        program_header.frag.early_fragment_tests = early_fragment_tests;\n        program_header.frag.param_d8 = num_gprs;")),
 # C16
 b("n-duptype", "C16", (X, "        if (type) {\n            fatal_error(token, \"program type already specified\");\n        }\n        token = tokenize();", "        if (type && !is_dksh) {\n            fatal_error(token, \"program type already specified\");\n        }\n        token = tokenize();")),
 b("n-gprline", "C16", (X, "        num_gprs = static_cast<int>(token.data.immediate);\n        check_option_line();", "        num_gprs = static_cast<int>(token.data.immediate);")),
 b("n-dimswap", "C16 C15", (X, "            block_dimensions[i] = static_cast<unsigned>(token.data.immediate);", "            block_dimensions[i] = static_cast<unsigned>(token.data.immediate);\n            if (i == 2 && block_dimensions[2] == 0) {\n                block_dimensions[2] = 1;\n            }")),
 b("n-hull", "C16", (X, "equal(token, \"tess_control\") || equal(token, \"hull\")) {\n            type = program_type::tess_control;", "equal(token, \"tess_control\") || equal(token, \"domain\")) {\n            type = program_type::tess_control;")),
 # C17
 b("n-emptyout", "C17", (CL, "    try {\n        std::ofstream", "    if (binary.empty()) {\n        return 0;\n    }\n    try {\n        std::ofstream")),
 b("n-chunk", "C17", (CL, "        outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));", "        const char* bytes = reinterpret_cast<const char*>(binary.data());\n        size_t left = binary.size() * sizeof(uint64_t);\n        while (left >= 4096) {\n            outfp.write(bytes, 4096);\n            bytes += 4096;\n            left -= 4096;\n        }\n        outfp.write(bytes, left & 0x7ff);")),
 b("n-catch", "C17", (CL, "        fatal_error(\"failed to write output file: %s\", e.what());", "        std::fprintf(stderr, \"failed to write output file: %s\\n\", e.what());"), (CL, "        std::ofstream outfp(output_file, std::ios::binary);", "        std::ofstream outfp(output_file, std::ios::binary);\n        outfp.exceptions(std::ios::badbit);"), (CL, "#include <cstdint>", "#include <cstdint>\n#include <cstdio>")),
 b("n-dash", "C17", (CL, "        // There's no modifier, it's an input file\n", "        if (argv[i][0] == '-' && argv[i][1] == 'v') {\n            return 0;\n        }\n        // There's no modifier, it's an input file\n")),
 # C18
 b("n-intsize", "C18", (P, "static_cast<int>(std::size(token.data.string)), std::data(token.data.string));", "std::size(token.data.string), std::data(token.data.string));")),
 b("n-nameunk", "C18", (T, "    case token_type::vbar:\n        return \"vertical bar\";", "    case token_type::vbar:\n        return nullptr;")),
 b("n-infodata", "C18 C13", (T, "    if (token.type != token_type::identifier) {\n        return {};\n    }\n    return token.data.string;", "    if (token.type == token_type::none) {\n        return {};\n    }\n    return token.data.string;")),
 # C19
 b("n-cr", "C19", (C, "    case '\\t':\n        column += 4;\n        break;", "    case '\\t':\n        column += 4;\n        break;\n    case '\\r':\n        break;")),
 b("n-optpos", "C19", (X, "        if (token.line != option_line) {\n            fatal_error(token, \"unexpected new line in option\");", "        if (token.line != option_line) {\n            token.line = option_line;\n            fatal_error(token, \"unexpected new line in option\");")),
 b("n-laterpos", "C19", (O, "        if (token.data.predicate.negated) {\n            return fail(token, \"predicate can't be negated\");\n        }\n    }\n    token = ctx.tokenize();", "        const bool negated = token.data.predicate.negated;\n        token = ctx.tokenize();\n        if (negated) {\n            return fail(token, \"predicate can't be negated\");\n        }\n        return {};\n    }\n    token = ctx.tokenize();")),
 b("n-resetcol", "C19", (C, "    line = 0;\n    column = 0;\n    pc = 0;", "    line = 0;\n    pc = 0;")),
 # C21
 b("n-tie", "C21", ("src/fp16.h", "        s = (bits & 0xFFF) != 0;", "        s = (bits & 0xFFE) != 0;")),
 b("n-ovf", "C21", ("src/fp16.h", "    if (exp > 142) {", "    if (exp > 142 || bits >= 0x477fe000) {")),
 b("n-nan", "C21", ("src/fp16.h", "(bits & 0x7FFFFF) != 0));", "(bits & 0x7FFFFE) != 0));")),
 # C22
 b("n-lblend", "C22 C12", (C, "        } while (*text && column > 0);", "        } while (column > 0);")),
 b("n-ws", "C22", (C, "    while (is_contained(\" \\t\\r\\n\", *text)) {\n        next();\n    }\n    token token;", "    while (is_contained(\" \\t\\r\\n\\v\", *text)) {\n        if (*text != '\\v') {\n            next();\n        }\n    }\n    token token;")),
 # C01..C09
 b("n-guardpo", "C01 C03", (O, "        if (op.value & (1ULL << address)) {\n            return fail(token, \"negation can't be combined with .PO\");\n        }\n        op.add_bits(1ULL << address);\n        token = ctx.tokenize();\n    }\n    return {};\n}\n\ntemplate <int address>\nDEFINE_OPERAND(tilde)", "        op.value |= 1ULL << address;\n        token = ctx.tokenize();\n    }\n    return {};\n}\n\ntemplate <int address>\nDEFINE_OPERAND(tilde)")),
 b("n-addrneg", "C02 C03", (O, "-(1 << (size - 1));", "-(1 << (size - 1)) - 1;")),
 b("n-align", "C02 C10", (O, "                if (value & max_bits(shr)) {", "                if (shr > 3 && (value & max_bits(shr))) {")),
 b("n-xmad", "C04", (O, "        } else if (!equal(token, \".U16\")) {\n            return fail(token, \"expected .S16 or .U16\");\n        }\n\n        token = ctx.tokenize();\n        return {};\n    }\n\n    DEFINE_DOT_TABLE(mode_a", "        } else if (!equal(token, \".U16\")) {\n            return {};\n        }\n\n        token = ctx.tokenize();\n        return {};\n    }\n\n    DEFINE_DOT_TABLE(mode_a")),
 b("n-invpred", "C05", (O, "7 - token.data.predicate.index", "(7 - token.data.predicate.index) & 6")),
 b("n-guardneg", "C05 C11", (C, "(token.data.predicate.negated = *text == '!')", "(token.data.predicate.negated = *text == '!' ? 2 : 0)")),
 b("n-deprange", "C06", (P, "            const uint32_t mask = 1U << token.data.immediate;\n            if (wait_barrier & mask) {", "            const uint32_t mask = 1U << token.data.immediate;\n            if (wait_barrier == mask) {")),
 b("n-lbl64", "C08", (O, "    if (value > max || value < min) {", "    if (static_cast<int32_t>(value) > max || static_cast<int32_t>(value) < min) {")),
 b("n-lblpc", "C08", (P, "    if (ctx.pc % 0x20 == 0) {\n        ctx.pc += 8;\n    }\n    if (token.type == token_type::at) {", "    if (ctx.pc % 0x20 == 0 && token.type != token_type::at) {\n        ctx.pc += 8;\n    }\n    if (token.type == token_type::at) {")),
 b("n-lblcase", "C08", (C, "        while (is_alnum(*text) || *text == '_') {\n            advance();\n        }\n        if (*text == ':') {", "        while (is_alnum(*text) || *text == '_') {\n            advance();\n        }\n        while (*text == ' ') {\n            advance();\n        }\n        if (*text == ':') {")),
 b("n-opsave", "C09", (P, "        op = saved_op;\n    }", "        op.value = saved_op.value;\n    }")),
 b("n-prevform", "C09 C03", (P, "        ctx = saved_context;\n", "        const auto failed_pc = ctx.pc;\n        ctx = saved_context;\n        ctx.pc = failed_pc + (score > 1000 ? 8 : 0);\n")),
]
