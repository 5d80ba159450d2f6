"""Further edits that keep all behaviour, in the style of ordinary refactorings."""
C, H, O, P, N, CL = "src/context.cpp", "src/helper.cpp", "src/operand.h", "src/parse.cpp", "src/nxas.cpp", "src/command_line.cpp"
ISA = ["C03", "C01", "C20", "C18", "C14", "C12"]
SAME = [
 # special floats read by one helper with an optional
 ("rf-special", ISA, [(H, "error assemble_float_immediate(context& ctx", '''enum class special
{
    qnan,
    inf,
};

static std::optional<special> parse_special(context& ctx, token& token, bool& negate)
{
    negate = token.type == token_type::minus;
    if (token.type == token_type::plus || negate) {
        token = ctx.tokenize();
    }
    if (equal(token, "QNAN")) {
        return special::qnan;
    }
    if (equal(token, "INF")) {
        return special::inf;
    }
    return std::nullopt;
}

error assemble_float_immediate(context& ctx'''), (H, '''        const bool negate = token.type == token_type::minus;
        if (token.type != token_type::identifier) {
            token = ctx.tokenize();
        }
        if (equal(token, "QNAN")) {
            value = std::numeric_limits<float>::quiet_NaN();
        } else if (equal(token, "INF")) {
            value = std::numeric_limits<float>::infinity();
        } else {
            return fail(token, MESSAGE);
        }
        if (negate) {
            value = -value;
        }
        break;''', '''        bool negate = false;
        const std::optional<special> kind = parse_special(ctx, token, negate);
        if (!kind) {
            return fail(token, MESSAGE);
        }
        value = *kind == special::qnan ? std::numeric_limits<float>::quiet_NaN() : std::numeric_limits<float>::infinity();
        value = negate ? -value : value;
        break;'''), (H, '''        const bool negate = token.type == token_type::minus;
        if (token.type != token_type::identifier) {
            token = ctx.tokenize();
        }
        if (equal(token, "QNAN")) {
            value = 0x7fff;
        } else if (equal(token, "INF")) {
            value = 0x7c00;
        } else {
            return fail(token, MESSAGE);
        }
''', '''        bool negate;
        const std::optional<special> kind = parse_special(ctx, token, negate);
        if (!kind.has_value()) {
            return fail(token, MESSAGE);
        }
        switch (*kind) {
        case special::qnan:
            value = 0x7fff;
            break;
        case special::inf:
            value = 0x7c00;
            break;
        }
''')]),
 # bit tricks
 ("rf-bits", ISA, [(H, '''    uint64_t raw = 0;
    uint64_t negative = 0;
    if (value < 0) {
        raw = (value - (1 << 19)) & max_bits(19);
        negative = 1;
    } else {
        raw = static_cast<uint64_t>(value);
        negative = 0;
    }

    op.add_bits(raw << 20);
    op.add_bits(negative << 56);
''', '''    const uint64_t raw = static_cast<uint64_t>(value) & 0x7ffff;
    const uint64_t sign = static_cast<uint64_t>(value) >> 63;
    op.add_bits(raw << 20 | sign << 56);
'''), (H, "if (offset % 4) {", "if ((offset & 3) != 0) {"), (H, '''    uint32_t raw;
    std::memcpy(&raw, &value, sizeof(raw));
    if (bits == 20) {''', '''    const uint32_t raw = std::bit_cast<uint32_t>(value);
    if (bits == 20) {'''), (H, '''        op.add_bits(static_cast<uint64_t>((raw << 1) >> 13) << 20);
        if (raw >> 31 != 0) {
            op.add_bits(1ULL << 56);
        }''', '''        const uint64_t magnitude = raw & 0x7fffffffU;
        op.add_bits((magnitude >> 12) << 20);
        op.add_bits(static_cast<uint64_t>(raw >> 31) << 56);'''), (H, '''    uint64_t raw;
    std::memcpy(&raw, &value, sizeof(raw));
    op.add_bits((static_cast<uint64_t>(raw << 1) >> 45) << 20);''', '''    const auto raw = std::bit_cast<uint64_t>(value) & ~(1ULL << 63);
    op.add_bits(raw >> 44 << 20);''')]),
 # reuse by table, equality by operator, search by algorithm
 ("rf-find", ISA + ["C04", "C06"], [(H, '''    switch (address) {
    case 8:
        op.add_reuse(reuse_flag::gpr8);
        break;
    case 20:
        op.add_reuse(reuse_flag::gpr20);
        break;
    case 39:
        op.add_reuse(reuse_flag::gpr39);
        break;
    default:
        return fail(token, "register cannot be reused");
    }

    token = ctx.tokenize();
    return {};''', '''    static constexpr struct
    {
        int address;
        unsigned flag;
    } flags[] = {{8, reuse_flag::gpr8}, {20, reuse_flag::gpr20}, {39, reuse_flag::gpr39}};
    for (const auto& [where, flag] : flags) {
        if (where == address) {
            op.add_reuse(flag);
            token = ctx.tokenize();
            return {};
        }
    }
    return fail(token, "register cannot be reused");'''), (H, "    return token.data.string.compare(string) == 0;", "    return token.data.string == string;"),
   (H, '''        if (prefix.compare(text.substr(0, std::size(prefix))) != 0) {
            return {};
        }
        text = text.substr(std::size(prefix));''', '''        if (!text.starts_with(prefix)) {
            return {};
        }
        text.remove_prefix(prefix.size());'''), (H, '''    for (size_t i = 0; table[i]; ++i) {
        if (text.compare(table[i]) != 0) {
            continue;
        }
        return static_cast<uint64_t>(i);
    }
    return {};''', '''    uint64_t index = 0;
    for (const char* const* entry = table; *entry != nullptr; ++entry, ++index) {
        if (text == *entry) {
            return index;
        }
    }
    return std::nullopt;''')]),
 # CHECK written out, tokens by a helper
 ("rf-expect", ISA, [(H, '''    CHECK(confirm_type_next(ctx, token, token_type::bracket_left));

    token = ctx.tokenize();
    uint64_t value;
    CHECK(convert_integer(token, 0, max_bits(5), &value));
    op.add_bits(static_cast<uint64_t>(value) << 34);

    CHECK(confirm_type_next(ctx, token, token_type::bracket_right));
    CHECK(confirm_type_next(ctx, token, token_type::bracket_left));

    token = ctx.tokenize();
    CHECK(convert_integer(token, INT16_MIN, INT16_MAX, &value));
    const int offset = static_cast<int16_t>(value);
''', '''    uint64_t value = 0;
    const auto bracketed = [&](int64_t min, int64_t max) -> error {
        CHECK(confirm_type_next(ctx, token, token_type::bracket_left));
        token = ctx.tokenize();
        CHECK(convert_integer(token, min, max, &value));
        return {};
    };
    CHECK(bracketed(0, max_bits(5)));
    const uint64_t index = value;
    CHECK(confirm_type_next(ctx, token, token_type::bracket_right));
    CHECK(bracketed(INT16_MIN, INT16_MAX));
    op.add_bits(index << 34);
    const int offset = static_cast<int>(static_cast<int64_t>(value));
'''), (H, '''    int64_t value = token.data.immediate;
    if (value < min || value > max) {
        return fail''', '''    const int64_t value = token.data.immediate;
    const bool in_range = min <= value && value <= max;
    if (!in_range) {
        return fail''')]),
 # operand.h: helpers
 ("rf-require", ISA + ["C04"], [(O, "DEFINE_OPERAND(comma)\n", '''inline error require_text(context& ctx, token& token, const char* text, const char* message)
{
    if (!equal(token, text)) {
        return fail(token, "%s", message);
    }
    token = ctx.tokenize();
    return {};
}

DEFINE_OPERAND(comma)
'''), (O, '''        if (!equal(token, ".P")) {
            return fail(token, "expected .P");
        }
        op.add_bits(1ULL << 31);
        token = ctx.tokenize();
        return {};''', '''        op.add_bits(1ULL << 31);
        return require_text(ctx, token, ".P", "expected .P");'''), (O, '''        if (!equal(token, ".PHYS")) {
            return fail(token, "expected .PHYS");
        }
        token = ctx.tokenize();
        return {};''', '''        return require_text(ctx, token, ".PHYS", "expected .PHYS");'''), (O, '''        if (!equal(token, ".LUT")) {
            return fail(token, "expected .LUT");
        }
        token = ctx.tokenize();
        return {};''', '''        if (error message = require_text(ctx, token, ".LUT", "expected .LUT")) {
            return message;
        }
        return {};''')]),
 ("rf-dot", ISA + ["C04"], [(O, '''        static const char* table[] = {__VA_ARGS__, nullptr};                                       \\
        const std::optional<uint64_t> result = find_in_table(token, table, ".");                   \\
        if constexpr (default_value < 0) {                                                         \\
            if (!result) {                                                                         \\
                return fail(token, "invalid identifier");                                          \\
            }                                                                                      \\
        }                                                                                          \\
        if (result) {                                                                              \\
            token = ctx.tokenize();                                                                \\
        }                                                                                          \\
        op.add_bits(result.value_or(default_value) << address);                                    \\
        return {};                                                                                 \\
''', '''        static constexpr const char* table[] = {__VA_ARGS__, nullptr};                             \\
        return assemble_dot_table(ctx, op, token, table, default_value, address);                  \\
'''), (O, "typedef error (*operand)(context&, token&, opcode&);\n", '''typedef error (*operand)(context&, token&, opcode&);

inline error assemble_dot_table(context& ctx, opcode& op, token& token, const char* const* table, int default_value,
                                int address)
{
    uint64_t value = static_cast<uint64_t>(default_value);
    if (const auto found = find_in_table(token, table, "."); found.has_value()) {
        value = *found;
        token = ctx.tokenize();
    } else if (default_value < 0) {
        return fail(token, "invalid identifier");
    }
    op.add_bits(value << address);
    return {};
}
''')]),
 ("rf-label", ISA + ["C08", "C02"], [(O, '''    static constexpr int64_t max = max_bits(23);
    static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 1;
    const int64_t value = absolute - ctx.pc - 8;
    if (value > max || value < min) {
        return fail(token, "label out of range");
    }
    op.add_bits((static_cast<uint64_t>(value) & 0x7FFFFF) << 20);
    op.add_bits((value < 0 ? 1ULL : 0ULL) << 43);
''', '''    constexpr int64_t limit = 1LL << 23;
    const int64_t next = static_cast<int64_t>(ctx.pc) + 8;
    const int64_t distance = absolute - next;
    if (distance < -limit || distance >= limit) {
        return fail(token, "label out of range");
    }
    const uint64_t field = static_cast<uint64_t>(distance) & max_bits(24);
    op.add_bits(field << 20);
''')]),
 ("rf-mirror", ISA, [(O, '''    // Hack mirror detecting by restoring the bits and then comparing
    const uint64_t old_op_value = op.value;
    op.value &= ~(uint64_t{0xff} << address);
    if (auto err = dgpr<address>(ctx, token, op)) {
        return err;
    }
    if (op.value != old_op_value) {
        return fail(token, "source register is not mirrored to destination register");
    }
    return {};''', '''    constexpr uint64_t mask = uint64_t{0xff} << address;
    const uint64_t expected = op.value & mask;
    op.value ^= expected;
    if (error message = dgpr<address>(ctx, token, op); message) {
        return message;
    }
    const bool mirrored = (op.value & mask) == expected;
    return mirrored ? error{} : fail(token, "source register is not mirrored to destination register");''')]),
 ("rf-memory", ISA + ["C02"], [(O, '''        uint8_t regster = ZERO_REGISTER;
        if (token.type == token_type::regster) {
            regster = token.data.regster;
            token = ctx.tokenize();

            try_reuse(ctx, token, op, 8);
        }
        op.add_bits(static_cast<uint64_t>(regster) << 8);

        if constexpr (imm_offset) {
            if (token.type == token_type::immediate) {
                const int is_zero_reg = regster == ZERO_REGISTER;
                const int64_t min = is_zero_reg ? 0 : -(1 << (size - 1));
                const int64_t max = max_bits(is_zero_reg ? size : (size - 1));
''', '''        int base = ZERO_REGISTER;
        if (token.type == token_type::regster) {
            base = token.data.regster;
            token = ctx.tokenize();
            CHECK(try_reuse(ctx, token, op, 8));
        }
        op.add_bits(static_cast<uint64_t>(base) << 8);

        if constexpr (imm_offset) {
            if (token.type == token_type::immediate) {
                int64_t min = -(int64_t{1} << (size - 1));
                int64_t max = (int64_t{1} << (size - 1)) - 1;
                if (base == ZERO_REGISTER) {
                    min = 0;
                    max = static_cast<int64_t>(max_bits(size));
                }
''')]),
 # parse.cpp
 ("rf-guard", ISA + ["C05", "C07", "C09", "C10", "C19", "C06"], [(P, "bool parse_instruction(context& ctx, opcode& op)\n{\n", '''static void parse_guard(context& ctx, token& token, opcode& op)
{
    if (token.type != token_type::at) {
        // write always execute by default
        op.add_bits(uint64_t{TRUE_PREDICATE} << 16);
        return;
    }
    token = ctx.tokenize();
    if (error message = assemble_predicate(token, op, 16, 1)) {
        message.raise();
    }
    token = ctx.tokenize();
}

static bool is_option(const token& token)
{
    return token.type == token_type::identifier && token.data.string.front() == '.';
}

bool parse_instruction(context& ctx, opcode& op)
{
'''), (P, '''    if (token.type == token_type::at) {
        token = ctx.tokenize();
        if (error message = assemble_predicate(token, op, 16, 1); message) {
            message.raise();
        }
        token = ctx.tokenize();
    } else {
        // write always execute by default
        op.add_bits(7ULL << 16);
    }
''', "    parse_guard(ctx, token, op);\n"), (P, "    while (token.type == token_type::identifier && token.data.string[0] == '.') {\n", "    while (is_option(token)) {\n"),
   (P, '''    const size_t num_insns = sizeof(table) / sizeof(table[0]);
    for (size_t i = 0; i < num_insns; ++i) {
        const insn& insn = table[i];
        if (!equal''', '''    for (const insn& insn : table) {
        if (!equal'''), (P, '''        auto [insn_error, score] = parse_insn(ctx, op, insn);
        if (!insn_error) {''', '''        std::pair<error, int> outcome = parse_insn(ctx, op, insn);
        error& insn_error = outcome.first;
        const int score = outcome.second;
        if (!insn_error) {''')]),
 ("rf-try", ["C03", "C09", "C10", "C06", "C18", "C19", "C07"], [(P, "bool parse_instruction(context& ctx, opcode& op)\n{\n", '''/// Tries one form; leaves everything as it was when it does not match
static bool try_form(context& ctx, opcode& op, const insn& insn, error& best, int& best_score)
{
    const context before_ctx = ctx;
    const opcode before_op = op;
    auto [message, score] = parse_insn(ctx, op, insn);
    if (!message) {
        return true;
    }
    ctx = before_ctx;
    op = before_op;
    if (score > best_score) {
        best_score = score;
        best = std::move(message);
    }
    return false;
}

bool parse_instruction(context& ctx, opcode& op)
{
'''), (P, "    const context saved_context = ctx;\n    const opcode saved_op = op;\n", ""), (P, '''        auto [insn_error, score] = parse_insn(ctx, op, insn);
        if (!insn_error) {
            // successfully decoded instruction
            ctx.pc += 8;
            return true;
        }
        if (score > error_score) {
            error_message = std::move(insn_error);
            error_score = score;
        }
        // failure, restore context
        ctx = saved_context;
        op = saved_op;
''', '''        if (try_form(ctx, op, insn, error_message, error_score)) {
            ctx.pc += 8;
            return true;
        }
''')]),
 ("rf-sched", ["C06", "C10", "C18", "C22", "C03"], [(P, "static error assemble_sched(context& ctx, token& token, opcode& op)\n{\n", '''static error parse_index(context& ctx, token& token, int64_t max, const char* message, uint32_t& result)
{
    token = ctx.tokenize();
    if (error wrong = confirm_type(token, token_type::immediate)) {
        return wrong;
    }
    if (token.data.immediate < 0 || token.data.immediate > max) {
        return fail(token, "%s", message);
    }
    result = static_cast<uint32_t>(token.data.immediate);
    return {};
}

static error assemble_sched(context& ctx, token& token, opcode& op)
{
'''), (P, '''            token = ctx.tokenize();
            if (error message = confirm_type(token, token_type::immediate); message) {
                return message;
            }
            if (token.data.immediate < 0 || token.data.immediate > 15) {
                return fail(token, "number of waited clocks must be between 0 and 15 inclusively");
            }
            stall = static_cast<uint32_t>(token.data.immediate);
''', '''            uint32_t clocks;
            CHECK(parse_index(ctx, token, 15, "number of waited clocks must be between 0 and 15 inclusively", clocks));
            stall = clocks;
'''), (P, '''            const bool is_write = equal(token, "WB");
            if (is_write ? write_barrier : read_barrier) {
                return fail(token, "%s barrier already specified", is_write ? "write" : "read");
            }
            token = ctx.tokenize();
            if (error message = confirm_type(token, token_type::immediate); message) {
                return message;
            }
            if (token.data.immediate < 0 || token.data.immediate > 5) {
                return fail(token, "barrier index must be between 0 and 5 inclusively");
            }
            if (is_write) {
                write_barrier = static_cast<uint32_t>(token.data.immediate);
            } else {
                read_barrier = static_cast<uint32_t>(token.data.immediate);
            }
''', '''            const bool is_write = equal(token, "WB");
            std::optional<uint32_t>& barrier = is_write ? write_barrier : read_barrier;
            if (barrier) {
                return fail(token, "%s barrier already specified", is_write ? "write" : "read");
            }
            CHECK(parse_index(ctx, token, 5, "barrier index must be between 0 and 5 inclusively", barrier.emplace(0)));
''')]),
 ("rf-layout", ["C07", "C12", "C14", "C22"], [(N, '''    for (index = 0; index < num_instructions; ++index) {
        if (index % 3 == 0) {
            uint64_t sched = 0;
            for (size_t address = 0; address < 3; ++address) {
                sched |= generate_sched(opcodes, index, num_instructions, address);
            }
            blob.push_back(sched);
        }
        blob.push_back(opcodes[index].value);
    }
    while (blob.size() % 4) {
        blob.push_back(0x50B0000000070F00ULL);
    }
''', '''    for (size_t base = 0; base < num_instructions; base += 3) {
        uint64_t sched = 0;
        for (size_t slot = 0; slot != 3; ++slot) {
            sched += generate_sched(opcodes, base, num_instructions, slot);
        }
        blob.push_back(sched);
        for (size_t slot = 0; slot < 3; ++slot) {
            const size_t at = base + slot;
            blob.push_back(at < num_instructions ? opcodes[at].value : NOP);
        }
    }
'''), (N, "static uint64_t generate_sched(", '''static constexpr uint64_t NOP = 0x50B0000000070F00ULL;

static uint64_t generate_sched(''')]),
 ("rf-emplace", ["C07", "C12", "C14", "C22"], [(N, '''    const size_t max_decode_instructions = std::ranges::count(code, ';') + 1;
    std::vector<opcode> opcodes(max_decode_instructions);

    size_t index = 0;
    while (parse_instruction(ctx, opcodes[index++])) {
    }
    assert(index == max_decode_instructions);
    const size_t num_instructions = index - 1;
''', '''    std::vector<opcode> opcodes;
    while (true) {
        opcode op{};
        if (!parse_instruction(ctx, op)) {
            break;
        }
        opcodes.push_back(op);
    }
    const size_t num_instructions = opcodes.size();
    size_t index = 0;
'''), (N, "blob.reserve(max_decode_instructions * 4 / 3 + 4);", "blob.reserve(num_instructions * 4 / 3 + 4);")]),
 ("rf-token", ["C18", "C03", "C11"], [("src/token.cpp", "std::string_view info(const token& token)\n{\n    if (token.type != token_type::identifier) {\n        return {};\n    }\n    return token.data.string;\n", "std::string_view info(const token& token)\n{\n    return token.type == token_type::identifier ? token.data.string : std::string_view{};\n")]),
 ("rf-dksh", ["C15", "C16", "C12"], [("src/dksh.cpp", '''    switch (*type) {
    case program_type::vertex:
        if (second_entrypoint || second_num_gprs) {
            fatal_error("dual vertex shaders are not implemented");
        }
        break;
    case program_type::fragment:
        program_header.frag.early_fragment_tests = early_fragment_tests;
        program_header.frag.post_depth_coverage = post_depth_coverage;
        program_header.frag.persample_invocation = persample_invocation;
        break;
    case program_type::compute:
        program_header.comp.block_dims = block_dimensions;
        program_header.comp.shared_mem_sz = align256(shared_mem_size);
        program_header.comp.local_pos_mem_sz = local_pos_sz;
        program_header.comp.local_neg_mem_sz = local_neg_sz;
        program_header.comp.crs_sz = crs_sz;
        program_header.comp.num_barriers = num_barriers;
        break;
    default:
        break;
    }
''', '''    const program_type stage = *type;
    if (stage == program_type::vertex && (second_entrypoint || second_num_gprs)) {
        fatal_error("dual vertex shaders are not implemented");
    }
    if (stage == program_type::fragment) {
        auto& frag = program_header.frag;
        frag.early_fragment_tests = early_fragment_tests;
        frag.post_depth_coverage = post_depth_coverage;
        frag.persample_invocation = persample_invocation;
    } else if (stage == program_type::compute) {
        auto& comp = program_header.comp;
        comp.num_barriers = num_barriers;
        comp.crs_sz = crs_sz;
        comp.local_pos_mem_sz = local_pos_sz;
        comp.shared_mem_sz = (shared_mem_size + 255) / 256 * 256;
        std::copy(block_dimensions.begin(), block_dimensions.end(), comp.block_dims.begin());
    }
'''), ("src/dksh.cpp", "#include <array>\n", "#include <algorithm>\n#include <array>\n")]),
 ("rf-label-table", ["C08", "C19", "C10", "C12", "C22", "C14"], [(C, '''        const char* const potential_label = text;
        token label_token;
        label_token.filename = filename;
        label_token.line = line;
        label_token.column = column;
        while (is_alnum(*text) || *text == '_') {
            advance();
        }
        if (*text == ':') {
            std::string label;
            label.append(potential_label, static_cast<size_t>(text - potential_label));
            if (!labels.insert({label, pc}).second) {
                fatal_error(label_token, "label \\33[1m%s\\33[0m already defined", label.c_str());
            }
        }
        if (*text) {
            next_line();
        }
''', '''        token label_token;
        label_token.filename = filename;
        label_token.line = line;
        label_token.column = column;
        std::string label;
        for (; is_alnum(*text) || *text == '_'; advance()) {
            label += *text;
        }
        if (*text == ':') {
            const auto [it, inserted] = labels.try_emplace(label, pc);
            if (!inserted) {
                fatal_error(label_token, "label \\33[1m%s\\33[0m already defined", it->first.c_str());
            }
        } else if (*text == '\\0') {
            break;
        }
        next_line();
'''), (C, "    if (it == std::end(labels)) {\n        return {};\n    }\n    return it->second;", "    return it != labels.end() ? std::optional<int64_t>{it->second} : std::nullopt;"), (C, "    const auto it = labels.find(std::string{label});", "    const auto it = labels.find(std::string(label));")]),
]
