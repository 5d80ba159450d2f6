"""More edits that keep all behaviour (a helper extracted, statements reordered, a loop rewritten)."""
C, H, O, P, N, CL, X, E, T, D, W = ("src/context.cpp", "src/helper.cpp", "src/operand.h", "src/parse.cpp", "src/nxas.cpp", "src/command_line.cpp",
                                    "src/options.cpp", "src/error.cpp", "src/token.cpp", "src/dksh.cpp", "src/write.cpp")
SAME = [
 # ------------------------------------------------------------------ nxas.cpp
 ("rg-resize", ["C07", "C06", "C14", "C22", "C12"], [(N, '''    while (blob.size() % 4) {
        blob.push_back(0x50B0000000070F00ULL);
    }''', '''    constexpr uint64_t nop = 0x50B0000000070F00ULL;
    const size_t padding = (4 - blob.size() % 4) % 4;
    blob.insert(blob.end(), padding, nop);''')]),
 ("rg-blocks", ["C07", "C06", "C14", "C22", "C12"], [(N, '''    for (index = 0; index < num_instructions; ++index) {
        if (index % 3 == 0) {
            uint64_t sched = 0;
            for (size_t address = 0; address < 3; ++address) {
                sched |= generate_sched(opcodes, index, num_instructions, address);
            }
            blob.push_back(sched);
        }
        blob.push_back(opcodes[index].value);
    }''', '''    for (size_t block = 0; block < num_instructions; block += 3) {
        uint64_t sched = generate_sched(opcodes, block, num_instructions, 0);
        sched |= generate_sched(opcodes, block, num_instructions, 1);
        sched |= generate_sched(opcodes, block, num_instructions, 2);
        blob.push_back(sched);
        const size_t block_end = std::min(block + 3, num_instructions);
        for (size_t i = block; i < block_end; ++i) {
            blob.push_back(opcodes[i].value);
        }
    }''')]),
 ("rg-subspan", ["C07", "C06", "C14", "C12"], [(N, '''static uint64_t generate_sched(std::span<const opcode> opcodes, size_t index,
                               size_t num_instructions, size_t address)
{
    if (index + address >= num_instructions) {
        return 0x7E0ULL << (address * 21);
    }
    const opcode& op = opcodes[index + address];
    return (op.sched.raw | (static_cast<uint64_t>(op.reuse) << 17)) << (address * 21);
}''', '''static uint64_t generate_sched(std::span<const opcode> block)
{
    uint64_t sched = 0;
    size_t shift = 0;
    for (const opcode& op : block) {
        const uint64_t reuse = op.reuse;
        sched |= (op.sched.raw | reuse << 17) << shift;
        shift += 21;
    }
    for (; shift < 63; shift += 21) {
        sched |= 0x7E0ULL << shift;
    }
    return sched;
}'''), (N, '''            uint64_t sched = 0;
            for (size_t address = 0; address < 3; ++address) {
                sched |= generate_sched(opcodes, index, num_instructions, address);
            }
            blob.push_back(sched);''', '''            const size_t count = std::min<size_t>(3, num_instructions - index);
            blob.push_back(generate_sched(std::span<const opcode>(opcodes).subspan(index, count)));''')]),
 ("rg-grow", ["C07", "C14", "C22", "C12", "C09"], [(N, '''    const size_t max_decode_instructions = std::ranges::count(code, ';') + 1;
    std::vector<opcode> opcodes(max_decode_instructions);

    size_t index = 0;
    while (parse_instruction(ctx, opcodes[index++])) {
    }
    assert(index == max_decode_instructions);
    const size_t num_instructions = index - 1;
''', '''    const size_t max_decode_instructions = std::ranges::count(code, ';') + 1;
    std::vector<opcode> opcodes;
    opcodes.reserve(max_decode_instructions);

    size_t index = 0;
    for (;;) {
        opcode op;
        if (!parse_instruction(ctx, op)) {
            break;
        }
        opcodes.push_back(op);
    }
    const size_t num_instructions = opcodes.size();
    assert(num_instructions + 1 == max_decode_instructions);
''')]),
 # ----------------------------------------------------------------- parse.cpp
 ("rg-index", ["C06", "C18", "C19", "C10", "C13"], [(P, '''static error assemble_sched(context& ctx, token& token, opcode& op)
{''', '''static error sched_value(context& ctx, token& token, int64_t max, const char* message,
                         uint32_t& value)
{
    token = ctx.tokenize();
    if (error mismatch = confirm_type(token, token_type::immediate); mismatch) {
        return mismatch;
    }
    const int64_t immediate = token.data.immediate;
    if (immediate < 0 || immediate > max) {
        return fail(token, "%s", message);
    }
    value = static_cast<uint32_t>(immediate);
    return {};
}

static error assemble_sched(context& ctx, token& token, opcode& op)
{'''), (P, '''            token = ctx.tokenize();
            if (error message = confirm_type(token, token_type::immediate); message) {
                return message;
            }
            if (token.data.immediate < 0 || token.data.immediate > 15) {
                return fail(token, "number of waited clocks must be between 0 and 15 inclusively");
            }
            stall = static_cast<uint32_t>(token.data.immediate);
            token = ctx.tokenize();''', '''            uint32_t clocks = 0;
            CHECK(sched_value(ctx, token, 15,
                              "number of waited clocks must be between 0 and 15 inclusively",
                              clocks));
            stall = clocks;
            token = ctx.tokenize();'''), (P, '''            token = ctx.tokenize();
            if (error message = confirm_type(token, token_type::immediate); message) {
                return message;
            }
            if (token.data.immediate < 0 || token.data.immediate > 5) {
                return fail(token, "dependency barrier index must be between 0 and 5 inclusively");
            }
            const uint32_t mask = 1U << token.data.immediate;''', '''            uint32_t index = 0;
            CHECK(sched_value(ctx, token, 5,
                              "dependency barrier index must be between 0 and 5 inclusively",
                              index));
            const uint32_t mask = 1U << index;''')]),
 ("rg-raw", ["C06", "C07", "C14"], [(P, '''    op.sched.values = {
        .stall = stall.value_or(0),
        .yield = yield ? 1U : 0U,
        .write_barrier = write_barrier.value_or(7),
        .read_barrier = read_barrier.value_or(7),
        .wait_barrier = wait_barrier,
        .padding = 0,
    };''', '''    uint64_t raw = stall.value_or(0);
    raw |= static_cast<uint64_t>(yield) << 4;
    raw |= static_cast<uint64_t>(write_barrier.value_or(7)) << 5;
    raw |= static_cast<uint64_t>(read_barrier.value_or(7)) << 8;
    raw |= static_cast<uint64_t>(wait_barrier) << 11;
    op.sched.raw = raw;''')]),
 ("rg-copies", ["C09", "C03", "C08", "C14", "C18", "C19"], [(P, '''    const context saved_context = ctx;
    const opcode saved_op = op;
''', ''), (P, '''        auto [insn_error, score] = parse_insn(ctx, op, insn);
        if (!insn_error) {
            // successfully decoded instruction
            ctx.pc += 8;
            return true;
        }''', '''        context attempt_context = ctx;
        opcode attempt_op = op;
        auto [insn_error, score] = parse_insn(attempt_context, attempt_op, insn);
        if (!insn_error) {
            // successfully decoded instruction
            ctx = attempt_context;
            op = attempt_op;
            ctx.pc += 8;
            return true;
        }'''), (P, '''        // failure, restore context
        ctx = saved_context;
        op = saved_op;
''', '')]),
 ("rg-outcome", ["C09", "C03", "C18", "C19", "C10"], [(P, "static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& insn)\n{", '''struct outcome
{
    error message;
    int score = 0;
};

static outcome parse_insn(context& ctx, opcode& op, const insn& insn)
{'''), (P, '''        auto [insn_error, score] = parse_insn(ctx, op, insn);
        if (!insn_error) {
            // successfully decoded instruction
            ctx.pc += 8;
            return true;
        }
        if (score > error_score) {
            error_message = std::move(insn_error);
            error_score = score;
        }''', '''        outcome result = parse_insn(ctx, op, insn);
        const bool success = !result.message;
        if (success) {
            // successfully decoded instruction
            ctx.pc += 8;
            return true;
        }
        if (error_score < result.score) {
            error_score = result.score;
            std::swap(error_message, result.message);
        }''')]),
 ("rg-rangefor", ["C09", "C03", "C14", "C12"], [(P, '''    const size_t num_insns = sizeof(table) / sizeof(table[0]);
    for (size_t i = 0; i < num_insns; ++i) {
        const insn& insn = table[i];
        if (!equal(token, insn.mnemonic)) {
            continue;
        }''', '''    for (const insn& insn : table) {
        if (token.data.string != insn.mnemonic) {
            continue;
        }''')]),
 ("rg-pred", ["C05", "C01", "C13", "C10"], [(P, '''    uint64_t bits = token.data.predicate.index;
    bits |= (token.data.predicate.negated ? 1 : 0) << 3;
    bits <<= shift;
    op.add_bits(bits);
    return {};''', '''    const auto& predicate = token.data.predicate;
    op.add_bits(static_cast<uint64_t>(predicate.index) << shift);
    if (predicate.negated) {
        op.add_bits(8ULL << shift);
    }
    return {};''')]),
 ("rg-optloop", ["C16", "C15", "C19", "C22", "C07"], [(P, '''    while (token.type == token_type::identifier && token.data.string[0] == '.') {
        ctx.parse_option(token);
    }''', '''    for (;;) {
        if (token.type != token_type::identifier || !token.data.string.starts_with('.')) {
            break;
        }
        ctx.parse_option(token);
    }''')]),
 # --------------------------------------------------------------- context.cpp
 ("rg-predicate", ["C11", "C12", "C13", "C19", "C22"], [(C, '''        bool is_true = false;
        std::optional<int> index;
        if (is_contained("Tt", *text)) {
            is_true = true;
            index = 7;
        } else if (is_decimal(*text)) {
            index = *text - '0';
        }
        if (index) {
            // check the next character if the next character is a separator
            next();
            if (is_separator(*text)) {
                if (!is_true && (*index > 6 || *index < 0)) {
                    fatal_error(token, "out of range predicate");
                }
                token.data.predicate.index = *index;
                return token;
            }''', '''        const bool is_true = *text == 'T' || *text == 't';
        if (is_true || is_decimal(*text)) {
            const int index = is_true ? 7 : *text - '0';
            // check the next character if the next character is a separator
            next();
            if (is_separator(*text)) {
                if (index == 7 && !is_true) {
                    fatal_error(token, "out of range predicate");
                }
                if (index > 7) {
                    fatal_error(token, "out of range predicate");
                }
                token.data.predicate.index = index;
                return token;
            }''')]),
 ("rg-number", ["C11", "C12", "C13", "C19", "C22", "C18"], [(C, '''        bool has_hex = false;
        bool is_floating_point = false;
        bool is_hex = false;
        while (is_decimal(*text) || is_contained("+-", *text) ||
               (is_hex = is_contained("AaBbCcDdEeFfXx", *text))) {
            has_hex |= is_hex;
            next();
        }
        if (*text == '.') {
            if (has_hex) {
                fatal_error(token, "floating point literal cannot have hex characters");
            }
            is_floating_point = true;
            do {
                next();
            } while (is_decimal(*text));
        }''', '''        bool has_hex = false;
        for (;; next()) {
            if (is_contained("AaBbCcDdEeFfXx", *text)) {
                has_hex = true;
            } else if (!is_decimal(*text) && !is_contained("+-", *text)) {
                break;
            }
        }
        const bool is_floating_point = *text == '.';
        if (is_floating_point && has_hex) {
            fatal_error(token, "floating point literal cannot have hex characters");
        }
        if (is_floating_point) {
            next();
            while (is_decimal(*text)) {
                next();
            }
        }''')]),
 ("rg-convert", ["C11", "C12", "C13", "C20", "C18"], [(C, '''        // TODO: use charconv here once gcc 11 ships
        char* conversion_end = nullptr;
        if (is_floating_point) {
            token.type = token_type::float_immediate;
            token.data.float_immediate = std::strtof(contents, &conversion_end);
            if (std::abs(token.data.float_immediate) > std::numeric_limits<float>::max()) {
                fatal_error(token, "floating point literal is out of range");
            }
        } else {
            token.type = token_type::immediate;
            errno = 0;
            token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
            if (errno == ERANGE) {
                fatal_error(token, "integer literal is out of range");
            }
        }''', '''        // TODO: use charconv here once gcc 11 ships
        char* conversion_end = nullptr;
        if (!is_floating_point) {
            errno = 0;
            const long long value = std::strtoll(contents, &conversion_end, 0);
            const bool overflow = errno == ERANGE;
            if (overflow) {
                fatal_error(token, "integer literal is out of range");
            }
            token.data.immediate = value;
        } else {
            const float value = std::strtof(contents, &conversion_end);
            if (std::isinf(value)) {
                fatal_error(token, "floating point literal is out of range");
            }
            token.type = token_type::float_immediate;
            token.data.float_immediate = value;
        }''')]),
 ("rg-register", ["C11", "C12", "C13", "C19", "C18"], [(C, '''        bool invalid_register = is_separator(*text);
        while (!is_separator(*text)) {
            if (!is_decimal(*text)) {
                invalid_register = true;
                break;
            }
            next();
        }
        if (!invalid_register) {''', '''        const char* const digits = text;
        while (is_decimal(*text)) {
            next();
        }
        if (text != digits && is_separator(*text)) {''')]),
 ("rg-labels", ["C08", "C12", "C14", "C22", "C18"], [(C, '''            std::string label;
            label.append(potential_label, static_cast<size_t>(text - potential_label));
            if (!labels.insert({label, pc}).second) {
                fatal_error(label_token, "label \\33[1m%s\\33[0m already defined", label.c_str());
            }''', '''            const std::string label(potential_label, text);
            const auto [it, inserted] = labels.try_emplace(label, pc);
            if (!inserted) {
                fatal_error(label_token, "label \\33[1m%s\\33[0m already defined", it->first.c_str());
            }''')]),
 ("rg-labels2", ["C08", "C12", "C14", "C22"], [(C, '''    while (*text) {
        if (!is_alpha(*text)) {
            next_line();
            continue;
        }
        const char* const potential_label = text;''', '''    for (; *text; *text ? next_line() : void()) {
        if (!is_alpha(*text)) {
            continue;
        }
        const char* const potential_label = text;'''), (C, '''        if (*text) {
            next_line();
        }
    }

    reset();''', '''    }

    reset();''')]),
 ("rg-find", ["C08", "C15", "C14", "C03"], [(C, '''    const auto it = labels.find(std::string{label});
    if (it == std::end(labels)) {
        return {};
    }
    return it->second;''', '''    if (const auto it = labels.find(std::string(label)); it != labels.end()) {
        return std::make_optional<int64_t>(it->second);
    }
    return std::nullopt;''')]),
 ("rg-marktoken", ["C19", "C11", "C18", "C12"], [(C, '''    token token;
    token.filename = filename;
    token.line = line;
    token.column = column;

    if (!*text) {''', '''    const auto mark = [this] {
        struct token here;
        here.filename = filename;
        here.line = line;
        here.column = column;
        return here;
    };
    token token = mark();

    if (*text == '\\0') {''')]),
 # ---------------------------------------------------------------- helper.cpp
 ("rg-table", ["C04", "C03", "C13", "C12"], [(H, '''    std::string_view text = token.data.string;

    if (!prefix.empty()) {
        if (prefix.compare(text.substr(0, std::size(prefix))) != 0) {
            return {};
        }
        text = text.substr(std::size(prefix));
    }
    if (text.empty()) {
        // empty table entries are holes, they can't be named
        return {};
    }

    for (size_t i = 0; table[i]; ++i) {
        if (text.compare(table[i]) != 0) {
            continue;
        }
        return static_cast<uint64_t>(i);
    }
    return {};''', '''    std::string_view text = token.data.string;
    if (!text.starts_with(prefix)) {
        return std::nullopt;
    }
    text.remove_prefix(prefix.size());

    uint64_t code = 0;
    for (const char* const* entry = table; *entry; ++entry, ++code) {
        // empty table entries are holes, they can't be named
        if (!text.empty() && text == *entry) {
            return code;
        }
    }
    return std::nullopt;''')]),
 ("rg-reuse", ["C06", "C01", "C03", "C18"], [(H, '''    switch (address) {
    case 8:
        op.add_reuse(reuse_flag::gpr8);
        break;
    case 20:
        op.add_reuse(reuse_flag::gpr20);
        break;
    case 39:
        op.add_reuse(reuse_flag::gpr39);
        break;
    default:
        return fail(token, "register cannot be reused");
    }

    token = ctx.tokenize();
    return {};''', '''    if (address == 8) {
        op.add_reuse(reuse_flag::gpr8);
    } else if (address == 20) {
        op.add_reuse(reuse_flag::gpr20);
    } else if (address == 39) {
        op.add_reuse(reuse_flag::gpr39);
    } else {
        return fail(token, "register cannot be reused");
    }
    token = ctx.tokenize();
    return {};''')]),
 ("rg-imm20", ["C02", "C03", "C01", "C10"], [(H, '''    uint64_t raw = 0;
    uint64_t negative = 0;
    if (value < 0) {
        raw = (value - (1 << 19)) & max_bits(19);
        negative = 1;
    } else {
        raw = static_cast<uint64_t>(value);
        negative = 0;
    }

    op.add_bits(raw << 20);
    op.add_bits(negative << 56);
''', '''    const uint64_t raw = static_cast<uint64_t>(value) & max_bits(19);
    const uint64_t negative = value < 0 ? 1 : 0;
    op.add_bits((raw << 20) | (negative << 56));
''')]),
 ("rg-confirm", ["C10", "C13", "C18", "C04"], [(H, '''    if (token.type == type) {
        return {};
    }
    if (token.type == token_type::none) {
        return fail(token, "expected \\33[1m%s\\33[0m", name(type));
    }
    const std::string_view tkninfo = info(token);
    return fail(token, "expected \\33[1m%s\\33[0m and got \\33[1m%s %.*s\\33[0m", name(type),
                name(token.type), static_cast<int>(std::size(tkninfo)), std::data(tkninfo));''', '''    if (token.type != type) {
        const char* const expected = name(type);
        if (token.type == token_type::none) {
            return fail(token, "expected \\33[1m%s\\33[0m", expected);
        }
        const char* const got = name(token.type);
        const std::string_view text = info(token);
        const int length = static_cast<int>(text.size());
        return fail(token, "expected \\33[1m%s\\33[0m and got \\33[1m%s %.*s\\33[0m", expected, got,
                    length, text.data());
    }
    return {};''')]),
 # ------------------------------------------------------- dksh, options, write
 ("rg-align", ["C15", "C14"], [(D, '''static constexpr size_t align256(size_t value)
{
    return (value + 0xff) & ~0xff;
}''', '''static constexpr size_t align256(size_t value)
{
    return (value + 255) / 256 * 256;
}''')]),
 ("rg-header", ["C15", "C14", "C12"], [(D, '''    dksh_program_header program_header;
    std::memset(&program_header, 0, sizeof(program_header));
''', '''    dksh_program_header program_header{};
'''), (D, '''    std::array<uint64_t, align256(dksh_size) / sizeof(uint64_t)> result{};
    char* const result_bytes = reinterpret_cast<char*>(result.data());
    std::memcpy(result_bytes, &header, sizeof(header));
    std::memcpy(result_bytes + sizeof(header), &program_header, sizeof(program_header));
    output.insert(output.end(), result.begin(), result.end());''', '''    const size_t first = output.size();
    output.resize(first + header.control_sz / sizeof(uint64_t));
    auto* const bytes = reinterpret_cast<unsigned char*>(output.data() + first);
    std::memcpy(bytes, &header, sizeof(header));
    std::memcpy(bytes + sizeof(header), &program_header, sizeof(program_header));''')]),
 ("rg-ifs", ["C15", "C14"], [(D, '''    switch (*type) {
    case program_type::vertex:
        if (second_entrypoint || second_num_gprs) {
            fatal_error("dual vertex shaders are not implemented");
        }
        break;
    case program_type::fragment:
        program_header.frag.early_fragment_tests = early_fragment_tests;
        program_header.frag.post_depth_coverage = post_depth_coverage;
        program_header.frag.persample_invocation = persample_invocation;
        break;
    case program_type::compute:
        program_header.comp.block_dims = block_dimensions;''', '''    const program_type kind = *type;
    if (kind == program_type::vertex) {
        if (second_entrypoint || second_num_gprs) {
            fatal_error("dual vertex shaders are not implemented");
        }
    } else if (kind == program_type::fragment) {
        program_header.frag.persample_invocation = persample_invocation;
        program_header.frag.post_depth_coverage = post_depth_coverage;
        program_header.frag.early_fragment_tests = early_fragment_tests;
    } else if (kind == program_type::compute) {
        for (size_t i = 0; i < block_dimensions.size(); ++i) {
            program_header.comp.block_dims[i] = block_dimensions[i];
        }'''), (D, '''        program_header.comp.num_barriers = num_barriers;
        break;
    default:
        break;
    }''', '''        program_header.comp.num_barriers = num_barriers;
    }''')]),
 ("rg-typetable", ["C16", "C15", "C18", "C19", "C14"], [(X, '''        if (equal(token, "vertex")) {
            type = program_type::vertex;
        } else if (equal(token, "tess_control") || equal(token, "hull")) {
            type = program_type::tess_control;
        } else if (equal(token, "tess_eval") || equal(token, "domain")) {
            type = program_type::tess_eval;
        } else if (equal(token, "geometry")) {
            type = program_type::geometry;
        } else if (equal(token, "fragment") || equal(token, "pixel")) {
            type = program_type::fragment;
        } else if (equal(token, "compute")) {
            type = program_type::compute;
        } else {''', '''        struct entry
        {
            const char* name;
            program_type value;
        };
        static constexpr entry entries[] = {
            {"vertex", program_type::vertex},       {"tess_control", program_type::tess_control},
            {"hull", program_type::tess_control},   {"tess_eval", program_type::tess_eval},
            {"domain", program_type::tess_eval},    {"geometry", program_type::geometry},
            {"fragment", program_type::fragment},   {"pixel", program_type::fragment},
            {"compute", program_type::compute},
        };
        for (const entry& candidate : entries) {
            if (equal(token, candidate.name)) {
                type = candidate.value;
                break;
            }
        }
        if (!type) {''')]),
 ("rg-number-option", ["C16", "C15", "C18", "C19"], [(X, '''        token = tokenize();
        if (token.type != token_type::immediate) {
            fatal_error(token, "expected shared memory size");
        }
        check_option_range(INT32_MAX - 0xff);
        shared_mem_size = static_cast<int>(token.data.immediate);
        check_option_line();''', '''        shared_mem_size =
            static_cast<int>(read_number("expected shared memory size", INT32_MAX - 0xff));
        check_option_line();'''), (X, '''        token = tokenize();
        if (token.type != token_type::immediate) {
            fatal_error(token, "expected local memory size");
        }
        check_option_range(INT32_MAX / 64);
        local_mem_size = static_cast<int>(token.data.immediate);
        check_option_line();''', '''        const int64_t size = read_number("expected local memory size", INT32_MAX / 64);
        check_option_line();
        local_mem_size = static_cast<int>(size);'''), (X, '''    const auto parse_type = [this''', '''    const auto read_number = [this, &token, &check_option_range](const char* message, int64_t max) {
        token = tokenize();
        if (token.type != token_type::immediate) {
            fatal_error(token, "%s", message);
        }
        check_option_range(max);
        return token.data.immediate;
    };
    const auto parse_type = [this''')]),
 ("rg-binary", ["C15", "C14", "C12"], [(W, '''    result.insert(result.end(), code.begin(), code.end());
    if (is_dksh) {
        result.resize(result.size() + (32 - code_size % 32) % 32);
    }
    return result;''', '''    for (const uint64_t word : code) {
        result.push_back(word);
    }
    for (size_t size = code_size; is_dksh && size % 32 != 0; ++size) {
        result.push_back(0);
    }
    return result;''')]),
 # --------------------------------------------------------------------- error
 ("rg-print", ["C18", "C19", "C10", "C17"], [(E, '''    std::fprintf(stderr, "\\33[1m%s:\\33[1m%d:%d: ", token.filename, token.line + 1,
                 token.column + 1);
    std::fprintf(stderr, "\\33[1;31merror:\\33[0m ");

    std::va_list ap;
    va_start(ap, fmt);
    std::vfprintf(stderr, fmt, ap);
    va_end(ap);
    std::fputc('\\n', stderr);

    std::exit(EXIT_FAILURE);
}

void fatal_error(const char* fmt, ...)''', '''    std::va_list ap;
    va_start(ap, fmt);
    std::fprintf(stderr, "\\33[1m%s:\\33[1m%d:%d: \\33[1;31merror:\\33[0m ", token.filename,
                 1 + token.line, 1 + token.column);
    std::vfprintf(stderr, fmt, ap);
    std::fputs("\\n", stderr);
    va_end(ap);
    std::exit(1);
}

void fatal_error(const char* fmt, ...)''')]),
 ("rg-raise", ["C18", "C10", "C17"], [(E, '''    std::fputs(message.get(), stderr);
    std::fputc('\\n', stderr);
    std::exit(EXIT_FAILURE);''', '''    std::fprintf(stderr, "%s\\n", message.get());
    std::exit(EXIT_FAILURE);''')]),
 # -------------------------------------------------------------- command line
 ("rg-read", ["C17", "C14", "C10"], [(CL, '''    std::string text;
    char buffer[4096];
    do {
        file.read(buffer, sizeof(buffer));
        text.append(buffer, static_cast<size_t>(file.gcount()));
    } while (file);''', '''    std::string text;
    std::vector<char> buffer(1 << 16);
    while (file) {
        file.read(buffer.data(), buffer.size());
        text.append(buffer.data(), buffer.data() + file.gcount());
    }''')]),
 ("rg-write", ["C17", "C14", "C10"], [(CL, '''        std::ofstream outfp(output_file, std::ios::binary);
        if (!outfp.is_open()) {
            fatal_error("%s: failed to open", output_file);
        }
        outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
        outfp.close();
        if (!outfp) {
            fatal_error("%s: failed to write", output_file);
        }''', '''        const size_t size = binary.size() * sizeof(binary[0]);
        std::ofstream outfp;
        outfp.open(output_file, std::ios::binary | std::ios::trunc);
        if (!outfp) {
            fatal_error("%s: failed to open", output_file);
        }
        outfp.write(reinterpret_cast<const char*>(binary.data()), static_cast<std::streamsize>(size));
        outfp.flush();
        outfp.close();
        if (outfp.fail()) {
            fatal_error("%s: failed to write", output_file);
        }''')]),
]
