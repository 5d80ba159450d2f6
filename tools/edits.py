"""Small edits of /repo: 'bug' breaks the named properties, 'same' keeps all behaviour."""
C = "src/context.cpp"
CL = "src/command_line.cpp"
LEX = ["C11", "C12", "C19", "C22"]
EDITS = [
 ("sep-nul", "bug", ["C12"], [(C, " || is_operator(character) || !character;", " || is_operator(character);")]),
 ("sep-colon", "bug", ["C11"], [(C, 'is_contained(" \\t\\r\\n.", character)', 'is_contained(" \\t\\r\\n.:", character)')]),
 ("tab-col", "bug", ["C19"], [(C, "column += 4;", "column += 8;")]),
 ("errno", "bug", ["C11"], [(C, "errno = 0;", "")]),
 ("d-suffix", "bug", ["C11"], [(C, "text[1] != 'D'", "text[1] != 'd'")]),
 ("pred-noprog", "bug", ["C22"], [(C, """    while (!is_separator(*text)) {
        next();
    }
    if (text[-1]""", """    while (!is_separator(*text)) {
        if (*text != '\\\\') next();
    }
    if (text[-1]""")]),
 ("lineafter", "bug", ["C19"], [(C, """    while (is_contained(" \\t\\r\\n", *text)) {
        next();
    }
    token token;
    token.filename = filename;
    token.line = line;
    token.column = column;
""", """    token token;
    token.filename = filename;
    token.line = line;
    while (is_contained(" \\t\\r\\n", *text)) {
        next();
    }
    token.column = column;
""")]),
 ("reg-256", "bug", ["C11"], [(C, "if (value < 0 || value >= NUM_USER_REGISTERS) {", "if (value < 0 || value > NUM_USER_REGISTERS) {")]),
 ("reg-trunc", "bug", ["C11"], [(C, "const long long value =\n                static_cast<int64_t>(", "const int value =\n                static_cast<int>(")]),
 ("hexfloat", "same", ["C11"], [(C, "has_hex |= is_hex;", "has_hex = is_hex;")]),
 ("infinite-lit", "bug", ["C11"], [(C, "if (std::abs(token.data.float_immediate) > std::numeric_limits<float>::max()) {", "if (token.data.float_immediate > std::numeric_limits<float>::max()) {")]),
 ("bang", "bug", ["C11"], [(C, '                fatal_error(token, "fatal: invalid usage of \'!\'\\n");', '                token.type = token_type::identifier; token.data.string = {contents, 1}; return token;')]),
 # ---- same behaviour
 ("lex-switch", "same", LEX, [(C, """    return is_contained("+-~|[]@,;", character);""", """    switch (character) {
    case '+': case '-': case '~': case '|': case '[': case ']': case '@': case ',': case ';':
        return true;
    }
    return false;""")]),
 ("lex-helper", "same", LEX, [(C, """token context::tokenize()
{
    while (is_contained(" \\t\\r\\n", *text)) {
        next();
    }
""", """static bool is_space(int c) noexcept
{
    return c == ' ' || c == '\\t' || c == '\\r' || c == '\\n';
}

token context::tokenize()
{
    for (; is_space(*text); next()) {
    }
""")]),
 ("lex-labelloop", "same", LEX, [(C, """    if (text[-1] == ':') {
        // ignore labels
        return tokenize();
    }
""", """    const std::string_view word(contents, static_cast<size_t>(text - contents));
    if (word.back() == ':') {
        // ignore labels
        return tokenize();
    }
""")]),
 ("lex-next", "same", LEX, [(C, """    const char character = text++[0];
    switch (character) {
    default:
        ++column;
        break;
    case '\\t':
        column += 4;
        break;
    case '\\n':
        ++line;
        column = 0;
        break;
    }
""", """    const char character = *text;
    text += 1;
    if (character == '\\n') {
        line = line + 1;
        column = 0;
        return;
    }
    column += character == '\\t' ? 4 : 1;
""")]),
 ("lex-regparse", "same", LEX, [(C, """        bool invalid_register = is_separator(*text);
        while (!is_separator(*text)) {
            if (!is_decimal(*text)) {
                invalid_register = true;
                break;
            }
            next();
        }
        if (!invalid_register) {""", """        const char* const digits = text;
        while (is_decimal(*text)) {
            next();
        }
        const bool valid_register = text != digits && is_separator(*text);
        if (valid_register) {""")]),
 ("lex-splitfn", "same", LEX, [(C, """    if (is_operator(character) && (!is_contained("+-", character) || !is_decimal(text[1]))) {
        token.type = get_operator_type(*text);
        next();
        return token;
    }""", """    const bool is_sign = character == '+' || character == '-';
    const bool starts_number = is_sign && is_decimal(text[1]);
    if (!starts_number && is_operator(character)) {
        const token_type op_type = get_operator_type(character);
        next();
        token.type = op_type;
        return token;
    }""")]),
 ("lex-goto", "same", LEX, [(C, """token context::tokenize()
{
    while (""", """token context::tokenize()
{
start:
    while ("""), (C, "        return tokenize();\n", "        goto start;\n")]),
 ("lex-ctype", "same", LEX, [(C, "    return character >= '0' && character <= '9';", "    return std::isdigit(static_cast<unsigned char>(character)) != 0;")]),
 ("lex-strchr", "same", LEX, [(C, "    return std::ranges::find(string, static_cast<char>(character)) != string.end();", "    return string.find(static_cast<char>(character)) != std::string_view::npos;")]),
 ("lex-loopfind", "same", LEX, [(C, "    return std::ranges::find(string, static_cast<char>(character)) != string.end();", "    for (const char c : string) {\n        if (c == static_cast<char>(character)) {\n            return true;\n        }\n    }\n    return false;")]),
 ("lex-anyof", "same", LEX, [(C, "    return std::ranges::find(string, static_cast<char>(character)) != string.end();", "    return std::ranges::any_of(string, [character](char c) { return c == static_cast<char>(character); });")]),

 # ---- diagnostics
 ("err-len", "bug", ["C18"], [("src/error.cpp", "first_length + second_length + 1;", "first_length + second_length;")]),
 ("err-col", "bug", ["C19"], [("src/error.cpp", "const int column = token.column + 1;", "const int column = token.column;")]),
 ("err-swap", "bug", ["C19"], [("src/error.cpp", "token.filename, token.line + 1,\n                 token.column + 1);", "token.filename, token.column + 1,\n                 token.line + 1);")]),
 ("err-exit", "bug", ["C10"], [("src/error.cpp", "    std::fputc('\\n', stderr);\n    std::exit(EXIT_FAILURE);", "    std::fputc('\\n', stderr);\n    std::exit(EXIT_SUCCESS);")]),
 ("err-va2", "bug", ["C18"], [("src/error.cpp", "    va_end(ap);\n\n    const int length", "\n    const int length"), ("src/error.cpp", "    va_start(ap, fmt);\n    std::vsnprintf(error.message.get() +", "    std::vsnprintf(error.message.get() +")]),
 ("err-room", "same", ["C18"], [("src/error.cpp", "first_length, length - first_length, fmt, ap)", "first_length, length, fmt, ap)")]),
 ("err-fixed", "bug", ["C18"], [("src/error.cpp", "std::make_unique<char[]>(length);", "std::make_unique<char[]>(1024);")]),
 ("err-fmtstr", "bug", ["C18"], [("src/error.cpp", "std::fputs(message.get(), stderr);", "std::fprintf(stderr, message.get());")]),
 ("err-stdout", "bug", ["C10"], [("src/error.cpp", "std::vfprintf(stderr, fmt, ap);", "std::vfprintf(stdout, fmt, ap);")]),
 ("msg-width", "bug", ["C18"], [("src/helper.cpp", """                    "integer \\33[1m%" PRId64 "\\33[0m is out of range, expected to be \"""", """                    "integer \\33[1m%d\\33[0m is out of range, expected to be \"""")]),
 ("msg-nolen", "bug", ["C18"], [("src/operand.h", 'return fail(token, "label \\33[1m%.*s\\33[0m not defined",\n', 'return fail(token, "label \\33[1m%*s\\33[0m not defined",\n')]),
 ("dup-pos", "bug", ["C19"], [(C, "        label_token.column = column;\n        while (is_alnum(*text) || *text == '_') {\n            advance();\n        }\n", "        while (is_alnum(*text) || *text == '_') {\n            advance();\n        }\n        label_token.column = column;\n")]),
 ("kind-reg", "bug", ["C13"], [("src/helper.cpp", "    CHECK(confirm_type(token, token_type::regster));\n\n    op.add_bits(static_cast<uint64_t>(token.data.regster) << address);", "    if (token.type != token_type::regster && token.type != token_type::predicate) {\n        CHECK(confirm_type(token, token_type::regster));\n    }\n    op.add_bits(static_cast<uint64_t>(token.data.regster) << address);")]),
 ("drop-check", "bug", ["C10", "C13"], [("src/helper.cpp", "    CHECK(confirm_type_next(ctx, token, token_type::bracket_right));\n\n    token = ctx.tokenize();\n    return {};", "    confirm_type_next(ctx, token, token_type::bracket_right);\n\n    token = ctx.tokenize();\n    return {};")]),
 ("err-dedup", "same", ["C10", "C18", "C19"], [("src/error.cpp", """void fatal_error(const token& token, const char* fmt, ...)
{
    std::fprintf(stderr, "\\33[1m%s:\\33[1m%d:%d: ", token.filename, token.line + 1,
                 token.column + 1);
    std::fprintf(stderr, "\\33[1;31merror:\\33[0m ");

    std::va_list ap;
    va_start(ap, fmt);
    std::vfprintf(stderr, fmt, ap);
    va_end(ap);
    std::fputc('\\n', stderr);

    std::exit(EXIT_FAILURE);
}
""", """[[noreturn]] static void print_and_exit(const char* fmt, std::va_list ap)
{
    std::fprintf(stderr, "\\33[1;31merror:\\33[0m ");
    std::vfprintf(stderr, fmt, ap);
    std::fputc('\\n', stderr);
    std::exit(EXIT_FAILURE);
}

void fatal_error(const token& token, const char* fmt, ...)
{
    std::fprintf(stderr, "\\33[1m%s:\\33[1m%d:%d: ", token.filename, token.line + 1,
                 token.column + 1);
    std::va_list ap;
    va_start(ap, fmt);
    print_and_exit(fmt, ap);
}
"""), ("src/error.cpp", """void fatal_error(const char* fmt, ...)
{
    std::fprintf(stderr, "\\33[1;31merror:\\33[0m ");

    std::va_list ap;
    va_start(ap, fmt);
    std::vfprintf(stderr, fmt, ap);
    va_end(ap);
    std::fputc('\\n', stderr);

    std::exit(EXIT_FAILURE);
}""", """void fatal_error(const char* fmt, ...)
{
    std::va_list ap;
    va_start(ap, fmt);
    print_and_exit(fmt, ap);
}""")]),
 ("err-vector", "same", ["C10", "C18", "C19"], [("src/error.cpp", "    error error;\n    error.message = std::make_unique<char[]>(length);\n", "    error error;\n    error.message.reset(new char[static_cast<size_t>(length)]);\n")]),
 ("err-vfail", "same", ["C10", "C18", "C19"], [("src/error.cpp", "    const int first_length = std::snprintf(NULL, 0, errfmt, token.filename, line, column);\n    std::va_list ap;\n    va_start(ap, fmt);\n    const int second_length = std::vsnprintf(NULL, 0, fmt, ap);\n    va_end(ap);\n",
  "    std::va_list ap, measure;\n    va_start(ap, fmt);\n    va_copy(measure, ap);\n    const int second_length = std::vsnprintf(NULL, 0, fmt, measure);\n    va_end(measure);\n    const int first_length = std::snprintf(NULL, 0, errfmt, token.filename, line, column);\n"),
  ("src/error.cpp", "    va_start(ap, fmt);\n    std::vsnprintf(error.message.get() +", "    std::vsnprintf(error.message.get() +")]),

 # ---- options and containers
 ("opt-while", "bug", ["C16"], [("src/parse.cpp", "    while (token.type == token_type::identifier && token.data.string[0] == '.') {", "    if (token.type == token_type::identifier && token.data.string[0] == '.') {")]),
 ("opt-twice", "bug", ["C16"], [("src/options.cpp", "        if (type) {", "        if (type && is_dksh) {")]),
 ("opt-line", "bug", ["C16"], [("src/options.cpp", "        block_dimensions[i] = static_cast<unsigned>(token.data.immediate);\n        }\n        check_option_line();", "        block_dimensions[i] = static_cast<unsigned>(token.data.immediate);\n        }")]),
 ("opt-order", "bug", ["C15", "C16"], [("src/options.cpp", "block_dimensions[i] =", "block_dimensions[2 - i] =")]),
 ("opt-u16", "bug", ["C15", "C16"], [("src/options.cpp", "shared_mem_size = static_cast<int>(token", "shared_mem_size = static_cast<uint16_t>(token")]),
 ("opt-kind", "bug", ["C13", "C16"], [("src/options.cpp", "            if (token.type != token_type::immediate) {\n                fatal_error(token, \"expected workgroup sizes\");", "            if (i == 0 && token.type != token_type::immediate) {\n                fatal_error(token, \"expected workgroup sizes\");")]),
 ("opt-domain", "bug", ["C16"], [("src/options.cpp", '|| equal(token, "domain")', '|| equal(token, "dom")')]),
 ("opt-trail", "bug", ["C16"], [("src/options.cpp", "    if (option_line == token.line) {", "    if (option_line == token.line && token.type != token_type::semicolon) {")]),
 ("con-align", "bug", ["C15"], [("src/dksh.cpp", "    return (value + 0xff) & ~0xff;", "    return (value + 0x100) & ~0xff;")]),
 ("con-scratch", "bug", ["C15"], [("src/dksh.cpp", "(local_pos_sz + local_neg_sz) * 32 + crs_sz", "local_pos_sz + local_neg_sz * 32 + crs_sz")]),
 ("con-pad", "bug", ["C15"], [("src/write.cpp", "(32 - code_size % 32) % 32", "32 - code_size % 32")]),
 ("con-entry", "bug", ["C15"], [("src/dksh.cpp", "*entrypoint_code_offset % 32 != 8", "*entrypoint_code_offset % 16 != 8")]),
 ("con-uninit", "bug", ["C15", "C12"], [("src/dksh.cpp", "    std::memset(&program_header, 0, sizeof(program_header));\n", "")]),
 ("opt-table", "same", ["C16", "C15", "C13", "C18"], [("src/options.cpp", """        if (equal(token, "vertex")) {
            type = program_type::vertex;
        } else if (equal(token, "tess_control") || equal(token, "hull")) {
            type = program_type::tess_control;
        } else if (equal(token, "tess_eval") || equal(token, "domain")) {
            type = program_type::tess_eval;
        } else if (equal(token, "geometry")) {
            type = program_type::geometry;
        } else if (equal(token, "fragment") || equal(token, "pixel")) {
            type = program_type::fragment;
        } else if (equal(token, "compute")) {
            type = program_type::compute;
        } else {""", """        static constexpr struct
        {
            const char* name;
            program_type value;
        } names[] = {
            {"vertex", program_type::vertex},       {"tess_control", program_type::tess_control},
            {"hull", program_type::tess_control},   {"tess_eval", program_type::tess_eval},
            {"domain", program_type::tess_eval},    {"geometry", program_type::geometry},
            {"fragment", program_type::fragment},   {"pixel", program_type::fragment},
            {"compute", program_type::compute},
        };
        for (const auto& entry : names) {
            if (equal(token, entry.name)) {
                type = entry.value;
                break;
            }
        }
        if (!type) {""")]),
 ("opt-helper", "same", ["C16", "C15", "C13", "C18"], [("src/options.cpp", """    if (equal(token, ".dksh")) {""", """    const auto read_value = [this, &check_option_range, &check_option_line, &token](const char* what, int64_t max) {
        token = tokenize();
        if (token.type != token_type::immediate) {
            fatal_error(token, "expected %s", what);
        }
        check_option_range(max);
        const int64_t value = token.data.immediate;
        check_option_line();
        return value;
    };
    if (equal(token, ".dksh")) {"""), ("src/options.cpp", """        token = tokenize();
        if (token.type != token_type::immediate) {
            fatal_error(token, "expected shared memory size");
        }
        check_option_range(INT32_MAX - 0xff);
        shared_mem_size = static_cast<int>(token.data.immediate);
        check_option_line();
""", """        shared_mem_size = static_cast<int>(read_value("shared memory size", INT32_MAX - 0xff));
""")]),
 ("con-push", "same", ["C15", "C16"], [("src/dksh.cpp", "    output.insert(output.end(), result.begin(), result.end());", "    for (const uint64_t word : result) {\n        output.push_back(word);\n    }"),
   ("src/write.cpp", "        result.resize(result.size() + (32 - code_size % 32) % 32);", "        while (result.size() % 32 != 0) {\n            result.push_back(0);\n        }")]),
 ("con-rename", "same", ["C15", "C16"], [("src/context.h", "int num_gprs = 8;", "int register_count = 8;"), ("src/options.cpp", "        num_gprs = static_cast<int>", "        register_count = static_cast<int>"), ("src/dksh.cpp", "program_header.num_gprs = num_gprs;", "program_header.num_gprs = register_count;")]),
 ("half-bits", "same", ["C20", "C21"], [("src/fp16.h", "uint16_t fp32_to_fp16(float value)\n{\n    uint32_t bits;\n    std::memcpy(&bits, &value, sizeof(bits));\n", "uint16_t fp32_to_fp16(double input)\n{\n    const float value = static_cast<float>(input);\n    uint32_t bits;\n    std::memcpy(&bits, &value, sizeof(bits));\n")]),
 ("half-round", "bug", ["C20", "C21"], [("src/fp16.h", "        hbits += g & (s | hbits);", "        hbits += g & (s | g);")]),
 ("half-i", "bug", ["C21"], [("src/fp16.h", "s = (bits & ((1L << i) - 1)) != 0;", "s = (bits & ((1L << (i - 1)) - 1)) != 0;")]),

 # ---- command line
 ("cl-noclose", "bug", ["C17"], [(CL, "        outfp.close();\n", "")]),
 ("cl-closelate", "bug", ["C17"], [(CL, """        outfp.close();
        if (!outfp) {
            fatal_error("%s: failed to write", output_file);
        }
""", """        if (!outfp) {
            fatal_error("%s: failed to write", output_file);
        }
        outfp.close();
""")]),
 ("cl-eof", "bug", ["C17"], [(CL, "if (file.bad()) {", "if (file.bad() && !file.fail()) {")]),
 ("cl-early", "bug", ["C17"], [(CL, "    const std::string input_text = read_file(input_file);\n", "    const std::string input_text = read_file(input_file);\n    std::ofstream probe(output_file, std::ios::binary);\n")]),
 ("cl-app", "bug", ["C17"], [(CL, "std::ofstream outfp(output_file, std::ios::binary);", "std::ofstream outfp(output_file, std::ios::binary | std::ios::app);")]),
 ("cl-last", "bug", ["C17"], [(CL, "    } while (file);", "    } while (file && file.gcount() == sizeof(buffer));\n    if (text.size() % sizeof(buffer) == 0 && file.bad()) return text;")]),
 ("cl-gcount", "bug", ["C17"], [(CL, """    do {
        file.read(buffer, sizeof(buffer));
        text.append(buffer, static_cast<size_t>(file.gcount()));
    } while (file);""", """    while (file.read(buffer, sizeof(buffer))) {
        text.append(buffer, sizeof(buffer));
    }
    text.append(buffer);""")]),
 ("cl-int", "bug", ["C17"], [(CL, "binary.size() * sizeof(uint64_t));", "static_cast<uint32_t>(binary.size() * sizeof(uint64_t)));")]),
 ("cl-twice", "bug", ["C17"], [(CL, "            if (output_file) {\n                fatal", "            if (output_file && input_file) {\n                fatal")]),
 ("cl-prefix", "bug", ["C17"], [(CL, 'std::strcmp(argv[i], "-o") == 0', 'std::strncmp(argv[i], "-o", 2) == 0')]),
 ("cl-after", "same", ["C17"], [(CL, "if (++i == argc) {", "if (++i > argc) {")]),
 ("cl-status", "bug", ["C17"], [(CL, '        if (!outfp) {\n            fatal_error("%s: failed to write", output_file);', '        if (!outfp) {\n            return 0;')]),
 ("cl-exit", "bug", ["C17", "C10"], [("src/error.cpp", "    std::fputc('\\n', stderr);\n\n    std::exit(EXIT_FAILURE);\n}\n\nvoid", "    std::fputc('\\n', stderr);\n\n    std::exit(EXIT_SUCCESS);\n}\n\nvoid")]),
 ("cl-helper", "same", ["C17"], [(CL, "int main(int argc, char** argv)\n", """static void write_file(const char* filename, const std::vector<uint64_t>& words)
{
    std::ofstream stream;
    stream.open(filename, std::ios::binary | std::ios::trunc);
    if (!stream) {
        fatal_error("%s: failed to open", filename);
    }
    for (const uint64_t& word : words) {
        stream.write(reinterpret_cast<const char*>(&word), sizeof(word));
    }
    stream.flush();
    if (!stream.good()) {
        fatal_error("%s: failed to write", filename);
    }
    stream.close();
}

int main(int argc, char** argv)
"""), (CL, """    try {
        std::ofstream outfp(output_file, std::ios::binary);
        if (!outfp.is_open()) {
            fatal_error("%s: failed to open", output_file);
        }
        outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
        outfp.close();
        if (!outfp) {
            fatal_error("%s: failed to write", output_file);
        }
    } catch (const std::ios_base::failure& e) {
        fatal_error("failed to write output file: %s", e.what());
    }
""", "    write_file(output_file, binary);\n")]),
 ("cl-while", "same", ["C17"], [(CL, """    do {
        file.read(buffer, sizeof(buffer));
        text.append(buffer, static_cast<size_t>(file.gcount()));
    } while (file);""", """    while (file.read(buffer, sizeof(buffer))) {
        text.append(buffer, sizeof(buffer));
    }
    text.append(buffer, static_cast<size_t>(file.gcount()));""")]),
 ("cl-vec", "same", ["C17"], [(CL, "    char buffer[4096];", "    std::vector<char> buffer(16384);"), (CL, "file.read(buffer, sizeof(buffer));", "file.read(buffer.data(), static_cast<std::streamsize>(buffer.size()));"),
     (CL, "text.append(buffer, static_cast<size_t>(file.gcount()));", "text.insert(text.end(), buffer.begin(), buffer.begin() + file.gcount());")]),
 ("cl-args", "same", ["C17"], [(CL, r'''    for (int i = 1; i < argc; ++i) {
        // Parse output file
        if (std::strcmp(argv[i], "-o") == 0) {
            if (output_file) {
                fatal_error("command line output file already provided");
            }
            if (++i == argc) {
                fatal_error("expected command line syntax: \"-o\" <output file>");
            }
            output_file = argv[i];
            continue;
        }
        // There's no modifier, it's an input file
        if (input_file) {
            fatal_error("command line input file already provided");
        }
        input_file = argv[i];
    }
''', r'''    int i = 1;
    while (i < argc) {
        const std::string_view argument = argv[i];
        const bool is_output = argument == "-o";
        if (is_output && i + 1 >= argc) {
            fatal_error("expected command line syntax: \"-o\" <output file>");
        }
        const char*& slot = is_output ? output_file : input_file;
        if (slot) {
            fatal_error("command line %s file already provided", is_output ? "output" : "input");
        }
        slot = is_output ? argv[i + 1] : argv[i];
        i += is_output ? 2 : 1;
    }
'''), (CL, "#include <string>", "#include <string>\n#include <string_view>")]),
 ("cl-string", "same", ["C17"], [(CL, "static std::string read_file(const char* filename)", "static std::string read_file(const std::string& filename)"), (CL, 'fatal_error("%s: failed to open", filename);', 'fatal_error("%s: failed to open", filename.c_str());'), (CL, 'fatal_error("%s: failed to read", filename);', 'fatal_error("%s: failed to read", filename.c_str());')]),
 ("cl-optional", "bug", ["C17"], [(CL, "    const char* output_file = nullptr;", "    std::string output_file;"), (CL, "if (output_file) {", "if (!output_file.empty()) {"), (CL, "    if (!output_file) {", "    if (output_file.empty()) {"),
     (CL, 'fatal_error("%s: failed to open", output_file);', 'fatal_error("%s: failed to open", output_file.c_str());'), (CL, 'fatal_error("%s: failed to write", output_file);', 'fatal_error("%s: failed to write", output_file.c_str());')]),

 # ---- termination
 ("end-sched", "bug", ["C22"], [("src/parse.cpp", "static error assemble_sched(context& ctx, token& token, opcode& op)\n{\n", "static error assemble_sched(context& ctx, token& token, opcode& op)\n{\n    while (token.type == token_type::minus) {\n        op.add_bits(0);\n    }\n")]),
 ("end-pad", "bug", ["C22"], [("src/nxas.cpp", "    while (blob.size() % 4) {\n        blob.push_back(0x50B0000000070F00ULL);", "    while (blob.size() % 4) {\n        if (blob.size() % 8 != 7) blob.push_back(0x50B0000000070F00ULL);")]),

 # ---- purity
 ("pure-counter", "bug", ["C14"], [("src/nxas.cpp", "    size_t index = 0;\n", "    static size_t runs = 0;\n    size_t index = 0;\n    ++runs;\n"), ("src/nxas.cpp", "0x50B0000000070F00ULL);", "runs > 3 ? 0 : 0x50B0000000070F00ULL);")]),
 ("pure-vector", "bug", ["C14"], [("src/nxas.cpp", "    std::vector<uint64_t> blob;\n", "    static std::vector<uint64_t> blob;\n    blob.clear();\n")]),
 ("pure-opcodes", "bug", ["C14"], [("src/nxas.cpp", "    std::vector<opcode> opcodes(max_decode_instructions);", "    static std::vector<opcode> opcodes;\n    if (opcodes.size() < max_decode_instructions) {\n        opcodes.resize(max_decode_instructions);\n    }")]),
 ("pure-env", "bug", ["C14"], [("src/nxas.cpp", "    while (blob.size() % 4) {", "    while (blob.size() % 4 && !std::getenv(\"NXAS_NO_PAD\")) {"), ("src/nxas.cpp", "#include <algorithm>", "#include <algorithm>\n#include <cstdlib>")]),
 ("pure-once", "bug", ["C14"], [("src/nxas.cpp", "    context ctx(filename, code.c_str());", "    static const std::string text = code;\n    context ctx(filename, text.c_str());")]),
 ("pure-name", "bug", ["C14"], [("src/context.cpp", "    : filename{filename_}, text_begin{text_}, text{text_}\n{\n", "    : filename{filename_}, text_begin{text_}, text{text_}\n{\n    if (filename[0] == '-') {\n        line = 1;\n    }\n")]),
 ("pure-pred", "bug", ["C14"], [("src/parse.cpp", "static error assemble_predicate(const token& token, opcode& op, size_t shift, int is_negable)\n{\n", "static int last_predicate = 7;\n\nstatic error assemble_predicate(const token& token, opcode& op, size_t shift, int is_negable)\n{\n    last_predicate = token.data.predicate.index;\n")]),
 ("pure-tls", "bug", ["C14"], [("src/parse.cpp", "    const context saved_context = ctx;\n    const opcode saved_op = op;", "    const context saved_context = ctx;\n    static thread_local opcode saved_op;\n    saved_op = op;")]),
 ("pure-labels", "bug", ["C14"], [("src/context.cpp", "std::optional<int64_t> context::find_label(std::string_view label) const\n{\n    const auto it", "std::optional<int64_t> context::find_label(std::string_view label) const\n{\n    static std::unordered_map<std::string, int64_t> cache;\n    if (const auto hit = cache.find(std::string{label}); hit != cache.end()) {\n        return hit->second;\n    }\n    if (const auto found = labels.find(std::string{label}); found != labels.end()) {\n        cache.emplace(found->first, found->second);\n    }\n    const auto it")]),
 ("pure-table", "same", ["C14"], [("src/parse.cpp", "        // write always execute by default\n        op.add_bits(7ULL << 16);", "        // write always execute by default\n        static const uint64_t always = 7ULL << 16;\n        op.add_bits(always);")]),
 ("pure-lazy", "same", ["C14"], [("src/parse.cpp", "    const size_t num_insns = sizeof(table) / sizeof(table[0]);", "    static const size_t num_insns = [] {\n        size_t n = 0;\n        for ([[maybe_unused]] const insn& row : table) {\n            ++n;\n        }\n        return n;\n    }();")]),
]
