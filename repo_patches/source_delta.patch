From 0565c6c82e05cfeccbe441d6dff9e0caf31e0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 01/27] fix: IADD3 immediate 0x100000 does not fit its field

---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index ecc6dda..6468f5a 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -89,7 +89,7 @@ inline error assemble_uint(context& ctx, opcode& op, token& token, int64_t max_s
 DEFINE_OPERAND(uimm_extended)
 {
     uint64_t value;
-    CHECK(convert_integer(token, 0, 1ULL << 20, &value));
+    CHECK(convert_integer(token, 0, max_bits(20), &value));
     if (value >= 0x80000) {
         value -= 0x80000;
         op.add_bits(1ULL << 56);
-- 
2.43.0


From 4c018441d621f7dfedddf3e84cd8188c68011aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 02/27] fix: ICMP with a constant buffer as second operand has
 its own opcode

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index cb6eff2..3de7502 100644
--- a/src/table.h
+++ b/src/table.h
@@ -179,7 +179,7 @@ const insn table[]{
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
     INSN(0x5B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<20>, comma, sgpr<39>),
     INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<39>, comma, cbuf),
-    INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
+    INSN(0x4B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
     INSN(0x3640000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, imm,      comma, sgpr<39>),
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
-- 
2.43.0


From 598e44553b571447e321a616e4b48cfb63a27997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 03/27] fix: SUST.D.BA flag overlaps the .D bit

---
 src/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 3de7502..de18855 100644
--- a/src/table.h
+++ b/src/table.h
@@ -254,8 +254,8 @@ const insn table[]{
     INSN(0x3890000000000000ULL, 0, "RRO", rro::mode, dgpr<0>, comma, fimm, post_neg<45>, post_abs<49>),
     INSN(0xEB20000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
     INSN(0xEB28000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
-    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
-    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
+    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
+    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
-- 
2.43.0


From 8320db93a1867926a3636b9bd7942c3f4bcdd4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 04/27] fix: refuse negation together with .PO instead of
 aborting

---
 src/operand.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index 6468f5a..87df5ce 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -338,6 +338,9 @@ template <int address>
 DEFINE_OPERAND(neg)
 {
     if (token.type == token_type::minus) {
+        if (op.value & (1ULL << address)) {
+            return fail(token, "negation can't be combined with .PO");
+        }
         op.add_bits(1ULL << address);
         token = ctx.tokenize();
     }
@@ -355,7 +358,17 @@ DEFINE_OPERAND(tilde)
 }
 
 template <int address>
-DEFINE_FLAG(post_neg, ".NEG", address);
+DEFINE_OPERAND(post_neg)
+{
+    if (equal(token, ".NEG")) {
+        if (op.value & (1ULL << address)) {
+            return fail(token, "negation can't be combined with .PO");
+        }
+        op.add_bits(1ULL << address);
+        token = ctx.tokenize();
+    }
+    return {};
+}
 
 template <int address>
 DEFINE_FLAG(post_abs, ".ABS", address);
-- 
2.43.0


From 059b7bd3b83647e2ffe4b6553fdb3841ee1d524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 05/27] fix: 32-bit video sources have no byte selector

---
 src/operand.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 87df5ce..0e16eef 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1452,6 +1452,10 @@ namespace video
         static const char* shorts[] = {"H0", "H1", nullptr};
 
         const uint64_t type = (op.value >> type_address) & 0b111;
+        if (type == 3) {
+            // 32-bit sources have no selector
+            return {};
+        }
         const char* const* const table = type == 2 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
-- 
2.43.0


From 33a529e2e4c9c46b047ad3d22b3f2f644983bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 06/27] fix: terminate modifier tables

---
 src/operand.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 0e16eef..ee963ec 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -699,7 +699,7 @@ namespace stg
     DEFINE_OPERAND(size)
     {
         static const char* table[] = {
-            "U8", "S8", "U16", "S16", "32", "64", "128",
+            "U8", "S8", "U16", "S16", "32", "64", "128", nullptr,
         };
         std::optional<uint64_t> size = find_in_table(token, table, ".");
         if (size) {
@@ -1220,7 +1220,7 @@ namespace ldg
 {
     DEFINE_OPERAND(size)
     {
-        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
+        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U", nullptr};
         static const char* msg = "expected .U8, .S8, .U16, .S16, .32, .64, .128 or .U.128";
 
         const std::optional result = find_in_table(token, table, ".");
@@ -1513,7 +1513,7 @@ template <int address>
 DEFINE_OPERAND(tex_type)
 {
     static const char* types[]{
-        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE",
+        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE", nullptr,
     };
     const std::optional<uint64_t> result = find_in_table(token, types, "");
     if (!result) {
-- 
2.43.0


From 5de7982884f1a4d82091711606e2b4fff76358d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 07/27] fix: a lone dot is not a modifier

---
 src/helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helper.cpp b/src/helper.cpp
index ebb0110..2f31743 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -78,6 +78,10 @@ std::optional<uint64_t> find_in_table(const token& token, const char* const* tab
         }
         text = text.substr(std::size(prefix));
     }
+    if (text.empty()) {
+        // empty table entries are holes, they can't be named
+        return {};
+    }
 
     for (size_t i = 0; table[i]; ++i) {
         if (text.compare(table[i]) != 0) {
-- 
2.43.0


From dd6f8393255b07e438155d42a3b43241fa8deea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 08/27] fix: TLDS.LL has no 3D and ARRAY_2D variants

---
 src/operand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index ee963ec..aaeafa1 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1636,6 +1636,9 @@ DEFINE_OPERAND(tlds_type)
         if (aoffi) {
             return fail(token, "AOFFI can't be used in 3D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in 3D");
+        }
         if (ms) {
             return fail(token, "MS can't be used in 3D");
         }
@@ -1645,6 +1648,9 @@ DEFINE_OPERAND(tlds_type)
         if (aoffi) {
             return fail(token, "AOFFI can't be used in ARRAY_2D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in ARRAY_2D");
+        }
         if (ms) {
             return fail(token, "MS can't be used in ARRAY_2D");
         }
-- 
2.43.0


From 1ef19e4c37ea0ca2fa41c0e7854e11b0eb35afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 09/27] fix: refuse misaligned address offsets instead of
 dropping their low bits

---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index aaeafa1..c4b7cd5 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -442,6 +442,9 @@ namespace memory
 
                 uint64_t value;
                 CHECK(convert_integer(token, min, max, &value));
+                if (value & max_bits(shr)) {
+                    return fail(token, "address offset has to be aligned to %d bytes", 1 << shr);
+                }
                 value >>= shr;
                 op.add_bits((value & max_bits(size)) << addr);
                 token = ctx.tokenize();
-- 
2.43.0


From f23441005345021d02a771ab7604b6f67d1957ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 10/27] fix: @!PT is not an always-true guard

---
 src/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 72567ed..02923e6 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -108,7 +108,7 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
     op.add_bits(insn.opcode);
 
     token token = ctx.tokenize();
-    if ((insn.flags & NO_PRED) && (~op.value & (7ULL << 16))) {
+    if ((insn.flags & NO_PRED) && ((op.value >> 16) & 0xF) != TRUE_PREDICATE) {
         return {fail(token, "%s does not support predicated execution", insn.mnemonic), 0};
     }
     int score = 1;
-- 
2.43.0


From 6466a1d1054737fd235e054474ad42d3d2fef607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:54 +0000
Subject: [PATCH 11/27] fix: keep the sign of negative zero in double and half
 immediates

---
 src/helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 2f31743..45037cd 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -1,3 +1,4 @@
+#include <bit>
 #include <cinttypes>
 #include <cstdint>
 #include <cstdlib>
@@ -211,7 +212,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     switch (token.type) {
     case token_type::float_immediate:
         value = token.data.float_immediate;
-        if (value < 0) {
+        if (std::bit_cast<uint64_t>(value) >> 63) {
             op.add_bits(1ULL << 56);
         }
         break;
@@ -259,7 +260,7 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     switch (token.type) {
     case token_type::float_immediate:
         value = fp32_to_fp16(token.data.float_immediate);
-        if (token.data.float_immediate < 0 && neg_bit >= 0) {
+        if (std::bit_cast<uint64_t>(token.data.float_immediate) >> 63 && neg_bit >= 0) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
-- 
2.43.0


From e9dcdb4ed44c25cd29d9d8fc024ccfc6350e2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:54 +0000
Subject: [PATCH 12/27] fix: check that an integer used as float immediate is
 representable

---
 src/helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 45037cd..10b659b 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -159,8 +159,8 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
-        if (static_cast<int64_t>(token.data.immediate) != value) {
-            return fail(token, "integer immediate " PRId64 "cannot be represented as float",
+        if (value >= 0x1p63f || static_cast<int64_t>(value) != token.data.immediate) {
+            return fail(token, "integer immediate %" PRId64 " cannot be represented as float",
                         token.data.immediate);
         }
         break;
-- 
2.43.0


From 7b7ce6f605d8d6cc0a0b7e0374d54ffae5ae356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 13/27] fix: a bare R is not register R0

---
 src/context.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index dc82453..5d80143 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -183,7 +183,7 @@ token context::tokenize()
             token.data.regster = ZERO_REGISTER;
             return token;
         }
-        bool invalid_register = false;
+        bool invalid_register = is_separator(*text);
         while (!is_separator(*text)) {
             if (!is_decimal(*text)) {
                 invalid_register = true;
@@ -210,10 +210,13 @@ token context::tokenize()
             return token;
         }
     }
-    do {
+    if (text == contents) {
+        // the first character can be a separator itself (e.g. a modifier's dot)
         next();
-    } while (!is_separator(*text));
-
+    }
+    while (!is_separator(*text)) {
+        next();
+    }
     if (text[-1] == ':') {
         // ignore labels
         return tokenize();
-- 
2.43.0


From 1da235b5d4794c0e0f57b8a44661f2caaa4a4710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 14/27] fix: refuse literals that are too large instead of
 saturating them

---
 src/context.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index 5d80143..2dc0d7a 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,11 +1,14 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <string_view>
 
@@ -159,9 +162,16 @@ token context::tokenize()
         if (is_floating_point) {
             token.type = token_type::float_immediate;
             token.data.float_immediate = std::strtof(contents, &conversion_end);
+            if (std::abs(token.data.float_immediate) > std::numeric_limits<float>::max()) {
+                fatal_error(token, "floating point literal is out of range");
+            }
         } else {
             token.type = token_type::immediate;
+            errno = 0;
             token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
+            if (errno == ERANGE) {
+                fatal_error(token, "integer literal is out of range");
+            }
         }
         if (conversion_end != text) {
             fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
-- 
2.43.0


From 0000511f3a2ac5453d20907b73f89a3081aec3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 15/27] fix: refuse labels that are defined twice

---
 src/context.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 2dc0d7a..5ee3162 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -297,13 +297,19 @@ void context::generate_labels()
             continue;
         }
         const char* const potential_label = text;
+        token label_token;
+        label_token.filename = filename;
+        label_token.line = line;
+        label_token.column = column;
         while (is_alnum(*text) || *text == '_') {
             advance();
         }
         if (*text == ':') {
             std::string label;
             label.append(potential_label, static_cast<size_t>(text - potential_label));
-            labels.insert({std::move(label), pc});
+            if (!labels.insert({label, pc}).second) {
+                fatal_error(label_token, "label \33[1m%s\33[0m already defined", label.c_str());
+            }
         }
         next_line();
     }
-- 
2.43.0


From 96048993423ac04b72e63eca10531975b9911ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 16/27] fix: pass the types diagnostics are formatted with

---
 src/helper.cpp | 2 +-
 src/operand.h  | 6 ++++--
 src/parse.cpp  | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 10b659b..adb9851 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -56,7 +56,7 @@ error convert_integer(const token& token, int64_t min, int64_t max, uint64_t* re
     int64_t value = token.data.immediate;
     if (value < min || value > max) {
         return fail(token,
-                    "integer \33[1m%d\33[0m is out of range, expected to be "
+                    "integer \33[1m%" PRId64 "\33[0m is out of range, expected to be "
                     "from %" PRId64 " to %" PRId64 " inclusively",
                     value, min, max);
     }
diff --git a/src/operand.h b/src/operand.h
index c4b7cd5..274d480 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -59,7 +59,8 @@ inline error assemble_cc_tests(context& ctx, opcode& op, token& token, const cha
 
         test_index = find_in_table(token, tests, ".");
         if (!test_index) {
-            return fail(token, "unexpected test %.*s", std::size(token.data.string),
+            return fail(token, "unexpected test %.*s",
+                        static_cast<int>(std::size(token.data.string)),
                         std::data(token.data.string));
         }
         token = ctx.tokenize();
@@ -127,7 +128,8 @@ DEFINE_OPERAND(label)
     case token_type::identifier: {
         const std::optional label = ctx.find_label(token.data.string);
         if (!label) {
-            return fail(token, "label \33[1m%.*s\33[0m not defined", std::size(token.data.string),
+            return fail(token, "label \33[1m%.*s\33[0m not defined",
+                        static_cast<int>(std::size(token.data.string)),
                         std::data(token.data.string));
         }
         absolute = *label;
diff --git a/src/parse.cpp b/src/parse.cpp
index 02923e6..c5acdf2 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -179,7 +179,7 @@ bool parse_instruction(context& ctx, opcode& op)
     if (error_message) {
         error_message.raise();
     } else {
-        fatal_error(token, "unknown mnemonic \33[1m%.*s\33[0m", std::size(token.data.string),
-                    std::data(token.data.string));
+        fatal_error(token, "unknown mnemonic \33[1m%.*s\33[0m",
+                    static_cast<int>(std::size(token.data.string)), std::data(token.data.string));
     }
 }
-- 
2.43.0


From 13984f6ff92dae4916962231eecf49c3c1e20375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 17/27] fix: only print the text of tokens that have text

---
 src/operand.h   | 3 ++-
 src/options.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 274d480..5382327 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1205,8 +1205,9 @@ DEFINE_OPERAND(s2r)
     } else {
         value = find_in_table(token, table, "");
         if (!value) {
+            const std::string_view text = info(token);
             return fail(token, "invalid system register \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(text.size()), text.data());
         }
         token = ctx.tokenize();
     }
diff --git a/src/options.cpp b/src/options.cpp
index 63805a6..09aea00 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -31,8 +31,9 @@ void context::parse_option(token& token)
         } else if (equal(token, "compute")) {
             type = program_type::compute;
         } else {
+            const std::string_view text = info(token);
             fatal_error(token, "invalid program type \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(text.size()), text.data());
         }
     };
     if (equal(token, ".dksh")) {
-- 
2.43.0


From db9b7ba7661a14d05c00e76a842a69cfff8b1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 18/27] fix: .num_gprs takes an immediate

---
 src/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 09aea00..1526c16 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -43,7 +43,7 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
-        if (token.type == token_type::immediate) {
+        if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-- 
2.43.0


From be8aa9ac002bfdb85e271c704e91e2c214c3b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 19/27] fix: option values have to be on the line of their
 option

---
 src/options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index 1526c16..101a753 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -63,12 +63,14 @@ void context::parse_option(token& token)
             fatal_error(token, "expected shared memory size");
         }
         shared_mem_size = static_cast<int>(token.data.immediate);
+        check_option_line();
     } else if (equal(token, ".local_memory")) {
         token = tokenize();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected local memory size");
         }
         local_mem_size = static_cast<int>(token.data.immediate);
+        check_option_line();
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From f36fb9548d793859c71a1277b167ab01c130d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 20/27] fix: refuse option values that do not fit

---
 src/options.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 101a753..5290346 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,6 +1,10 @@
+#include <cinttypes>
+#include <cstdint>
+
 #include "context.h"
 #include "error.h"
 #include "helper.h"
+#include "opcode.h"
 #include "token.h"
 
 void context::parse_option(token& token)
@@ -11,6 +15,14 @@ void context::parse_option(token& token)
             fatal_error(token, "unexpected new line in option");
         }
     };
+    const auto check_option_range = [&token](int64_t max) {
+        if (token.data.immediate < 0 || token.data.immediate > max) {
+            fatal_error(token,
+                        "option value \33[1m%" PRId64 "\33[0m is out of range, expected to be "
+                        "from 0 to %" PRId64 " inclusively",
+                        token.data.immediate, max);
+        }
+    };
     const auto parse_type = [this, &check_option_line, &token] {
         if (type) {
             fatal_error(token, "program type already specified");
@@ -46,6 +58,7 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
+        check_option_range(NUM_USER_REGISTERS);
         num_gprs = static_cast<int>(token.data.immediate);
         check_option_line();
     } else if (equal(token, ".workgroup_size")) {
@@ -54,7 +67,8 @@ void context::parse_option(token& token)
             if (token.type != token_type::immediate) {
                 fatal_error(token, "expected workgroup sizes");
             }
-            block_dimensions[i] = static_cast<int>(token.data.immediate);
+            check_option_range(UINT32_MAX);
+            block_dimensions[i] = static_cast<unsigned>(token.data.immediate);
         }
         check_option_line();
     } else if (equal(token, ".shared_memory")) {
@@ -62,6 +76,7 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected shared memory size");
         }
+        check_option_range(INT32_MAX - 0xff);
         shared_mem_size = static_cast<int>(token.data.immediate);
         check_option_line();
     } else if (equal(token, ".local_memory")) {
@@ -69,6 +84,7 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected local memory size");
         }
+        check_option_range(INT32_MAX / 64);
         local_mem_size = static_cast<int>(token.data.immediate);
         check_option_line();
     }
-- 
2.43.0


From 8904dbcadcbf0285a4e1578417222928cf4798e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 21/27] fix: refuse unknown options

---
 src/options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index 5290346..c32e0d4 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -87,6 +87,9 @@ void context::parse_option(token& token)
         check_option_range(INT32_MAX / 64);
         local_mem_size = static_cast<int>(token.data.immediate);
         check_option_line();
+    } else {
+        fatal_error(token, "unknown option \33[1m%.*s\33[0m",
+                    static_cast<int>(token.data.string.size()), token.data.string.data());
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From 9c49c0b18663278f4280e1f4aa855b4d637e2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 22/27] fix: do not pad containers beyond the code size they
 state

---
 src/write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.cpp b/src/write.cpp
index aaeedb6..b2ecc0f 100644
--- a/src/write.cpp
+++ b/src/write.cpp
@@ -22,7 +22,7 @@ std::vector<uint64_t> context::binary(std::span<const uint64_t> code) const
     }
     result.insert(result.end(), code.begin(), code.end());
     if (is_dksh) {
-        result.resize(result.size() + 32 - code.size() % 32);
+        result.resize(result.size() + (32 - code_size % 32) % 32);
     }
     return result;
 }
-- 
2.43.0


From ff42c6a4fd08257bd45f6f167b56977495e8c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 23/27] fix: report a file that cannot be opened instead of
 crashing

---
 src/command_line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 7444c78..3fb97ee 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -11,7 +11,7 @@ static std::string read_file(const char* filename)
 {
     std::ifstream file(filename, std::ios::binary);
     if (!file.is_open()) {
-        fatal_error(nullptr, "%s: failed to open", filename);
+        fatal_error("%s: failed to open", filename);
     }
     file.seekg(0, std::ios::end);
     std::string text(file.tellg(), ' ');
-- 
2.43.0


From ba9ddc699e00c20379adc9a6115486ff26c3d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 24/27] fix: report read errors

---
 src/command_line.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 3fb97ee..243d74f 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -13,11 +13,15 @@ static std::string read_file(const char* filename)
     if (!file.is_open()) {
         fatal_error("%s: failed to open", filename);
     }
-    file.seekg(0, std::ios::end);
-    std::string text(file.tellg(), ' ');
-
-    file.seekg(0, std::ios::beg);
-    file.read(std::data(text), std::size(text));
+    std::string text;
+    char buffer[4096];
+    do {
+        file.read(buffer, sizeof(buffer));
+        text.append(buffer, static_cast<size_t>(file.gcount()));
+    } while (file);
+    if (file.bad()) {
+        fatal_error("%s: failed to read", filename);
+    }
     return text;
 }
 
-- 
2.43.0


From 89b0306c0a2cd6999cafad63daf827bb96a58b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 25/27] fix: report write errors

---
 src/command_line.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 243d74f..88f7e9f 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -62,6 +62,10 @@ int main(int argc, char** argv)
             fatal_error("%s: failed to open", output_file);
         }
         outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
+        outfp.close();
+        if (!outfp) {
+            fatal_error("%s: failed to write", output_file);
+        }
     } catch (const std::ios_base::failure& e) {
         fatal_error("failed to write output file: %s", e.what());
     }
-- 
2.43.0


From a1ff5e3db8b25db00ecbcf7aa59eadcd2f543aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 26/27] fix: refuse null characters in the source

---
 src/command_line.cpp | 2 +-
 src/nxas.cpp         | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 88f7e9f..6c009ac 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -55,7 +55,7 @@ int main(int argc, char** argv)
         fatal_error("no output file");
     }
     const std::string input_text = read_file(input_file);
-    const std::vector<uint64_t> binary = nxas::assemble(input_text.c_str(), input_file);
+    const std::vector<uint64_t> binary = nxas::assemble(input_text, input_file);
     try {
         std::ofstream outfp(output_file, std::ios::binary);
         if (!outfp.is_open()) {
diff --git a/src/nxas.cpp b/src/nxas.cpp
index 6d19636..937eb48 100644
--- a/src/nxas.cpp
+++ b/src/nxas.cpp
@@ -24,6 +24,11 @@ static uint64_t generate_sched(std::span<const opcode> opcodes, size_t index,
 
 std::vector<uint64_t> assemble(const std::string& code, const char* filename)
 {
+    // The source is read as a null-terminated string
+    if (code.find('\0') != std::string::npos) {
+        fatal_error("%s: unexpected null character", filename);
+    }
+
     // Prepare our context
     context ctx(filename, code.c_str());
 
-- 
2.43.0


From dde9d3aab8b2672d969804f91fa5641eedb20bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:46 +0000
Subject: [PATCH 27/27] fix: do not read past the end of a text that ends in a
 word at the start of a line

---
 src/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 5ee3162..38db1ed 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -311,7 +311,9 @@ void context::generate_labels()
                 fatal_error(label_token, "label \33[1m%s\33[0m already defined", label.c_str());
             }
         }
-        next_line();
+        if (*text) {
+            next_line();
+        }
     }
 
     reset();
-- 
2.43.0

