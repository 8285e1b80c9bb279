From 3a56fd141744fa693dc0e1b9971616ac2a791deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:49 +0000
Subject: [PATCH 01/33] fix: report overflow when encoding an infinite or
 undefined real value

ieee_to_x1() turned infinity (for example 2.0^100000) into a garbage
word pair instead of reporting overflow.
---
 simulator/x1_arch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index a5d6037..3617c20 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -31,6 +31,9 @@ Real x1_words_to_real(Word hi, Word lo)
 //
 Real ieee_to_x1(long double input)
 {
+    if (!std::isfinite(input)) {
+        throw std::runtime_error("Overflow in real arithmetic");
+    }
     const bool negate_flag = std::signbit(input);
     if (negate_flag) {
         input = -input;
-- 
2.43.0


From 8e47fca00fbe9b7158c55d72cec1d494d07bc725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:49 +0000
Subject: [PATCH 02/33] fix: detect overflow in integer_to_x1() for the most
 negative int

Negating INT_MIN overflows, so the range check was passed and a garbage
word was returned; a real value too large for an int ends up there when
assigned to an integer variable.
---
 simulator/x1_arch.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 3617c20..5317f06 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -112,15 +112,15 @@ long double x1_to_ieee(Real input)
 //
 Word integer_to_x1(int input)
 {
+    if (input > (int)BITS(26) || input < -(int)BITS(26)) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+
     const bool negate_flag = input < 0;
     if (negate_flag) {
         input = -input;
     }
 
-    if (input > (int)BITS(26)) {
-        throw std::runtime_error("Overflow in integer arithmetic");
-    }
-
     Word result = input;
     if (negate_flag) {
         result ^= BITS(27);
-- 
2.43.0


From 3632bea55b0397305302fe0e846033401701bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 03/33] =?UTF-8?q?fix:=20integer=20power=20a=E2=86=91i=20yi?=
 =?UTF-8?q?elds=20a=20real=20when=20the=20result=20exceeds=20one=20word?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 simulator/virtual_stack.cpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 68a6440..fb1ab93 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -272,19 +272,32 @@ void Stack_Cell::subtract(const Stack_Cell &another)
 }
 
 //
-// Iterative function to calculate integer pow(x, n).
+// Iterative function to calculate integer pow(x, n) for n > 0.
+// Return false when the result does not fit into one word.
 //
-static int power(int x, unsigned n)
+static bool power(int x, unsigned n, int &result)
 {
-    int result = 1;
-    while (n) {
+    int64_t const limit = BITS(26);
+    int64_t product     = 1;
+    int64_t factor      = x;
+    for (;;) {
         if (n & 1) {
-            result *= x;
+            product *= factor;
+            if (product > limit || product < -limit) {
+                return false;
+            }
         }
         n = n >> 1;
-        x *= x;
+        if (n == 0) {
+            break;
+        }
+        factor *= factor;
+        if (factor > limit) {
+            return false;
+        }
     }
-    return result;
+    result = product;
+    return true;
 }
 
 //
@@ -310,7 +323,14 @@ void Stack_Cell::exponentiate_int(int a, const Stack_Cell &another)
         int i = x1_to_integer(another.get_int());
         if (i > 0) {
             // a×a×...×a (i times), of the same type as a.
-            value = integer_to_x1(power(a, i));
+            int result;
+            if (power(a, i, result)) {
+                value = integer_to_x1(result);
+            } else {
+                // Too large - convert to real number, like multiplication does.
+                value = ieee_to_x1(power((long double)a, i));
+                type  = Cell_Type::REAL_VALUE;
+            }
         } else if (i == 0) {
             // if a≠0: 1, of the same type as a.
             // if a=0: undefined.
-- 
2.43.0


From 91b816904f8e34f473d7a0254d50a96cce5858a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 04/33] fix: round shift order 1P must not continue as a clear
 shift

---
 simulator/processor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a8f9459..a92e9fc 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -278,6 +278,7 @@ bool Processor::step()
             core.L = core.S & ONEBIT(26);
             break;
         }
+        break;
     }
 
     case 077'00: {
-- 
2.43.0


From 7c6db28c3dda04e9158a2ef16cac26152df2a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 05/33] fix: FLOT(n, 2, x) prints exponents up to 99 as
 documented

---
 simulator/machine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 68047a3..1e513af 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -535,7 +535,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         }
         break;
     case 2:
-        if (exponent > 9 || exponent < -99) {
+        if (exponent > 99 || exponent < -99) {
             goto again;
         }
         break;
-- 
2.43.0


From 8b7372eab2bdde48e592ae8e1afda4268c4502d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:09 +0000
Subject: [PATCH 06/33] fix: FLOT falls back to wider layout when rounding
 makes the exponent too large

---
 simulator/machine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 1e513af..d984bc0 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -554,6 +554,10 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     if (x >= 1) {
         x /= 10;
         exponent++;
+        if ((m == 1 && exponent > 9) || (m == 2 && exponent > 99)) {
+            // After rounding, the exponent does not fit anymore.
+            goto again;
+        }
     }
 
     // Print mantissa.
-- 
2.43.0


From d2fee1751b971f4436e39835c86cb773dad983d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 07/33] fix: check for stack overflow on every push

---
 simulator/virtual_stack.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index fb1ab93..9e26f22 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -563,11 +563,7 @@ void Virtual_Stack::push(const Stack_Cell &item)
 
 void Virtual_Stack::push(Cell_Type type, uint64_t value)
 {
-    storage.push_back({});
-    auto &item = storage.back();
-    item.type  = type;
-    item.value = value;
-    Machine::trace_stack(storage.size() - 1, item.to_string(), "Push");
+    push(Stack_Cell{ type, value });
 }
 
 //
-- 
2.43.0


From 6438ca7dcbbee907bb648ab9b9616e60199076dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 08/33] fix: do not run the program when the compiler was
 killed by a signal

---
 simulator/machine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index d984bc0..ced0b63 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -309,6 +309,9 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         throw std::runtime_error("Lost child process #" + std::to_string(pid));
     }
 
+    if (!WIFEXITED(wait_status)) {
+        throw std::runtime_error("Compiler terminated abnormally");
+    }
     int exit_code = WEXITSTATUS(wait_status);
     switch (exit_code) {
     case STATUS_OK:
-- 
2.43.0


From edbe9321dc497e70fe54158f3d78eec1b233413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 09/33] fix: reject object files without entry address

---
 simulator/machine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index ced0b63..21a3bbe 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -392,6 +392,9 @@ void Machine::load_object_program(const std::string &obj_filename)
             throw std::runtime_error("Bad line: '" + line + "'");
         }
     }
+    if (entry_table.empty()) {
+        throw std::runtime_error("No entry address in " + obj_filename);
+    }
 }
 
 //
-- 
2.43.0


From 0e21b524ab1ba4df0ab991ed3ef8ec7a2f91ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 10/33] fix: report overflow when rounding a large real number
 to integer

---
 simulator/opcodes.cpp   |  4 ++--
 simulator/processor.cpp |  2 +-
 simulator/x1_arch.cpp   | 13 +++++++++++++
 simulator/x1_arch.h     |  1 +
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8435906..56bcf7f 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -535,7 +535,7 @@ bool Processor::call_opc(unsigned opc)
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : (int)roundl(x1_to_ieee(idxs[i].get_real()));
+                                                 : x1_round_real(idxs[i].get_real());
             if (i == 0)
                 idx0 = idx;
             elt_addr += idx * dimsize;
@@ -976,7 +976,7 @@ bool Processor::call_opc(unsigned opc)
                 stack.push_real_value(load_real(actual + i));
                 break;
             case 21: // real to integer
-                stack.push_int_value(integer_to_x1(roundl(x1_to_ieee(load_real(actual + 2 * i)))));
+                stack.push_int_value(integer_to_x1(x1_round_real(load_real(actual + 2 * i))));
                 break;
             case 12: // integer to real
                 stack.push_real_value(
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a92e9fc..83b858b 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -532,7 +532,7 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
         if (src.is_int_value()) {
             result = src.get_int();
         } else if (src.is_real_value()) {
-            result = integer_to_x1((int)roundl(x1_to_ieee(src.get_real())));
+            result = integer_to_x1(x1_round_real(src.get_real()));
         } else {
             throw std::runtime_error("Cannot store address");
         }
diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 5317f06..af0e018 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -139,6 +139,19 @@ int x1_to_integer(Word input)
     }
 }
 
+//
+// Round a real number to the nearest integer.
+//
+int x1_round_real(Real input)
+{
+    long double const rounded = roundl(x1_to_ieee(input));
+    long double const limit   = BITS(26);
+    if (rounded > limit || rounded < -limit) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+    return (int)rounded;
+}
+
 //
 // Print CPU instruction with mnemonics.
 //
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index f7e0b8a..afcdca5 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -56,6 +56,7 @@ long double x1_to_ieee(Real word);
 // Convert integer value between native and X1 formats.
 //
 Word integer_to_x1(int d);
+int x1_round_real(Real input);
 int x1_to_integer(Word word);
 
 //
-- 
2.43.0


From 0f562a20b0a9e42b36d3ad4f5d05f96c37a06ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:15 +0000
Subject: [PATCH 11/33] fix: XEEN takes the one's complement word of its
 argument as mask, all ones for zero

---
 simulator/opcodes.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 56bcf7f..4815fee 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1072,7 +1072,10 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
-        auto bitmask = stack.pop_integer();
+        // The mask is the machine word of the argument (one's complement);
+        // zero stands for minus zero, a row of 27 ones.
+        auto arg     = stack.pop_integer();
+        auto bitmask = (arg == 0) ? BITS(27) : integer_to_x1(arg);
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
-- 
2.43.0


From 20f61d5551d6f708027b369f89f381977c5cc6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:15 +0000
Subject: [PATCH 12/33] fix: refuse console switches that are not up to 27
 binary digits

---
 simulator/input.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index 8e3e563..4c0fe6d 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -117,14 +117,17 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
                 std::cout << "Enter console switches (up to 27 binary digits)\n";
                 std::cout << "> " << std::flush;
             }
-            try {
-                std::string line;
-                if (std::getline(input_stream, line)) {
+            std::string line;
+            if (std::getline(input_stream, line)) {
+                // Ignore white space around the number.
+                line.erase(line.find_last_not_of(" \t\r") + 1);
+                line.erase(0, line.find_first_not_of(" \t\r"));
+                if (!line.empty() && line.size() <= 27 &&
+                    line.find_first_not_of("01") == std::string::npos) {
                     console_switches = std::stoul(line, nullptr, 2);
                     switches_are_valid = true;
                     break;
                 }
-            } catch (...) {
                 // No valid number.
             }
 
-- 
2.43.0


From 78d370caead8e7a6d3745bc653027456b7902f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 13/33] fix: keep the carry when scaling a number by powers of
 ten

---
 compiler/x1algc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6696895..d460083 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -628,7 +628,8 @@ _L3: /*float*/
         do {
             fnw *= 5;
             inw = (fnw & 7) * d23 + inw * 5 / 8;
-            fnw /= 8;
+            fnw = fnw / 8 + inw / d26;
+            inw &= d26 - 1;
             if (fnw < d25) {
                 inw *= 2;
                 fnw = fnw * 2 + inw / d26;
-- 
2.43.0


From 061cf6ec9efd889d4e7f235e4dd39646f5a3d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 14/33] fix: compile a real number that is too small as zero

---
 compiler/x1algc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index d460083..24a28ee 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -666,6 +666,13 @@ _L3: /*float*/
     }
     if (bexp > 4095)
         stop(4, "Real too large");
+    if (bexp < 0) {
+        // Too small for a real: becomes zero, as at run time.
+        fnw   = 0;
+        inw   = 0;
+        dflag = 0;
+        goto _L4;
+    }
     inw   = inw / 4096 * 4096 + bexp;
     dflag = 1;
 _L4:
-- 
2.43.0


From 6761d843d100e5836cdef261b579fb8e1d63a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 15/33] fix: report array indexes beyond the limits also when
 the address wraps around

---
 simulator/opcodes.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 4815fee..62cfb13 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -6,6 +6,19 @@
 #include "machine.h"
 #include "opc.h"
 
+//
+// Distance from the first word of an array to its (possibly virtual) element
+// with all indexes zero. The storage function keeps the address of this element
+// modulo 2^26: the compiler computes it without a sign.
+//
+static int array_base_offset(Word zero_base, unsigned location)
+{
+    int offset = (zero_base - location) & BITS(26);
+    if (offset > (int)BITS(25))
+        offset -= 1 << 26;
+    return offset;
+}
+
 //
 // Invoke a run-time routine by code.
 //
@@ -518,41 +531,40 @@ bool Processor::call_opc(unsigned opc)
         // The storage function of an array is described by 3+ndim words.
         // For a 1-dimensional array, "offset: contents":
         // 0: address of the first memory word the array occupies
-        // 1: base address for indexing from 0 (for a left bound >= 0)
-        //    (with the high bit set for a left bound < 0 - a 1's complement artifact)
+        // 1: base address for indexing from 0, modulo 2^26 (see array_base_offset)
         // 2..2+ndim-1: element or dimension sizes in words
         // 2+ndim: number of words in the array, negated
         unsigned addr = storage_fn.get_addr();
         int location  = x1_to_integer(load_word(addr));
-        int base      = load_word(addr + 1);
         int limit     = x1_to_integer(load_word(addr + 2 + ndim));
         // The limit must look like a negative number with a reasonable absolute value.
         if (limit >= 0 || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
-        int elt_addr = base;
-        int idx0     = 0; // for the error message
+        int base        = array_base_offset(load_word(addr + 1), location);
+        int64_t elt_off = base; // from the location of the array
+        int idx0        = 0;    // for the error message
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
                                                  : x1_round_real(idxs[i].get_real());
             if (i == 0)
                 idx0 = idx;
-            elt_addr += idx * dimsize;
+            elt_off += (int64_t)idx * dimsize;
         }
-        elt_addr &= BITS(20); // 16 rather than 15 is to catch "negative" addresses
-        if (elt_addr < location || elt_addr + limit >= location) {
+        if (elt_off < 0 || elt_off >= -limit) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
             if (ndim == 1) {
                 ostr << "Index " << idx0 << " is ";
             } else {
-                ostr << "Indexing (linearized " << elt_addr - base << ") ";
+                ostr << "Indexing (linearized " << elt_off - base << ") ";
             }
-            ostr << "beyond limits for array [" << (location - base) / elsize << ':'
-                 << (location - base - limit) / elsize - 1 << ']';
+            ostr << "beyond limits for array [" << -base / elsize << ':'
+                 << (-base - limit) / elsize - 1 << ']';
             throw std::runtime_error(ostr.str());
         }
+        unsigned elt_addr = location + elt_off;
         if (storage_fn.is_int_addr())
             stack.push_int_addr(elt_addr);
         else
-- 
2.43.0


From bb4ef62d17c58d406c1f6f6d3edae7ed4f592165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 16/33] fix: take the bounds of a value array modulo 2^26

---
 simulator/opcodes.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 62cfb13..e226d50 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -939,8 +939,7 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        unsigned zero_base =
-            stack.get(storage_fn + 1).get_addr() & 0xFFFF; // remove stray high bits
+        int base = array_base_offset(stack.get(storage_fn + 1).get_addr(), actual);
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -976,8 +975,7 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = actual - zero_base;
-        offset     = offset * mul / div;
+        int offset = -base * mul / div;
         stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
         for (unsigned i = 0; i < words; ++i) {
             switch (elt_size) {
-- 
2.43.0


From e005c0abce9c00ebec20c6b3cf8c17162daedc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 17/33] fix: keep whole frame pointers in the parent display of
 parameters

---
 simulator/processor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 83b858b..338b7e3 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -377,7 +377,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
     // the block in which the corresponding procedure statement is given." (E.W.Dijkstra)
     //
     auto parent_level   = get_block_level();
-    auto parent_display = parent_level << 15 | frame_ptr;
+    auto parent_display = parent_level << 20 | frame_ptr;
 
     for (unsigned i = 0; i < num_args; i++) {
         // Allocate formal parameters: two cells per parameter.
@@ -513,8 +513,8 @@ void Processor::get_arg_display(unsigned const dynamic_addr, unsigned &block_lev
     auto const addr           = address_in_stack(dynamic_addr);
     auto const formal_display = stack.get(addr + 1).get_int();
 
-    block_level  = formal_display >> 15;
-    prev_display = formal_display & BITS(15);
+    block_level  = formal_display >> 20;
+    prev_display = formal_display & BITS(20);
 }
 
 //
-- 
2.43.0


From e881a0a8c5b48cf225792309b8897437344065ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 18/33] fix: call a formal procedure in the context its actual
 was given in, also when passed on

---
 simulator/opcodes.cpp   |  8 ++++++--
 simulator/processor.cpp | 13 +++++++++++--
 simulator/processor.h   |  2 +-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index e226d50..e9b9f26 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -55,9 +55,11 @@ bool Processor::call_opc(unsigned opc)
         // Invoke a function which dynamic address is located in register S.
         // Number of arguments is present in register A.
         // Expect result on return from procedure.
-        unsigned addr = get_formal_proc(core.S);
+        unsigned level, frame;
+        unsigned addr = get_formal_proc(core.S, level, frame);
         stack.push_int_value(0); // place for result
         frame_create(OT, core.A);
+        update_display(level, frame);
         OT = addr;
         break;
     }
@@ -66,10 +68,12 @@ bool Processor::call_opc(unsigned opc)
         // Invoke a procedure which dynamic address is located in register S.
         // Number of arguments is present in register A.
         // Save return address on stack.
-        unsigned addr = get_formal_proc(core.S);
+        unsigned level, frame;
+        unsigned addr = get_formal_proc(core.S, level, frame);
         machine.mem_store(51, OT - 8); // for PRINTTEXT
         stack.push_null();             // place for result
         frame_create(OT, core.A);
+        update_display(level, frame);
         OT = addr;
         break;
     }
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 338b7e3..800bee3 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -583,15 +583,24 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
 }
 
 //
-// Get address of procedure parameter at dynamic address.
+// Get address of procedure parameter at dynamic address,
+// and the context it has to be called in.
 //
-unsigned Processor::get_formal_proc(unsigned dynamic_addr)
+unsigned Processor::get_formal_proc(unsigned dynamic_addr, unsigned &arg_level,
+                                    unsigned &arg_frame)
 {
+again:
     unsigned const arg_descr = arg_descriptor(dynamic_addr);
     unsigned const arg_addr  = arg_descr & BITS(15);
+    get_arg_display(dynamic_addr, arg_level, arg_frame);
     switch (arg_descr >> 15 & 077) {
     case 040:
         return arg_addr;
+    case 006:
+        // Indirection: argument point to another argument in parent's frame.
+        update_display(arg_level, arg_frame);
+        dynamic_addr = (arg_descr >> 22) | (arg_addr << 5);
+        goto again;
     default:
         throw std::runtime_error("Unknown descriptor of formal procedure: " + to_octal(arg_descr));
     }
diff --git a/simulator/processor.h b/simulator/processor.h
index 4bbba6f..036e08d 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -182,7 +182,7 @@ private:
     void take_formal(unsigned dynamic_addr, Formal_Op op);
 
     // Get address of procedure parameter at dynamic address.
-    unsigned get_formal_proc(unsigned dynamic_addr);
+    unsigned get_formal_proc(unsigned dynamic_addr, unsigned &arg_level, unsigned &arg_frame);
 
     // Set lexical scope level, or block number (BN).
     void set_block_level(unsigned block_level);
-- 
2.43.0


From c60db53a69c998588b7457511824f85068ae5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 19/33] fix: discard all frames and unfinished calculations
 left by a goto

---
 simulator/processor.cpp | 17 +++++++++++------
 simulator/processor.h   |  3 +++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 800bee3..d37c606 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -386,6 +386,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
     }
     frame_ptr  = new_frame_ptr;
     stack_base = stack.count();
+    frames.push_back(frame_ptr);
 
     // Default post-operation is to leave value on stack.
     eis_operation[stack_base] = Formal_Op::PUSH_VALUE;
@@ -406,6 +407,9 @@ unsigned Processor::frame_release()
     stack_base         = stack.get(frame_ptr + Frame_Offset::SP).get_addr();
     frame_ptr          = stack.get(frame_ptr + Frame_Offset::FP).get_addr();
     stack.erase(new_stack_ptr);
+    while (!frames.empty() && frames.back() >= new_stack_ptr) {
+        frames.pop_back();
+    }
 
     // Update display[BN...0] by unwinding stack.
     update_display(get_block_level(), frame_ptr);
@@ -430,16 +434,17 @@ void Processor::allocate_stack(unsigned nwords)
 //
 void Processor::roll_back(unsigned goto_frame)
 {
-    unsigned fp = frame_ptr;
-    while (fp > 0) {
-        unsigned prev_fp = stack.get(fp + Frame_Offset::FP).get_addr();
-        if (prev_fp == goto_frame) {
+    // Frames above the goto frame may not be linked to it directly: they could be
+    // called from implicit subroutines. The lowest of them was called by the block
+    // itself, and holds the base of its stack.
+    for (auto const fp : frames) {
+        if (fp > goto_frame && stack.get(fp + Frame_Offset::FP).get_addr() == goto_frame) {
             frame_ptr = fp;
             frame_release();
-            stack.pop();
+            // Drop place for result and unfinished calculations.
+            stack.erase(stack_base);
             return;
         }
-        fp = prev_fp;
     }
     throw std::runtime_error("Cannot find goto frame");
 }
diff --git a/simulator/processor.h b/simulator/processor.h
index 036e08d..24d558c 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -80,6 +80,9 @@ private:
     unsigned frame_ptr{};
     unsigned last_frame_ptr{};
 
+    // All frames present in stack, from lowest to topmost.
+    std::vector<unsigned> frames;
+
     // Base of stack in current block.
     unsigned stack_base{};
 
-- 
2.43.0


From 99242bbf22521ecb0149ffc273ff6614f22d5f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:38 +0000
Subject: [PATCH 20/33] fix: take no parameter for read, NLCR, TAB and stop
 given as actual parameters

---
 compiler/x1algc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 24a28ee..51caed1 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2171,8 +2171,12 @@ _L8702:
                         store[tlsc - 2] = pstb;
                     goto _L8704;
                 } else {
-                    tfpflag = 1;
-                    fill_result_list(98, 0);
+                    int op = store[nlib + nid] & (d8 - 1);
+                    if (op != 142 && op != 144 && op != 145 && op != 148) {
+                        /*not read, TAB, NLCR, stop: these take no parameter*/
+                        tfpflag = 1;
+                        fill_result_list(98, 0);
+                    }
                     goto _L8703;
                 }
             } else {
-- 
2.43.0


From b02ae619a725553e252329ad88751e52124f0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:38 +0000
Subject: [PATCH 21/33] fix: leave nothing on the stack for a procedure without
 result given as actual parameter

---
 simulator/opcodes.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index e9b9f26..c0d25c8 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -104,14 +104,21 @@ bool Processor::call_opc(unsigned opc)
     }
     case OPC_EIS: {
         // end of implicit subroutine
-        auto item    = stack.pop();
-        auto post_op = eis_operation.at(stack_base);
+        // A procedure like NLCR or SPACE, given as actual parameter, leaves no result.
+        bool has_result = (stack.count() > stack_base);
+        auto item       = has_result ? stack.pop() : Stack_Cell{};
+        auto post_op    = eis_operation.at(stack_base);
         if (post_op == Formal_Op::REMOVE_ARG) {
             stack_base -= 2;
         }
         frame_ptr = stack_base + Frame_Offset::FP - Frame_Offset::ARG;
         OT        = frame_release();
 
+        if (!has_result) {
+            stack.pop();
+            break;
+        }
+
         // Apply operation with given item.
         stack.top() = item;
         apply_operation(post_op);
-- 
2.43.0


From 8ee4968e54a10d4c293e3999d746f364549df2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 22/33] fix: round a real switch index

---
 simulator/opcodes.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index c0d25c8..85c9777 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -256,8 +256,11 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_SSI: {
         // store switch index
-        auto index = stack.pop().get_int();
-        machine.mem_store(060, index);
+        // A real index is rounded, like a subscript.
+        auto index = stack.pop();
+        machine.mem_store(060, index.is_real_value()
+                                   ? integer_to_x1(x1_round_real(index.get_real()))
+                                   : (Word)index.get_int());
         break;
     }
     case OPC_CAC:
-- 
2.43.0


From ce4ec92eadff2e4520341c71bba3737330acb090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 23/33] fix: read one newline symbol per line of the source
 text

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 51caed1..0569ed4 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -208,7 +208,7 @@ _L1:
         input_pos = 0;
         /*writeln('---');*/
         /*for debug*/
-        return 119; /*newline*/
+        goto _L1; /*the line itself ends with a newline*/
     }
     i = read_next_byte();
     if (i < 128) {
-- 
2.43.0


From 83b7212ec91c50cc4e8247b9aabf8c2eca220f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 24/33] fix: print the bar and the underline as such

---
 simulator/encoding.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/simulator/encoding.cpp b/simulator/encoding.cpp
index 5a9e666..ba58993 100644
--- a/simulator/encoding.cpp
+++ b/simulator/encoding.cpp
@@ -21,5 +21,15 @@ static const char *algol_to_utf8[128] = {
 //
 void algol_putc(int ch, std::ostream &out)
 {
-    out << algol_to_utf8[ch & 0177];
+    switch (ch) {
+    case 162:
+        out << '|';
+        break;
+    case 163:
+        out << '_';
+        break;
+    default:
+        out << algol_to_utf8[ch & 0177];
+        break;
+    }
 }
-- 
2.43.0


From 2983de3eeade99e8ed3afa937fadb0d757870c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 25/33] fix: report an empty stack instead of reading in front
 of it

---
 simulator/virtual_stack.cpp | 22 ++++++++++++++++++++++
 simulator/virtual_stack.h   |  6 +++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 9e26f22..4183236 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -424,6 +424,28 @@ void Stack_Cell::exponentiate_real(long double a, const Stack_Cell &another)
     }
 }
 
+//
+// Get the top of the stack.
+//
+Stack_Cell &Virtual_Stack::top()
+{
+    if (storage.size() == 0) {
+        throw std::runtime_error("No item on top of empty stack");
+    }
+    return storage.back();
+}
+
+//
+// Remove all items from ptr on (but don't deallocate).
+//
+void Virtual_Stack::erase(unsigned ptr)
+{
+    if (ptr > storage.size()) {
+        throw std::runtime_error("No item #" + std::to_string(ptr) + " in stack");
+    }
+    storage.erase(storage.begin() + ptr, storage.end());
+}
+
 //
 // Remove one item from stack, and return it as cell.
 //
diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index 03c2cc6..621b405 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -77,10 +77,10 @@ public:
     unsigned count() const { return storage.size(); }
 
     // Get the top of the stack.
-    Stack_Cell &top() { return storage.back(); }
+    Stack_Cell &top();
 
-    // Remove all items (but don't deallocate).
-    void erase(unsigned ptr) { storage.erase(storage.begin() + ptr, storage.end()); }
+    // Remove all items from ptr on (but don't deallocate).
+    void erase(unsigned ptr);
 
     // Remove one item from stack, and return it as cell.
     Stack_Cell pop();
-- 
2.43.0


From fcd6f9aad5ced9f4a23f5cb0ca5482711cd6ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 26/33] fix: report a bad block level of a goto

---
 simulator/opcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 85c9777..6db7f82 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -251,7 +251,7 @@ bool Processor::call_opc(unsigned opc)
         // goto adjustment
         // Exit to block level given in register B.
         frame_ptr = last_frame_ptr;
-        roll_back(display[core.B]);
+        roll_back(get_display(core.B));
         break;
 
     case OPC_SSI: {
-- 
2.43.0


From 99a5509cd73d691147bd02f98e51a3f1ec794afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 27/33] fix: do not divide by a zero element size

---
 simulator/opcodes.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 6db7f82..c46a81c 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -569,6 +569,9 @@ bool Processor::call_opc(unsigned opc)
         if (elt_off < 0 || elt_off >= -limit) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
+            if (elsize == 0) {
+                throw std::runtime_error("Bad element size of an array");
+            }
             if (ndim == 1) {
                 ostr << "Index " << idx0 << " is ";
             } else {
-- 
2.43.0


From 3c5db37b64a9decebabe95cdc8b43dd24948a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 28/33] fix: shift by more than 27 places

---
 simulator/processor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index d37c606..3171e2b 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -257,7 +257,7 @@ bool Processor::step()
 
     case 067'14: {
         // Round shift to the right, 1P amount rr E
-        unsigned amount = addr & 037;
+        unsigned amount = (addr & 037) % 27;
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | core.A << (27 - amount)) & BITS(27);
@@ -283,7 +283,7 @@ bool Processor::step()
 
     case 077'00: {
         // Clear shift to the right, 3P amount rr
-        unsigned amount = addr & 037;
+        unsigned amount = std::min(addr & 037, 27u);
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | -(core.A >> 26) << (27 - amount)) & BITS(27);
-- 
2.43.0


From f2df1d9fe89d3c66a5d5b7993af1bb63a3d65672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 29/33] fix: report an array too large for its storage function

---
 simulator/processor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 3171e2b..94536b5 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -909,12 +909,18 @@ void Processor::make_storage_function_frame(int elt_size)
         stack.push_real_addr(0);
     stack.push_null(); // future "0 element" address
     unsigned zero_base = stack.count() - 1;
-    int offset         = 0;
-    int stride         = elt_size;
+    int64_t offset     = 0;
+    int64_t stride     = elt_size;
     for (int i = 0; i < ndim; ++i) {
         stack.push_int_value(stride);
         offset += stride * dims[i].first;
         stride *= (dims[i].second - dims[i].first + 1);
+        if (std::abs(stride) > (int)BITS(26)) {
+            throw std::runtime_error("Array is too large");
+        }
+    }
+    if (std::abs(offset) > (int)BITS(26)) {
+        throw std::runtime_error("Array bounds are too large");
     }
     stack.set_int_value(zero_base, integer_to_x1(offset));
     stack.push_int_value(integer_to_x1(-stride));
-- 
2.43.0


From 6aa45c4214608a2c1edf5ae84447a2e626d5ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:48 +0000
Subject: [PATCH 30/33] fix: report formal parameters that refer to themselves

---
 simulator/processor.cpp | 24 ++++++++++++++++++++----
 simulator/processor.h   |  4 ++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 94536b5..e793f5d 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -522,6 +522,24 @@ void Processor::get_arg_display(unsigned const dynamic_addr, unsigned &block_lev
     prev_display = formal_display & BITS(20);
 }
 
+//
+// Switch to the parent's display.
+// Return dynamic address of the parent's formal parameter, which descriptor refers to.
+//
+unsigned Processor::parent_formal(unsigned dynamic_addr, unsigned arg_descr, unsigned arg_level,
+                                  unsigned arg_frame)
+{
+    auto const here = address_in_stack(dynamic_addr);
+    update_display(arg_level, arg_frame);
+
+    dynamic_addr = (arg_descr >> 22) | ((arg_descr & BITS(15)) << 5);
+    if (address_in_stack(dynamic_addr) >= here) {
+        // The parent's frame is always below.
+        throw std::runtime_error("Formal parameter refers to itself");
+    }
+    return dynamic_addr;
+}
+
 //
 // Store value given by src cell.
 // Write it to stack offset given by dest cell.
@@ -603,8 +621,7 @@ again:
         return arg_addr;
     case 006:
         // Indirection: argument point to another argument in parent's frame.
-        update_display(arg_level, arg_frame);
-        dynamic_addr = (arg_descr >> 22) | (arg_addr << 5);
+        dynamic_addr = parent_formal(dynamic_addr, arg_descr, arg_level, arg_frame);
         goto again;
     default:
         throw std::runtime_error("Unknown descriptor of formal procedure: " + to_octal(arg_descr));
@@ -652,8 +669,7 @@ again:
         // Indirection: argument point to another argument in parent's frame.
         unsigned arg_level, arg_frame;
         get_arg_display(dynamic_addr, arg_level, arg_frame);
-        update_display(arg_level, arg_frame);
-        dynamic_addr = (arg_descr >> 22) | (arg_addr << 5);
+        dynamic_addr = parent_formal(dynamic_addr, arg_descr, arg_level, arg_frame);
         goto again;
     }
     case 060:
diff --git a/simulator/processor.h b/simulator/processor.h
index 24d558c..0419688 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -184,6 +184,10 @@ private:
     // Retrieve value of formal parameter.
     void take_formal(unsigned dynamic_addr, Formal_Op op);
 
+    // Switch to the display of the parent, whose formal parameter is the actual one.
+    unsigned parent_formal(unsigned dynamic_addr, unsigned arg_descr, unsigned arg_level,
+                           unsigned arg_frame);
+
     // Get address of procedure parameter at dynamic address.
     unsigned get_formal_proc(unsigned dynamic_addr, unsigned &arg_level, unsigned &arg_frame);
 
-- 
2.43.0


From e18be667c3e155a3249eb3f894e142110cf32d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:55 +0000
Subject: [PATCH 31/33] fix: FIXT suppresses the zero before the decimal point

The manual prints insignificant zeroes in front of the decimal point as
spaces and makes an exception for the units only if m = 0.  The zero right
after the point, which is significant, was printed as a space instead
(FIXT(0, 3, .05) gave +. 50).
---
 simulator/machine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 21a3bbe..3f3a46c 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -482,7 +482,7 @@ void Machine::print_fixed_point(std::ostream &out, int n, int m, long double x0,
         assert(digit >= 0 && digit <= 9);
         x -= digit;
 
-        if (count + 1 == n) {
+        if (count == n || (count + 1 == n && m == 0)) {
             suppress_zeroes = false;
         }
         if (count == n && m > 0) {
-- 
2.43.0


From c4552345ceb67ae002065c999c2b65962c4c81db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:00 +0000
Subject: [PATCH 32/33] fix: identifiers of more than nine characters may
 contain the letter Z

Characters after the ninth are skipped while they are letters or digits, but
the last letter, with code 62, ended the loop: abcdefghiZ was taken as an
identifier followed by something else and refused.
---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 0569ed4..806430f 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -544,7 +544,7 @@ Static Void read_until_next_delimiter()
                 marker = (fnw & (d6 - 1)) * d21;
                 fnw    = fnw / d6 + d21 * 63;
             }
-            while (dl < 62)
+            while (dl < 63)
                 read_next_symbol();
         }
         goto _L4;
-- 
2.43.0


From 09e00b922f7e903f63d47bdbb6dfbe72d44153e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:48 +0000
Subject: [PATCH 33/33] fix: check the parity of the last word of a procedure
 on the library tape

A wrong parity bit in the terminator of the last procedure read was
accepted silently: parity was tested only when the next word was read.
---
 compiler/x1algc.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 806430f..16aebad 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2812,6 +2812,15 @@ Local int read_byte_from_lib_tape()
     return w;
 }
 
+Local Void test_parity(struct LOC_program_loader *LINK)
+{
+    LINK->parity_word =
+        logical_sum(LINK->parity_word, LINK->parity_word / d4) & (d4 - 1);
+    if (LINK->parity_word < 32 &&
+        ((1 << LINK->parity_word) & 0x9669) != 0)
+        stop(105, "Parity error on library tape");
+} /*test_parity*/
+
 Local Void complete_bitstock(struct LOC_program_loader *LINK)
 {
     /*RW*/
@@ -2843,11 +2852,7 @@ Local Void complete_bitstock(struct LOC_program_loader *LINK)
             if (LINK->heptade_count > 0) {
                 /*test parity of the previous 4 heptades*/
                 bitcount++;
-                LINK->parity_word =
-                    logical_sum(LINK->parity_word, LINK->parity_word / d4) & (d4 - 1);
-                if (LINK->parity_word < 32 &&
-                    ((1 << LINK->parity_word) & 0x9669) != 0)
-                    stop(105, "Parity error on library tape");
+                test_parity(LINK);
                 LINK->heptade_count = -3;
                 LINK->parity_word   = w;
                 w /= 2;
@@ -3383,6 +3388,7 @@ Static Void program_loader()
             if (V.list_address != 0) {
                 read_list(&V);
                 test_bit_stock();
+                test_parity(&V); /*of the terminator*/
                 mcp_count--;
                 store[crfb + i] = 0;
             } else {
-- 
2.43.0

