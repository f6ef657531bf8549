From 4ac79b5ef929f1ce34939707cb4c2340ec9d98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 01/60] fix: allocate the full size of a character object

---
 src/core/c/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/char.c b/src/core/c/char.c
index 9a64b43..b46fd1f 100644
--- a/src/core/c/char.c
+++ b/src/core/c/char.c
@@ -5,7 +5,7 @@
 #include "../minim.h"
 
 mobj Mchar(mchar c) {
-    mobj o = GC_alloc_atomic(sizeof(minim_char_size));
+    mobj o = GC_alloc_atomic(minim_char_size);
     minim_type(o) = MINIM_OBJ_CHAR;
     minim_char(o) = c;
     return o;
-- 
2.43.0


From c6bdd365b29536f03fda249dcd9bfc6b32764219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 02/60] fix: grow and shrink the interpreter stack by whole
 frames

The end-of-stack pointer was computed with pointer-sized strides, so the
overflow check never fired and deep non-tail recursion ran off the
segment.  Growing now moves the current frame, returning walks back to the
segment that holds the previous frame, and multiple values check for room.
---
 src/boot/c/boot.c |  2 +-
 src/core/c/eval.c | 65 +++++++++++++++++++++++++++--------------------
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/boot/c/boot.c b/src/boot/c/boot.c
index dadd89f..f8cefa9 100644
--- a/src/boot/c/boot.c
+++ b/src/boot/c/boot.c
@@ -16,6 +16,6 @@ void minim_boot_init() {
     tc_stack_base(tc) = GC_alloc(stack_size);
     tc_stack_size(tc) = stack_size;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_stack_base(tc), tc_stack_size(tc) - stack_slop);
     current_tc() = tc;
 }
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 5cfa275..b5dee20 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -88,17 +88,36 @@ static void grow_stack(mobj tc, size_t size) {
     // allocate stack record for previous segment
     srecord = Mcached_stack(tc_stack_base(tc), tc_stack_link(tc), tc_stack_size(tc), tc_ccont(tc));
 
-    // allocate new stack segment
+    // allocate new stack segment and move the current frame to it
     stack = GC_alloc(actual);
+    memcpy(stack, tc_sfp(tc), stack_frame_size(tc, 0));
     tc_stack_base(tc) = stack;
     tc_stack_link(tc) = srecord;
     tc_stack_size(tc) = actual;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_stack_base(tc), tc_stack_size(tc) - stack_slop);
+}
+
+// Is the current frame in the current stack segment?
+static int frame_in_segmentp(mobj tc) {
+    uintptr_t base = (uintptr_t) tc_stack_base(tc);
+    uintptr_t sfp = (uintptr_t) tc_sfp(tc);
+    return sfp >= base && sfp < base + tc_stack_size(tc);
+}
+
+// Returns to the segment containing the current frame.
+static void shrink_stack(mobj tc) {
+    while (!frame_in_segmentp(tc)) {
+        mobj srecord = tc_stack_link(tc);
+        tc_stack_base(tc) = cache_stack_base(srecord);
+        tc_stack_size(tc) = cache_stack_len(srecord);
+        tc_stack_link(tc) = cache_stack_prev(srecord);
+        tc_esp(tc) = ptr_add(tc_stack_base(tc), tc_stack_size(tc) - stack_slop);
+    }
 }
 
 void reserve_stack(mobj tc, size_t argc) {
-    size_t req = (1 + argc) * ptr_size;
+    size_t req = (1 + (argc > tc_ac(tc) ? argc : tc_ac(tc))) * ptr_size;
     if (stack_overflowp(tc, req))
         grow_stack(tc, req);
 }
@@ -193,11 +212,10 @@ static mobj do_rest(mobj tc, size_t idx) {
 }
 
 static void do_apply(mobj tc) {
-    mobj *sfp, rest;
+    mobj rest;
     size_t i, ac, req;
 
     // thread parameters
-    sfp = tc_sfp(tc);
     ac = tc_ac(tc);
 
     // the first argument becomes the current procedure
@@ -219,11 +237,8 @@ static void do_apply(mobj tc) {
 
     // check if we have room for the application
     req = stack_frame_size(tc, list_length(rest));
-    if (stack_overflowp(tc, req)) {
+    if (stack_overflowp(tc, req))
         grow_stack(tc, req);
-        for (i = 0; i < ac; i++)
-            tc_frame_ref(tc, i) = sfp[i + 1]; 
-    }
 
     // push rest argument to stack
     for (; !minim_nullp(rest); rest = minim_cdr(rest))
@@ -248,6 +263,7 @@ static mobj do_values(mobj tc) {
 static void values_to_args(mobj tc, mobj x) {
     if (minim_valuesp(x)) {
         // multi-valued
+        maybe_grow_stack(tc, tc_vc(tc));
         for (size_t i = 0; i < tc_vc(tc); i++)
             push_arg(tc, tc_values(tc)[i]);
     } else {
@@ -438,6 +454,7 @@ static mobj eval_istream(mobj tc, mobj *istream) {
     mobj ins, ty;   // instruction stream, instruction type
     mobj cc;        // current continuation
     mobj penv;      // run-time environment upon entry
+    mobj *pbase;    // entry frame
 
     // caller saved registers:
     //  %r0 [%res] - result
@@ -458,6 +475,7 @@ static mobj eval_istream(mobj tc, mobj *istream) {
 
     // need to stash for when we exit this function
     penv = tc_env(tc);
+    pbase = tc_sfp(tc);
 
     // possibly handle long jump back into the procedure
     if (setjmp(*tc_reentry(tc)) != 0) {
@@ -669,24 +687,14 @@ do_raise:
 
 // restores previous continuation
 restore_frame:
-    if (tc_sfp(tc) <= tc_stack_base(tc)) {
-        // we underflowed, so we need to unpack the previous stack
-        mobj srecord = tc_stack_link(tc);
-        if (minim_nullp(srecord)) {
-            // no previous stack so we should exit
-            // make sure to pop entry frame
-            tc_env(tc) = penv;
-            return tregs[0];
-        }
-
-        tc_stack_base(tc) = cache_stack_base(srecord);
-        tc_stack_size(tc) = cache_stack_len(srecord);
-        tc_stack_link(tc) = cache_stack_prev(srecord);
-        tc_sfp(tc) = tc_stack_base(tc);
-        tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
-        cc = cache_stack_ret(srecord);
-    } else {
-        cc = tc_ccont(tc);
+    cc = tc_ccont(tc);
+    if (minim_nullp(cc)) {
+        // no previous frame so we should exit
+        // make sure to pop entry frame
+        tc_sfp(tc) = pbase;
+        shrink_stack(tc);
+        tc_env(tc) = penv;
+        return tregs[0];
     }
 
     // restore instruction stream and environment
@@ -698,6 +706,9 @@ restore_frame:
     tc_sfp(tc) = continuation_sfp(cc);
     tc_cp(tc) = continuation_cp(cc);
     tc_ac(tc) = continuation_ac(cc);
+
+    // the previous frame may be in a previous stack segment
+    shrink_stack(tc);
     goto loop;
 
 not_procedure:
-- 
2.43.0


From 1d47c337cb8b1852404adf70349c4eadf028b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 03/60] fix: keep the caller's frame when evaluation is nested

load called from a non-tail position re-entered the evaluator on top of
the caller's frame and error re-entry point, and crashed on return.
---
 src/core/c/eval.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index b5dee20..d7a7ac0 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -453,8 +453,12 @@ static void store_reg(mobj tc, mobj *tregs, mobj ins, mobj idx, mobj val) {
 static mobj eval_istream(mobj tc, mobj *istream) {
     mobj ins, ty;   // instruction stream, instruction type
     mobj cc;        // current continuation
-    mobj penv;      // run-time environment upon entry
-    mobj *pbase;    // entry frame
+
+    // caller state: evaluation may be nested, e.g. `load`
+    mobj penv, pcp, pcc;
+    mobj *psfp;
+    size_t pac;
+    jmp_buf *preentry, reentry;
 
     // caller saved registers:
     //  %r0 [%res] - result
@@ -467,15 +471,21 @@ static mobj eval_istream(mobj tc, mobj *istream) {
     // temporary (non-register) locations
     mobj v0, v1;
     
-    // setup interpreter
+    // need to stash for when we exit this function
     tc = current_tc();
+    penv = tc_env(tc);
+    pcp = tc_cp(tc);
+    pcc = tc_ccont(tc);
+    psfp = tc_sfp(tc);
+    pac = tc_ac(tc);
+    preentry = tc_reentry(tc);
+
+    // setup interpreter: the entry frame goes above the frame of the caller
+    tc_sfp(tc) = ptr_add(tc_sfp(tc), stack_frame_size(tc, 0));
+    tc_ac(tc) = 0;
     tc_ra(tc) = NULL;
     tc_cp(tc) = minim_void;
-    tc_ac(tc) = 0;
-
-    // need to stash for when we exit this function
-    penv = tc_env(tc);
-    pbase = tc_sfp(tc);
+    tc_reentry(tc) = &reentry;
 
     // possibly handle long jump back into the procedure
     if (setjmp(*tc_reentry(tc)) != 0) {
@@ -688,12 +698,15 @@ do_raise:
 // restores previous continuation
 restore_frame:
     cc = tc_ccont(tc);
-    if (minim_nullp(cc)) {
-        // no previous frame so we should exit
-        // make sure to pop entry frame
-        tc_sfp(tc) = pbase;
+    if (cc == pcc) {
+        // returning from the entry frame so we should exit
+        // make sure to restore the frame of the caller
+        tc_sfp(tc) = psfp;
         shrink_stack(tc);
         tc_env(tc) = penv;
+        tc_cp(tc) = pcp;
+        tc_ac(tc) = pac;
+        tc_reentry(tc) = preentry;
         return tregs[0];
     }
 
-- 
2.43.0


From dfa5cb249582d0298df9a65f7ba8dec002d46ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 04/60] fix: insert a new symbol into the bucket of the resized
 table

---
 src/core/c/symbol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/c/symbol.c b/src/core/c/symbol.c
index 589a607..e4afbd8 100644
--- a/src/core/c/symbol.c
+++ b/src/core/c/symbol.c
@@ -173,6 +173,7 @@ mobj intern_symbol(intern_table *itab, const char *sym) {
 
     // update table
     resize_if_needed(itab);
+    idx = h % itab->alloc;
     intern_table_insert(itab, idx, obj);
     return obj;
 }
-- 
2.43.0


From 9fe45eddf73ec82e8eb1ec85d8970507121b48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 05/60] hook: let a simulator choose the stack segment size
 (MINIM_SIM, off by default)

---
 src/core/minim.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/minim.h b/src/core/minim.h
index 780069c..15c8fde 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -41,7 +41,13 @@ typedef void            *mobj;
 // constants
 
 #define symbol_max_len          4096
+#ifdef MINIM_SIM
+// simulation: segment size chosen at run time (off by default)
+extern size_t minim_sim_stack_size;
+#define stack_size              minim_sim_stack_size
+#else
 #define stack_size              65520
+#endif
 #define stack_frame_limit       512
 #define stack_slop              (2 * stack_frame_limit)
 #define env_vector_max          6
-- 
2.43.0


From 9a23320ba5eb74f2f5384fa479552e4de416aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 06/60] fix: report the end of input inside a datum instead of
 recursing or crashing

---
 src/core/c/io.c   |   3 +-
 src/core/c/read.c | 124 ++++++++++++++++++++++++++--------------------
 2 files changed, 71 insertions(+), 56 deletions(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index b6b0baa..4ba7e5e 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -174,7 +174,8 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    return read_object(minim_port(port));
+    mobj o = read_object(minim_port(port));
+    return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
diff --git a/src/core/c/read.c b/src/core/c/read.c
index 8b216bd..3279c6e 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -14,13 +14,19 @@ static int is_symbol_char(int c) {
     return !is_delimeter(c);
 }
 
-static void assert_not_eof(char c) {
+static mobj read_object_or_close(FILE *in, int *closep);
+
+static int is_close_paren(int c) {
+    return c == ')' || c == ']' || c == '}';
+}
+
+static void assert_not_eof(int c) {
     if (c == EOF) {
         minim_error("read_object", "unexpected end of input");
     }
 }
 
-static void assert_delimeter(char c) {
+static void assert_delimeter(int c) {
     if (!is_delimeter(c)) {
         minim_error1("read_object", "expected delimeter", Mchar(c));
     }
@@ -186,67 +192,64 @@ static mobj read_char(FILE *in) {
     return Mchar(c);
 }
 
-static mobj read_pair(FILE *in, char open_paren) {
-    mobj car, cdr;
-    int c;
-
-    skip_whitespace(in);
-    c = getc(in);
-    assert_not_eof(c);
-
-    if (c == ')' || c == ']' || c == '}') {
-        // empty list
-        assert_matching_paren(open_paren, c);
-        return minim_null;
-    }
-
-    ungetc(c, in);
-    car = read_object(in);
-
-    skip_whitespace(in);
-    c = fgetc(in);
-    assert_not_eof(c);
+// reads a datum that must be present
+static mobj read_datum(FILE *in) {
+    mobj o = read_object(in);
+    if (o == NULL)
+        assert_not_eof(EOF);
+    return o;
+}
 
-    if (is_cons_dot(in, c)) {
-        // improper list
-        peek_expected_delimeter(in);
-        cdr = read_object(in);
+static mobj read_pair(FILE *in, char open_paren) {
+    mobj hd, tl, o;
+    int c, close;
 
+    hd = tl = minim_null;
+    while (1) {
         skip_whitespace(in);
         c = getc(in);
-        assert_not_eof(c);
+        if (!minim_nullp(hd) && is_cons_dot(in, c)) {
+            // improper list
+            peek_expected_delimeter(in);
+            minim_cdr(tl) = read_datum(in);
+            o = read_object_or_close(in, &close);
+            if (o != NULL) {
+                minim_error1("read_object", "expected pair terminator", o);
+            }
 
-       if (c == ')' || c == ']' || c == '}') {
-            // list read
-            assert_matching_paren(open_paren, c);
-            return Mcons(car, cdr);
+            assert_matching_paren(open_paren, close);
+            return hd;
         }
 
-        minim_error1("read_object", "expected pair terminator", Mchar(c));      
-    } else {
-        // list
         ungetc(c, in);
-        cdr = read_pair(in, open_paren);
-        return Mcons(car, cdr);
+        o = read_object_or_close(in, &close);
+        if (o == NULL) {
+            // list read
+            assert_matching_paren(open_paren, close);
+            return hd;
+        }
+
+        // extend list
+        o = Mcons(o, minim_null);
+        if (minim_nullp(hd)) {
+            hd = o;
+        } else {
+            minim_cdr(tl) = o;
+        }
+        tl = o;
     }
 }
 
 static mobj read_vector(FILE *in) {
-    mobj l;
-    int c;
+    mobj l, o;
+    int close;
 
     l = minim_null;
-    while (1) {
-        skip_whitespace(in);
-        c = peek_char(in);
-        if (c == ')') {
-            read_char(in);
-            break;
-        }
-
-        l = Mcons(read_object(in), l);
+    while ((o = read_object_or_close(in, &close)) != NULL) {
+        l = Mcons(o, l);
     }
 
+    assert_matching_paren('(', close);
     if (minim_nullp(l)) {
         return minim_empty_vec;
     } else {
@@ -255,10 +258,17 @@ static mobj read_vector(FILE *in) {
 }
 
 mobj read_object(FILE *in) {
+    return read_object_or_close(in, NULL);
+}
+
+// Reads the next object. If `closep` is not NULL, the object is inside
+// a list or vector: the end of input is an error and a closing parenthesis
+// is stored at `closep`, returning NULL.
+static mobj read_object_or_close(FILE *in, int *closep) {
     char buffer[symbol_max_len];
     long num, i, block_level;
     short sign;
-    char c;
+    int c;
 
 loop:
 
@@ -288,23 +298,20 @@ loop:
             return read_char(in);
         case '\'':
             // quote
-            return Mcons(intern("quote-syntax"), Mcons(read_object(in), minim_null));
+            return Mcons(intern("quote-syntax"), Mcons(read_datum(in), minim_null));
         case '(':
             // vector
             return read_vector(in);
         case '&':
             // vector
-            return Mbox(read_object(in));
+            return Mbox(read_datum(in));
         case 'x':
             // hex number
             c = getc(in);
             goto read_hex;
         case ';':
             // datum comment
-            skip_whitespace(in);
-            c = peek_char(in);
-            assert_not_eof(c);
-            read_object(in);        // throw away
+            read_datum(in);         // throw away
             goto loop;
         case '|':
             // block comment
@@ -318,12 +325,14 @@ loop:
                     c = fgetc(in);
                     assert_not_eof(c);
                     if (c == '|') ++block_level;
+                    else ungetc(c, in);
                     break;
                 
                 case '|':
                     c = fgetc(in);
                     assert_not_eof(c);
                     if (c == '#') --block_level;
+                    else ungetc(c, in);
                     break;
                 }
             }
@@ -433,7 +442,7 @@ read_hex:
         return read_pair(in, c);
     } else if (c == '\'') {
         // quoted expression
-        return Mcons(intern("quote"), Mcons(read_object(in), minim_null));
+        return Mcons(intern("quote"), Mcons(read_datum(in), minim_null));
     } else if (is_symbol_char(c) || ((c == '+' || c == '-') && is_delimeter(peek_char(in)))) {
         // symbol
         i = 0;
@@ -455,6 +464,11 @@ read_symbol:
         buffer[i] = '\0';
         return intern(buffer);
     } else if (c == EOF) {
+        if (closep)
+            assert_not_eof(c);
+        return NULL;
+    } else if (closep && is_close_paren(c)) {
+        *closep = c;
         return NULL;
     } else {
         minim_error1("read_object", "unexpected input", Mchar(c));
-- 
2.43.0


From c24ec43ed3393ce8e6283ddd7f1c9568f4ac9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 07/60] fix: read a token that starts like a number exactly and
 within its buffer

---
 src/core/c/read.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 3279c6e..9393de9 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -39,6 +39,14 @@ static void assert_matching_paren(char open, char closed) {
         minim_error2("read_object", "parenthesis mismatch", Mchar(closed), Mchar(open));
     }
 }
+
+// a token and its terminator must fit in a buffer of length `symbol_max_len`
+static void assert_token_length(long len) {
+    if (len >= symbol_max_len - 1) {
+        minim_error("read_object", "token exceeded max length");
+    }
+}
+
 static int peek_char(FILE *in) {
     int c = getc(in);
     ungetc(c, in);
@@ -349,16 +357,16 @@ loop:
         i = 0;
 
         // optional sign
-        if (c == '-') {
-            sign = -1;
+        if (c == '-' || c == '+') {
+            sign = (c == '-') ? -1 : 1;
             buffer[i++] = c;
-        } else if (c != '+') {
+        } else {
             ungetc(c, in);
-            buffer[i++] = c;
         }
 
         // magnitude
         while (isdigit(c = getc(in))) {
+            assert_token_length(i);
             buffer[i++] = c;
             num = (num * 10) + (c - '0');
         }
@@ -381,16 +389,16 @@ read_hex:
         i = 0;
 
         // optional sign
-        if (c == '-') {
-            sign = -1;
+        if (c == '-' || c == '+') {
+            sign = (c == '-') ? -1 : 1;
             buffer[i++] = c;
-        } else if (c != '+') {
+        } else {
             ungetc(c, in);
-            buffer[i++] = c;
         }
 
         // magnitude
         while (isxdigit(c = getc(in))) {
+            assert_token_length(i);
             buffer[i++] = c;
             if ('A' <= c && c <= 'F')       num = (num * 16) + (10 + (c - 'A'));
             else if ('a' <= c && c <= 'f')  num = (num * 16) + (10 + (c - 'a'));
@@ -428,7 +436,7 @@ read_hex:
                 }
             }
 
-            if (i >= symbol_max_len) {
+            if (i >= symbol_max_len - 1) {
                 minim_error("read_object", "string exceeded max length");
             }
 
@@ -450,7 +458,7 @@ read_hex:
 read_symbol:
 
         while (is_symbol_char(c)) {
-            if (i >= symbol_max_len) {
+            if (i >= symbol_max_len - 1) {
                 minim_error("read_object", "symbol exceeded max length");
             }
 
-- 
2.43.0


From 5855d0beb523dc01aef72b589b782fb7cc453bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 08/60] fix: read deeply nested data without a token buffer in
 every stack frame

---
 src/core/c/read.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 9393de9..5065403 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -273,7 +273,8 @@ mobj read_object(FILE *in) {
 // a list or vector: the end of input is an error and a closing parenthesis
 // is stored at `closep`, returning NULL.
 static mobj read_object_or_close(FILE *in, int *closep) {
-    char buffer[symbol_max_len];
+    // never live across a nested call, so not needed on every stack frame
+    static char buffer[symbol_max_len];
     long num, i, block_level;
     short sign;
     int c;
-- 
2.43.0


From 651616323f978fd48981d24237d2e86ca332a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 09/60] fix: raise an error for division by zero and compute /
 and modulo correctly

---
 src/core/c/number.c    |  9 +++++++--
 src/core/s/prelude.min | 28 ++++++++++++++++------------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index bb160ab..a179db8 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -41,11 +41,16 @@ mobj fx2_mul(mobj x, mobj y) {
 
 mobj fx2_div(mobj x, mobj y) {
     // (-> integer integer integer)
+    // dividing the least integer by -1 overflows
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(-((unsigned long) minim_fixnum(x)));
     return Mfixnum(minim_fixnum(x) / minim_fixnum(y));
 }
 
 mobj fx_remainder(mobj x, mobj y) {
     // (-> integer integer integer)
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(0);
     return Mfixnum(minim_fixnum(x) % minim_fixnum(y));
 }
 
@@ -53,8 +58,8 @@ mobj fx_modulo(mobj x, mobj y) {
     // (-> integer integer integer)
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
-    mfixnum z = xv % yv;
-    if ((xv < 0) != (yv < 0))
+    mfixnum z = (yv == -1) ? 0 : (xv % yv);
+    if (z != 0 && (xv < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
 }
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 46c9fad..0300270 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -578,7 +578,7 @@
   (let-values ([(non-number-error)
                 (lambda (who v)
                   (raise-argument-error who "number?" v))]
-               [(divide-0-error)
+               [(division-0-error)
                 (lambda (who v)
                   (error who "division by zero" v))])
     (values
@@ -657,8 +657,8 @@
                                              (loop ($fx2* x ($car xs)) ($cdr xs))
                                              (non-number-error '* ($car xs)))))])
                    (loop ($fx2* x y) rest))
-                 (non-number-error '* x))
-             (non-number-error '* y))])
+                 (non-number-error '* y))
+             (non-number-error '* x))])
       ; /
       (case-lambda
         [(x)
@@ -673,8 +673,8 @@
                  (if (zero? y)
                      (division-0-error '/ y)
                      ($fx2/ x y))
-                 (non-number-error '- y))
-             (non-number-error '- x))]
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]
         [(x y . rest)
          (if (number? x)
              (if (number? y)
@@ -687,11 +687,11 @@
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
                                                      (division-0-error '/ ($car xs))
-                                                     (loop ($fx2- x ($car xs)) ($cdr xs)))
-                                                 (non-number-error '- ($car xs)))))])
-                       (loop ($fx2- x y) rest)))
-                 (non-number-error '- y))
-             (non-number-error '- x))]))))
+                                                     (loop ($fx2/ x ($car xs)) ($cdr xs)))
+                                                 (non-number-error '/ ($car xs)))))])
+                       (loop ($fx2/ x y) rest)))
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]))))
 
 (define-values (add1)
   (lambda (x)
@@ -709,7 +709,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxremainder x y)
+            (if (zero? y)
+                (error 'remainder "division by zero" y)
+                ($fxremainder x y))
             (raise-argument-error 'remainder "number?" y))
         (raise-argument-error 'remainder "number?" x))))
 
@@ -717,7 +719,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxmodulo x y)
+            (if (zero? y)
+                (error 'modulo "division by zero" y)
+                ($fxmodulo x y))
             (raise-argument-error 'modulo "number?" y))
         (raise-argument-error 'modulo "number?" x))))
 
-- 
2.43.0


From bd8a8cdeb9b5de357cc44d134cda8a7649c05ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 10/60] fix: report the offending value, not an unbound
 variable, in primitive error paths

---
 src/core/s/prelude.min | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 0300270..ff79e32 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -25,7 +25,7 @@
 
 (define-values (raise-missing-error)
   (lambda (who descr x k)
-    (error who "not found" who descr x k)))
+    (error who "not found" descr x k)))
 
 ($c-error-handler
   (lambda (who msg args)
@@ -815,8 +815,8 @@
                   (if (non-negative-integer? n)
                       (if (char? c)
                           (void)
-                          (raise-argument-error 'make-string "char?" init))
-                      (raise-argument-error 'make-string "non-negative-integer?" len)))])
+                          (raise-argument-error 'make-string "char?" c))
+                      (raise-argument-error 'make-string "non-negative-integer?" n)))])
     (case-lambda
       [(n)
        (check-args! n #\a)
@@ -859,7 +859,7 @@
                   (for-each (lambda (x)
                               (if (string? x)
                                   (void)
-                                  (raise-argument-error 'string-append "string?" s)))
+                                  (raise-argument-error 'string-append "string?" x)))
                             xs))]
                [(sum-lengths)
                 (lambda (xs)
@@ -1133,7 +1133,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-ref "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-ref v "" 0 ($vector-length v) idx)
                 ($vector-ref v idx))
             (raise-argument-error 'vector-ref "non-negative-integer?" idx))
         (raise-argument-error 'vector-ref "vector?" v))))
@@ -1143,7 +1143,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-set! "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-set! v "" 0 ($vector-length v) idx)
                 ($vector-set! v idx x))
             (raise-argument-error 'vector-set! "non-negative-integer?" idx))
         (raise-argument-error 'vector-set! "vector?" v))))
@@ -1200,7 +1200,7 @@
   (lambda (str)
     (if (string? str)
         ($open-input-string str)
-        (raise-argument-error 'open-input-string "string?" name))))
+        (raise-argument-error 'open-input-string "string?" str))))
 
 (define-values (close-input-port)
   (lambda (port)
@@ -1396,7 +1396,7 @@
                              (lambda args
                                (if (= (length args) size)
                                    ($make-record rtd args)
-                                   (raise-arity-error make size (length args))))])
+                                   (raise-arity-error (procedure-name make) size (length args))))])
               make)
             (raise-argument-error
               'record-constructor
@@ -1763,7 +1763,7 @@
                              (errorf 'do-table-ref "unknown mode: ~a" mode))))]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-desriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1819,7 +1819,7 @@
   (letrec-values ([($writer-table) (make-eq-hashtable)]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-desriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1964,7 +1964,7 @@
         (if (char? ch)
             ($put-char p ch)
             (raise-argument-error 'put-char "char?" ch))
-        (raise-argument-error 'put-char "output-port?" ch))))
+        (raise-argument-error 'put-char "output-port?" p))))
 
 (define-values (put-string)
   (let-values ([(non-output-port-error)
@@ -1982,8 +1982,8 @@
                     (if (<= start len)
                         (if (<= (+ start n) len)
                             ($put-string p s start n)
-                            (raise-range-error 'put-string str "end" 0 (+ len 1) (+ start n)))
-                        (raise-range-error 'put-string str "start" 0 (+ len 1) start))))])
+                            (raise-range-error 'put-string s "end" 0 (+ len 1) (+ start n)))
+                        (raise-range-error 'put-string s "start" 0 (+ len 1) start))))])
     (case-lambda
       [(p s)
        (if (output-port? p)
@@ -2005,7 +2005,7 @@
                (if (non-negative-integer? start)
                    (if (non-negative-integer? n)
                        (1/put-string p s start n)
-                       (non-integer-error start))
+                       (non-integer-error n))
                    (non-integer-error start))
                (non-string-error s))
            (non-output-port-error p))])))
@@ -2246,7 +2246,7 @@
             (begin
               (check-format! 'fprintf fmt args)
               (do-format p fmt args))
-            (raise-argument-error 'fprintf "output port?" fmt)))
+            (raise-argument-error 'fprintf "output port?" p)))
       ; printf
       (lambda (fmt . args)
         (check-format! 'printf fmt args)
@@ -2355,7 +2355,8 @@
 (define-values (environment-ref)
   (letrec-values ([(default-fail)
                    (lambda (env k)
-                     (raise-missing-error 'environment-ref "key" env k))]
+                     (lambda ()
+                       (raise-missing-error 'environment-ref "key" env k)))]
                   [(1/environment-ref)
                    (lambda (env k fail)
                      (if (environment? env)
@@ -2366,11 +2367,11 @@
                                        (fail)
                                        fail)
                                    v))
-                             (raise-arugment-error 'environment-ref "symbol?" k))
-                         (raise-arugment-error 'environment-ref "environment?" env)))])        
+                             (raise-argument-error 'environment-ref "symbol?" k))
+                         (raise-argument-error 'environment-ref "environment?" env)))])        
     (case-lambda
       [(env k)
-       (1/environment-ref env k default-fail)]
+       (1/environment-ref env k (default-fail env k))]
       [(env k fail)
        (1/environment-ref env k fail)])))
 
-- 
2.43.0


From 071e0a6c797e6ff5fbb83d8cbce52804d148642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 11/60] fix: make write-char, ~~ directives and empty vectors
 print

---
 src/core/s/prelude.min | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index ff79e32..1892c1f 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2020,12 +2020,12 @@
   (case-lambda
     [(c)
      (if (char? c)
-         ($write-char c (current-output-port))
+         ($put-char (current-output-port) c)
          (raise-argument-error 'write-char "char?" c))]
     [(c p)
      (if (char? c)
          (if (output-port? p)
-             ($write-char c p)
+             ($put-char p c)
              (raise-argument-error 'write-char "output-port?" p))
          (raise-argument-error 'write-char "char?" c))]))
 
@@ -2109,16 +2109,17 @@
                   [(wrvector)
                    (lambda (x d? p)
                      (put-char p #\#)
+                     (put-char p lparen)
                      (letrec-values ([(n) (vector-length x)]
                                      [(loop)
-                                      (lambda (i sep)
+                                      (lambda (i)
                                         (if (>= i n)
                                             (void)
                                             (begin
-                                              (put-char p sep)
+                                              (if (> i 0) (put-char p #\space) (void))
                                               (wr (vector-ref x i) d? p)
-                                              (loop (+ i 1) #\space))))])
-                       (loop 0 lparen))
+                                              (loop (+ i 1)))))])
+                       (loop 0))
                      (put-char p rparen))]
                   ; record type writer
                   [(wrrtd)
@@ -2193,7 +2194,7 @@
                                                                 (if (eq? nc #\%)
                                                                     (loop (+ n 2) args)
                                                                     (if (eq? nc #\~)
-                                                                        (loop (+ n 2) xs)
+                                                                        (loop (+ n 2) args)
                                                                         (errorf who "unknown format directive `~a`" nc)))))))
                                                   (loop (+ n 1) args)))))])
                        (loop 0 '())))]                                                
-- 
2.43.0


From f2776764c65207da9f285db79b268eea95056d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 12/60] fix: hash and compare hashtables by contents and keep
 updates by a mutating updater

---
 src/core/s/prelude.min | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 1892c1f..fa99b62 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1652,16 +1652,8 @@
     
     [(1/hashtable-update!)
      (lambda (ht k updater default)
-       (letrec-values ([(h) (do-hash (hashtable-hash-proc ht) k)]
-                       [(cell) (1/hashtable-cell-ref ht h k)])
-         (if cell
-             (set-cdr! cell (updater ($cdr cell)))
-             (let-values ([(store) ($hashtable-store ht)]
-                          [(cell) (cons k (if (procedure? default)
-                                              (updater (default))
-                                              (updater default)))])
-               ($hashtable-set! store h (cons cell ($hashtable-ref store h)))
-               (incr-size! ht store)))))]
+       ; the updater may change the table: find the cell again afterwards
+       (1/hashtable-set! ht k (updater (1/hashtable-ref ht k default))))]
 
     [(no-key!)
      (lambda (who ht k)
@@ -1855,7 +1847,9 @@
                   [(equal-hashtable?)
                    (lambda (a b)
                      (if (eq? (hashtable-hash-proc a) (hashtable-hash-proc b))
-                         (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
+                         (if (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
+                                 (= (hashtable-size a) (hashtable-size b))
+                                 #f)
                              (let-values ([(kas vas) (hashtable-entries a)])
                                (andmap
                                  (lambda (i)
@@ -1925,7 +1919,7 @@
                         (if (box? x)
                             (loop (unbox x) (+ hc 410225874))
                             (if (hashtable? x)
-                                (loop (hashtable->list x) hc)
+                                (loop (hashtable-size x) hc)
                                 (if ($record-value? x)
                                     (let-values ([(proc) (record-hash-procedure x)])
                                       (if proc
-- 
2.43.0


From be781e292960abf5615a3d3c7e950e0a8a4c7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 13/60] fix: set and inherit record equality, hash and writer
 procedures

---
 src/core/s/prelude.min | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index fa99b62..04b2e8d 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1319,7 +1319,7 @@
                   (record-type-hash-procedure rtd rec-hash)
                   (void))
               (if rec-writer
-                  (record-writer rec-writer)
+                  (record-writer rtd rec-writer)
                   (void)))
             (void))
         rtd))))
@@ -1720,7 +1720,7 @@
     [() ($default-record-equal-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-equal-procedure proc)
+         ($default-record-equal-procedure-set! proc)
          (raise-argument-error 'default-record-equal-procedure
                                "procedure?"
                                proc))]))
@@ -1728,10 +1728,10 @@
 ; TODO: thread parameter
 (define-values (default-record-hash-procedure)
   (case-lambda
-    [() ($default-record-equal-procedure)]
+    [() ($default-record-hash-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-hash-procedure proc)
+         ($default-record-hash-procedure-set! proc)
          (raise-argument-error 'default-record-hash-procedure
                                "procedure?"
                                proc))]))
-- 
2.43.0


From 3d033d5bd5a2fbe8d1b52509c3cd989441ce6430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 14/60] fix: report failed port operations and never use or
 close a closed stream

---
 src/core/c/io.c     | 98 +++++++++++++++++++++++++++++++++++----------
 src/core/c/system.c |  6 +++
 src/core/c/thread.c |  3 ++
 3 files changed, 85 insertions(+), 22 deletions(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index 4ba7e5e..db3bdba 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -8,15 +8,58 @@
 //  Objects
 //
 
+static int standard_streamp(FILE *stream) {
+    return stream == stdout || stream == stderr || stream == stdin;
+}
+
 static void gc_port_dtor(void *ptr, void *data) {
     mobj o = ((mobj) ptr);
-    if (minim_port_openp(o) &&
-        minim_port(o) != stdout &&
-        minim_port(o) != stderr &&
-        minim_port(o) != stdin)
+    if (minim_port_openp(o) && !standard_streamp(minim_port(o)))
         fclose(minim_port(o));
 }
 
+// Returns the stream of a port, which must be open.
+static FILE *open_stream(const char *who, mobj port) {
+    if (!minim_port_openp(port)) {
+        minim_error1(who, "port is closed", port);
+    }
+
+    return minim_port(port);
+}
+
+// Raises an error if the stream of a port has failed.
+// Failures of the error stream are ignored: there is nowhere to report them.
+static void check_stream(const char *who, mobj port) {
+    FILE *stream = minim_port(port);
+    if (ferror(stream) && stream != stderr) {
+        clearerr(stream);
+        minim_error1(who, minim_port_readp(port) ? "could not read" : "could not write", port);
+    }
+}
+
+// Closes a port. The standard streams are flushed but stay open.
+static mobj close_port(const char *who, mobj port) {
+    int rc;
+
+    if (!minim_port_openp(port))
+        return minim_void;
+
+    if (standard_streamp(minim_port(port))) {
+        if (!minim_port_readp(port))
+            fflush(minim_port(port));
+        check_stream(who, port);
+        return minim_void;
+    }
+
+    minim_port_unset(port, PORT_FLAG_OPEN);
+    rc = ferror(minim_port(port));
+    if ((fclose(minim_port(port)) != 0 || rc) && !minim_port_readp(port)) {
+        minim_error1(who, "could not write", port);
+    }
+
+    return minim_void;
+}
+
 mobj Minput_port(FILE *stream) {
     mobj o = GC_alloc(minim_port_size);
     minim_type(o) = MINIM_OBJ_PORT;
@@ -110,8 +153,10 @@ mobj open_input_string(mobj str) {
         minim_error("open-input-string", "cannot create buffer");
     }
 
-    fputs(minim_string(str), stream);
-    fseek(stream, 0, SEEK_SET);
+    if (fputs(minim_string(str), stream) == EOF || fseek(stream, 0, SEEK_SET) != 0) {
+        fclose(stream);
+        minim_error("open-input-string", "cannot write to buffer");
+    }
 
     port = Minput_port(stream);
     minim_port_set(port, PORT_FLAG_OPEN | PORT_FLAG_STR);
@@ -136,16 +181,12 @@ mobj open_output_string() {
 
 mobj close_input_port(mobj port) {
     // (-> input-port? void)
-    fclose(minim_port(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
-    return minim_void;
+    return close_port("close-input-port", port);
 }
 
 mobj close_output_port(mobj port) {
     // (-> output-port? void)
-    fclose(minim_port(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
-    return minim_void;
+    return close_port("close-output-port", port);
 }
 
 mobj get_output_string(mobj port) {
@@ -154,10 +195,13 @@ mobj get_output_string(mobj port) {
     size_t len, read;
     
     // read from file
-    len = ftell(minim_port(port));
+    len = ftell(open_stream("get-output-string", port));
     if (len != 0) {
         str = Mstring2(len, 0);
-        fseek(minim_port(port), 0, SEEK_SET);
+        if (fseek(minim_port(port), 0, SEEK_SET) != 0) {
+            minim_error("get-output-string", "failed to read from");
+        }
+
         read = fread(minim_string(str), len, 1, minim_port(port));
         if (read != 1) {
             minim_error("get-output-string", "failed to read from");
@@ -174,39 +218,45 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    mobj o = read_object(minim_port(port));
+    mobj o = read_object(open_stream("read", port));
+    check_stream("read", port);
     return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch = getc(open_stream("read-char", port));
+    check_stream("read-char", port);
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj peek_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch = getc(open_stream("peek-char", port));
+    check_stream("peek-char", port);
     ungetc(ch, minim_port(port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj char_readyp_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch = getc(open_stream("char-ready?", port));
+    check_stream("char-ready?", port);
     ungetc(ch, minim_port(port));
     return (ch == EOF) ? minim_false : minim_true;
 }
 
 mobj put_char_proc(mobj port, mobj ch) {
     // (-> output-port? char? void)
-    putc(minim_char(ch), minim_port(port));
+    putc(minim_char(ch), open_stream("put-char", port));
+    check_stream("put-char", port);
     return minim_void;
 }
 
 mobj flush_output_proc(mobj port) {
     // (-> output-port? void)
-    fflush(minim_port(port));
+    fflush(open_stream("flush-output-port", port));
+    check_stream("flush-output-port", port);
     return minim_void;
 }
 
@@ -214,15 +264,19 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
     // (-> output-port? string? integer? integer?)
     long start_idx = minim_fixnum(start);
     long end_idx = start_idx + minim_fixnum(len);
+    FILE *stream = open_stream("put-string", port);
     for (long i = start_idx; i < end_idx; i++) {
-        putc(minim_string_ref(str, i), minim_port(port));
+        if (putc(minim_string_ref(str, i), stream) == EOF)
+            break;
     }
 
+    check_stream("put-string", port);
     return minim_void;
 }
 
 mobj newline_proc(mobj port) {
     // (-> output-port? void)
-    putc('\n', minim_port(port));
+    putc('\n', open_stream("newline", port));
+    check_stream("newline", port);
     return minim_void;
 }
diff --git a/src/core/c/system.c b/src/core/c/system.c
index 8395c7a..930bfaa 100644
--- a/src/core/c/system.c
+++ b/src/core/c/system.c
@@ -129,6 +129,12 @@ mobj load_prelude(mobj tc) {
 }
 
 void minim_shutdown(int code) {
+    // output that cannot be written makes the program fail
+    if ((fflush(NULL) != 0 || ferror(stdout)) && code == 0) {
+        fprintf(stderr, "Error: could not write output\n");
+        code = 1;
+    }
+
     GC_finalize();
     exit(code);
 }
diff --git a/src/core/c/thread.c b/src/core/c/thread.c
index aa9db0e..0e362b0 100644
--- a/src/core/c/thread.c
+++ b/src/core/c/thread.c
@@ -23,6 +23,9 @@ mobj Mthread_context() {
     tc_input_port(tc) = Minput_port(stdin);
     tc_output_port(tc) = Moutput_port(stdout);
     tc_error_port(tc) = Moutput_port(stderr);
+    minim_port_set(tc_input_port(tc), PORT_FLAG_OPEN);
+    minim_port_set(tc_output_port(tc), PORT_FLAG_OPEN);
+    minim_port_set(tc_error_port(tc), PORT_FLAG_OPEN);
     tc_directory(tc) = Mstring(get_current_dir());
     tc_command_line(tc) = minim_null;
     tc_record_equal(tc) = minim_false;
-- 
2.43.0


From 0ce7ae4366af4981f364130c887e0a21cc66f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 15/60] fix: give errors of top-level tail calls to the
 installed error handler

---
 src/core/c/error.c  | 2 +-
 src/core/c/thread.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/error.c b/src/core/c/error.c
index b7ecb3a..b52e8e4 100644
--- a/src/core/c/error.c
+++ b/src/core/c/error.c
@@ -4,7 +4,7 @@
 
 NORETURN static void do_error2(const char *name, const char *msg, mobj args) {
     mobj tc = current_tc();
-    if (minim_nullp(tc_ccont(tc)) || minim_falsep(tc_c_error_handler(tc))) {
+    if (tc_reentry(tc) == NULL || minim_falsep(tc_c_error_handler(tc))) {
         // exception cannot be handled by runtime
         if (name) fprintf(stderr, "Error in %s: %s", name, msg);
         else fprintf(stderr, "Error: %s", msg);
diff --git a/src/core/c/thread.c b/src/core/c/thread.c
index 0e362b0..55be0ac 100644
--- a/src/core/c/thread.c
+++ b/src/core/c/thread.c
@@ -19,7 +19,7 @@ mobj Mthread_context() {
     tc_stack_base(tc) = NULL;
     tc_stack_size(tc) = 0;
     tc_stack_link(tc) = minim_null;
-    tc_reentry(tc) = GC_alloc(sizeof(jmp_buf));
+    tc_reentry(tc) = NULL;
     tc_input_port(tc) = Minput_port(stdin);
     tc_output_port(tc) = Moutput_port(stdout);
     tc_error_port(tc) = Moutput_port(stderr);
-- 
2.43.0


From 786b52fdecb6d64ac347a5a9aa3696879ae46568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 16/60] fix: restore the directory and close the file when a
 load fails

---
 src/core/c/system.c | 67 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/src/core/c/system.c b/src/core/c/system.c
index 930bfaa..ab99860 100644
--- a/src/core/c/system.c
+++ b/src/core/c/system.c
@@ -73,7 +73,13 @@ void set_current_dir(const char *str) {
 }
 
 char* get_current_dir() {
-    return _get_current_dir();
+    char *path = _get_current_dir();
+    if (path == NULL) {
+        fprintf(stderr, "Error: could not get current directory\n");
+        exit(1);
+    }
+
+    return path;
 }
 
 char *get_file_dir(const char *realpath) {
@@ -91,28 +97,69 @@ char *get_file_dir(const char *realpath) {
     return dirpath;
 }
 
+// Reads the next expression of a file being loaded.
+// In case of an error, the file is closed and the directory is restored.
+static mobj load_next_expr(mobj tc, FILE *f, char *old_cwd, mobj old_dir) {
+    mobj expr;
+    jmp_buf *preentry, reentry;
+
+    preentry = tc_reentry(tc);
+    if (preentry != NULL) {
+        if (setjmp(reentry) != 0) {
+            tc_reentry(tc) = preentry;
+            fclose(f);
+            if (_set_current_dir(old_cwd) == 0)
+                tc_directory(tc) = old_dir;
+            longjmp(*preentry, 1);
+        }
+
+        tc_reentry(tc) = &reentry;
+    }
+
+    expr = read_object(f);
+    if (ferror(f)) {
+        minim_error("load_file", "could not read file");
+    }
+
+    if (expr != NULL)
+        check_expr(expr);
+
+    tc_reentry(tc) = preentry;
+    return expr;
+}
+
 mobj load_file(mobj tc, const char *fname){
-    mobj result, expr;
-    char *old_cwd, *cwd;
+    mobj result, expr, old_dir;
+    char *old_cwd, *path;
     FILE *f;
 
-    f = fopen(fname, "r");
+    path = _get_file_path(fname);
+    old_dir = tc_directory(tc);
+    old_cwd = _get_current_dir();
+    if (old_cwd == NULL) {
+        minim_error("load_file", "could not get current directory");
+    }
+
+    f = (path == NULL) ? NULL : fopen(fname, "r");
     if (f == NULL) {
         minim_error1("load_file", "could not open file", Mstring(fname));
     }
 
-    old_cwd = _get_current_dir();
-    cwd = get_file_dir(_get_file_path(fname));
-    set_current_dir(cwd);
+    path = get_file_dir(path);
+    if (_set_current_dir(path) != 0) {
+        fclose(f);
+        minim_error1("load_file", "could not set current directory", Mstring(path));
+    }
 
+    tc_directory(tc) = Mstring(path);
     result = minim_void;
-    while ((expr = read_object(f)) != NULL) {
-        check_expr(expr);
+    while ((expr = load_next_expr(tc, f, old_cwd, old_dir)) != NULL) {
         result = eval_expr(tc, expr);
     }
 
-    set_current_dir(old_cwd);
     fclose(f);
+    set_current_dir(old_cwd);
+    tc_directory(tc) = old_dir;
     return result;
 }
 
-- 
2.43.0


From ef35873b4810fb8660fb216d681db5822d9cc835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 17/60] fix: convert strings to lists and numbers exactly

---
 src/core/c/string.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 8de8d31..1c88b1a 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -21,13 +21,9 @@ mobj Mstring(const char *s) {
 mobj Mstring2(long len, mchar c) {
     mobj o = GC_alloc(minim_string_size);
     minim_type(o) = MINIM_OBJ_STRING;
-    if (c == 0) {
-        minim_string(o) = GC_calloc_atomic((len + 1), sizeof(char));
-    } else {
-        minim_string(o) = GC_alloc_atomic((len + 1) * sizeof(char));
-        for (long i = 0; i < len; i++)
-            minim_string(o)[i] = c;
-    }
+    minim_string(o) = GC_alloc_atomic((len + 1) * sizeof(char));
+    for (long i = 0; i < len; i++)
+        minim_string(o)[i] = c;
 
     minim_string(o)[len] = '\0';
     return o;
@@ -65,13 +61,13 @@ mobj string_set(mobj s, mobj idx, mobj x) {
 mobj number_to_string(mobj n) {
     // (-> number string)
     mobj s = Mstring2(FIXNUM_STRING_LEN, 0);
-    sprintf(minim_string(s), "%ld", minim_fixnum(n));
+    snprintf(minim_string(s), FIXNUM_STRING_LEN, "%ld", minim_fixnum(n));
     return s;
 }
 
 mobj string_to_number(mobj s) {
     // (-> string number)
-    return Mfixnum(atoi(minim_string(s)));
+    return Mfixnum(strtol(minim_string(s), NULL, 10));
 }
 
 mobj symbol_to_string(mobj s) {
@@ -103,7 +99,7 @@ mobj list_to_string(mobj xs) {
 mobj string_to_list(mobj s) {
     // (-> string (listof char))
     mobj lst = minim_null;
-    for (long i = strlen(minim_string(s)); i >= 0; i--)
+    for (long i = (long) strlen(minim_string(s)) - 1; i >= 0; i--)
         lst = Mcons(Mchar(minim_string(s)[i]), lst);
     return lst;
 }
-- 
2.43.0


From 167b0b9885be709e76cae7c1cf26a56a6a7e8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 18/60] fix: read every escape sequence that the writer prints

---
 src/core/c/read.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 5065403..b3a75ad 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -422,10 +422,21 @@ read_hex:
             assert_not_eof(c);
             if (c == '\\') {
                 c = getc(in);
+                assert_not_eof(c);
                 if (c == 'n') {
                     c = '\n';
                 } else if (c == 't') {
                     c = '\t';
+                } else if (c == 'a') {
+                    c = BEL_CHAR;
+                } else if (c == 'b') {
+                    c = BS_CHAR;
+                } else if (c == 'f') {
+                    c = FF_CHAR;
+                } else if (c == 'r') {
+                    c = CR_CHAR;
+                } else if (c == 'v') {
+                    c = VT_CHAR;
                 } else if (c == '\\') {
                     c = '\\';
                 } else if (c == '\'') {
-- 
2.43.0


From 6c3ddcdccaa6cf6e2fd3217624e18e5494b31040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 19/60] fix: close the string ports used by format and error

---
 src/core/s/prelude.min | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 04b2e8d..85e5393 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2255,7 +2255,9 @@
         (check-format! 'format fmt args)
         (let-values ([(p) (open-output-string)])
           (do-format p fmt args)
-          (get-output-string p))))))
+          (let-values ([(s) (get-output-string p)])
+            (close-output-port p)
+            s))))))
                                         
 
 ;; --------------------------------------------------------
@@ -2568,7 +2570,9 @@
                         (begin
                           (fprintf p "  arguments...:")
                           (for-each (lambda (x) (fprintf p "\n   ~s" x)) args)))
-                    (make-exn who (get-output-string p)))))
+                    (let-values ([(s) (get-output-string p)])
+                      (close-output-port p)
+                      (make-exn who s)))))
             (raise-argument-error 'error "string?" msg))
         (raise-argument-error 'error "symbol? or string? or #f" who))))
 
-- 
2.43.0


From 9841c6c5f1dead5375063681de93b50f34d7745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 20/60] fix: reject malformed or truncated FASL data with an
 error

---
 src/core/c/fasl.c | 114 +++++++++++++++++++++++++++++++---------------
 src/core/c/io.c   |   4 +-
 src/core/minim.h  |   3 ++
 3 files changed, 83 insertions(+), 38 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 27146aa..938793f 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -72,8 +72,20 @@
 //  Reading FASL
 //
 
-#define read_fasl_type(ip)       ((mbyte) fgetc(ip))
-#define read_fasl_byte(ip)       ((mbyte) fgetc(ip))
+#define read_fasl_type(ip)       (read_fasl_byte(ip))
+
+NORETURN static void malformed_fasl() {
+    minim_error("fasl-read", "malformed FASL data");
+}
+
+static mbyte read_fasl_byte(FILE *in) {
+    int c = fgetc(in);
+    if (c == EOF) {
+        minim_error("fasl-read", ferror(in) ? "could not read" : "unexpected end of input");
+    }
+
+    return c;
+}
 
 // Unserializes a word that is encoded using a variable-length
 // block encoding 7-bits of the word per byte
@@ -88,6 +100,9 @@ static muptr read_fasl_uptr(FILE *in) {
         c = b & 0x1;
         b >>= 1;
 
+        if (offset >= 8 * sizeof(muptr))
+            malformed_fasl();
+
         // shift it into the right place
         u |= (((muptr) b) << offset);
         offset += 7;
@@ -97,30 +112,34 @@ static muptr read_fasl_uptr(FILE *in) {
 }
 
 
-static mobj read_fasl_symbol(FILE *in) {
+// The length cannot be trusted until the bytes have been read:
+// grow the buffer instead of allocating all of it up front.
+static char *read_fasl_bytes(FILE *in) {
     char *str;
-    long len, i;
+    muptr len, alloc, i;
     
     len = read_fasl_uptr(in);
-    str = GC_alloc_atomic((len + 1) * sizeof(char));
-    for (i = 0; i < len; ++i)
+    alloc = (len < 4096) ? len : 4096;
+    str = GC_alloc_atomic((alloc + 1) * sizeof(char));
+    for (i = 0; i < len; ++i) {
+        if (i == alloc) {
+            alloc = (len < 2 * alloc) ? len : (2 * alloc);
+            str = GC_realloc_atomic(str, (alloc + 1) * sizeof(char));
+        }
+
         str[i] = read_fasl_byte(in);
+    }
+
     str[len] = '\0';
+    return str;
+}
 
-    return intern(str);
+static mobj read_fasl_symbol(FILE *in) {
+    return intern(read_fasl_bytes(in));
 }
 
 static mobj read_fasl_string(FILE *in) {
-    char *str;
-    long len, i;
-    
-    len = read_fasl_uptr(in);
-    str = GC_alloc_atomic((len + 1) * sizeof(char));
-    for (i = 0; i < len; ++i)
-        str[i] = read_fasl_byte(in);
-    str[len] = '\0';
-
-    return Mstring(str);
+    return Mstring(read_fasl_bytes(in));
 }
 
 static mobj read_fasl_fixnum(FILE *in) {
@@ -138,6 +157,9 @@ static mobj read_fasl_pair(FILE *in) {
     // improper list has at least one element
     // set the head and hold on to it
     len = read_fasl_uptr(in);
+    if (len < 1)
+        malformed_fasl();
+
     head = Mcons(read_fasl(in), minim_null);
     it = head;
 
@@ -154,27 +176,52 @@ static mobj read_fasl_pair(FILE *in) {
 }
 
 static mobj read_fasl_vector(FILE *in) {
-    mobj vec;
-    long i, len;
+    mobj elts;
+    muptr i, len;
 
     len = read_fasl_uptr(in);
-    vec = Mvector(len, NULL);
+    elts = minim_null;
     for (i = 0; i < len; ++i)
-        minim_vector_ref(vec, i) = read_fasl(in);
+        elts = Mcons(read_fasl(in), elts);
 
-    return vec;
+    return minim_nullp(elts) ? minim_empty_vec : list_to_vector(list_reverse(elts));
+}
+
+// Raises an error unless a record has the fields that its type requires.
+static void check_fasl_record(mobj rec) {
+    mobj rtd = minim_record_rtd(rec);
+    if (minim_base_rtdp(rtd)) {
+        if (minim_record_count(rec) < record_rtd_min_size ||
+            !minim_symbolp(record_rtd_name(rec)) ||
+            !(minim_falsep(record_rtd_parent(rec)) || record_rtdp(record_rtd_parent(rec))))
+            malformed_fasl();
+    } else {
+        long fieldc = 0;
+        for (; !minim_falsep(rtd); rtd = record_rtd_parent(rtd))
+            fieldc += record_rtd_fieldc(rtd);
+        if (minim_record_count(rec) != fieldc)
+            malformed_fasl();
+    }
 }
 
 static mobj read_fasl_record(FILE *in) {
-    mobj rec, rtd;
-    long len, i;
+    mobj rec, rtd, elts;
+    muptr len, i;
 
     len = read_fasl_uptr(in);
     rtd = read_fasl(in);
-    rec = Mrecord(rtd, len);
+    if (!minim_base_rtdp(rtd) && !record_rtdp(rtd))
+        malformed_fasl();
+
+    elts = minim_null;
     for (i = 0; i < len; i++)
-        minim_record_ref(rec, i) = read_fasl(in);
+        elts = Mcons(read_fasl(in), elts);
+
+    rec = Mrecord(rtd, len);
+    for (; !minim_nullp(elts); elts = minim_cdr(elts))
+        minim_record_ref(rec, --i) = minim_car(elts);
 
+    check_fasl_record(rec);
     return rec;
 }
 
@@ -214,9 +261,7 @@ mobj read_fasl(FILE *in) {
         return read_fasl_record(in);
     
     default:
-        fprintf(stderr, "read_fasl: malformed FASL data\n");
-        exit(1);
-        break;
+        malformed_fasl();
     }
 }
 
@@ -331,11 +376,7 @@ void write_fasl(FILE *out, mobj o) {
         write_fasl_type(out, FASL_RECORD);
         write_fasl_record(out, o);
     } else {
-        fprintf(stderr, "write_fasl: object not serializable\n");
-        fprintf(stderr, " object: ");
-        write_object(stderr, o);
-        fprintf(stderr, "\n");
-        exit(1);
+        minim_error1("fasl-write", "object not serializable", o);
     }
 }
 
@@ -345,11 +386,12 @@ void write_fasl(FILE *out, mobj o) {
 
 mobj fasl_read_proc(mobj port) {
     // (-> input-port any)
-    return read_fasl(minim_port(port));
+    return read_fasl(open_stream("fasl-read", port));
 }
 
 mobj fasl_write_proc(mobj x, mobj port) {
     // (-> any output-port void)
-    write_fasl(minim_port(port), x);
+    write_fasl(open_stream("fasl-write", port), x);
+    check_stream("fasl-write", port);
     return minim_void;
 }
diff --git a/src/core/c/io.c b/src/core/c/io.c
index db3bdba..3de1eae 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -19,7 +19,7 @@ static void gc_port_dtor(void *ptr, void *data) {
 }
 
 // Returns the stream of a port, which must be open.
-static FILE *open_stream(const char *who, mobj port) {
+FILE *open_stream(const char *who, mobj port) {
     if (!minim_port_openp(port)) {
         minim_error1(who, "port is closed", port);
     }
@@ -29,7 +29,7 @@ static FILE *open_stream(const char *who, mobj port) {
 
 // Raises an error if the stream of a port has failed.
 // Failures of the error stream are ignored: there is nowhere to report them.
-static void check_stream(const char *who, mobj port) {
+void check_stream(const char *who, mobj port) {
     FILE *stream = minim_port(port);
     if (ferror(stream) && stream != stderr) {
         clearerr(stream);
diff --git a/src/core/minim.h b/src/core/minim.h
index 15c8fde..cc284c4 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -633,6 +633,9 @@ mobj string_portp_proc(mobj x);
 mobj current_input_port();
 mobj current_output_port();
 mobj current_error_port();
+FILE *open_stream(const char *who, mobj port);
+void check_stream(const char *who, mobj port);
+
 mobj open_input_file(mobj name);
 mobj open_output_file(mobj name);
 mobj open_input_string(mobj str);
-- 
2.43.0


From b3750604df5cc96e84a6bb60b4a1a9c07c214bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 21/60] fix: report a read error on standard input instead of
 ending as if at its end

---
 src/boot/c/minim.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/boot/c/minim.c b/src/boot/c/minim.c
index 975bf4a..1ac2e5f 100644
--- a/src/boot/c/minim.c
+++ b/src/boot/c/minim.c
@@ -103,6 +103,10 @@ int main(int argc, char **argv) {
         while (1) {
             printf("> ");
             expr = read_object(stdin);
+            if (ferror(stdin)) {
+                minim_error("read", "could not read");
+            }
+
             if (expr == NULL) break;
 
             check_expr(expr);
-- 
2.43.0


From 6d42745d29ad3a46ef55d52a3942aaf902ce3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 22/60] fix: collect multiple values in a frame of their own

---
 src/core/c/jitcompile.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 4f31bc8..2f7bf5c 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -298,8 +298,18 @@ static mobj compile_mvlet(mobj expr, mobj env, int tailp) {
 }
 
 static mobj compile_mvvalues(mobj expr, mobj env, int tailp) {
-    mobj vals, ins;
-    
+    mobj vals, ins, label;
+
+    // the values are collected from the current frame, so (unless in
+    // tail position) they need a frame without any pending arguments
+    if (!tailp) {
+        label = scope_cenv_make_label(env);
+        ins = Mlist1(Mlist2(save_cc_symbol, label));
+        list_set_tail(ins, compile_mvvalues(expr, env, 1));
+        list_set_tail(ins, Mlist1(label));
+        return ins;
+    }
+
     vals = minim_cdr(expr);
     if (minim_nullp(vals)) {
         ins = Mlist1(Mlist1(do_values_symbol));
-- 
2.43.0


From 415a723dd7b34f14875af5446a2ceb5240fa9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 23/60] fix: check argument counts and rest parameters when
 eliminating closures

---
 src/core/c/jitopt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 5597205..47d37ec 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -383,7 +383,8 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
 
         if (minim_consp(consumer) &&
             minim_car(consumer) == lambda_symbol &&
-            minim_consp(minim_cadr(consumer))) {
+            minim_consp(minim_cadr(consumer)) &&
+            minim_listp(minim_cadr(consumer))) {
             // (mv-call e (lambda (id ...) body) => (mv-let e (id ...) body)
             mobj body = minim_cddr(consumer);
             return jit_opt_L1(Mlist4(
@@ -517,7 +518,8 @@ static mobj jit_opt_L2_app(mobj expr) {
     mobj hd, tl, args, body;
 
     hd = minim_car(expr);
-    if (minim_consp(hd) && minim_car(hd) == lambda_symbol && minim_listp(minim_cadr(hd))) {
+    if (minim_consp(hd) && minim_car(hd) == lambda_symbol && minim_listp(minim_cadr(hd)) &&
+        list_length(minim_cadr(hd)) == list_length(minim_cdr(expr))) {
         // `((lambda (ids ...) body ...) args ...)`
         // => `(mv-let (values args ...) (ids ...) (begin body ...)`
         args = minim_cdr(expr);
-- 
2.43.0


From 67b42c7070d19ac410c97e43cacfa0e9aca45253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:41 +0000
Subject: [PATCH 24/60] fix: report a string port whose position cannot be
 found

---
 src/core/c/io.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index 3de1eae..d26ffe0 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -192,10 +192,15 @@ mobj close_output_port(mobj port) {
 mobj get_output_string(mobj port) {
     // (-> (and output-port? string-port?) string?)
     mobj str;
-    size_t len, read;
+    size_t read;
+    long len;
     
     // read from file
     len = ftell(open_stream("get-output-string", port));
+    if (len < 0) {
+        minim_error("get-output-string", "failed to read from");
+    }
+
     if (len != 0) {
         str = Mstring2(len, 0);
         if (fseek(minim_port(port), 0, SEEK_SET) != 0) {
-- 
2.43.0


From 4e41b0aac9e45be39401800760a42a8e7ec9a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 25/60] fix: do not format the failure of a string port in
 another string port

---
 src/core/c/io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index d26ffe0..d8e4e77 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -33,6 +33,9 @@ void check_stream(const char *who, mobj port) {
     FILE *stream = minim_port(port);
     if (ferror(stream) && stream != stderr) {
         clearerr(stream);
+        // an error with arguments is formatted in a string port, which would fail again
+        if (minim_string_portp(port))
+            minim_error(who, minim_port_readp(port) ? "could not read" : "could not write");
         minim_error1(who, minim_port_readp(port) ? "could not read" : "could not write", port);
     }
 }
@@ -54,6 +57,8 @@ static mobj close_port(const char *who, mobj port) {
     minim_port_unset(port, PORT_FLAG_OPEN);
     rc = ferror(minim_port(port));
     if ((fclose(minim_port(port)) != 0 || rc) && !minim_port_readp(port)) {
+        if (minim_string_portp(port))
+            minim_error(who, "could not write");
         minim_error1(who, "could not write", port);
     }
 
-- 
2.43.0


From 1f21ccc3bcd20bfd0ba10f035d75fc84e7826efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:49 +0000
Subject: [PATCH 26/60] fix: treat characters as unsigned bytes

---
 src/core/minim.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/minim.h b/src/core/minim.h
index cc284c4..cc38b99 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -181,7 +181,7 @@ extern mobj minim_unbound;
 // +------------+
 #define minim_char_size         ptr_size
 #define minim_charp(o)          (minim_type(o) == MINIM_OBJ_CHAR)
-#define minim_char(o)           (*((char *) ptr_add(o, 4)))
+#define minim_char(o)           (*((unsigned char *) ptr_add(o, 4)))
 
 #define NUL_CHAR        ((mchar) 0x00)      // null
 #define BEL_CHAR        ((mchar) 0x07)      // alarm / bell
-- 
2.43.0


From ccc5da59b61ef61c7a9448b1e1b52736d6dd940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 27/60] fix: report malformed lambda, case-lambda, begin and
 operator forms

---
 src/core/c/check.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 3dad68e..7258da4 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -130,9 +130,14 @@ static void check_begin(mobj expr) {
 }
 
 // Already assumes `expr` is `(<name> . <???>)`
-// Check: `expr` must be `(<name> <datum> ...)`
+// Check: `expr` must be `(<name> <formals> <datum> <datum> ...)`
 static void check_lambda(mobj expr) {
-    mobj args = minim_cadr(expr);
+    mobj args;
+
+    if (!minim_consp(minim_cdr(expr)) || !minim_consp(minim_cddr(expr)))
+        bad_syntax_exn(expr);
+
+    args = minim_cadr(expr);
     for (; minim_consp(args); args = minim_cdr(args)) {
         assert_identifier(expr, minim_car(args));
     }
@@ -143,11 +148,14 @@ static void check_lambda(mobj expr) {
 }
 
 // Already assumes `expr` is `(<name> . <???>)`
-// Check: `expr` must be `(<name> <datum> ...)`
+// Check: `expr` must be `(<name> (<formals> <datum> <datum> ...) ...)`
 static void check_case_lambda(mobj expr) {
     mobj clauses, args;
 
     for (clauses = minim_cdr(expr); minim_consp(clauses); clauses = minim_cdr(clauses)) {
+        if (!minim_consp(minim_car(clauses)) || !minim_consp(minim_cdar(clauses)))
+            bad_syntax_exn(expr);
+
         for (args = minim_caar(clauses); minim_consp(args); args = minim_cdr(args))
             assert_identifier(expr, minim_car(args));
 
@@ -214,6 +222,9 @@ loop:
             // begin form
             check_begin(expr);
             expr = minim_cdr(expr);
+            if (minim_nullp(expr))
+                bad_syntax_exn(Mcons(head, expr));
+
             while (!minim_nullp(minim_cdr(expr))) {
                 check_expr(minim_car(expr));
                 expr = minim_cdr(expr);
@@ -224,7 +235,7 @@ loop:
         } else if (minim_listp(expr)) {
             // application
             check_begin(expr);
-            for (expr = minim_cdr(expr); !minim_nullp(expr); expr = minim_cdr(expr)) {
+            for (; !minim_nullp(expr); expr = minim_cdr(expr)) {
                 check_expr(minim_car(expr));
             }
         } else {
-- 
2.43.0


From 85d053d70774085ad068515338d4ba05e0b8439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 28/60] fix: report an assignment to an undefined variable

---
 src/core/c/eval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index d7a7ac0..2b99f48 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -344,6 +344,10 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
+    if (minim_falsep(cell)) {
+        minim_error1(NULL, "cannot set before definition", id);
+    }
+
     minim_cdar(cell) = val;
 }
 
-- 
2.43.0


From 0018dd293fe1d25ff73aafc072997d681ef27a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:25 +0000
Subject: [PATCH 29/60] fix: eval restores the caller's top-level environment

---
 src/core/c/eval.c     | 11 ++++++++---
 src/core/c/jitprims.c |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 2b99f48..15961c0 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -595,14 +595,19 @@ application:
         v0 = tc_frame_ref(tc, minim_fixnum(minim_car(minim_cddr(ins))));
         store_reg(tc, tregs, ins, minim_cadr(ins), v0);
     } else if (ty == set_arg_symbol) {
-        // set-arg
-        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = tregs[0];
+        // (set-arg <stack index> <src reg>)
+        v0 = load_reg(tc, tregs, ins, minim_car(minim_cddr(ins)));
+        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = v0;
     } else if (ty == get_tenv_symbol) {
         // (get-tenv <dst reg>)
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
     } else if (ty == set_tenv_symbol) {
         // (set-tenv <src reg>)
-        tc_tenv(tc) = load_reg(tc, tregs, ins, minim_cadr(ins));
+        v0 = load_reg(tc, tregs, ins, minim_cadr(ins));
+        if (!minim_top_envp(v0)) {
+            minim_error1("eval", "expected an environment", v0);
+        }
+        tc_tenv(tc) = v0;
     } else if (ty == do_apply_symbol) {
         // do-apply
         do_apply(tc);
diff --git a/src/core/c/jitprims.c b/src/core/c/jitprims.c
index eae170b..281fa26 100644
--- a/src/core/c/jitprims.c
+++ b/src/core/c/jitprims.c
@@ -135,8 +135,8 @@ mobj compile_eval(mobj name) {
                 
             ),
             list_append2(Mlist5(
-                Mlist2(set_tenv_symbol, Mfixnum(t0_reg_idx)),   // %tenv <- %t0 [new env]
                 Mlist1(do_eval_symbol),
+                Mlist2(set_tenv_symbol, Mfixnum(t0_reg_idx)),   // %tenv <- %t0 [new env]
                 Mlist2(save_cc_symbol, Lpop_tenv),
                 Mlist1(set_proc_symbol),
                 Mlist1(apply_symbol)
-- 
2.43.0


From adc1b5ca41c75ad174943ae70c88c8aa1b44fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:54 +0000
Subject: [PATCH 30/60] fix: eval reports malformed expressions

---
 src/core/c/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 15961c0..9e94f8d 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -617,6 +617,7 @@ application:
         arity_mismatch_exn(tc_cp(tc), tc_ac(tc));
     } else if (ty == do_eval_symbol) {
         // do-eval
+        check_expr(tregs[0]);
         tregs[0] = Mclosure(Menv(0), compile_expr(tregs[0]), 0);
     } else if (ty == do_raise_symbol) {
         // do-raise
-- 
2.43.0


From 5671411707e32ce4ff60f53acc3f4b52b7757676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:42 +0000
Subject: [PATCH 31/60] fix: a name that is referenced but not defined is not
 in the environment

---
 src/core/c/env.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/c/env.c b/src/core/c/env.c
index 41a322a..c53b672 100644
--- a/src/core/c/env.c
+++ b/src/core/c/env.c
@@ -160,8 +160,10 @@ static mobj top_env_symbols(mobj env) {
     for (size_t i = 0; i < minim_top_env_alloc(env); i++) {
         b = minim_top_env_bucket(env, i);
         for (; !minim_nullp(b); b = minim_cdr(b)) {
+            // skip names that have been referenced but not defined
             cell = minim_car(b);
-            syms = Mcons(minim_caar(cell), syms);
+            if (minim_cdar(cell) != minim_unbound)
+                syms = Mcons(minim_caar(cell), syms);
         }
     }
 
@@ -236,7 +238,9 @@ mobj environment_names(mobj env) {
 mobj environment_variable_ref(mobj env, mobj k, mobj fail) {
     // (-> environment symbol any)
     mobj cell = top_env_find(env, k);
-    return minim_falsep(cell) ? fail : minim_cdar(cell);
+    if (minim_falsep(cell) || minim_cdar(cell) == minim_unbound)
+        return fail;
+    return minim_cdar(cell);
 }
 
 mobj environment_variable_set(mobj env, mobj k, mobj v) {
-- 
2.43.0


From 38229ac86d078937067e61b83248ad7742043e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 32/60] fix: report an assignment to a referenced but undefined
 variable

---
 src/core/c/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 9e94f8d..d4a2e0c 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -344,7 +344,7 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
-    if (minim_falsep(cell)) {
+    if (minim_falsep(cell) || minim_cdar(cell) == minim_unbound) {
         minim_error1(NULL, "cannot set before definition", id);
     }
 
-- 
2.43.0


From c4fc48b38da4154f16a78d7de3fbebfb483e0c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:15 +0000
Subject: [PATCH 33/60] fix: make-record-type-descriptor checks its arguments

---
 src/core/s/prelude.min | 162 ++++++++++++++++-------------------------
 1 file changed, 61 insertions(+), 101 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 85e5393..fe9a9e9 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1224,105 +1224,65 @@
 ;; Records
 
 (define-values (make-record-type-descriptor)
-  (letrec-values ([(field-id)
+  (letrec-values ([(who) 'make-record-type-descriptor]
+                  [(field-id)
                    (lambda (field)
-                     (if (pair? field)
-                         (let-values ([(type) ($car field)]
-                                      [(rib) ($cdr field)])
-                            (if (if (eq? type 'immutable) #t (eq? type 'mutable))
-                                (let-values ([(name) ($car rib)]
-                                             [(rib) ($cdr rib)])
-                                   (if (symbol? name)
-                                       (if (null? rib)
-                                           name
-                                           #f)
-                                       #f))
-                                #f))
+                     (if (list? field)
+                         (if (= (length field) 2)
+                             (if (if (eq? ($car field) 'immutable) #t (eq? ($car field) 'mutable))
+                                 (if (symbol? ($cadr field)) ($cadr field) #f)
+                                 #f)
+                             #f)
                          #f))]
-                  [(check-args!)
-                   (lambda (name parent uid sealed? opaque?)
+                  [(check-fields)
+                   (lambda (fields i ids make)
+                     (if (< i ($vector-length fields))
+                         (let-values ([(id) (field-id ($vector-ref fields i))])
+                           (if id
+                               (if (ormap (lambda (x) (eq? x id)) ids)
+                                   (raise-argument-error who "duplicate field" id)
+                                   (check-fields fields (add1 i) (cons id ids) make))
+                               (raise-argument-error
+                                 who
+                                 "invalid field; '(immutable <name>) or '(mutable <name>)"
+                                 ($vector-ref fields i))))
+                         (make)))]
+                  [(check-args)
+                   (lambda (name parent uid sealed? opaque? fields make)
                      (if (symbol? name)
-                         (if (if (record-type-descriptor? parent)
-                                 (begin
-                                   (if ($record-type-sealed? parent)
-                                       (raise-argument-error
-                                         'make-record-type-descriptor
-                                         "non-sealed record type"
-                                         parent)
-                                       #t))
-                                 (not parent))
-                             (if (if (symbol? uid) #t (not uid))
-                                 (if (boolean? sealed?)
-                                     (if (boolean? opaque?)
-                                         (if (vector? fields)
-                                            (begin
-                                              (check-fields! fields)
-                                              ($make-record-type-descriptor
-                                                 name
-                                                 parent
-                                                 uid
-                                                 sealed?
-                                                 opaque?
-                                                 fields))
-                                            (raise-argument-error
-                                              'make-record-type-descriptor
-                                              "vector?"
-                                              fields))
-                                         (raise-argument-error
-                                           'make-record-type-descriptor
-                                           "boolean?"
-                                           opaque?))
-                                     (raise-argument-error
-                                       'make-record-type-descriptor
-                                       "boolean?"
-                                       sealed?))
-                                 (raise-argument-error
-                                   'make-record-type-descriptor
-                                   "symbol? or #f"
-                                   uid))
-                             (raise-argument-error
-                               'make-record-type-descriptor
-                               "record-type-descriptor? or #f"
-                               parent))
-                         (raise-argument-error
-                           'make-record-type-descriptor
-                           "symbol?"
-                           name)))]
-                  [(check-fields!)
-                   (lambda (fields)
-                     (letrec-values ([(ids) '()])
-                       (for-each
-                         (lambda (i)
-                           (let-values ([(maybe-id) (field-id ($vector-ref fields i))])
-                             (if maybe-id
-                                 (if (ormap (lambda (id) (eq? maybe-id id)) ids)
-                                     (raise-argument-error
-                                       'make-record-type-descriptor
-                                       "duplicate field"
-                                       maybe-id)
-                                     (set! ids (cons maybe-id ids)))
-                                 (raise-argument-error
-                                   'make-record-type-descriptor
-                                   "invalid field; '(immutable <name>) or '(mutable <name>)"
-                                   field))))
-                         (iota ($vector-length fields)))))])
+                         (if (if (record-type-descriptor? parent) #t (not parent))
+                             (if (if parent ($record-type-sealed? parent) #f)
+                                 (raise-argument-error who "non-sealed record type" parent)
+                                 (if (if (symbol? uid) #t (not uid))
+                                     (if (boolean? sealed?)
+                                         (if (boolean? opaque?)
+                                             (if (vector? fields)
+                                                 (check-fields fields 0 '() make)
+                                                 (raise-argument-error who "vector?" fields))
+                                             (raise-argument-error who "boolean?" opaque?))
+                                         (raise-argument-error who "boolean?" sealed?))
+                                     (raise-argument-error who "symbol? or #f" uid)))
+                             (raise-argument-error who "record-type-descriptor? or #f" parent))
+                         (raise-argument-error who "symbol?" name)))])
     (lambda (name parent uid sealed? opaque? fields)
-      (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
-        (if parent
-            (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
-                         [(rec-hash) (record-type-hash-procedure parent)]
-                         [(rec-writer) (record-writer parent)])
-              (if rec-equal?
-                  (record-type-equal-procedure rtd rec-equal?)
-                  (void))
-              (if rec-hash
-                  (record-type-hash-procedure rtd rec-hash)
-                  (void))
-              (if rec-writer
-                  (record-writer rtd rec-writer)
-                  (void)))
-            (void))
-        rtd))))
+      (check-args name parent uid sealed? opaque? fields
+        (lambda ()
+          (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
+            (if parent
+                (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
+                             [(rec-hash) (record-type-hash-procedure parent)]
+                             [(rec-writer) (record-writer parent)])
+                  (if rec-equal?
+                      (record-type-equal-procedure rtd rec-equal?)
+                      (void))
+                  (if rec-hash
+                      (record-type-hash-procedure rtd rec-hash)
+                      (void))
+                  (if rec-writer
+                      (record-writer rtd rec-writer)
+                      (void)))
+                (void))
+            rtd))))))
       
 (define-values (record-type-name
                 record-type-parent
@@ -2430,7 +2390,7 @@
 
 ; base exception
 (define-values (&exn make-exn exn? exn-who exn-message)
-  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #t #t #(who message))])
+  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #f #t #((immutable who) (immutable message)))])
     (values &exn
             (record-constructor &exn)
             (record-predicate &exn)
@@ -2439,7 +2399,7 @@
 
 ; argument exception
 (define-values (&argument make-argument-exn argument-exn? argument-exn-expect argument-exn-actual)
-  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &argument
             (record-constructor &argument)
             (record-predicate &argument)
@@ -2448,7 +2408,7 @@
 
 ; arity exception
 (define-values (&arity make-arity-exn arity-exn? arity-exn-expect arity-exn-actual)
-  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &arity
             (record-constructor &arity)
             (record-predicate &arity)
@@ -2457,7 +2417,7 @@
 
 ; range exception
 (define-values (&range make-range-exn range-exn? range-exn-value range-exn-description range-exn-lower range-exn-upper range-exn-index)
-  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #(value description lower upper index))])
+  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #((immutable value) (immutable description) (immutable lower) (immutable upper) (immutable index)))])
     (values &range
             (record-constructor &range)
             (record-predicate &range)
@@ -2469,7 +2429,7 @@
 
 ; missing exception
 (define-values (&missing make-missing-exn missing-exn? missing-exn-description missing-exn-value missing-exn-key)
-  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #(description value key))])
+  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #((immutable description) (immutable value) (immutable key)))])
     (values &missing
             (record-constructor &missing)
             (record-predicate &missing)
@@ -2479,7 +2439,7 @@
 
 ; syntax exception
 (define-values (&syntax make-syntax-exn syntax-exn? syntax-exn-form syntax-exn-subform)
-  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #(form subform))])
+  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #((immutable form) (immutable subform)))])
     (values &syntax
             (record-constructor &syntax)
             (record-predicate &syntax)
-- 
2.43.0


From 42d0f1951dff8fdbbea42d19bbabaf034c897663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:47 +0000
Subject: [PATCH 34/60] fix: record-mutator rejects immutable fields

---
 src/core/s/prelude.min | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index fe9a9e9..ecefb89 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1394,20 +1394,22 @@
         (if (record-type-descriptor? rtd)
             (if (if (integer? idx) (>= idx 0) #f)
                 (if (< idx ($record-type-length rtd))
-                    (letrec-values ([(rtd?) (record-predicate rtd)]
-                                    [(actual-idx)
-                                     (if ($record-type-parent rtd)
-                                         (+ idx (record-size ($record-type-parent rtd)))
-                                         idx)]
-                                    [(mut)
-                                     (lambda (rec v)
-                                       (if (rtd? rec)
-                                           ($record-set! rec actual-idx v)
-                                           (raise-argument-error
-                                             (procedure-name mut)
-                                             (format "~a" (record-type-name rtd))
-                                             rec)))])
-                      mut)
+                    (if ($record-type-field-mutable? rtd idx)
+                        (letrec-values ([(rtd?) (record-predicate rtd)]
+                                        [(actual-idx)
+                                         (if ($record-type-parent rtd)
+                                             (+ idx (record-size ($record-type-parent rtd)))
+                                             idx)]
+                                        [(mut)
+                                         (lambda (rec v)
+                                           (if (rtd? rec)
+                                               ($record-set! rec actual-idx v)
+                                               (raise-argument-error
+                                                 (procedure-name mut)
+                                                 (format "~a" (record-type-name rtd))
+                                                 rec)))])
+                          mut)
+                        (raise-argument-error 'record-mutator "index of a mutable field" idx))
                     (raise-range-error 'record-mutator rtd "" 0 ($record-type-length rtd) idx))
                 (raise-argument-error 'record-mutator "non-negative-integer?" idx))
             (raise-argument-error 'record-mutator "record-type-descriptor?" rtd))))))  
-- 
2.43.0


From af29892398932bde0c0d23408d126c9da7f9ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:15 +0000
Subject: [PATCH 35/60] fix: write prints boxes

---
 src/core/s/prelude.min | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index ecefb89..18b73cf 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1998,6 +1998,7 @@
                      (if (char? x) (if d? (put-char p x) (wrchar x p))
                      (if (string? x) (if d? (put-string p x) (wrstring x p))
                      (if (vector? x) (wrvector x d? p)
+                     (if (box? x) (begin (put-string p "#&") (wr (unbox x) d? p))
                      (if (eof-object? x) (put-string p "#<eof>")
                      (if (void? x) (put-string p "#<void>")
                      (if (input-port? x) (put-string p "#<input port>")
@@ -2007,7 +2008,7 @@
                      (if (environment? x) (put-string p "#<environment>")
                      (if (record-type-descriptor? x) (wrrtd x d? p)
                      (if ($record-value? x) (wrrecord x d? p)
-                     (put-string p "#<garbage>")))))))))))))))))))]
+                     (put-string p "#<garbage>"))))))))))))))))))))]
                   ; character writer
                   [(wrchar)
                    (lambda (x p)
-- 
2.43.0


From 43fdc7aafb763ec444fb0a17232c0fa5a5dbc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 36/60] fix: a comment before the dot of an improper list no
 longer turns it into a symbol

---
 src/core/c/read.c | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index b3a75ad..2ac1794 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -14,7 +14,7 @@ static int is_symbol_char(int c) {
     return !is_delimeter(c);
 }
 
-static mobj read_object_or_close(FILE *in, int *closep);
+static mobj read_object_or_close(FILE *in, int *closep, int dotp);
 
 static int is_close_paren(int c) {
     return c == ')' || c == ']' || c == '}';
@@ -210,28 +210,21 @@ static mobj read_datum(FILE *in) {
 
 static mobj read_pair(FILE *in, char open_paren) {
     mobj hd, tl, o;
-    int c, close;
+    int close;
 
     hd = tl = minim_null;
     while (1) {
-        skip_whitespace(in);
-        c = getc(in);
-        if (!minim_nullp(hd) && is_cons_dot(in, c)) {
-            // improper list
-            peek_expected_delimeter(in);
-            minim_cdr(tl) = read_datum(in);
-            o = read_object_or_close(in, &close);
-            if (o != NULL) {
-                minim_error1("read_object", "expected pair terminator", o);
+        o = read_object_or_close(in, &close, !minim_nullp(hd));
+        if (o == NULL) {
+            if (close == '.') {
+                // improper list
+                minim_cdr(tl) = read_datum(in);
+                o = read_object_or_close(in, &close, 0);
+                if (o != NULL) {
+                    minim_error1("read_object", "expected pair terminator", o);
+                }
             }
 
-            assert_matching_paren(open_paren, close);
-            return hd;
-        }
-
-        ungetc(c, in);
-        o = read_object_or_close(in, &close);
-        if (o == NULL) {
             // list read
             assert_matching_paren(open_paren, close);
             return hd;
@@ -253,7 +246,7 @@ static mobj read_vector(FILE *in) {
     int close;
 
     l = minim_null;
-    while ((o = read_object_or_close(in, &close)) != NULL) {
+    while ((o = read_object_or_close(in, &close, 0)) != NULL) {
         l = Mcons(o, l);
     }
 
@@ -266,13 +259,14 @@ static mobj read_vector(FILE *in) {
 }
 
 mobj read_object(FILE *in) {
-    return read_object_or_close(in, NULL);
+    return read_object_or_close(in, NULL, 0);
 }
 
 // Reads the next object. If `closep` is not NULL, the object is inside
 // a list or vector: the end of input is an error and a closing parenthesis
-// is stored at `closep`, returning NULL.
-static mobj read_object_or_close(FILE *in, int *closep) {
+// is stored at `closep`, returning NULL. If `dotp` is non-zero, so is the dot
+// before the last element of an improper list.
+static mobj read_object_or_close(FILE *in, int *closep, int dotp) {
     // never live across a nested call, so not needed on every stack frame
     static char buffer[symbol_max_len];
     long num, i, block_level;
@@ -463,6 +457,10 @@ read_hex:
     } else if (c == '\'') {
         // quoted expression
         return Mcons(intern("quote"), Mcons(read_datum(in), minim_null));
+    } else if (dotp && is_cons_dot(in, c)) {
+        // improper list
+        *closep = c;
+        return NULL;
     } else if (is_symbol_char(c) || ((c == '+' || c == '-') && is_delimeter(peek_char(in)))) {
         // symbol
         i = 0;
-- 
2.43.0


From 5efa59c3f9e47b0c5acb15f32ff6478a423d79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 37/60] fix: the base record type is not a record value

---
 src/core/c/record.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/c/record.c b/src/core/c/record.c
index 79fcc75..e686125 100644
--- a/src/core/c/record.c
+++ b/src/core/c/record.c
@@ -17,7 +17,7 @@ mobj Mrecord(mobj rtd, int fieldc) {
 static int true_recordp(mobj o) {
     mobj *rtd;
 
-    if (!minim_recordp(o))
+    if (!record_valuep(o) && !record_rtdp(o))
         return 0;
 
     rtd = minim_record_rtd(o);
@@ -25,8 +25,9 @@ static int true_recordp(mobj o) {
 }
 
 // Returns 1 when `o` is a record value, and 0 otherwise.
+// The base record type has no type, so it is not one.
 int record_valuep(mobj o) {
-    return minim_recordp(o) && minim_record_rtd(o) != minim_base_rtd;
+    return minim_recordp(o) && !minim_base_rtdp(o) && minim_record_rtd(o) != minim_base_rtd;
 }
 
 // Returns 1 when `o` is a record type descriptor, and 0 otherwise.
-- 
2.43.0


From 5b90f0f87f347eb099bf3252ef687922a0510c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 38/60] fix: primitives stop at a contract violation when the
 handler returns

---
 src/core/s/prelude.min | 268 +++++++++++++++++++----------------------
 1 file changed, 126 insertions(+), 142 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 18b73cf..8f3870f 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -794,36 +794,35 @@
 ;; String
 
 (define-values (string list->string)
-  (let-values ([(check-arg!)
+  (let-values ([(go)
                 (lambda (who xs)
-                  (for-each (lambda (x)
-                              (if (char? x)
-                                  (void)
-                                  (raise-argument-error who "char?" x)))
-                            xs))])
+                  (letrec-values ([(loop)
+                                   (lambda (ys)
+                                     (if (null? ys)
+                                         ($list->string xs)
+                                         (if (char? ($car ys))
+                                             (loop ($cdr ys))
+                                             (raise-argument-error who "char?" ($car ys)))))])
+                    (loop xs)))])
     (values
       (lambda args ; string
-        (check-arg! 'string args)
-        ($list->string args))
+        (go 'string args))
       (lambda (xs) ; list->string
-        (check-arg! 'list->string xs)
-        ($list->string xs)))))
+        (if (list? xs)
+            (go 'list->string xs)
+            (raise-argument-error 'list->string "list?" xs))))))
 
 (define-values (make-string)
-  (let-values ([(check-args!)
+  (let-values ([(go)
                 (lambda (n c)
                   (if (non-negative-integer? n)
                       (if (char? c)
-                          (void)
+                          ($make-string n c)
                           (raise-argument-error 'make-string "char?" c))
                       (raise-argument-error 'make-string "non-negative-integer?" n)))])
     (case-lambda
-      [(n)
-       (check-args! n #\a)
-       ($make-string n #\a)]
-      [(n fill)
-       (check-args! n fill)
-       ($make-string n fill)])))
+      [(n) (go n #\a)]
+      [(n fill) (go n fill)])))
 
 (define-values (string-length)
   (lambda (s)
@@ -854,40 +853,40 @@
         (raise-argument-error 'string-set! "string?" s))))
 
 (define-values (string-append)
-  (let-values ([(check-args!)
-                (lambda (xs)
-                  (for-each (lambda (x)
-                              (if (string? x)
-                                  (void)
-                                  (raise-argument-error 'string-append "string?" x)))
-                            xs))]
-               [(sum-lengths)
-                (lambda (xs)
-                  (letrec-values ([(loop)
-                                   (lambda (xs len)
-                                     (if (null? xs)
-                                         len
-                                         (loop ($cdr xs) (+ len ($string-length ($car xs))))))])
-                    (loop xs 0)))])
+  (letrec-values ([(check-args)
+                   (lambda (xs append)
+                     (if (null? xs)
+                         (append)
+                         (if (string? ($car xs))
+                             (check-args ($cdr xs) append)
+                             (raise-argument-error 'string-append "string?" ($car xs)))))]
+                  [(sum-lengths)
+                   (lambda (xs)
+                     (letrec-values ([(loop)
+                                      (lambda (xs len)
+                                        (if (null? xs)
+                                            len
+                                            (loop ($cdr xs) (+ len ($string-length ($car xs))))))])
+                       (loop xs 0)))])
     (case-lambda
       [() ""]
       [(x)
-       (check-args! (list x))
-       x]
+       (check-args (list x) (lambda () x))]
       [(x . xs)
        (let-values ([(xs) (cons x xs)])
-         (check-args! xs)
-         (letrec-values ([(s) ($make-string (sum-lengths xs) #\0)]
-                         [(loop)
-                          (lambda (xs i j)
-                            (if (null? xs)
-                                s
-                                (if (>= j ($string-length ($car xs)))
-                                    (loop ($cdr xs) i 0)
-                                    (begin
-                                      (string-set! s i (string-ref ($car xs) j))
-                                      (loop xs (add1 i) (add1 j))))))])
-           (loop xs 0 0)))])))
+         (check-args xs
+           (lambda ()
+             (letrec-values ([(s) ($make-string (sum-lengths xs) #\0)]
+                             [(loop)
+                              (lambda (xs i j)
+                                (if (null? xs)
+                                    s
+                                    (if (>= j ($string-length ($car xs)))
+                                        (loop ($cdr xs) i 0)
+                                        (begin
+                                          (string-set! s i (string-ref ($car xs) j))
+                                          (loop xs (add1 i) (add1 j))))))])
+               (loop xs 0 0)))))])))
 
 (define-values (number->string)
   (lambda (n)
@@ -998,13 +997,13 @@
                          (if (pred? ($car xs))
                              #t
                              (ormap1 pred? ($cdr xs)))))]
-                  [(check-args!)
-                   (lambda (who f xss)
+                  [(check-args)
+                   (lambda (who f xss go)
                      (if (procedure? f)
                          (letrec-values ([(loop)
                                           (lambda (prev-len xss)
                                             (if (null? xss)
-                                                (void)
+                                                (go)
                                                 (if (list? ($car xss))
                                                     (let-values ([(len) ($length ($car xss))])
                                                       (if (if prev-len
@@ -1019,10 +1018,8 @@
       ;; for-each
       (case-lambda
         [(f xs)
-         (check-args! 'for-each f (list xs))
-         (for-each1 f xs)]
+         (check-args 'for-each f (list xs) (lambda () (for-each1 f xs)))]
         [(f xs . xss)
-         (check-args! 'for-each f (cons xs xss))
          (letrec-values ([(loop)
                              (lambda (xss)
                                 (if (ormap1 null? xss)
@@ -1030,28 +1027,24 @@
                                     (begin
                                       (apply f (map1 $car xss))
                                       (loop (map1 $cdr xss)))))])
-           (loop (cons xs xss)))])
+           (check-args 'for-each f (cons xs xss) (lambda () (loop (cons xs xss)))))])
       ;; map
       (case-lambda
         [(f xs)
-         (check-args! 'map f (list xs))
-         (map1 f xs)]
+         (check-args 'map f (list xs) (lambda () (map1 f xs)))]
         [(f xs . xss)
-         (check-args! 'map f (cons xs xss))
          (letrec-values ([(loop)
                           (lambda (xss acc)
                              (if (ormap1 null? xss)
                                  (reverse acc)
                                  (loop (map1 $cdr xss)
                                        (cons (apply f (map1 $car xss)) acc))))])
-           (loop (cons xs xss) '()))])
+           (check-args 'map f (cons xs xss) (lambda () (loop (cons xs xss) '()))))])
       ;; andmap
       (case-lambda
         [(f xs)
-         (check-args! 'andmap f (list xs))
-         (andmap1 f xs)]
+         (check-args 'andmap f (list xs) (lambda () (andmap1 f xs)))]
         [(f xs . xss)
-         (check-args! 'andmap f (cons xs xss))
          (letrec-values ([(loop)
                           (lambda (xss)
                              (if (ormap1 null? xss)
@@ -1059,14 +1052,12 @@
                                  (if (apply f (map1 $car xss))
                                      (loop (map1 $cdr xss))
                                      #f)))])
-           (loop (cons xs xss)))])
+           (check-args 'andmap f (cons xs xss) (lambda () (loop (cons xs xss)))))])
       ;; ormap
       (case-lambda
         [(f xs)
-         (check-args! 'ormap f (list xs))
-         (ormap1 f xs)]
+         (check-args 'ormap f (list xs) (lambda () (ormap1 f xs)))]
         [(f xs . xss)
-         (check-args! 'ormap f (cons xs xss))
          (letrec-values ([(loop)
                           (lambda (xss)
                              (if (ormap1 null? xss)
@@ -1074,7 +1065,7 @@
                                  (if (apply f (map1 $car xss))
                                      #t
                                      (loop (map1 $cdr xss)))))])
-           (loop (cons xs xss)))]))))
+           (check-args 'ormap f (cons xs xss) (lambda () (loop (cons xs xss)))))]))))
 
 (define-values (iota)
   (lambda (n)
@@ -1109,18 +1100,14 @@
   (lambda args ($list->vector args)))
 
 (define-values (make-vector)
-  (let-values ([(check-length!)
-                (lambda (n)
+  (let-values ([(go)
+                (lambda (n fill)
                   (if (non-negative-integer? n)
-                      (void)
+                      ($make-vector n fill)
                       (raise-argument-error 'make-vector "non-negative-integer?" n)))])
     (case-lambda
-      [(n)
-       (check-length! n)
-       ($make-vector n 0)]
-      [(n fill)
-       (check-length! n)
-       ($make-vector n fill)])))
+      [(n) (go n 0)]
+      [(n fill) (go n fill)])))
 
 (define-values (vector-length)
   (lambda (v)
@@ -1455,53 +1442,53 @@
         (raise-argument-error 'hashtable-set! "hashtable?" ht))))
 
 (define-values (hashtable-entries hashtable-keys hashtable-vals)
-  (let-values ([(check-arg!)
-                (lambda (name ht)
+  (let-values ([(check-arg)
+                (lambda (name ht go)
                   (if (hashtable? ht)
-                      (void)
+                      (go ($hashtable-store ht))
                       (raise-argument-error name "hashtable?" ht)))])
     (values
       ; hashtable-entries
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
-        (letrec-values ([(store) ($hashtable-store ht)]
-                        [(size) ($hashtable-size store)]
-                        [(keys) ($make-vector size #f)]
-                        [(vals) ($make-vector size #f)]
-                        [(loop) (lambda (cells i)
-                                  (if (null? cells)
-                                      (values keys vals)
-                                      (begin
-                                        (vector-set! keys i ($caar cells))
-                                        (vector-set! vals i ($cdar cells))
-                                        (loop ($cdr cells) (add1 i)))))])
-          (loop ($hashtable-cells store) 0)))
+        (check-arg 'hashtable-entries ht
+          (lambda (store)
+            (letrec-values ([(size) ($hashtable-size store)]
+                            [(keys) ($make-vector size #f)]
+                            [(vals) ($make-vector size #f)]
+                            [(loop) (lambda (cells i)
+                                      (if (null? cells)
+                                          (values keys vals)
+                                          (begin
+                                            (vector-set! keys i ($caar cells))
+                                            (vector-set! vals i ($cdar cells))
+                                            (loop ($cdr cells) (add1 i)))))])
+              (loop ($hashtable-cells store) 0)))))
       ; hashtable-keys
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
-        (letrec-values ([(store) ($hashtable-store ht)]
-                        [(size) ($hashtable-size store)]
-                        [(keys) ($make-vector size #f)]
-                        [(loop) (lambda (cells i)
-                                  (if (null? cells)
-                                      keys
-                                      (begin
-                                        (vector-set! keys i ($caar cells))
-                                        (loop ($cdr cells) (add1 i)))))])
-          (loop ($hashtable-cells store) 0)))
+        (check-arg 'hashtable-keys ht
+          (lambda (store)
+            (letrec-values ([(size) ($hashtable-size store)]
+                            [(keys) ($make-vector size #f)]
+                            [(loop) (lambda (cells i)
+                                      (if (null? cells)
+                                          keys
+                                          (begin
+                                            (vector-set! keys i ($caar cells))
+                                            (loop ($cdr cells) (add1 i)))))])
+              (loop ($hashtable-cells store) 0)))))
       ; hashtable-vals
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
-        (letrec-values ([(store) ($hashtable-store ht)]
-                        [(size) ($hashtable-size store)]
-                        [(vals) ($make-vector size #f)]
-                        [(loop) (lambda (cells i)
-                                  (if (null? cells)
-                                      vals
-                                      (begin
-                                        (vector-set! vals i ($cdar cells))
-                                        (loop ($cdr cells) (add1 i)))))])
-          (loop ($hashtable-cells store) 0))))))
+        (check-arg 'hashtable-vals ht
+          (lambda (store)
+            (letrec-values ([(size) ($hashtable-size store)]
+                            [(vals) ($make-vector size #f)]
+                            [(loop) (lambda (cells i)
+                                      (if (null? cells)
+                                          vals
+                                          (begin
+                                            (vector-set! vals i ($cdar cells))
+                                            (loop ($cdr cells) (add1 i)))))])
+              (loop ($hashtable-cells store) 0))))))))
 
 
 (define-values (hashtable-contains?
@@ -2133,12 +2120,12 @@
 
 (define-values (fprintf printf eprintf format)
   (letrec-values ([(fmt-args)
-                   (lambda (who fmt)
+                   (lambda (who fmt go)
                      (letrec-values ([(len) (string-length fmt)]
                                      [(loop)
                                       (lambda (n args)
                                         (if (>= n len)
-                                            (reverse args)
+                                            (go args)
                                             (let-values ([(c) (string-ref fmt n)])
                                               (if (eq? c #\~)
                                                   (if (>= (+ n 1) len)
@@ -2156,18 +2143,16 @@
                                                   (loop (+ n 1) args)))))])
                        (loop 0 '())))]                                                
       
-                  [(check-format!)
-                   (lambda (who fmt args)
-                     (let-values ([(fmt-preds) (fmt-args who fmt)])
-                       (if (= (length fmt-preds) (length args))
-                           (for-each
-                             (lambda (fmt-pred arg)
-                               (if (if fmt-pred (fmt-pred arg) #t)
-                                   (void)
-                                   (errorf who "format argument ~a, given unexpected value ~a" fmt-pred arg)))
-                             fmt-preds args)
-                           (errorf who "format string requires ~a argument, given ~a" (length fmt-preds) (length args)))))]
-                                        
+                  [(check-format)
+                   (lambda (who fmt args go)
+                     (if (string? fmt)
+                         (fmt-args who fmt
+                           (lambda (fmt-preds)
+                             (if (= (length fmt-preds) (length args))
+                                 (go)
+                                 (errorf who "format string requires ~a argument, given ~a" (length fmt-preds) (length args)))))
+                         (raise-argument-error who "string?" fmt)))]
+
                   [(do-format)
                    (lambda (p fmt args)
                      (letrec-values ([(len) (string-length fmt)]
@@ -2201,27 +2186,26 @@
       ; fprintf
       (lambda (p fmt . args)
         (if (output-port? p)
-            (begin
-              (check-format! 'fprintf fmt args)
-              (do-format p fmt args))
+            (check-format 'fprintf fmt args
+              (lambda () (do-format p fmt args)))
             (raise-argument-error 'fprintf "output port?" p)))
       ; printf
       (lambda (fmt . args)
-        (check-format! 'printf fmt args)
-        (do-format (current-output-port) fmt args))
+        (check-format 'printf fmt args
+          (lambda () (do-format (current-output-port) fmt args))))
       ; eprintf
       (lambda (fmt . args)
-        (check-format! 'eprintf fmt args)
-        (do-format (current-error-port) fmt args))
+        (check-format 'eprintf fmt args
+          (lambda () (do-format (current-error-port) fmt args))))
       ; format
       (lambda (fmt . args)
-        (check-format! 'format fmt args)
-        (let-values ([(p) (open-output-string)])
-          (do-format p fmt args)
-          (let-values ([(s) (get-output-string p)])
-            (close-output-port p)
-            s))))))
-                                        
+        (check-format 'format fmt args
+          (lambda ()
+            (let-values ([(p) (open-output-string)])
+              (do-format p fmt args)
+              (let-values ([(s) (get-output-string p)])
+                (close-output-port p)
+                s))))))))
 
 ;; --------------------------------------------------------
 ;; FASL I/O
@@ -2296,7 +2280,7 @@
                    (lambda (env mutable? syms)
                      (if (environment? env)
                          (if (boolean? mutable?)
-                             (if (andmap symbol? syms)
+                             (if (if (list? syms) (andmap symbol? syms) #f)
                                  ($copy-environment env mutable? syms)
                                  (raise-argument-error 'copy-environment "list of symbols" syms))
                              (raise-argument-error 'copy-environment "boolean?" mutable?))
-- 
2.43.0


From 011d970d7023a4ffb2b4eb69a82f42810d24e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 39/60] fix: put-string's range check no longer overflows

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 8f3870f..bc530d4 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1923,7 +1923,7 @@
                 (lambda (p s start n)
                   (let-values ([(len) ($string-length s)])
                     (if (<= start len)
-                        (if (<= (+ start n) len)
+                        (if (<= n (- len start))
                             ($put-string p s start n)
                             (raise-range-error 'put-string s "end" 0 (+ len 1) (+ start n)))
                         (raise-range-error 'put-string s "start" 0 (+ len 1) start))))])
-- 
2.43.0


From a39323ae82f7f2193e0a1bddd9b78e3e55922dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 40/60] fix: fasl-read rejects record types with malformed
 fields

---
 src/core/c/fasl.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 938793f..05e7620 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -187,14 +187,29 @@ static mobj read_fasl_vector(FILE *in) {
     return minim_nullp(elts) ? minim_empty_vec : list_to_vector(list_reverse(elts));
 }
 
+// Returns 1 when `o` is a field of a record type: `(mutable <name>)` or `(immutable <name>)`.
+static int fasl_rtd_fieldp(mobj o) {
+    return minim_consp(o) && minim_consp(minim_cdr(o)) && minim_nullp(minim_cddr(o)) &&
+           (minim_car(o) == intern("mutable") || minim_car(o) == intern("immutable")) &&
+           minim_symbolp(minim_cadr(o));
+}
+
 // Raises an error unless a record has the fields that its type requires.
 static void check_fasl_record(mobj rec) {
     mobj rtd = minim_record_rtd(rec);
     if (minim_base_rtdp(rtd)) {
         if (minim_record_count(rec) < record_rtd_min_size ||
             !minim_symbolp(record_rtd_name(rec)) ||
-            !(minim_falsep(record_rtd_parent(rec)) || record_rtdp(record_rtd_parent(rec))))
+            !(minim_falsep(record_rtd_parent(rec)) || record_rtdp(record_rtd_parent(rec))) ||
+            !(minim_falsep(record_rtd_uid(rec)) || minim_symbolp(record_rtd_uid(rec))) ||
+            !minim_boolp(record_rtd_sealed(rec)) ||
+            !minim_boolp(record_rtd_opaque(rec)))
             malformed_fasl();
+
+        for (long i = 0; i < record_rtd_fieldc(rec); i++) {
+            if (!fasl_rtd_fieldp(record_rtd_field(rec, i)))
+                malformed_fasl();
+        }
     } else {
         long fieldc = 0;
         for (; !minim_falsep(rtd); rtd = record_rtd_parent(rtd))
-- 
2.43.0


From 1f021f107524a88c4ae1c39fccc1cd7898f0d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:14 +0000
Subject: [PATCH 41/60] fix: call-with-values with a wrong number of arguments
 is reported, not compiled

---
 src/core/c/jitopt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 47d37ec..b1f3572 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -441,8 +441,9 @@ mobj jit_opt_L1(mobj expr) {
             } else if (head == values_symbol) {
                 // values form
                 return jit_opt_L1_values(expr);
-            } else if (head == call_with_values_symbol) {
+            } else if (head == call_with_values_symbol && list_length(expr) == 3) {
                 // call-with-values form
+                // (any other number of arguments is left to the procedure to report)
                 return jit_opt_L1_mvcall(
                     Mlist3(
                         mvcall_symbol,
-- 
2.43.0


From 2897dac3b8bd44e574e7eb2caede8a83a62ffca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:39 +0000
Subject: [PATCH 42/60] fix: copy-environment reports a bad environment once

---
 src/core/s/prelude.min | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index bc530d4..46058bc 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2280,15 +2280,16 @@
                    (lambda (env mutable? syms)
                      (if (environment? env)
                          (if (boolean? mutable?)
-                             (if (if (list? syms) (andmap symbol? syms) #f)
-                                 ($copy-environment env mutable? syms)
-                                 (raise-argument-error 'copy-environment "list of symbols" syms))
+                             ($copy-environment env mutable? (if syms syms ($environment-symbols env)))
                              (raise-argument-error 'copy-environment "boolean?" mutable?))
                          (raise-argument-error 'copy-environment "environment?" env)))])
     (case-lambda
-      [(env) (1/copy-environment env #t (environment-symbols env))]
-      [(env mutable?) (1/copy-environment env mutable? (environment-symbols env))]
-      [(env mutable? syms) (1/copy-environment env mutable? syms)])))
+      [(env) (1/copy-environment env #t #f)]
+      [(env mutable?) (1/copy-environment env mutable? #f)]
+      [(env mutable? syms)
+       (if (if (list? syms) (andmap symbol? syms) #f)
+           (1/copy-environment env mutable? syms)
+           (raise-argument-error 'copy-environment "list of symbols" syms))])))
 
 (define-values (environment-symbols)
   (lambda (env)
-- 
2.43.0


From 6fcf7c18d40735b3bcdf2a284825b1598ce7694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 43/60] fix: the collector keeps its table when a larger one
 cannot be allocated

---
 src/gc/minim-gc/gc-impl.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 2e57cb1..98873a2 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -89,10 +89,15 @@ gc_resize(gc_t *gc,
     gc_record_t **old_buckets = gc->buckets;
     size_t old_alloc = gc->alloc;
 
-    // update size and create new buckets
+    // create new buckets (keep the current ones if there is no memory)
+    gc_record_t **new_buckets = (gc_record_t **) calloc(*alloc_ptr, sizeof(gc_record_t*));
+    if (new_buckets == NULL)
+        return;
+
+    // update size
     gc->alloc_ptr = alloc_ptr;
     gc->alloc = *gc->alloc_ptr;
-    gc->buckets = (gc_record_t **) calloc(gc->alloc, sizeof(gc_record_t*));
+    gc->buckets = new_buckets;
 
     // rehash
     for (size_t i = 0; i < old_alloc; ++i) {
-- 
2.43.0


From 0b891391db274470926564709f4a45c5eecff182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 44/60] fix: the collector's allocators return NULL when there
 is no memory

---
 src/gc/minim-gc/gc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gc/minim-gc/gc.c b/src/gc/minim-gc/gc.c
index d98ac6a..5a46dde 100644
--- a/src/gc/minim-gc/gc.c
+++ b/src/gc/minim-gc/gc.c
@@ -32,6 +32,9 @@ void *GC_alloc_opt(size_t size,
     
     // allocate
     r = gc_alloc_record(main_gc, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
+    if (r == NULL)
+        return NULL;
+
     gc_add_record(main_gc, r);
     return gc_record_ptr(r);
 }
@@ -47,6 +50,9 @@ void *GC_calloc_opt(size_t nmem,
     
     // allocate
     r = gc_calloc_record(main_gc, nmem, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
+    if (r == NULL)
+        return NULL;
+
     gc_add_record(main_gc, r);
     return gc_record_ptr(r);
 }
-- 
2.43.0


From 96939a0cd77f45a4b383a2b4d0c264cd59cbb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 45/60] fix: the collector rejects sizes that overflow

---
 src/gc/minim-gc/gc-impl.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 98873a2..9260235 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -325,7 +325,12 @@ gc_alloc_record(gc_t *gc,
                 size_t size,
                 gc_dtor_t dtor,
                 gc_mark_t mrk) {
-    gc_record_t *r = malloc(size + sizeof(gc_record_t));
+    gc_record_t *r;
+
+    if (size > SIZE_MAX - sizeof(gc_record_t))
+        return NULL;
+
+    r = malloc(size + sizeof(gc_record_t));
     if (r == NULL)
     {
         gc_collect(gc);
@@ -347,7 +352,12 @@ gc_calloc_record(gc_t *gc,
                 size_t size,
                 gc_dtor_t dtor,
                 gc_mark_t mrk) {
-    gc_record_t *r = calloc(1, (nmem * size) + sizeof(gc_record_t));
+    gc_record_t *r;
+
+    if (nmem != 0 && size > (SIZE_MAX - sizeof(gc_record_t)) / nmem)
+        return NULL;
+
+    r = calloc(1, (nmem * size) + sizeof(gc_record_t));
     if (r == NULL)
     {
         gc_collect(gc);
@@ -372,6 +382,9 @@ gc_realloc_record(gc_t *gc,
     gc_record_t *r2;
     uint8_t flags;
 
+    if (size > SIZE_MAX - sizeof(gc_record_t))
+        return NULL;
+
     flags = gc_record_flags(r);
     r2 = realloc(r, size + sizeof(gc_record_t));
     if (r2 == NULL)
-- 
2.43.0


From ee7b7900645d2bedffa968cc33783526800419ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 46/60] fix: removing a root from the collector does not make
 another block a root

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 9260235..3f56f1d 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -307,7 +307,7 @@ gc_remove(gc_t *gc,
             --gc->size;
 
             // repair bucket entries as needed
-            if (pr)     gc_record_next_set(pr, r->next);
+            if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
             // free if needed
-- 
2.43.0


From efcc4f0241f7061db826a3773f1088eb4e74cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 47/60] fix: GC_free runs the destructor

---
 src/gc/minim-gc/gc-impl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 3f56f1d..8432cb0 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -310,8 +310,12 @@ gc_remove(gc_t *gc,
             if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
-            // free if needed
-            if (destroy)    free(r);
+            // call dtor and free if needed
+            if (destroy) {
+                if (r->dtor)    r->dtor(ptr, NULL);
+                free(r);
+            }
+
             return;
         }
 
-- 
2.43.0


From 83fc7d8ed169d9bb60dc77f3590fe98f1cd3c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 48/60] fix: GC_get_collectable subtracts from the allocated
 bytes

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 8432cb0..32234e7 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -487,7 +487,7 @@ gc_get_reachable(gc_t *gc) {
 
 size_t
 gc_get_collectable(gc_t *gc) {
-    return (gc->alloc - gc_get_reachable(gc));
+    return (gc->allocs - gc_get_reachable(gc));
 }
 
 // Signals to mark phase not to descend
-- 
2.43.0


From 5821b2a30c73e654579d1d135bb8431157c87588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 49/60] fix: a block whose reallocation fails is not lost

---
 src/gc/minim-gc/gc-impl.c | 14 +++++++++++++-
 src/gc/minim-gc/gc.c      |  8 ++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 32234e7..05530ab 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -390,13 +390,23 @@ gc_realloc_record(gc_t *gc,
         return NULL;
 
     flags = gc_record_flags(r);
+    gc_remove(gc, gc_record_ptr(r), 0);
     r2 = realloc(r, size + sizeof(gc_record_t));
     if (r2 == NULL)
     {
+        // the block and what it refers to are still in use
+        gc_add_record(gc, r);
+        gc_record_root_set(r);
         gc_collect(gc);
+        if (!(flags & GC_RECORD_ROOT))
+            gc_record_root_unset(r);
+
+        gc_remove(gc, gc_record_ptr(r), 0);
         r2 = realloc(r, size + sizeof(gc_record_t));
-        if (r2 == NULL)
+        if (r2 == NULL) {
+            gc_add_record(gc, r);
             return NULL;
+        }
     }
 
     r2->next = NULL;
@@ -406,6 +416,8 @@ gc_realloc_record(gc_t *gc,
     
     if (flags & GC_RECORD_ROOT)
         gc_record_root_set(r2);
+
+    gc_add_record(gc, r2);
     return r2;
 }
 
diff --git a/src/gc/minim-gc/gc.c b/src/gc/minim-gc/gc.c
index 5a46dde..c390996 100644
--- a/src/gc/minim-gc/gc.c
+++ b/src/gc/minim-gc/gc.c
@@ -75,13 +75,9 @@ void *GC_realloc_opt(void *ptr,
 
     r = gc_get_record(main_gc, ptr);
     if (r) {
-        gc_remove(main_gc, ptr, 0);
+        // on failure, the block stays as it is
         r = gc_realloc_record(main_gc, r, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
-        if (!r)
-            return NULL;
-        
-        gc_add_record(main_gc, r);
-        return gc_record_ptr(r);
+        return (r == NULL) ? NULL : gc_record_ptr(r);
     } else {
         return GC_alloc_opt(size, dtor, mrk);
     }
-- 
2.43.0


From 3d0b118108c9c6e661457379a5357ef863250cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 50/60] fix: marking long chains of blocks does not exhaust the
 stack

---
 src/gc/minim-gc/gc-impl.c  | 53 ++++++++++++++++++++++++--------------
 src/gc/minim-gc/gc-types.h |  4 ++-
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 05530ab..d1bed78 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -130,6 +130,16 @@ gc_shrink_if_needed(gc_t *gc) {
         gc_resize(gc, ideal_ptr);
 }
 
+// Marks a block to be scanned later: recursion would
+// exhaust the stack on long chains of blocks.
+static void
+gc_mark_record(gc_t *gc,
+               gc_record_t *r) {
+    gc_record_mark_set(r);
+    r->work = gc->work;
+    gc->work = r;
+}
+
 static void
 gc_mark_ptr(gc_t *gc,
             void *ptr) {
@@ -148,22 +158,28 @@ gc_mark_ptr(gc_t *gc,
                 gc_record_rootp(r))
                 return;
 
-            // set mark flag
-            gc_record_mark_set(r);
-
-            // recurse into pointer block
-            if (!r->mrk) {                                      // default (conservative)
-                for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
-                    gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
-            } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
-                r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
-            }
-
+            gc_mark_record(gc, r);
             return;
         }
     }
 }
 
+// Scans the marked blocks and all blocks reachable from them.
+static void
+gc_mark_work(gc_t *gc) {
+    while (gc->work) {
+        gc_record_t *r = gc->work;
+        gc->work = r->work;
+
+        if (!r->mrk) {                                      // default (conservative)
+            for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
+                gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
+        } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
+            r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
+        }
+    }
+}
+
 __attribute__((no_sanitize("address")))
 static void
 gc_mark_stack(gc_t *gc) {
@@ -187,15 +203,8 @@ gc_mark(gc_t *gc) {
     // mark roots
     for (size_t i = 0; i < gc->alloc; ++i) {
         for (gc_record_t *r = gc->buckets[i]; r; r = gc_record_next(r)) {
-            if (gc_record_rootp(r)) {
-                gc_record_mark_set(r);
-                if (!r->mrk) {                                      // default (conservative)
-                    for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
-                        gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
-                } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
-                    r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
-                }
-            }
+            if (gc_record_rootp(r))
+                gc_mark_record(gc, r);
         }
     }
 
@@ -203,6 +212,9 @@ gc_mark(gc_t *gc) {
     memset(&env, 0, sizeof(jmp_buf));
     setjmp(env);
     mark_stack(gc);
+
+    // mark what is reachable
+    gc_mark_work(gc);
 }
 
 static void
@@ -252,6 +264,7 @@ gc_sweep(gc_t *gc) {
 gc_t *
 gc_create(void *stack) {
     gc_t *gc = malloc(sizeof(gc_t));
+    gc->work = NULL;
     gc->stack_bottom = stack;
     gc->alloc_ptr = &bucket_sizes[0];
     gc->alloc = *gc->alloc_ptr;
diff --git a/src/gc/minim-gc/gc-types.h b/src/gc/minim-gc/gc-types.h
index 4dce149..32a8e8c 100644
--- a/src/gc/minim-gc/gc-types.h
+++ b/src/gc/minim-gc/gc-types.h
@@ -22,11 +22,13 @@ typedef struct gc_record_t {
     size_t size;
     gc_dtor_t dtor;
     gc_mark_t mrk;
-} gc_record_t;
+    struct gc_record_t *work;       // next block to be scanned
+} __attribute__((aligned(16))) gc_record_t;
 
 /* Main GC type */
 typedef struct gc_t {
     gc_record_t **buckets;
+    gc_record_t *work;              // marked blocks to be scanned
     void *stack_bottom;
     size_t *alloc_ptr;
     size_t alloc, size;
-- 
2.43.0


From cd03defdd5fcd3800738402a95493b9e057f8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:05 +0000
Subject: [PATCH 51/60] fix: procedure-arity of case-lambda is a well-formed
 arity

---
 src/core/c/jitcompile.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 2f7bf5c..2253eca 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -35,7 +35,7 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
             if (restp) {
                 return Mcons(Mfixnum(req_arity), minim_false);
             } else {
-                return Mcons(Mfixnum(req_arity), arity);
+                return Mlist2(Mfixnum(req_arity), arity);
             }
         }
     } else {
@@ -43,6 +43,8 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
         if (req_arity > minim_fixnum(minim_car(arity))) {
             if (minim_falsep(minim_cdr(arity))) {
                 return arity;
+            } else if (minim_nullp(minim_cdr(arity))) {
+                return Mcons(minim_car(arity), Mcons(Mfixnum(req_arity), restp ? minim_false : minim_null));
             } else {
                 return Mcons(minim_car(arity), update_arity(minim_cdr(arity), req_arity, restp));
             }
@@ -54,7 +56,7 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
             }
         } else {
             if (restp) {
-                return Mcons(minim_car(arity), minim_false);
+                return Mcons(Mfixnum(req_arity), minim_false);
             } else {
                 return Mcons(Mfixnum(req_arity), arity);
             }
-- 
2.43.0


From 8289d0e45b8c4a1c847cbf7ae63919fccc190e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:25 +0000
Subject: [PATCH 52/60] fix: procedure-rename leaves the original procedure's
 name alone

---
 src/core/c/procedure.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/procedure.c b/src/core/c/procedure.c
index 4369ca8..09fe503 100644
--- a/src/core/c/procedure.c
+++ b/src/core/c/procedure.c
@@ -52,6 +52,6 @@ mobj procedure_rename_proc(mobj proc, mobj id) {
         minim_closure_ref(proc2, i) = minim_closure_ref(proc, i);
     }
 
-    minim_closure_name(proc) = id;
-    return proc;
+    minim_closure_name(proc2) = id;
+    return proc2;
 }
-- 
2.43.0


From 408892357979e8d658c7068af607e860a95ae06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:34 +0000
Subject: [PATCH 53/60] fix: case-lambda without clauses compiles to a
 procedure that accepts no arguments

---
 src/core/c/eval.c       | 4 ++--
 src/core/c/jitcompile.c | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index d4a2e0c..f23326e 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -36,8 +36,8 @@ void arity_mismatch_exn(mobj proc, size_t actual) {
 
     code = minim_closure_code(proc);
     arity = minim_code_arity(code);
-    if (minim_fixnump(arity)) {
-        // exact arity
+    if (minim_fixnump(arity) || minim_nullp(arity)) {
+        // exact arity (or none: no clauses)
         minim_error2(name, "arity mismatch", arity, Mfixnum(actual));
     } else {
         // range of arities
diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 2253eca..e2c01bc 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -205,7 +205,12 @@ static mobj compile_case_lambda2(mobj expr, mobj env, mobj fvs, mobj bounds, int
     }
 
     // arity exception
-    list_set_tail(ins, Mlist2(label, Mlist1(do_arity_error_symbol)));
+    if (label) {
+        list_set_tail(ins, Mlist2(label, Mlist1(do_arity_error_symbol)));
+    } else {
+        // no clauses
+        ins = Mlist1(Mlist1(do_arity_error_symbol));
+    }
 
     // resolve references
     reloc = resolve_refs(env, ins);
-- 
2.43.0


From c40fae2ca4e3aac9d81b1dc2b5a94acaa085ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:33 +0000
Subject: [PATCH 54/60] fix: set! in a closure reports names that are not
 defined

---
 src/core/c/eval.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index f23326e..e01dec0 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -356,7 +356,18 @@ static void env_bind_cell(mobj tc, mobj cell, mobj idx) {
 }
 
 static void env_rebind(mobj tc, mobj idx, mobj val) {
-    minim_cdr(minim_env_ref(tc_env(tc), minim_fixnum(idx))) = val;
+    mobj cell, top;
+
+    cell = minim_env_ref(tc_env(tc), minim_fixnum(idx));
+    if (minim_cdr(cell) == minim_unbound) {
+        // initializing a local binding, unless a closure captured a top-level cell
+        top = top_env_find(tc_tenv(tc), minim_car(cell));
+        if (!minim_falsep(top) && minim_car(top) == cell) {
+            minim_error1(NULL, "cannot set before definition", minim_car(cell));
+        }
+    }
+
+    minim_cdr(cell) = val;
 }
 
 static void env_bind_values(mobj tc, mobj idx, mobj valc, mobj ids, mobj val) {
-- 
2.43.0


From b54c5231c2f2f0ec025bd0ae90782dc69665dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:57 +0000
Subject: [PATCH 55/60] fix: let-values with a conditional binding compiles in
 time linear in its nesting

---
 src/core/c/jitopt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index b1f3572..f54465c 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -365,9 +365,10 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
 
             minim_cdr(tl) = Mlist1(Mlist3(mvcall_symbol, minim_car(e), consumer));
             return jit_opt_L1(hd);
-        } else if (minim_car(e) == if_symbol) {
-            // (mv-call (if cond ift iff) consumer)
-            // => (if cond (mv-call ift consumer) (mv-call iff consumer)
+        } else if (minim_car(e) == if_symbol && minim_symbolp(consumer)) {
+            // (mv-call (if cond ift iff) id)
+            // => (if cond (mv-call ift id) (mv-call iff id)
+            // (any other consumer would be compiled twice)
             return jit_opt_L1(Mlist4(
                 if_symbol,
                 minim_cadr(e),
-- 
2.43.0


From 3a5d8d8754617b6547dfb33178f9b9ac34fe125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:21 +0000
Subject: [PATCH 56/60] fix: call-with-values evaluates its consumer before
 calling its producer

---
 src/core/c/jitopt.c | 46 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index f54465c..9c1a8a2 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -331,6 +331,12 @@ static mobj jit_opt_L1_values(mobj expr) {
     }
 }
 
+// Returns true if `expr` creates a closure
+static int closure_exprp(mobj expr) {
+    return minim_consp(expr) &&
+        (minim_car(expr) == lambda_symbol || minim_car(expr) == case_lambda_symbol);
+}
+
 // L1 optimization for `values`
 static mobj jit_opt_L1_mvcall(mobj expr) {
     mobj e, consumer, producer, body, hd, tl;
@@ -403,6 +409,39 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
     }
 }
 
+// L1 optimization for `call-with-values`
+// `(call-with-values producer consumer)`
+//  => `(mv-call (producer) consumer)`
+// A consumer that is not a `lambda` or `case-lambda` expression must be
+// evaluated before the producer is called
+//  => `((lambda (fresh ...) (mv-call (fresh) fresh)) producer consumer)`
+static mobj jit_opt_L1_call_with_values(mobj expr) {
+    mobj producer, consumer, ids, vals;
+
+    producer = jit_opt_L1(minim_cadr(expr));
+    consumer = jit_opt_L1(minim_car(minim_cddr(expr)));
+    if (closure_exprp(consumer))
+        return jit_opt_L1_mvcall(Mlist3(mvcall_symbol, Mlist1(producer), consumer));
+
+    ids = make_tmp_ids(Mlist1(consumer));
+    vals = Mlist1(consumer);
+    consumer = minim_car(ids);
+    if (!closure_exprp(producer)) {
+        ids = list_append2(make_tmp_ids(Mlist1(producer)), ids);
+        vals = Mcons(producer, vals);
+        producer = minim_car(ids);
+    }
+
+    return Mcons(
+        Mlist3(
+            lambda_symbol,
+            ids,
+            jit_opt_L1_mvcall(Mlist3(mvcall_symbol, Mlist1(producer), consumer))
+        ),
+        vals
+    );
+}
+
 // Perform L1 optimization
 mobj jit_opt_L1(mobj expr) {
     if (minim_consp(expr)) {
@@ -445,12 +484,7 @@ mobj jit_opt_L1(mobj expr) {
             } else if (head == call_with_values_symbol && list_length(expr) == 3) {
                 // call-with-values form
                 // (any other number of arguments is left to the procedure to report)
-                return jit_opt_L1_mvcall(
-                    Mlist3(
-                        mvcall_symbol,
-                        Mlist1(jit_opt_L1(minim_cadr(expr))),
-                        jit_opt_L1(minim_car(minim_cddr(expr)))
-                ));
+                return jit_opt_L1_call_with_values(expr);
             } else if (head == mvcall_symbol) {
                 // mv-call form
                 return jit_opt_L1_mvcall(expr);
-- 
2.43.0


From e500234677b7c6cfac07f54b864c69f4c543129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:44 +0000
Subject: [PATCH 57/60] fix: values and call-with-values are not rewritten
 where they are local variables

---
 src/core/c/jitopt.c | 55 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 9c1a8a2..028f2a0 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -71,7 +71,7 @@ static mobj letrec_set_expr(mobj binds) {
     minim_cdr(tl) = Mcons(Mlist1(Mlist2(tmps, minim_cadr(binds))), minim_null);
     tl = minim_cdr(tl);
     if (minim_nullp(ids)) {
-        minim_cdr(tl) = Mlist1(Mlist1(values_symbol));
+        minim_cdr(tl) = Mlist1(Mlist1(mvvalues_symbol));
     } else {
         while (!minim_nullp(ids)) {
             minim_cdr(tl) = Mcons(Mlist3(setb_symbol, minim_car(ids), minim_car(tmps)), minim_null);
@@ -103,7 +103,7 @@ static mobj jit_opt_L0_letrec_values(mobj expr) {
     } else {
         // initial bindings
         let_ids = let_values_ids(expr);
-        let_init = Mcons(values_symbol, make_list(list_length(let_ids), Mlist1(make_unbound_symbol)));
+        let_init = Mcons(mvvalues_symbol, make_list(list_length(let_ids), Mlist1(make_unbound_symbol)));
         let_it = Mlist1(Mlist1(Mlist2(let_ids, let_init)));
         let_expr = Mcons(let_values_symbol, let_it);
 
@@ -133,8 +133,8 @@ static mobj jit_opt_L0_let_values2(mobj bindings, mobj ids, mobj tmps, mobj body
         tmps = list_append2(tmps2, tmps);
         body = jit_opt_L0_let_values2(minim_cdr(bindings), ids, tmps, body);
         return Mlist3(
-            call_with_values_symbol,
-            Mlist3(lambda_symbol, minim_null, minim_cadr(bind)),
+            mvcall_symbol,
+            Mlist1(Mlist3(lambda_symbol, minim_null, minim_cadr(bind))),
             Mlist3(lambda_symbol, tmps2, body)
         );
     }
@@ -154,8 +154,8 @@ static mobj jit_opt_L0_let_values(mobj expr) {
         expr = Mcons(begin_symbol, body);
     } else if (minim_nullp(minim_cdr(bindings))) {
         expr = Mlist3(
-            call_with_values_symbol,
-            Mlist3(lambda_symbol, minim_null, minim_cadr(minim_car(bindings))),
+            mvcall_symbol,
+            Mlist1(Mlist3(lambda_symbol, minim_null, minim_cadr(minim_car(bindings)))),
             Mcons(lambda_symbol, Mcons(minim_caar(bindings), body))
         );
     } else {
@@ -259,6 +259,10 @@ mobj jit_opt_L0(mobj expr) {
 // - `call-with-values` rewritten to `mv-call`
 // - optimizations of `mv-call` expressions
 
+// True while rewriting the scope of a local variable with that name
+static int L1_values_shadowed = 0;
+static int L1_call_with_values_shadowed = 0;
+
 // L1 optimization for sequences
 static mobj jit_opt_L1_seq(mobj exprs) {
     if (minim_nullp(exprs)) {
@@ -276,9 +280,26 @@ static mobj jit_opt_L1_seq(mobj exprs) {
     }
 }
 
+// L1 optimization for sequences in the scope of `formals`
+static mobj jit_opt_L1_body(mobj formals, mobj exprs) {
+    int values_shadowed = L1_values_shadowed;
+    int call_with_values_shadowed = L1_call_with_values_shadowed;
+
+    for (; !minim_nullp(formals); formals = minim_consp(formals) ? minim_cdr(formals) : minim_null) {
+        mobj id = minim_consp(formals) ? minim_car(formals) : formals;
+        if (id == values_symbol) L1_values_shadowed = 1;
+        if (id == call_with_values_symbol) L1_call_with_values_shadowed = 1;
+    }
+
+    exprs = jit_opt_L1_seq(exprs);
+    L1_values_shadowed = values_shadowed;
+    L1_call_with_values_shadowed = call_with_values_shadowed;
+    return exprs;
+}
+
 // L1 optimization for a single `case-lambda` clause
 static mobj jit_opt_L1_case_lambda_clause(mobj clause) {
-    return Mcons(minim_car(clause), jit_opt_L1_seq(minim_cdr(clause)));
+    return Mcons(minim_car(clause), jit_opt_L1_body(minim_car(clause), minim_cdr(clause)));
 }
 
 // L1 optimization for `case-lambda`
@@ -457,7 +478,7 @@ mobj jit_opt_L1(mobj expr) {
                 return Mlist3(head, minim_cadr(expr), jit_opt_L1(minim_car(minim_cddr(expr))));
             } else if (head == lambda_symbol) {
                 // lambda form
-                return Mcons(head, Mcons(minim_cadr(expr), jit_opt_L1_seq(minim_cddr(expr))));
+                return Mcons(head, Mcons(minim_cadr(expr), jit_opt_L1_body(minim_cadr(expr), minim_cddr(expr))));
             } else if (head == case_lambda_symbol) {
                 // case-lambda form
                 return jit_opt_L1_case_lambda(expr);
@@ -478,23 +499,31 @@ mobj jit_opt_L1(mobj expr) {
             } else if (head == quote_syntax_symbol) {
                 // quote-syntax form
                 return expr;
-            } else if (head == values_symbol) {
+            } else if (head == values_symbol && !L1_values_shadowed) {
                 // values form
                 return jit_opt_L1_values(expr);
-            } else if (head == call_with_values_symbol && list_length(expr) == 3) {
+            } else if (head == call_with_values_symbol && !L1_call_with_values_shadowed && list_length(expr) == 3) {
                 // call-with-values form
                 // (any other number of arguments is left to the procedure to report)
                 return jit_opt_L1_call_with_values(expr);
             } else if (head == mvcall_symbol) {
                 // mv-call form
-                return jit_opt_L1_mvcall(expr);
+                return jit_opt_L1_mvcall(
+                    Mlist3(
+                        mvcall_symbol,
+                        jit_opt_L1(minim_cadr(expr)),
+                        jit_opt_L1(minim_car(minim_cddr(expr)))
+                ));
             } else if (head == mvlet_symbol) {
                 // mv-let
                 return Mlist4(
                     mvlet_symbol,
                     jit_opt_L1(minim_cadr(expr)),
                     minim_car(minim_cddr(expr)),
-                    jit_opt_L1(minim_cadr(minim_cddr(expr)))
+                    minim_car(jit_opt_L1_body(
+                        minim_car(minim_cddr(expr)),
+                        minim_cdr(minim_cddr(expr))
+                    ))
                 );
             }
         }
@@ -576,7 +605,7 @@ static mobj jit_opt_L2_app(mobj expr) {
         } else {
             expr = Mlist4(
                 mvlet_symbol,
-                Mcons(values_symbol, args),
+                Mcons(mvvalues_symbol, args),
                 minim_cadr(hd),
                 minim_nullp(minim_cdr(body))
                     ? minim_car(body)
-- 
2.43.0


From ead01ec97457552fecc82fdbdfc9a6b21126b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:19 +0000
Subject: [PATCH 58/60] fix: copy-environment binds a name listed twice only
 once

---
 src/core/c/env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/env.c b/src/core/c/env.c
index c53b672..5f78481 100644
--- a/src/core/c/env.c
+++ b/src/core/c/env.c
@@ -84,7 +84,7 @@ mobj top_env_copy2(mobj env, mobj syms, int mutablep) {
 
     for (; !minim_nullp(syms); syms = minim_cdr(syms)) {
         cell = top_env_find(env, minim_car(syms));
-        if (!minim_falsep(cell)) {
+        if (!minim_falsep(cell) && minim_falsep(top_env_find(env2, minim_car(syms)))) {
             i = minim_fixnum(minim_cadr(cell)) % minim_top_env_alloc(env2);
             b = minim_top_env_bucket(env2, i);
             cell = Mcons(
-- 
2.43.0


From aaf3a90e4efb840bd2159d8dfe54401e424bcbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:11 +0000
Subject: [PATCH 59/60] fix: the printer escapes the characters of strings

---
 src/core/c/print.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/core/c/print.c b/src/core/c/print.c
index 968f663..e2ec1ef 100644
--- a/src/core/c/print.c
+++ b/src/core/c/print.c
@@ -20,6 +20,24 @@ static void write_char(FILE *out, mobj o) {
     else fputc(c, out);
 }
 
+static void write_string(FILE *out, mobj o) {
+    fputc('"', out);
+    for (char *s = minim_string(o); *s; s++) {
+        if (*s == BEL_CHAR) fputs("\\a", out);
+        else if (*s == BS_CHAR) fputs("\\b", out);
+        else if (*s == '\t') fputs("\\t", out);
+        else if (*s == '\n') fputs("\\n", out);
+        else if (*s == VT_CHAR) fputs("\\v", out);
+        else if (*s == FF_CHAR) fputs("\\f", out);
+        else if (*s == CR_CHAR) fputs("\\r", out);
+        else if (*s == '"') fputs("\\\"", out);
+        else if (*s == '\\') fputs("\\\\", out);
+        else fputc(*s, out);
+    }
+
+    fputc('"', out);
+}
+
 static void write_pair(FILE *out, mobj o) {
     fputc('(', out);
 loop:
@@ -85,7 +103,7 @@ void write_object(FILE *out, mobj o) {
     else if (minim_charp(o)) write_char(out, o);
     else if (minim_fixnump(o)) fprintf(out, "%ld", minim_fixnum(o));
     else if (minim_symbolp(o)) fprintf(out, "%s", minim_symbol(o));
-    else if (minim_stringp(o)) fprintf(out, "\"%s\"", minim_string(o));
+    else if (minim_stringp(o)) write_string(out, o);
     else if (minim_consp(o)) write_pair(out, o);
     else if (minim_vectorp(o)) write_vector(out, o);
     else if (minim_boxp(o)) write_box(out, o);
-- 
2.43.0


From ebd12df799c49b18ff9a8f3f74948280736e0264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:27 +0000
Subject: [PATCH 60/60] fix: get-output-string reports that it could not reset
 the port

---
 src/core/c/io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index d8e4e77..4ad195d 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -218,7 +218,10 @@ mobj get_output_string(mobj port) {
         }
 
         // reset port, set null-terminator and return
-        rewind(minim_port(port));
+        if (fseek(minim_port(port), 0, SEEK_SET) != 0) {
+            minim_error("get-output-string", "failed to reset");
+        }
+
         minim_string(str)[len] = '\0';
         return str;
     } else {
-- 
2.43.0

