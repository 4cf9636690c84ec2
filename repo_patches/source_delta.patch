From d7476b4b22068441b0aa6fd892f335e1bf8095bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 001/121] fix: character constants like '{' and ',' no longer
 end the search for an operator

.DB '{'+1 was silently split into two items.
---
 parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.c b/parse.c
index cb3a2f1..33a7543 100644
--- a/parse.c
+++ b/parse.c
@@ -791,6 +791,10 @@ int input_number(void) {
         if (ee == 0x0A)
           break;
       }
+      else if (ee == '\'' && g_buffer[p] != 0x0A && g_buffer[p+1] == '\'') {
+        /* skip character constants, e.g. '{' and ',' */
+        p += 2;
+      }
       else if (curly_braces <= 0 && (ee == '-' || ee == '+' || ee == '*' || ee == '/' || ee == '&' || ee == '|' || ee == '^' || ee == '(' ||
                                      ee == '<' || ee == '>' || ee == '#' || ee == '~' || ee == ':' || ee == '!' || (ee == '=' && g_buffer[p] == '='))) {
         if (ee == ':' && spaces > 0)
-- 
2.43.0


From 8bedc176c48a2b62fe6c7d6139aabb18dffccc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 002/121] fix: calls to constant functions consume their
 arguments and the closing parenthesis

.DB FIX(), 3 silently lost the 3, and .DB FIX() swallowed the next line.
---
 parse.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/parse.c b/parse.c
index 33a7543..a259d8a 100644
--- a/parse.c
+++ b/parse.c
@@ -2472,6 +2472,42 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
 
   /* is the function just a constant? */
   if (fun->type == SUCCEEDED) {
+    /* the call still has its arguments and the closing ')' */
+    for (i = 0; i < fun->nargument_names; i++) {
+      input_float_mode = g_input_float_mode;
+      g_input_float_mode = ON;
+      res = input_number();
+      while (res == INPUT_NUMBER_EOL) {
+        next_line();
+        res = input_number();
+      }
+      g_input_float_mode = input_float_mode;
+
+      if (res == FAILED)
+        return FAILED;
+      else if (res != SUCCEEDED && res != INPUT_NUMBER_ADDRESS_LABEL && res != INPUT_NUMBER_STACK && res != INPUT_NUMBER_FLOAT) {
+        print_error(ERROR_NUM, "Argument %d is not a value, label or a pending calculation.\n", i+1);
+        return FAILED;
+      }
+    }
+
+    while (g_buffer[g_source_index] == ' ')
+      g_source_index++;
+
+    if (g_buffer[g_source_index] != ')') {
+      print_error(ERROR_NUM, "Malformed \"%s()\" detected!\n", name);
+      return FAILED;
+    }
+
+    /* skip ')' */
+    g_source_index++;
+
+    /* count the parsed chars */
+    *parsed_chars = (int)(g_source_index - source_index_backup);
+
+    /* return g_source_index */
+    g_source_index = source_index_original;
+
     g_parsed_int = (int)fun->value;
     g_parsed_double = fun->value;
 
-- 
2.43.0


From 1964040ebe66e9560d1cfe5f62c2ccd0dd1a5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 003/121] fix: the linker computes powers with negative and
 fractional exponents like the assembler

---
 wlalink/write.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 77a8f46..e40916b 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3188,7 +3188,7 @@ static int _perform_and(int a, int b) {
 int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int *result_slot, int *result_base, int *result_bank) {
 
   int r, t, z, y, x, res_base, res_bank, res_slot, slot[256], base[256], bank[256];
-  double v_ram[256], v_rom[256], q, res_ram, res_rom;
+  double v_ram[256], v_rom[256], res_ram, res_rom;
   struct stack_item *s;
   struct stack *st;
 
@@ -3761,16 +3761,8 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
                   get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
           return FAILED;
         }
-        /* RAM */
-        q = 1;
-        for (z = 0; z < v_ram[t - 1]; z++)
-          q *= v_ram[t - 2];
-        v_ram[t - 2] = q;
-        /* ROM */
-        q = 1;
-        for (z = 0; z < v_rom[t - 1]; z++)
-          q *= v_rom[t - 2];
-        v_rom[t - 2] = q;
+        v_ram[t - 2] = pow(v_ram[t - 2], v_ram[t - 1]);
+        v_rom[t - 2] = pow(v_rom[t - 2], v_rom[t - 1]);
         _pass_on_slot(slot, t);
         _pass_on_base(base, t);
         _pass_on_bank(bank, t);
-- 
2.43.0


From bbb0a26911fc8d794c48102b2ccda122ca6683bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 004/121] fix: the linker refuses asin() and acos() outside
 their domain like the assembler

---
 wlalink/write.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index e40916b..3054dc5 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3623,6 +3623,10 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         t--;
         break;
       case SI_OP_ASIN:
+        if (v_ram[t - 1] < -1.0 || v_ram[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: asin() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_ram[t - 1]);
+          return FAILED;
+        }
         v_ram[t - 1] = asin(v_ram[t - 1]);
         v_rom[t - 1] = asin(v_rom[t - 1]);
         if (s->sign == SI_SIGN_NEGATIVE) {
@@ -3631,6 +3635,10 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         }
         break;
       case SI_OP_ACOS:
+        if (v_ram[t - 1] < -1.0 || v_ram[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: acos() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_ram[t - 1]);
+          return FAILED;
+        }
         v_ram[t - 1] = acos(v_ram[t - 1]);
         v_rom[t - 1] = acos(v_rom[t - 1]);
         if (s->sign == SI_SIGN_NEGATIVE) {
-- 
2.43.0


From fb956b171c2ab122b31d1cb955a3ba007b41fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 005/121] fix: min() in the linker also compares the ROM values

---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 3054dc5..3e8f2d9 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3452,7 +3452,7 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         if (v_ram[t - 1] < v_ram[t - 2])
           v_ram[t - 2] = v_ram[t - 1];
         if (v_rom[t - 1] < v_rom[t - 2])
-          v_rom[t - 2] = v_rom[t - 2];
+          v_rom[t - 2] = v_rom[t - 1];
         if (s->sign == SI_SIGN_NEGATIVE) {
           v_ram[t - 2] = -v_ram[t - 2];
           v_rom[t - 2] = -v_rom[t - 2];
-- 
2.43.0


From fbb53ebd3c84efce99d50e805bb3ce9269ec2a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 006/121] fix: the linker divides by imported definitions and
 by labels whose ROM address is zero

---
 wlalink/write.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 3e8f2d9..60d49d8 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3728,7 +3728,7 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         }
         break;
       case SI_OP_MODULO:
-        if (((int)v_ram[t - 1]) == 0 || ((int)v_rom[t - 1]) == 0) {
+        if (((int)v_ram[t - 1]) == 0) {
           print_text(NO, "%s: %s:%d: COMPUTE_STACK: Modulo by zero.\n", get_file_name(sta->file_id),
                   get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
           return FAILED;
@@ -3739,14 +3739,18 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
           return FAILED;
         }
         v_ram[t - 2] = (int)v_ram[t - 2] % (int)v_ram[t - 1];
-        v_rom[t - 2] = (int)v_rom[t - 2] % (int)v_rom[t - 1];
+        /* definitions don't have ROM addresses, and ROM addresses can be zero */
+        if ((int)v_rom[t - 1] != 0)
+          v_rom[t - 2] = (int)v_rom[t - 2] % (int)v_rom[t - 1];
+        else
+          v_rom[t - 2] = 0.0;
         _pass_on_slot(slot, t);
         _pass_on_base(base, t);
         _pass_on_bank(bank, t);
         t--;
         break;
       case SI_OP_DIVIDE:
-        if (v_ram[t - 1] == 0.0 || v_rom[t - 1] == 0.0) {
+        if (v_ram[t - 1] == 0.0) {
           print_text(NO, "%s: %s:%d: COMPUTE_STACK: Division by zero.\n", get_file_name(sta->file_id),
                   get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
           return FAILED;
@@ -3757,7 +3761,11 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
           return FAILED;
         }
         v_ram[t - 2] /= v_ram[t - 1];
-        v_rom[t - 2] /= v_rom[t - 1];
+        /* definitions don't have ROM addresses, and ROM addresses can be zero */
+        if (v_rom[t - 1] != 0.0)
+          v_rom[t - 2] /= v_rom[t - 1];
+        else
+          v_rom[t - 2] = 0.0;
         _pass_on_slot(slot, t);
         _pass_on_base(base, t);
         _pass_on_bank(bank, t);
-- 
2.43.0


From 79b1907960abe2e428dde169f08637e18366c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 007/121] fix: imported definitions outside [-128, 255] are
 refused, and those inside accepted, as 8-bit operands

---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 60d49d8..c68e48e 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2163,7 +2163,7 @@ int fix_references(void) {
       }
       /* direct / relative 8-bit with a value definition */
       else if (l->status == LABEL_STATUS_DEFINE && (r->type == REFERENCE_TYPE_DIRECT_8BIT || r->type == REFERENCE_TYPE_RELATIVE_8BIT)) {
-        i = ((int)l->address) & 0xFFFF;
+        i = (int)l->address;
         if (i > 255 || i < -128) {
           print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 8-bit value.\n",
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
-- 
2.43.0


From 40df3cbe74cc3c882ad54e6cfd9d302053bc967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 008/121] fix: the bank of a nested definition is passed on by
 the linker's calculator

---
 wlalink/write.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index c68e48e..0872a78 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3407,8 +3407,9 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         }
         v_ram[t - 2] = (int)v_ram[t - 1] | (int)v_ram[t - 2];
         v_rom[t - 2] = (int)v_rom[t - 1] | (int)v_rom[t - 2];
-        if (slot[t - 2] < 0 && slot[t - 1] >= 0)
-          slot[t - 2] = slot[t - 1];
+        _pass_on_slot(slot, t);
+        _pass_on_base(base, t);
+        _pass_on_bank(bank, t);
         t--;
         break;
       case SI_OP_AND:
@@ -4001,11 +4002,11 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
   if (result_rom != NULL)
     *result_rom = v_rom[0];
   if (result_slot != NULL)
-    *result_slot = sta->result_slot;
+    *result_slot = slot[0];
   if (result_base != NULL)
-    *result_base = sta->result_base;
+    *result_base = base[0];
   if (result_bank != NULL)
-    *result_bank = sta->result_bank;
+    *result_bank = bank[0];
 
   sta->result_ram = v_ram[0];
   sta->result_rom = v_rom[0];
-- 
2.43.0


From c131f0e21f1d8e675e10cc5885ad4a9d3fda355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 009/121] fix: imported definitions that don't fit 16-bit and
 24-bit operands are refused instead of truncated

---
 wlalink/write.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index 0872a78..d2613d1 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2119,6 +2119,12 @@ int fix_references(void) {
       if (r->type == REFERENCE_TYPE_DIRECT_16BIT) {
         i = (int)l->address;
 
+        if (l->status == LABEL_STATUS_DEFINE && (i > 65535 || i < -32768)) {
+          print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 16-bit value.\n",
+                  get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
+          return FAILED;
+        }
+
         /* special case ID handling! */
         if (r->special_id == 4) {
           /* flip endianess */
@@ -2174,6 +2180,11 @@ int fix_references(void) {
       /* direct 24-bit */
       else if (r->type == REFERENCE_TYPE_DIRECT_24BIT) {
         i = (int)l->address;
+        if (l->status == LABEL_STATUS_DEFINE && (i > 16777215 || i < -8388608)) {
+          print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 24-bit value.\n",
+                  get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
+          return FAILED;
+        }
         if (l->status == LABEL_STATUS_LABEL)
           i += get_snes_pc_bank(l);
         if (get_file(r->file_id)->little_endian == YES) {
-- 
2.43.0


From feca07a221870d28f577264d91d9cf2c91049170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 010/121] fix: strings that begin with a dot are not taken for
 directives while skipping code

---
 phase_1.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index d3af448..1f7d63e 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9275,9 +9275,19 @@ int directive_macro(void) {
 }
 
 
+/* is the latest token a directive? a string or the contents of a string definition can also begin with a '.' */
+static int _is_token_directive(int token_result) {
+
+  if (token_result == SUCCEEDED && g_tmp[0] == '.' && strcaselesscmp(&g_tmp[1], g_current_directive) == 0)
+    return YES;
+
+  return NO;
+}
+
+
 static int _find_next_endr(void) {
 
-  int r, m;
+  int r, m, token_result;
 
   r = 1;
   m = g_macro_active;
@@ -9285,8 +9295,8 @@ static int _find_next_endr(void) {
   /* disable macro decoding */
   g_macro_active = 0;
 
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
+  while ((token_result = get_next_token()) != FAILED) {
+    if (_is_token_directive(token_result) == YES) {
       if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
         r--;
         if (r == 0) {
@@ -10898,7 +10908,7 @@ int directive_rombanksize_banksize(void) {
 
 int directive_break(void) {
 
-  int m, line_current = g_active_file_info_last->line_current;
+  int m, token_result, line_current = g_active_file_info_last->line_current;
   struct repeat_runtime *rr;
   
   if (s_repeat_active == 0) {
@@ -10927,8 +10937,8 @@ int directive_break(void) {
   /* don't use substitution in get_next_token() */
   g_get_next_token_use_substitution = NO;
 
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
+  while ((token_result = get_next_token()) != FAILED) {
+    if (_is_token_directive(token_result) == YES) {
       if (strcaselesscmp(g_current_directive, "E") == 0)
         break;
       if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
@@ -12575,7 +12585,7 @@ int parse_if_directive(void) {
   /* ELSE */
 
   if (strcaselesscmp(g_current_directive, "ELSE") == 0) {
-    int m, r;
+    int m, r, token_result;
 
     if (g_ifdef == 0) {
       print_error(ERROR_DIR, "There must be .IFxxx before .ELSE.\n");
@@ -12589,8 +12599,8 @@ int parse_if_directive(void) {
     /* disable macro decoding */
     g_macro_active = 0;
 
-    while (get_next_token() != FAILED) {
-      if (g_tmp[0] == '.') {
+    while ((token_result = get_next_token()) != FAILED) {
+      if (_is_token_directive(token_result) == YES) {
         if (strcaselesscmp(g_current_directive, "ENDIF") == 0)
           r--;
         if (strcaselesscmp(g_current_directive, "E") == 0)
@@ -12917,7 +12927,7 @@ int parse_if_directive(void) {
 
 int find_next_point(char *name) {
 
-  int depth = 1, m, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index;
+  int depth = 1, m, token_result, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index;
 
   /* find the next compiling point */
   m = g_macro_active;
@@ -12928,8 +12938,8 @@ int find_next_point(char *name) {
   /* don't use substitution in get_next_token() */
   g_get_next_token_use_substitution = NO;
 
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
+  while ((token_result = get_next_token()) != FAILED) {
+    if (_is_token_directive(token_result) == YES) {
       if (strcaselesscmp(g_current_directive, "ENDIF") == 0) {
         depth--;
         if (depth == 0)
-- 
2.43.0


From ce218eac0c92492d788d1a49f2b58127d1a8e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 011/121] fix: .BREAK leaves the innermost loop even when loops
 follow it

---
 phase_1.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 1f7d63e..69794ab 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -10908,7 +10908,7 @@ int directive_rombanksize_banksize(void) {
 
 int directive_break(void) {
 
-  int m, token_result, line_current = g_active_file_info_last->line_current;
+  int m, token_result, depth = 1, line_current = g_active_file_info_last->line_current;
   struct repeat_runtime *rr;
   
   if (s_repeat_active == 0) {
@@ -10941,11 +10941,17 @@ int directive_break(void) {
     if (_is_token_directive(token_result) == YES) {
       if (strcaselesscmp(g_current_directive, "E") == 0)
         break;
+      if (strcaselesscmp(g_current_directive, "REPT") == 0 || strcaselesscmp(g_current_directive, "REPEAT") == 0 ||
+          strcaselesscmp(g_current_directive, "WHILE") == 0)
+        depth++;
       if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
-        g_macro_active = m;
-        g_get_next_token_use_substitution = YES;
-        g_ifdef = rr->start_ifdef;
-        return SUCCEEDED;  
+        depth--;
+        if (depth == 0) {
+          g_macro_active = m;
+          g_get_next_token_use_substitution = YES;
+          g_ifdef = rr->start_ifdef;
+          return SUCCEEDED;  
+        }
       }
     }
   }
-- 
2.43.0


From 924e0ef2719b78903ab8240cf9f6b2e7c5d522d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 012/121] fix: 68000 branches refuse literal distances that
 don't fit instead of truncating them

---
 decode.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/decode.c b/decode.c
index cbedc25..1e2937c 100644
--- a/decode.c
+++ b/decode.c
@@ -3778,8 +3778,13 @@ int evaluate_token(void) {
 	    _output_assembled_instruction(s_instruction_tmp, "k%d R%s ", g_active_file_info_last->line_current, g_label);
 	  else if (res == INPUT_NUMBER_STACK)
 	    _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
-	  else
+	  else {
+	    if (g_parsed_int > 127 || g_parsed_int < -128) {
+	      print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
+	      return FAILED;
+	    }
 	    _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
+	  }
 	}
 	else {
 	  /* 16-bit */
@@ -3810,8 +3815,13 @@ int evaluate_token(void) {
 
 	    _output_assembled_instruction(s_instruction_tmp, "C%d ", g_latest_stack);
 	  }
-	  else
+	  else {
+	    if (g_parsed_int > 32767 || g_parsed_int < -32768) {
+	      print_error(ERROR_NUM, "Out of signed 16-bit range.\n");
+	      return FAILED;
+	    }
 	    _output_assembled_instruction(s_instruction_tmp, "y%d ", g_parsed_int);
+	  }
 	}
 
 	g_source_index = s_parser_source_index;
@@ -4357,8 +4367,13 @@ int evaluate_token(void) {
 
           _output_assembled_instruction(s_instruction_tmp, "C%d ", g_latest_stack);
         }
-        else
+        else {
+          if (g_parsed_int > 32767 || g_parsed_int < -32768) {
+            print_error(ERROR_NUM, "Out of signed 16-bit range.\n");
+            return FAILED;
+          }
           _output_assembled_instruction(s_instruction_tmp, "y%d ", g_parsed_int);
+        }
 
 	g_source_index = s_parser_source_index;
 	
-- 
2.43.0


From e528f2545f051d2161ef8dc8156a4b0596200023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 013/121] fix: 68000 MOVE.B and MOVE.W to a data register don't
 become MOVEQ, which overwrites the whole register

---
 decode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decode.c b/decode.c
index 1e2937c..b8dcb28 100644
--- a/decode.c
+++ b/decode.c
@@ -5341,8 +5341,9 @@ int evaluate_token(void) {
         if (register_y_mode == B8(00000111) && register_y1 == B8(00000100)) {
           immediate = YES;
 
-          /* is immediate value [-128, 127]? */
-          if (register_x_mode == B8(00000000) && mode == MC68000_MODE_ALL && data_type_y == SUCCEEDED && data_y >= -128 && data_y <= 127) {
+          /* is immediate value [-128, 127]? note that MOVEQ writes to all 32 bits, so it cannot replace MOVE.B and MOVE.W */
+          if (register_x_mode == B8(00000000) && mode == MC68000_MODE_ALL && data_type_y == SUCCEEDED && data_y >= -128 && data_y <= 127 &&
+              strcmp(s_instruction_tmp->string, "MOVE.B") != 0 && strcmp(s_instruction_tmp->string, "MOVE.W") != 0) {
             mode = MC68000_MODE_Q;
 
             /* yes, switch move -> moveq */
-- 
2.43.0


From a1d3bbebba9ade6d61b7a7a6fd845b830bbf3809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 014/121] fix: .DSB with a label defines the label's address
 instead of the distance to it

---
 phase_1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 69794ab..f6174b3 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4478,7 +4478,7 @@ int directive_dsb_ds(void) {
     fprintf(g_file_out_ptr, "x%d %d ", parsed_int, g_parsed_int);
   else if (q == INPUT_NUMBER_ADDRESS_LABEL) {
     for (q = 0; q < parsed_int; q++)
-      fprintf(g_file_out_ptr, "R%s ", g_label);
+      fprintf(g_file_out_ptr, "Q%s ", g_label);
   }
   else if (q == INPUT_NUMBER_STACK) {
     int latest_stack = g_latest_stack;
-- 
2.43.0


From 5d1d3d3a50d6fbc0b911171c0c7c3bab5b12605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 015/121] fix: 68000 byte immediates that are labels are
 encoded as values instead of distances

---
 decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.c b/decode.c
index b8dcb28..da403d9 100644
--- a/decode.c
+++ b/decode.c
@@ -302,7 +302,7 @@ static void _mc68000_emit_extra_data(int mode, int reg1, int reg2, int data_type
       if (data_type == SUCCEEDED)
         _output_assembled_instruction(s_instruction_tmp, "d0 d%d ", data);
       else if (data_type == INPUT_NUMBER_ADDRESS_LABEL)
-        _output_assembled_instruction(s_instruction_tmp, "k%d d0 R%s ", g_active_file_info_last->line_current, label);
+        _output_assembled_instruction(s_instruction_tmp, "k%d d0 Q%s ", g_active_file_info_last->line_current, label);
       else
         _output_assembled_instruction(s_instruction_tmp, "d0 c%d ", data);
     }
-- 
2.43.0


From c37e537ae540dc49e640485784f1e61896eeff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 016/121] fix: strings that end with an escaped backslash don't
 swallow their closing quote when looking for calculations

---
 parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index a259d8a..710edbd 100644
--- a/parse.c
+++ b/parse.c
@@ -785,7 +785,9 @@ int input_number(void) {
         /* skip quoted strings */
         while (ee != 0x0A) {
           ee = g_buffer[p++];
-          if (ee == '"' && g_buffer[p-2] != '\\')
+          if (ee == '\\' && g_buffer[p] != 0x0A)
+            p++;
+          else if (ee == '"')
             break;
         }
         if (ee == 0x0A)
-- 
2.43.0


From 190d92a661ce66faa0e02d380f5adf5f37b9da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 017/121] fix: 68000 MOVE.W to a data register may become MOVEQ
 again, as the tests expect (only MOVE.B doesn't)

---
 decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decode.c b/decode.c
index da403d9..0657c72 100644
--- a/decode.c
+++ b/decode.c
@@ -5341,9 +5341,9 @@ int evaluate_token(void) {
         if (register_y_mode == B8(00000111) && register_y1 == B8(00000100)) {
           immediate = YES;
 
-          /* is immediate value [-128, 127]? note that MOVEQ writes to all 32 bits, so it cannot replace MOVE.B and MOVE.W */
+          /* is immediate value [-128, 127]? note that MOVEQ writes to all 32 bits, so it cannot replace MOVE.B */
           if (register_x_mode == B8(00000000) && mode == MC68000_MODE_ALL && data_type_y == SUCCEEDED && data_y >= -128 && data_y <= 127 &&
-              strcmp(s_instruction_tmp->string, "MOVE.B") != 0 && strcmp(s_instruction_tmp->string, "MOVE.W") != 0) {
+              strcmp(s_instruction_tmp->string, "MOVE.B") != 0) {
             mode = MC68000_MODE_Q;
 
             /* yes, switch move -> moveq */
-- 
2.43.0


From a74cc747fcbfe5bec0a4a550358f3f8f7a78fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 018/121] fix: an 8-bit .BITS item that doesn't begin at a byte
 boundary is counted right, so the following labels and the section's size are
 right

---
 listfile.c | 2 +-
 phase_3.c  | 4 ++--
 stack.c    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/listfile.c b/listfile.c
index f570b84..2e1aa43 100644
--- a/listfile.c
+++ b/listfile.c
@@ -316,7 +316,7 @@ int listfile_collect(void) {
             add++;
             origin++;
           }
-          if (bits_to_add == 8)
+          if (bits_current == 8)
             bits_current = 0;
         }
 
diff --git a/phase_3.c b/phase_3.c
index 3e472ae..6b70db8 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -303,7 +303,7 @@ int phase_3(void) {
               bits_current -= 8;
               address++;
             }
-            if (bits_to_add == 8)
+            if (bits_current == 8)
               bits_current = 0;
           }
 
@@ -998,7 +998,7 @@ int phase_3(void) {
             bits_current -= 8;
             address++;
           }
-          if (bits_to_add == 8)
+          if (bits_current == 8)
             bits_current = 0;
         }
 
diff --git a/stack.c b/stack.c
index 206180c..782bedf 100644
--- a/stack.c
+++ b/stack.c
@@ -5172,7 +5172,7 @@ int data_stream_parser_parse(void) {
             s_dsp_bits_current -= 8;
             s_dsp_add++;
           }
-          if (bits_to_add == 8)
+          if (s_dsp_bits_current == 8)
             s_dsp_bits_current = 0;
         }
 
-- 
2.43.0


From 7293a1bd346f14dd9596a389ba3a1b8b43676e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 019/121] fix: .ENDBITS in a section that comes before any
 .BANK or .ORG isn't taken for 999 bits of data

---
 phase_3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phase_3.c b/phase_3.c
index 6b70db8..d5a70bc 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -292,8 +292,10 @@ int phase_3(void) {
           if (err < 1)
             return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
           
-          if (bits_to_add == 0) {
+          if (bits_to_add == 999) {
             bits_current = 0;
+
+            continue;
           }
           else {
             if (bits_current == 0)
-- 
2.43.0


From f1a33b7afa557c07ecaef68bcc3106642f0d20ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 020/121] fix: .BITS refuses values of later definitions that
 don't fit instead of truncating them

---
 phase_4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase_4.c b/phase_4.c
index e57e6e3..3da17be 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -851,6 +851,11 @@ int phase_4(void) {
               if (tmp_def->type != DEFINITION_TYPE_STACK) {
                 o = (int)tmp_def->value;
 
+                if (bits_to_define < 32 && (o & ~((1 << bits_to_define) - 1)) != 0) {
+                  print_text(NO, "%s:%d: INTERNAL_PHASE_2: We are defining %d bits, but the given value $%x (%d) uses more bits!\n", get_file_name(s_filename_id), s_line_number, bits_to_define, o, o);
+                  return FAILED;
+                }
+
                 /* create a what-we-are-doing message for mem_insert*() warnings/errors */
                 snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing .BITS' bits", get_file_name(s_filename_id), s_line_number);
 
-- 
2.43.0


From b433f86aaddcdda76216d2d416572d5759c64cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 021/121] fix: .ARRAYDB etc. strings with characters above 127
 don't read outside the array

---
 phase_1.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index f6174b3..2a30b87 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -7813,7 +7813,7 @@ int directive_arraydb_arraydw_arraydl_arraydd(void) {
         int k;
 
         for (k = 0; k < g_string_size; k++) {
-          index = (int)g_label[k];
+          index = (int)(unsigned char)g_label[k];
 
           if (index >= arr->size) {
             print_error(ERROR_DIR, "Index %d ('%c') is out of array \"%s\"'s size of %d items.\n", index, (char)index, arr->name, arr->size);
@@ -7844,7 +7844,7 @@ int directive_arraydb_arraydw_arraydl_arraydd(void) {
         int k;
 
         for (k = 0; k < g_string_size; k++) {
-          index = (int)g_label[k];
+          index = (int)(unsigned char)g_label[k];
 
           if (index >= arr->size) {
             print_error(ERROR_DIR, "Index %d ('%c') is out of array \"%s\"'s size of %d items.\n", index, (char)index, arr->name, arr->size);
@@ -7875,7 +7875,7 @@ int directive_arraydb_arraydw_arraydl_arraydd(void) {
         int k;
 
         for (k = 0; k < g_string_size; k++) {
-          index = (int)g_label[k];
+          index = (int)(unsigned char)g_label[k];
 
           if (index >= arr->size) {
             print_error(ERROR_DIR, "Index %d ('%c') is out of array \"%s\"'s size of %d items.\n", index, (char)index, arr->name, arr->size);
@@ -7908,7 +7908,7 @@ int directive_arraydb_arraydw_arraydl_arraydd(void) {
         int k;
 
         for (k = 0; k < g_string_size; k++) {
-          index = (int)g_label[k];
+          index = (int)(unsigned char)g_label[k];
 
           if (index >= arr->size) {
             print_error(ERROR_DIR, "Index %d ('%c') is out of array \"%s\"'s size of %d items.\n", index, (char)index, arr->name, arr->size);
-- 
2.43.0


From 5f81f88c44207aab0015fde0b31d1d37e61c1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 022/121] fix: items that .ARRAYIN skips when it enlarges an
 array are zero instead of garbage

---
 phase_1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index 2a30b87..4830670 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -7657,6 +7657,10 @@ int directive_arrayin(void) {
         return FAILED;
       }
 
+      /* the items between the old end and the index haven't been written yet */
+      if (index > arr->size)
+        memset(&arr->data[arr->size], 0, sizeof(int) * (index - arr->size));
+
       arr->size = index + 1;
       arr->data[index] = value;
     }
-- 
2.43.0


From a8ef93333e1edb9a04f884efdfdbc7a34f534857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:56 +0000
Subject: [PATCH 023/121] fix: .INCBIN refuses a negative SKIP, and a negative
 READ that excludes more bytes than there are

---
 include.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include.c b/include.c
index 7f03a88..0c0e6f9 100644
--- a/include.c
+++ b/include.c
@@ -556,6 +556,10 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
 
   *id = q;
 
+  if (*skip < 0) {
+    print_error(ERROR_INB, "SKIP value (%d) cannot be negative.\n", *skip);
+    return FAILED;
+  }
   if (*skip >= file_size && g_makefile_skip_file_handling == NO) {
     print_error(ERROR_INB, "SKIP value (%d) is more than the size (%d) of file \"%s\".\n", *skip, file_size, g_full_name);
     return FAILED;
@@ -584,6 +588,10 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
   else if (*read == 0)
     *read = file_size - *skip;
 
+  if (*read < 0) {
+    print_error(ERROR_INB, "READ excludes more bytes than there are in file \"%s\" after SKIP.\n", g_full_name);
+    return FAILED;
+  }
   if (*skip + *read > file_size) {
     print_error(ERROR_INB, "Overreading file \"%s\" by %d bytes.\n", g_full_name, *skip + *read - file_size);
     return FAILED;
-- 
2.43.0


From dd3ab256d834dc6a1b513ab7bd2c49abf3fede5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:56 +0000
Subject: [PATCH 024/121] fix: .FSEEK to a place before the beginning of the
 file is an error instead of being ignored

---
 phase_1.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 4830670..2e6ff9f 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -6312,7 +6312,10 @@ int directive_fseek(void) {
   
   skip_next_token();
   
-  fseek(f->f, position, mode);
+  if (fseek(f->f, position, mode) != 0) {
+    print_error(ERROR_DIR, ".FSEEK couldn't seek in file \"%s\" (%s).\n", f->filename, f->name);
+    return FAILED;
+  }
 
   return SUCCEEDED;
 }
-- 
2.43.0


From cc98f8600e5e7ff744e2512739f44bbe653138e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 025/121] fix: refuse 68000, 65816 and Z80 operands that do not
 fit their 16 or 24 bits instead of truncating them

---
 decode.c | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/decode.c b/decode.c
index 0657c72..6133852 100644
--- a/decode.c
+++ b/decode.c
@@ -1623,6 +1623,10 @@ int evaluate_token(void) {
           g_source_index = y;
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
+          if (z == SUCCEEDED && (g_parsed_int > 65535 || g_parsed_int < -32768)) {
+            print_error(ERROR_NUM, "Out of 16-bit range.\n");
+            return FAILED;
+          }
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
@@ -2716,6 +2720,10 @@ int evaluate_token(void) {
           g_source_index = y;
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_STACK || z == INPUT_NUMBER_ADDRESS_LABEL))
             return FAILED;
+          if (z == SUCCEEDED && (g_parsed_int > 16777215 || g_parsed_int < -8388608)) {
+            print_error(ERROR_NUM, "Out of 24-bit range.\n");
+            return FAILED;
+          }
     
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
@@ -4020,6 +4028,12 @@ int evaluate_token(void) {
 	else
 	  opcode |= B8(00000010) << 7;
 	
+        /* immediate size check */
+        if (data_type_y == SUCCEEDED && register_y_mode == B8(00000111) && register_y1 == B8(00000100)) {
+          if (_mc68000_size_check(data_y, size) == FAILED)
+            return FAILED;
+        }
+
 	/* emit opcode */
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
@@ -4438,6 +4452,12 @@ int evaluate_token(void) {
         /* set destination register */
 	opcode |= register_y1;
         
+        /* immediate size check */
+        if (data_type_y == SUCCEEDED && register_y_mode == B8(00000111) && register_y1 == B8(00000100)) {
+          if (_mc68000_size_check(data_y, size) == FAILED)
+            return FAILED;
+        }
+
 	/* emit opcode */
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
@@ -4907,6 +4927,12 @@ int evaluate_token(void) {
         /* register */
         opcode |= register_y1;
         
+        /* immediate size check */
+        if (data_type_x == SUCCEEDED && register_x_mode == B8(00000111) && register_x1 == B8(00000100)) {
+          if (_mc68000_size_check(data_x, size) == FAILED)
+            return FAILED;
+        }
+
         /* emit opcode */
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
@@ -5010,6 +5036,12 @@ int evaluate_token(void) {
           return FAILED;
         }
 
+        /* immediate size check */
+        if (data_type_y == SUCCEEDED && register_y_mode == B8(00000111) && register_y1 == B8(00000100)) {
+          if (_mc68000_size_check(data_y, size) == FAILED)
+            return FAILED;
+        }
+
         /* emit opcode */
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
@@ -5233,6 +5265,12 @@ int evaluate_token(void) {
           /* register */
           opcode |= register_y1;
 
+          /* immediate size check */
+          if (data_type_y == SUCCEEDED && register_y_mode == B8(00000111) && register_y1 == B8(00000100)) {
+            if (_mc68000_size_check(data_y, size) == FAILED)
+              return FAILED;
+          }
+
           /* emit opcode */
           _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
@@ -5283,6 +5321,12 @@ int evaluate_token(void) {
           /* register */
           opcode |= register_y1;
 
+          /* immediate size check */
+          if (data_type_y == SUCCEEDED && register_y_mode == B8(00000111) && register_y1 == B8(00000100)) {
+            if (_mc68000_size_check(data_y, size) == FAILED)
+              return FAILED;
+          }
+
           /* emit opcode */
           _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
-- 
2.43.0


From 3695c3e694d0dc1d3e6abad2cddd27f6501bed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 026/121] fix: STZ.W ?,X of the 65C02, 65CE02 and HuC6280 could
 not be assembled

---
 i65c02.c   | 2 +-
 i65ce02.c  | 2 +-
 ihuc6280.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/i65c02.c b/i65c02.c
index 2a96f2c..966a6aa 100644
--- a/i65c02.c
+++ b/i65c02.c
@@ -376,7 +376,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 4, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 4, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 4, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
diff --git a/i65ce02.c b/i65ce02.c
index 68f0d03..b756690 100644
--- a/i65ce02.c
+++ b/i65ce02.c
@@ -446,7 +446,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 4, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 4, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 4, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
diff --git a/ihuc6280.c b/ihuc6280.c
index b47f9c4..8625d74 100644
--- a/ihuc6280.c
+++ b/ihuc6280.c
@@ -382,7 +382,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 7, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 7, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 7, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
-- 
2.43.0


From f180310b944ef93b6335d12d90e78427b94a47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 027/121] fix: 65816 JMP (|?,X) could not be assembled

---
 i65816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/i65816.c b/i65816.c
index 60de61e..024dc78 100644
--- a/i65816.c
+++ b/i65816.c
@@ -320,10 +320,10 @@ struct instruction g_instructions_table[] = {
   { "JMP >&", 0x5C, 3, 0 },
   { "JML >&", 0x5C, 3, 0 },
   { "JMP (|?)", 0x6C, 2, 0 },
+  { "JMP (|?,X)", 0x7C, 2, 0 },
   { "JMP (?)", 0x6C, 2, 0 },
   { "JMP [|?]", 0xDC, 2, 0 },
   { "JML [?]", 0xDC, 2, 0 },
-  { "JMP (|?,X)", 0x7C, 2, 0 },
   { "JMP (?,X)", 0x7C, 2, 0 },
   { "JMP ?", 0x4C, 2, 1 },
   { "JMP &", 0x5C, 3, 0 },
-- 
2.43.0


From b71da9a7f56cf2a103f1e36c8b2625d0dfde3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 028/121] fix: 65816 COP without an operand was assembled to
 BRK 2

---
 i65816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/i65816.c b/i65816.c
index 024dc78..8c6a05f 100644
--- a/i65816.c
+++ b/i65816.c
@@ -214,7 +214,7 @@ struct instruction g_instructions_table[] = {
   { "COP <x", 0x02, 0xA, 0 },
   { "COP x", 0x02, 0xA, 0 },
   { "COP.B x", 0x02, 0xA, 0 },
-  { "COP", 0x0200, 8, 0 },
+  { "COP", 0x0002, 8, 0 },
 
   { "CPX #x", 0xE0, 7, 0 },
   { "CPX <x", 0xE4, 0xA, 0 },
-- 
2.43.0


From 841df6175aff075e25d3641b1fff05370fcdad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 029/121] fix: 6800/6801/6809 immediates refused 128..255 and
 took labels as relative distances

---
 decode.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/decode.c b/decode.c
index 6133852..f0239f3 100644
--- a/decode.c
+++ b/decode.c
@@ -5765,7 +5765,14 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
+          if (s_instruction_tmp->type == 1) {
+            /* 1 -> an immediate value */
+            if (z == SUCCEEDED && (g_parsed_int > 255 || g_parsed_int < -128)) {
+              print_error(ERROR_NUM, "Out of 8-bit range.\n");
+              return FAILED;
+            }
+          }
+          else if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
             print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
             return FAILED;
           }
@@ -5775,7 +5782,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 1 ? "k%d d%d Q%s " : "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -5941,7 +5948,14 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
+          if (s_instruction_tmp->type == 1) {
+            /* 1 -> an immediate value */
+            if (z == SUCCEEDED && (g_parsed_int > 255 || g_parsed_int < -128)) {
+              print_error(ERROR_NUM, "Out of 8-bit range.\n");
+              return FAILED;
+            }
+          }
+          else if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
             print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
             return FAILED;
           }
@@ -5951,7 +5965,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 1 ? "k%d d%d Q%s " : "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -6120,7 +6134,14 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
+          if (s_instruction_tmp->type == 1) {
+            /* 1 -> an immediate value */
+            if (z == SUCCEEDED && (g_parsed_int > 255 || g_parsed_int < -128)) {
+              print_error(ERROR_NUM, "Out of 8-bit range.\n");
+              return FAILED;
+            }
+          }
+          else if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
             print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
             return FAILED;
           }
@@ -6137,7 +6158,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 1 ? "Q%s " : "R%s ", g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
-- 
2.43.0


From cff1c5eb7bd10aa754bded20a7ef199697e34e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 030/121] fix: 6801 LSL x,X had the wrong opcode

---
 i6801.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/i6801.c b/i6801.c
index 1ef5b36..3053021 100644
--- a/i6801.c
+++ b/i6801.c
@@ -296,10 +296,10 @@ struct instruction g_instructions_table[] = {
   { "LSLA", 0x48, 0, 0 },
   { "LSLB", 0x58, 0, 0 },
   { "LSLD", 0x05, 0, 0 },
-  { "LSL x,X", 0x65, 4, 1 },
+  { "LSL x,X", 0x68, 4, 1 },
   { "LSL ?", 0x78, 2, 0 },
 
-  { "LSL.B x,X", 0x65, 4, 1 },
+  { "LSL.B x,X", 0x68, 4, 1 },
   { "LSL.W ?", 0x78, 2, 0 },
 
   { "LSRA", 0x44, 0, 0 },
-- 
2.43.0


From e085bca4351986e9256d21653079fe9116dc3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 031/121] fix: 6801/6809 16-bit immediates were assembled as
 8-bit ones

---
 i6801.c | 12 ++++++------
 i6809.c | 24 ++++++++++++------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/i6801.c b/i6801.c
index 3053021..74c18b2 100644
--- a/i6801.c
+++ b/i6801.c
@@ -30,7 +30,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB x,X", 0xEB, 4, 1 },
   { "ADDB x", 0xDB, 4, 1 },
   { "ADDB ?", 0xFB, 2, 0 },
-  { "ADDD #x", 0xC3, 1, 0 },                  
+  { "ADDD #?", 0xC3, 2, 0 },                  
   { "ADDD x,X", 0xE3, 4, 1 },
   { "ADDD x", 0xD3, 4, 1 },
   { "ADDD ?", 0xF3, 2, 0 },
@@ -43,7 +43,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB.B x,X", 0xEB, 4, 1 },
   { "ADDB.B x", 0xDB, 4, 1 },
   { "ADDB.W ?", 0xFB, 2, 0 },
-  { "ADDD.B #x", 0xC3, 1, 0 },                
+  { "ADDD.W #?", 0xC3, 2, 0 },                
   { "ADDD.B x,X", 0xE3, 4, 1 },
   { "ADDD.B x", 0xD3, 4, 1 },
   { "ADDD.W ?", 0xF3, 2, 0 },
@@ -255,7 +255,7 @@ struct instruction g_instructions_table[] = {
   { "LDAB x,X", 0xE6, 4, 1 },
   { "LDAB x", 0xD6, 4, 1 },
   { "LDAB ?", 0xF6, 2, 0 },
-  { "LDD #x", 0xCC, 1, 0 },                   
+  { "LDD #?", 0xCC, 2, 0 },                   
   { "LDD x,X", 0xEC, 4, 1 },
   { "LDD x", 0xDC, 4, 1 },
   { "LDD ?", 0xFC, 2, 0 },
@@ -268,7 +268,7 @@ struct instruction g_instructions_table[] = {
   { "LDAB.B x,X", 0xE6, 4, 1 },
   { "LDAB.B x", 0xD6, 4, 1 },
   { "LDAB.W ?", 0xF6, 2, 0 },
-  { "LDD.B #x", 0xCC, 1, 0 },                 
+  { "LDD.W #?", 0xCC, 2, 0 },                 
   { "LDD.B x,X", 0xEC, 4, 1 },
   { "LDD.B x", 0xDC, 4, 1 },
   { "LDD.W ?", 0xFC, 2, 0 },
@@ -435,7 +435,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB x,X", 0xE0, 4, 1 },
   { "SUBB x", 0xD0, 4, 1 },
   { "SUBB ?", 0xF0, 2, 0 },
-  { "SUBD #x", 0x83, 1, 0 },
+  { "SUBD #?", 0x83, 2, 0 },
   { "SUBD x,X", 0xA3, 4, 1 },
   { "SUBD x", 0x93, 4, 1 },
   { "SUBD ?", 0xB3, 2, 0 },
@@ -448,7 +448,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB.B x,X", 0xE0, 4, 1 },
   { "SUBB.B x", 0xD0, 4, 1 },
   { "SUBB.W ?", 0xF0, 2, 0 },
-  { "SUBD.B #x", 0x83, 1, 0 },
+  { "SUBD.W #?", 0x83, 2, 0 },
   { "SUBD.B x,X", 0xA3, 4, 1 },
   { "SUBD.B x", 0x93, 4, 1 },
   { "SUBD.W ?", 0xB3, 2, 0 },
diff --git a/i6809.c b/i6809.c
index 54928a6..ce24bcf 100644
--- a/i6809.c
+++ b/i6809.c
@@ -355,7 +355,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB x", 0xDB, 4, 1, 0 },
   { "ADDB ?", 0xFB, 2, 0, 0 },
 
-  { "ADDD #x", 0xC3, 1, 0, 0 },
+  { "ADDD #?", 0xC3, 2, 0, 0 },
   { "ADDD,X", 0xE3, 9, 0, B_(10000100) },
   { "ADDD,Y", 0xE3, 9, 0, B_(10100100) },
   { "ADDD,U", 0xE3, 9, 0, B_(11000100) },
@@ -1230,7 +1230,7 @@ struct instruction g_instructions_table[] = {
   { "CMPB x", 0xD1, 4, 1, 0 },
   { "CMPB ?", 0xF1, 2, 0, 0 },
 
-  { "CMPX #x", 0x8C, 1, 0, 0 },
+  { "CMPX #?", 0x8C, 2, 0, 0 },
   { "CMPX,X", 0xAC, 9, 0, B_(10000100) },
   { "CMPX,Y", 0xAC, 9, 0, B_(10100100) },
   { "CMPX,U", 0xAC, 9, 0, B_(11000100) },
@@ -1315,7 +1315,7 @@ struct instruction g_instructions_table[] = {
   { "CMPX x", 0x9C, 4, 1, 0 },
   { "CMPX ?", 0xBC, 2, 0, 0 },
 
-  { "CMPD #x", 0x1083, 1, 0, 0 },
+  { "CMPD #?", 0x1083, 2, 0, 0 },
   { "CMPD,X", 0x10A3, 9, 0, B_(10000100) },
   { "CMPD,Y", 0x10A3, 9, 0, B_(10100100) },
   { "CMPD,U", 0x10A3, 9, 0, B_(11000100) },
@@ -1400,7 +1400,7 @@ struct instruction g_instructions_table[] = {
   { "CMPD x", 0x1093, 4, 1, 0 },
   { "CMPD ?", 0x10B3, 2, 0, 0 },
 
-  { "CMPS #x", 0x118C, 1, 0, 0 },
+  { "CMPS #?", 0x118C, 2, 0, 0 },
   { "CMPS,X", 0x11AC, 9, 0, B_(10000100) },
   { "CMPS,Y", 0x11AC, 9, 0, B_(10100100) },
   { "CMPS,U", 0x11AC, 9, 0, B_(11000100) },
@@ -1485,7 +1485,7 @@ struct instruction g_instructions_table[] = {
   { "CMPS x", 0x119C, 4, 1, 0 },
   { "CMPS ?", 0x11BC, 2, 0, 0 },
 
-  { "CMPU #x", 0x1183, 1, 0, 0 },
+  { "CMPU #?", 0x1183, 2, 0, 0 },
   { "CMPU,X", 0x11A3, 9, 0, B_(10000100) },
   { "CMPU,Y", 0x11A3, 9, 0, B_(10100100) },
   { "CMPU,U", 0x11A3, 9, 0, B_(11000100) },
@@ -1570,7 +1570,7 @@ struct instruction g_instructions_table[] = {
   { "CMPU x", 0x1193, 4, 1, 0 },
   { "CMPU ?", 0x11B3, 2, 0, 0 },
 
-  { "CMPY #x", 0x108C, 1, 0, 0 },
+  { "CMPY #?", 0x108C, 2, 0, 0 },
   { "CMPY,X", 0x10AC, 9, 0, B_(10000100) },
   { "CMPY,Y", 0x10AC, 9, 0, B_(10100100) },
   { "CMPY,U", 0x10AC, 9, 0, B_(11000100) },
@@ -2447,7 +2447,7 @@ struct instruction g_instructions_table[] = {
   { "LDB x", 0xD6, 4, 1, 0 },
   { "LDB ?", 0xF6, 2, 0, 0 },
 
-  { "LDD #x", 0xCC, 1, 0, 0 },
+  { "LDD #?", 0xCC, 2, 0, 0 },
   { "LDD,X", 0xEC, 9, 0, B_(10000100) },
   { "LDD,Y", 0xEC, 9, 0, B_(10100100) },
   { "LDD,U", 0xEC, 9, 0, B_(11000100) },
@@ -2532,7 +2532,7 @@ struct instruction g_instructions_table[] = {
   { "LDD x", 0xDC, 4, 1, 0 },
   { "LDD ?", 0xFC, 2, 0, 0 },
 
-  { "LDS #x", 0x10CE, 1, 0, 0 },
+  { "LDS #?", 0x10CE, 2, 0, 0 },
   { "LDS,X", 0x10EE, 9, 0, B_(10000100) },
   { "LDS,Y", 0x10EE, 9, 0, B_(10100100) },
   { "LDS,U", 0x10EE, 9, 0, B_(11000100) },
@@ -2617,7 +2617,7 @@ struct instruction g_instructions_table[] = {
   { "LDS x", 0x10DE, 4, 1, 0 },
   { "LDS ?", 0x10FE, 2, 0, 0 },
 
-  { "LDU #x", 0xCE, 1, 0, 0 },
+  { "LDU #?", 0xCE, 2, 0, 0 },
   { "LDU,X", 0xEE, 9, 0, B_(10000100) },
   { "LDU,Y", 0xEE, 9, 0, B_(10100100) },
   { "LDU,U", 0xEE, 9, 0, B_(11000100) },
@@ -2702,7 +2702,7 @@ struct instruction g_instructions_table[] = {
   { "LDU x", 0xDE, 4, 1, 0 },
   { "LDU ?", 0xFE, 2, 0, 0 },
 
-  { "LDX #x", 0x8E, 1, 0, 0 },
+  { "LDX #?", 0x8E, 2, 0, 0 },
   { "LDX,X", 0xAE, 9, 0, B_(10000100) },
   { "LDX,Y", 0xAE, 9, 0, B_(10100100) },
   { "LDX,U", 0xAE, 9, 0, B_(11000100) },
@@ -2787,7 +2787,7 @@ struct instruction g_instructions_table[] = {
   { "LDX x", 0x9E, 4, 1, 0 },
   { "LDX ?", 0xBE, 2, 0, 0 },
 
-  { "LDY #x", 0x108E, 1, 0, 0 },
+  { "LDY #?", 0x108E, 2, 0, 0 },
   { "LDY,X", 0x10AE, 9, 0, B_(10000100) },
   { "LDY,Y", 0x10AE, 9, 0, B_(10100100) },
   { "LDY,U", 0x10AE, 9, 0, B_(11000100) },
@@ -4744,7 +4744,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB x", 0xD0, 4, 1, 0 },
   { "SUBB ?", 0xF0, 2, 0, 0 },
 
-  { "SUBD #x", 0x83, 1, 0, 0 },
+  { "SUBD #?", 0x83, 2, 0, 0 },
   { "SUBD,X", 0xA3, 9, 0, B_(10000100) },
   { "SUBD,Y", 0xA3, 9, 0, B_(10100100) },
   { "SUBD,U", 0xA3, 9, 0, B_(11000100) },
-- 
2.43.0


From 50feb4f43b98c7e1eeaabe7adbeea6b05a785174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 032/121] fix: 8008 LMI was assembled to LHI

---
 i8008.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/i8008.c b/i8008.c
index 206b568..274f65c 100644
--- a/i8008.c
+++ b/i8008.c
@@ -141,7 +141,7 @@ struct instruction g_instructions_table[] = {
   { "LMD", 0xFB, 0, 0 },
   { "LME", 0xFC, 0, 0 },
   { "LMH", 0xFD, 0, 0 },
-  { "LMI x", 0x2E, 1, 0 },
+  { "LMI x", 0x3E, 1, 0 },
   { "LML", 0xFE, 0, 0 },
 
   { "NDA", 0xA0, 0, 0 },
-- 
2.43.0


From 59e1431d6d5f7ea64c5f509cee061acba44e11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:53 +0000
Subject: [PATCH 033/121] fix: 68000 absolute addresses $8000-$FFFF without a
 size took the sign-extended short form

---
 decode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decode.c b/decode.c
index f0239f3..98a09a3 100644
--- a/decode.c
+++ b/decode.c
@@ -857,7 +857,8 @@ static int _mc68000_parse_ea(char *code, int *index, int *reg1, int *reg2, int *
        111 - 001 - ??? - (xxx).L */
     *mode = B8(00000111);
 
-    if (g_operand_hint == HINT_16BIT)
+    /* (xxx).W is sign extended, so unless it was explicitly asked for, $8000-$FFFF needs (xxx).L */
+    if (g_operand_hint == HINT_16BIT && !(g_operand_hint_type != HINT_TYPE_GIVEN && z == SUCCEEDED && *data > 32767))
       *reg1 = B8(00000000);
     else
       *reg1 = B8(00000001);
-- 
2.43.0


From b96d50960b7094dad0deea7da48d31ba210a213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 034/121] fix: 68000 branches with a literal distance of
 128..255 or 0 were assembled to byte branches

---
 decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.c b/decode.c
index 98a09a3..e609b24 100644
--- a/decode.c
+++ b/decode.c
@@ -3781,7 +3781,7 @@ int evaluate_token(void) {
 	/* emit opcode */
 	_output_assembled_instruction(s_instruction_tmp, "d%d ", opcode >> 8);
 
-	if (size == B8(00000000) || g_operand_hint == HINT_8BIT) {
+	if (size == B8(00000000) || (g_operand_hint == HINT_8BIT && g_operand_hint_type == HINT_TYPE_GIVEN)) {
 	  /* 8-bit */
 	  if (res == INPUT_NUMBER_ADDRESS_LABEL)
 	    _output_assembled_instruction(s_instruction_tmp, "k%d R%s ", g_active_file_info_last->line_current, g_label);
-- 
2.43.0


From 0a9dbc41862c25f8cb8af0535858592f5668bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 035/121] fix: plain labels as 8-bit immediates and
 displacements were assembled as relative references

---
 decode.c | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/decode.c b/decode.c
index e609b24..5ac8e83 100644
--- a/decode.c
+++ b/decode.c
@@ -1223,7 +1223,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 4 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -1448,7 +1448,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 11 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 11) {
@@ -1558,7 +1558,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "y%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else
                 _output_assembled_instruction(s_instruction_tmp, "y%d c%d ", s_instruction_tmp->hex, g_latest_stack);
               
@@ -1598,7 +1598,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "y%d d%d d%d ", s_instruction_tmp->hex, g_parsed_int, s_instruction_tmp->hex_x);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
+                _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
               else
                 _output_assembled_instruction(s_instruction_tmp, "y%d c%d d%d ", s_instruction_tmp->hex, g_latest_stack, s_instruction_tmp->hex_x);
               
@@ -1713,14 +1713,14 @@ int evaluate_token(void) {
                   if (v == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "y%d d%d ", s_instruction_tmp->hex, e);
                   else if (v == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "y%d R%s ", s_instruction_tmp->hex, labelx);
+                    _output_assembled_instruction(s_instruction_tmp, "y%d Q%s ", s_instruction_tmp->hex, labelx);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "y%d c%d ", s_instruction_tmp->hex, h);
                   
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+                    _output_assembled_instruction(s_instruction_tmp, "Q%s ", g_label);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
                   
@@ -1826,7 +1826,7 @@ int evaluate_token(void) {
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "y%d d%d d%d ", s_instruction_tmp->hex, g_parsed_int, s_instruction_tmp->hex_x);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
+                    _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "y%d c%d d%d ", s_instruction_tmp->hex, g_latest_stack, s_instruction_tmp->hex_x);
                   
@@ -1935,7 +1935,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 5 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -2108,7 +2108,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 6 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 6) {
@@ -2353,7 +2353,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 6 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 6) {
@@ -2643,7 +2643,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 11 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 11) {
@@ -6373,19 +6373,21 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->addressing_mode_bits, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "d%d R%s ", s_instruction_tmp->addressing_mode_bits, g_label);
+                _output_assembled_instruction(s_instruction_tmp, (s_instruction_tmp->addressing_mode_bits & 0x8F) == 0x8C ? "d%d R%s " : "d%d Q%s ", s_instruction_tmp->addressing_mode_bits, g_label);
               else {
                 struct stack *stack;
           
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->addressing_mode_bits, g_latest_stack);
 
-                /* let's configure the stack so that all label references inside are relative */
-                stack = find_stack_calculation(g_latest_stack, YES);
+                if ((s_instruction_tmp->addressing_mode_bits & 0x8F) == 0x8C) {
+                  /* PCR -> let's configure the stack so that all label references inside are relative */
+                  stack = find_stack_calculation(g_latest_stack, YES);
 
-                if (stack == NULL)
-                  return FAILED;
+                  if (stack == NULL)
+                    return FAILED;
     
-                stack->relative_references = 1;
+                  stack->relative_references = 1;
+                }
               }
         
               g_source_index = s_parser_source_index;
@@ -6616,7 +6618,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -6797,7 +6799,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -7664,7 +7666,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 9 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 9) {
@@ -8268,7 +8270,7 @@ int evaluate_token(void) {
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex | tiny, g_parsed_int);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "d%d R%s ", s_instruction_tmp->hex | tiny, g_label);
+                    _output_assembled_instruction(s_instruction_tmp, "d%d Q%s ", s_instruction_tmp->hex | tiny, g_label);
                   else {
                     struct stack *stack = find_stack_calculation(g_latest_stack, YES);
                     
-- 
2.43.0


From 4f3ffcb2a355ea5b7734c51e2293cf767427a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 036/121] fix: special cases (RST) and the signed range were
 ignored for imported definitions used as 8-bit operands

---
 wlalink/write.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index d2613d1..60e8e10 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2170,11 +2170,18 @@ int fix_references(void) {
       /* direct / relative 8-bit with a value definition */
       else if (l->status == LABEL_STATUS_DEFINE && (r->type == REFERENCE_TYPE_DIRECT_8BIT || r->type == REFERENCE_TYPE_RELATIVE_8BIT)) {
         i = (int)l->address;
-        if (i > 255 || i < -128) {
+        if (i > 255 || i < -128 || (i > 127 && r->type == REFERENCE_TYPE_RELATIVE_8BIT)) {
           print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 8-bit value.\n",
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
           return FAILED;
         }
+
+        /* special case ID handling! */
+        if (r->special_id > 0 && r->special_id != 4) {
+          if (_handle_special_case(r->special_id, r->file_id, r->file_id_source, r->linenumber, i, &i) == FAILED)
+            return FAILED;
+        }
+
         mem_insert_ref(x, i & 0xFF);
       }
       /* direct 24-bit */
-- 
2.43.0


From 1eccd661fe1fd803e205afb159cb4f0c5437b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 037/121] fix: a 16-bit branch to an imported definition
 treated the distance as an address

---
 wlalink/write.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 60e8e10..5cec7f1 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2233,11 +2233,17 @@ int fix_references(void) {
       }
       /* relative 16-bit with a label */
       else if (r->type == REFERENCE_TYPE_RELATIVE_16BIT) {
-        i = (((int)l->address) & 0xFFFF) - r->address - 2;
-        /* NOTE: on 65ce02 the 16-bit relative references don't use the next
-           instruction as the starting point, but one byte before it */
-        if (get_file(r->file_id)->cpu_65ce02 == YES)
-          i += 1;
+        if (l->status == LABEL_STATUS_DEFINE) {
+          /* a definition is a distance, like a literal */
+          i = (int)l->address;
+        }
+        else {
+          i = (((int)l->address) & 0xFFFF) - r->address - 2;
+          /* NOTE: on 65ce02 the 16-bit relative references don't use the next
+             instruction as the starting point, but one byte before it */
+          if (get_file(r->file_id)->cpu_65ce02 == YES)
+            i += 1;
+        }
         
         if (i < -32768 || i > 32767) {
           print_text(NO, "%s: %s:%d: FIX_REFERENCES: Too large distance (%d bytes from $%x to $%x \"%s\") for a relative 16-bit reference.\n",
-- 
2.43.0


From 73a07126908210a1444621ac62ef8fa92d966ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 038/121] fix: results of relative calculations above 127 (or
 32767) wrapped to negative distances

---
 wlalink/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 5cec7f1..7cbc2fa 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2932,7 +2932,7 @@ int compute_pending_calculations(void) {
     snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing pending calculation %s: %s:%d.", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
 
     if (sta->type == STACK_TYPE_8BIT) {
-      if (k < -128 || k > 255) {
+      if (k < -128 || k > 255 || (k > 127 && sta->relative_references == YES)) {
         print_text(NO, "%s: %s:%d: COMPUTE_PENDING_CALCULATIONS: Result (%d/$%x) of a computation is out of 8-bit range.\n",
                 get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, k, k);
         return FAILED;
@@ -2963,7 +2963,7 @@ int compute_pending_calculations(void) {
         return FAILED;
     }
     else if (sta->type == STACK_TYPE_16BIT) {
-      if (k < -32768 || k > 65535) {
+      if (k < -32768 || k > 65535 || (k > 32767 && sta->relative_references == YES)) {
         print_text(NO, "%s: %s:%d: COMPUTE_PENDING_CALCULATIONS: Result (%d/$%x) of a computation is out of 16-bit range.\n",
                 get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, k, k);
         return FAILED;
-- 
2.43.0


From cab094a0289da8d6d9d9f829976d56c23f27cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 039/121] fix: imported definitions in a relative calculation
 were made relative themselves

---
 wlalink/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 7cbc2fa..4b69463 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4514,8 +4514,8 @@ int parse_stack(struct stack *sta) {
               k_rom = l->rom_address;
               k_ram = l->address;
 
-              /* is the reference relative? */
-              if (sta->relative_references == YES) {
+              /* is the reference relative? (definitions are plain values, like literals) */
+              if (sta->relative_references == YES && l->status != LABEL_STATUS_DEFINE) {
                 k_rom = k_rom - sta->address - ed;
                 k_ram = k_ram - sta->memory_address - ed;
               }
-- 
2.43.0


From 5d6a8a0eda70e58f0cb65d20db472cfafc176dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 040/121] fix: .16BIT and .24BIT overrode explicit operand
 hints

---
 decode.c | 56 ++++++++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/decode.c b/decode.c
index 5ac8e83..a59e52e 100644
--- a/decode.c
+++ b/decode.c
@@ -2010,8 +2010,6 @@ int evaluate_token(void) {
       break;
       
     case 4:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -2024,6 +2022,8 @@ int evaluate_token(void) {
             return FAILED;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           if (z == SUCCEEDED && (g_parsed_int > 255 || g_parsed_int < -128)) {
             if (s_instruction_tmp->skip_8bit == 1)
               break;
@@ -2086,8 +2086,6 @@ int evaluate_token(void) {
       
     case 6:
     case 1:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -2102,6 +2100,8 @@ int evaluate_token(void) {
             break;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
@@ -2183,8 +2183,6 @@ int evaluate_token(void) {
       break;
       
     case 4:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -2199,6 +2197,8 @@ int evaluate_token(void) {
             break;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
@@ -2331,8 +2331,6 @@ int evaluate_token(void) {
       
     case 6:
     case 1:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -2347,6 +2345,8 @@ int evaluate_token(void) {
             break;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
@@ -2428,8 +2428,6 @@ int evaluate_token(void) {
       break;
       
     case 4:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -2444,6 +2442,8 @@ int evaluate_token(void) {
             break;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
@@ -2670,8 +2670,6 @@ int evaluate_token(void) {
       break;
 
     case 2:
-      if (g_xbit_size > 16 && s_instruction_tmp->skip_xbit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == '?') {
           y = g_source_index;
@@ -2683,6 +2681,8 @@ int evaluate_token(void) {
             return FAILED;
           if (g_operand_hint == HINT_24BIT && s_instruction_tmp->skip_xbit == 1)
             break;
+          if (g_xbit_size > 16 && s_instruction_tmp->skip_xbit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           if (z == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
             if (s_instruction_tmp->skip_xbit == 1)
               break;
@@ -3070,8 +3070,6 @@ int evaluate_token(void) {
       break;
 
     case 0xA:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_xbit == 2)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -3083,6 +3081,8 @@ int evaluate_token(void) {
             return FAILED;
           if ((g_operand_hint == HINT_16BIT || g_operand_hint == HINT_24BIT) && s_instruction_tmp->skip_xbit == 2)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_xbit == 2 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           if (z == SUCCEEDED && (g_parsed_int > 255 || g_parsed_int < -128)) {
             if (s_instruction_tmp->skip_xbit == 2)
               break;
@@ -5861,8 +5861,6 @@ int evaluate_token(void) {
 
     case 4:
       /* 8-bit unsigned operand, absolute address */
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -5875,6 +5873,8 @@ int evaluate_token(void) {
             return FAILED;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           if (z == SUCCEEDED && (g_parsed_int > 255 || g_parsed_int < 0)) {
             if (s_instruction_tmp->skip_8bit == 1)
               break;
@@ -6044,8 +6044,6 @@ int evaluate_token(void) {
 
     case 4:
       /* 8-bit unsigned operand, absolute address */
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -6058,6 +6056,8 @@ int evaluate_token(void) {
             return FAILED;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           if (z == SUCCEEDED && (g_parsed_int > 255 || g_parsed_int < 0)) {
             if (s_instruction_tmp->skip_8bit == 1)
               break;
@@ -6244,8 +6244,6 @@ int evaluate_token(void) {
 
     case 4:
       /* 8-bit unsigned operand, absolute address */
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -6258,6 +6256,8 @@ int evaluate_token(void) {
             return FAILED;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           if (z == SUCCEEDED && (g_parsed_int > 255 || g_parsed_int < 0)) {
             if (s_instruction_tmp->skip_8bit == 1)
               break;
@@ -6340,8 +6340,6 @@ int evaluate_token(void) {
 
     case 7:
       /* 8-bit signed operand, relative address + post op byte code */
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -6354,6 +6352,8 @@ int evaluate_token(void) {
             return FAILED;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
             if (s_instruction_tmp->skip_8bit == 1)
               break;
@@ -7644,8 +7644,6 @@ int evaluate_token(void) {
 
     case 9:
     case 1:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -7660,6 +7658,8 @@ int evaluate_token(void) {
             break;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
@@ -7872,8 +7872,6 @@ int evaluate_token(void) {
       break;
 
     case 5:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -7905,6 +7903,8 @@ int evaluate_token(void) {
                 break;
               if (g_operand_hint == HINT_16BIT)
                 break;
+              if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+                break;
               
               for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
                 if (IS_THE_MATCH_COMPLETE(x)) {
@@ -8008,8 +8008,6 @@ int evaluate_token(void) {
       break;
 
     case 7:
-      if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1)
-        break;
       for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
         if (s_instruction_tmp->string[x] == 'x') {
           y = g_source_index;
@@ -8024,6 +8022,8 @@ int evaluate_token(void) {
             break;
           if (g_operand_hint == HINT_16BIT)
             break;
+          if (g_xbit_size > 8 && s_instruction_tmp->skip_8bit == 1 && g_operand_hint_type != HINT_TYPE_GIVEN)
+            break;
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
-- 
2.43.0


From 157bd5762260d6745b50730364c2f72529b03deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:24 +0000
Subject: [PATCH 041/121] fix: \@ keeps its value in a macro call after the
 macro calls itself

---
 decode.c  | 2 +-
 defines.h | 1 +
 parse.c   | 6 +++---
 phase_1.c | 3 ++-
 stack.c   | 4 ++--
 5 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/decode.c b/decode.c
index a59e52e..1d3deb4 100644
--- a/decode.c
+++ b/decode.c
@@ -1087,7 +1087,7 @@ int evaluate_token(void) {
     /* check for \@-symbols */
     if (g_macro_active != 0) {
       if (g_tmp[g_ss - 3] == '\\' && g_tmp[g_ss - 2] == '@')
-        snprintf(&g_tmp[g_ss - 3], g_sizeof_g_tmp - (g_ss - 3), "%d", g_macro_runtime_current->macro->calls - 1);
+        snprintf(&g_tmp[g_ss - 3], g_sizeof_g_tmp - (g_ss - 3), "%d", g_macro_runtime_current->call_number);
     }
 
     if (g_macro_active != 0) {
diff --git a/defines.h b/defines.h
index 610a4ff..e456e0d 100644
--- a/defines.h
+++ b/defines.h
@@ -629,6 +629,7 @@ struct macro_runtime {
   int  macro_return_line;
   int  macro_return_filename_id;
   int  supplied_arguments;
+  int  call_number;
   int  child_label_level;
   int  caller;
   char string[MAX_NAME_LENGTH + 1];
diff --git a/parse.c b/parse.c
index 710edbd..63f3cb6 100644
--- a/parse.c
+++ b/parse.c
@@ -122,7 +122,7 @@ int compare_next_token(char *token) {
     if (g_buffer[ii + 1] == '@') {
       char tmp_buffer[64];
 
-      snprintf(tmp_buffer, sizeof(tmp_buffer), "%d", g_macro_runtime_current->macro->calls - 1);
+      snprintf(tmp_buffer, sizeof(tmp_buffer), "%d", g_macro_runtime_current->call_number);
 
       e = tmp_buffer[0];
       for (t = 0; t < length && e != 0; ) {
@@ -871,7 +871,7 @@ int input_number(void) {
 
     if (g_buffer[g_source_index] == '@') {
       g_source_index++;
-      g_parsed_int = g_macro_runtime_current->macro->calls - 1;
+      g_parsed_int = g_macro_runtime_current->call_number;
 
       if (g_buffer[g_source_index] != ' ' && g_buffer[g_source_index] != 0xA && g_buffer[g_source_index] != ',')
         exit_here = NO;
@@ -1942,7 +1942,7 @@ int _expand_macro_arguments_one_pass(char *in, int *expands, int *move_up, int *
         (*expands)++;
         i++;
 
-        snprintf(t, sizeof(t), "%d", g_macro_runtime_current->macro->calls - 1);
+        snprintf(t, sizeof(t), "%d", g_macro_runtime_current->call_number);
         for (j = 0; j < MAX_NAME_LENGTH && k < MAX_NAME_LENGTH; j++, k++) {
           g_expanded_macro_string[k] = t[j];
           if (t[j] == 0)
diff --git a/phase_1.c b/phase_1.c
index 2e6ff9f..f6ed46f 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -413,6 +413,7 @@ static int _macro_start(struct macro_static *m, struct macro_runtime *mrt, int c
 
   g_macro_runtime_current = mrt;
   g_macro_active++;
+  mrt->call_number = m->calls;
   m->calls++;
 
   /* macro call start */
@@ -1161,7 +1162,7 @@ int phase_1(void) {
           /* check out for \@-symbols */
           if (g_macro_active != 0 && q >= 2) {
             if (g_tmp[q - 2] == '\\' && g_tmp[q - 1] == '@')
-              snprintf(&g_tmp[q - 2], g_sizeof_g_tmp - (q - 2), "%d", g_macro_runtime_current->macro->calls - 1);
+              snprintf(&g_tmp[q - 2], g_sizeof_g_tmp - (q - 2), "%d", g_macro_runtime_current->call_number);
           }
 
           if (g_macro_active != 0) {
diff --git a/stack.c b/stack.c
index 782bedf..bce041a 100644
--- a/stack.c
+++ b/stack.c
@@ -1861,7 +1861,7 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
     else if (*in == '\\' && *(in + 1) == '@') {
       if (g_macro_runtime_current != NULL) {
         si[q].type = STACK_ITEM_TYPE_VALUE;
-        si[q].value = g_macro_runtime_current->macro->calls - 1;
+        si[q].value = g_macro_runtime_current->call_number;
         si[q].sign = SI_SIGN_POSITIVE;
         in += 2;
         q++;
@@ -3692,7 +3692,7 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
   else if (g_macro_active != 0 && s->string[0] == '\\') {
     if (s->string[1] == '@' && s->string[2] == 0) {
       s->type = STACK_ITEM_TYPE_VALUE;
-      s->value = g_macro_runtime_current->macro->calls - 1;
+      s->value = g_macro_runtime_current->call_number;
     }
     else {
       int try_resolve_string = NO;
-- 
2.43.0


From 3bb401599291d8553ecdfd7382cf1c0c74ecbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:24 +0000
Subject: [PATCH 042/121] fix: .CONTINUE on the last round of a .REPEAT leaves
 the loop instead of running what follows it twice

---
 phase_1.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index f6ed46f..780632e 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -10972,7 +10972,7 @@ int directive_break(void) {
 }
 
 
-int directive_endr_continue(void) {
+int directive_endr_continue(int is_continue) {
 
   struct repeat_runtime *rr;
   
@@ -11023,6 +11023,10 @@ int directive_endr_continue(void) {
   else {
     rr->counter--;
     if (rr->counter == 0) {
+      /* .CONTINUE on the last round leaves the loop */
+      if (is_continue == YES)
+        return directive_break();
+
       s_repeat_active--;
           
       /* repeat end */
@@ -11460,7 +11464,7 @@ int parse_directive(void) {
     
     /* CONTINUE */
     if (strcmp(directive_upper, "CONTINUE") == 0)
-      return directive_endr_continue();
+      return directive_endr_continue(YES);
 
     break;
     
@@ -11665,7 +11669,7 @@ int parse_directive(void) {
     
       /* ENDR */
       if (strcmp(directive_upper, "ENDR") == 0)
-        return directive_endr_continue();
+        return directive_endr_continue(NO);
 
       /* ENUM */
       if (strcmp(directive_upper, "ENUM") == 0) {
-- 
2.43.0


From a3fa2e4973fe86b258f555386aee4eedc4fb792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:24 +0000
Subject: [PATCH 043/121] fix: the INDEX of a .REPEAT 0 doesn't stay defined

---
 phase_1.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index 780632e..6f0ab1c 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9380,6 +9380,12 @@ int directive_rept_repeat_while(int is_while) {
 
     l = g_active_file_info_last->line_current;
 
+    /* the index exists only inside the loop */
+    if (index_name[0] != 0) {
+      if (undefine(index_name) == FAILED)
+        return FAILED;
+    }
+
     if (_find_next_endr() == SUCCEEDED)
       return SUCCEEDED;
     
-- 
2.43.0


From 7a305f8b90e89e78fb9f497252774f48669aa25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:24 +0000
Subject: [PATCH 044/121] fix: .SHIFT without arguments left is refused instead
 of reading outside the arguments

---
 phase_1.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index 6f0ab1c..1e7d526 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -6406,6 +6406,11 @@ int directive_shift(void) {
   rt = &g_macro_stack[g_macro_active - 1];
   st = rt->macro;
 
+  if (rt->supplied_arguments <= 0) {
+    print_error(ERROR_DIR, ".SHIFT: There are no arguments left to shift.\n");
+    return FAILED;
+  }
+
   if (st->nargument_names <= rt->supplied_arguments)
     o = st->nargument_names;
   else
-- 
2.43.0


From 11ba45dae58d9fc656c29c0618b99f232b69bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:24 +0000
Subject: [PATCH 045/121] fix: .SHIFT keeps named arguments of isolated macros
 and those given as calculations

---
 phase_1.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 1e7d526..a05b045 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -6391,11 +6391,24 @@ int directive_block(void) {
 }
 
 
+static char *_get_macro_argument_name(struct macro_static *st, int q, char *name, int size) {
+
+  /* the arguments of isolated .MACROs are in the namespace of the .MACRO */
+  if (st->namespace[0] == 0)
+    snprintf(name, size, "%s", st->argument_names[q]);
+  else
+    snprintf(name, size, "%s.%s", st->namespace, st->argument_names[q]);
+
+  return name;
+}
+
+
 int directive_shift(void) {
 
   struct macro_argument *ma;
   struct macro_runtime *rt;
   struct macro_static *st;
+  char argument_name[MAX_NAME_LENGTH + 1];
   int q, o;
 
   if (g_macro_active == 0) {
@@ -6418,7 +6431,7 @@ int directive_shift(void) {
 
   /* free the argument definitions */
   for (q = 0; q < o; q++)
-    undefine(st->argument_names[q]);
+    undefine(_get_macro_argument_name(st, q, argument_name, sizeof(argument_name)));
 
   /* free the first argument data */
   free(rt->argument_data[0]);
@@ -6439,14 +6452,15 @@ int directive_shift(void) {
   /* redo the definitions if any */
   for (q = 0; q < o; q++) {
     ma = rt->argument_data[q];
-    if (ma->type == SUCCEEDED)
-      redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
+    _get_macro_argument_name(st, q, argument_name, sizeof(argument_name));
+    if (ma->type == SUCCEEDED || ma->type == INPUT_NUMBER_FLOAT)
+      redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
     else if (ma->type == INPUT_NUMBER_STACK)
-      redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_STACK, 0);
+      redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_STACK, 0);
     else if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
-      redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
+      redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
     else if (ma->type == INPUT_NUMBER_STRING)
-      redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
+      redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
   }
 
   /* redefine NARGS */
-- 
2.43.0


From a69aeee3fca883e1211f9c4454dd16dccac62c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 046/121] fix: NAME = VALUE defines the right name when NAME
 contains variables or is a string definition

---
 parse.c   |  4 +++-
 phase_1.c | 11 ++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parse.c b/parse.c
index 63f3cb6..a648e04 100644
--- a/parse.c
+++ b/parse.c
@@ -17,7 +17,7 @@
 #include "mersenne.h"
 
 
-int g_input_number_error_msg = YES, g_ss, g_string_size, g_input_float_mode = OFF, g_parse_floats = YES;
+int g_input_number_error_msg = YES, g_ss, g_token_source_index = 0, g_string_size, g_input_float_mode = OFF, g_parse_floats = YES;
 int g_expect_calculations = YES, g_input_allow_leading_hashtag = NO, g_input_has_leading_hashtag = NO, g_input_parse_special_chars = YES;
 int g_input_allow_leading_ampersand = NO, g_plus_and_minus_ends_label = NO, g_get_next_token_use_substitution = YES;
 int g_newline_beginning = ON, g_parsed_double_decimal_numbers = 0, g_operand_hint, g_operand_hint_type;
@@ -1691,6 +1691,8 @@ int get_next_token(void) {
   /* skip leading commas */
   while (g_buffer[g_source_index] == ',')
     g_source_index++;
+
+  g_token_source_index = g_source_index;
   
   /* "string"? */
   if (g_buffer[g_source_index] == '"') {
diff --git a/phase_1.c b/phase_1.c
index a05b045..0c976a2 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -133,7 +133,7 @@ struct namespace *g_namespaces_first = NULL;
 
 extern char *g_buffer, *unfolded_buffer, g_label[MAX_NAME_LENGTH + 1], *g_include_dir, *g_full_name, g_latest_include_dir[MAX_NAME_LENGTH + 1];
 extern int g_source_file_size, g_input_number_error_msg, g_verbose_level, g_output_format, g_open_files, g_input_parse_if;
-extern int g_last_stack_id, g_latest_stack, g_ss, g_commandline_parsing, g_newline_beginning, g_expect_calculations, g_input_parse_special_chars;
+extern int g_last_stack_id, g_latest_stack, g_ss, g_token_source_index, g_commandline_parsing, g_newline_beginning, g_expect_calculations, g_input_parse_special_chars;
 extern int g_extra_definitions, g_string_size, g_input_float_mode, g_operand_hint, g_operand_hint_type, g_dsp_enable_label_address_conversion;
 extern int g_include_dir_size, g_parse_floats, g_listfile_data, g_quiet, g_parsed_double_decimal_numbers;
 extern int g_create_sizeof_definitions, g_input_allow_leading_hashtag, g_input_has_leading_hashtag, g_input_allow_leading_ampersand;
@@ -1043,7 +1043,7 @@ int phase_1(void) {
 
   struct macro_runtime *mrt;
   struct macro_static *m = NULL;
-  int o, p, q;
+  int o, p, q, token_index;
 
   if (g_verbose_level >= 100)
     print_text(YES, "Pass 1...\n");
@@ -1070,6 +1070,7 @@ int phase_1(void) {
     }
     
     q = get_next_token();
+    token_index = g_token_source_index;
     if (q == FAILED)
       return FAILED;
     else if (q == GET_NEXT_TOKEN_STRING) {
@@ -1129,8 +1130,8 @@ int phase_1(void) {
         g_newline_beginning = OFF;
     
         if (compare_next_token("=") == SUCCEEDED || old_tmp_q == '=') {
-          /* it's actually a definition! */
-          g_source_index -= g_ss;
+          /* it's actually a definition! the token might have been expanded, so return to where it begins in the source */
+          g_source_index = token_index;
 
           if (directive_define_def_equ() == FAILED)
             return FAILED;
@@ -1184,7 +1185,7 @@ int phase_1(void) {
       }
       else if (compare_next_token("=") == SUCCEEDED) {
         /* it's actually a definition! */
-        g_source_index -= g_ss;
+        g_source_index = token_index;
 
         if (directive_define_def_equ() == FAILED)
           return FAILED;
-- 
2.43.0


From 74c9f32a97acd4252f9d3f44b1647fef0be00d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 047/121] build: accept // comments (CMake option
 WLA_LINE_COMMENTS, OFF restores strict ANSI C)

---
 CMakeLists.txt | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 152a17a..a736042 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -30,6 +30,8 @@ set(ARCHS
 
 option(GDB_DEBUGGING
     "Enable debugging via gdb (Only when CMAKE_BUILD_TYPE is Debug)" ON)
+option(WLA_LINE_COMMENTS
+    "Accept // comments in the C sources (OFF: strict ANSI C)" ON)
 
 # CMake will automatically define WIN32 for us for Microsoft compilers, how
 # convenient! But we need MSDOS flag as well. Additionally, other compilers
@@ -51,7 +53,12 @@ set(CMAKE_C_EXTENSIONS OFF)
 
 if(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
     set(CMAKE_C_STANDARD) # Empty because we use -ansi
-    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -ansi")
+    if(WLA_LINE_COMMENTS)
+        # C90 as before, but a // comment is a warning instead of an error
+        set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic -Wall -Wextra -std=gnu90")
+    else()
+        set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -ansi")
+    endif()
     string(REPLACE "-O2" "-O3" CMAKE_C_FLAGS_RELEASE "${CMAKE_C_FLAGS_RELEASE}")
     if(CMAKE_C_COMPILER_ID MATCHES "Clang" AND
             CMAKE_C_COMPILER_VERSION VERSION_LESS 3.8)
-- 
2.43.0


From bc51b16c55634e5a145ae9fe4bf857d5361338ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 048/121] fix: labels whose letters are all the same (A, xx)
 are not unnamed labels

---
 phase_3.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/phase_3.c b/phase_3.c
index d5a70bc..c819d33 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -1288,7 +1288,6 @@ int phase_3(void) {
 /* is the label of form __, -, --, ---, +, ++, +++, -:context, +:context ... ? */
 int is_label_anonymous(char *label) {
 
-  int i, length;
   char c;
 
   if (strcmp(label, "__") == 0)
@@ -1304,18 +1303,11 @@ int is_label_anonymous(char *label) {
   if (c == '-' || c == '+')
     return YES;
 
-  length = (int)strlen(label);
-  for (i = 1; i < length; i++) {
-    if (label[i] == c)
-      continue;
-    /* context follows? */
-    if (label[i] == ':')
-      return YES;
+  /* "__" with a context */
+  if (strncmp(label, "__:", 3) == 0)
+    return YES;
 
-    return NO;
-  }
-  
-  return YES;
+  return NO;
 }
 
 
-- 
2.43.0


From e8f6e418e8d7f7e38adc62ffa29c16682ceceed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 049/121] fix: definitions that refer to themselves don't crash
 the assembler

---
 defines.h |  1 +
 stack.c   | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/defines.h b/defines.h
index e456e0d..1057d6f 100644
--- a/defines.h
+++ b/defines.h
@@ -788,6 +788,7 @@ struct stack {
   char is_bankheader_section;
   char is_single_instance;
   char has_been_calculated;
+  char is_being_calculated;
   double value;
 };
 
diff --git a/stack.c b/stack.c
index bce041a..da066ee 100644
--- a/stack.c
+++ b/stack.c
@@ -3787,6 +3787,7 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
 static int _try_to_calculate(struct stack_item *st) {
 
   struct stack *s;
+  int result;
 
   s = find_stack_calculation((int)st->value, YES);
   if (s == NULL)
@@ -3802,7 +3803,15 @@ static int _try_to_calculate(struct stack_item *st) {
     return SUCCEEDED;
   }
 
-  if (resolve_stack(s->stack_items, s->stacksize) == SUCCEEDED) {
+  /* does the calculation refer to itself, e.g., ".REDEFINE A A+1" when A wasn't defined before? leave it unresolved, WLALINK reports such loops */
+  if (s->is_being_calculated == YES)
+    return FAILED;
+
+  s->is_being_calculated = YES;
+  result = resolve_stack(s->stack_items, s->stacksize);
+  s->is_being_calculated = NO;
+  
+  if (result == SUCCEEDED) {
     double dou;
 
     if (compute_stack(s, s->stacksize, &dou) == FAILED)
-- 
2.43.0


From c5d920212615c4657c7c309ed225c1100ccd6d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 050/121] fix: \1 given a name that gets defined inside the
 macro evaluates to its definition in calculations

---
 stack.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/stack.c b/stack.c
index da066ee..a3a180f 100644
--- a/stack.c
+++ b/stack.c
@@ -3757,10 +3757,21 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
           s->type = STACK_ITEM_TYPE_VALUE;
           s->value = g_parsed_double;
         }
-        else
+        else {
+          struct definition *tmp_def;
+          
           strcpy(s->string, g_label);
 
-        if (s->can_calculate_deltas == YES) {
+          /* the argument was a label when the .MACRO was called, but has it been .DEFINEd after that? */
+          hashmap_get(g_defines_map, s->string, (void*)&tmp_def);
+          if (tmp_def != NULL) {
+            did_resolve_string = YES;
+            if (_resolve_string(s, cannot_resolve) == FAILED)
+              return FAILED;
+          }
+        }
+
+        if (did_resolve_string == NO && s->can_calculate_deltas == YES) {
           /* delta calculation failed! */
           _remove_can_calculate_deltas_pair(s);
         }
-- 
2.43.0


From e2ceae921d44fb886c18db509194fadacec1b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 051/121] fix: SUPERFREE sections whose own bank is smaller
 than the searched one don't hang the linker

---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 4b69463..d83e2d5 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -982,7 +982,7 @@ static int _write_section_superfree(struct section *s) {
         f = (g_pc_bank + d) % s->alignment;
         if (f > 0)
           g_pc_bank += s->alignment - f;
-        for (; g_pc_bank + s->offset < g_banksizes[s->bank] && g_rom_usage[g_pc_bank + s->offset + d] != 0; g_pc_bank += s->alignment)
+        for (; g_pc_bank + s->offset < g_banksizes[q] && g_rom_usage[g_pc_bank + s->offset + d] != 0; g_pc_bank += s->alignment)
           ;
       }
     }
-- 
2.43.0


From aeeac899c352fe124936896b6b5e88b0ef67b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 052/121] fix: a section alignment of zero or less is refused
 instead of crashing the linker

---
 phase_1.c       | 10 ++++++++++
 wlalink/files.c |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index 0c976a2..cca506d 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -5237,6 +5237,11 @@ int directive_ramsection(void) {
         return FAILED;
       }
 
+      if (g_parsed_int < 1) {
+        print_error(ERROR_DIR, "The alignment of a .RAMSECTION must be at least 1.\n");
+        return FAILED;
+      }
+
       g_sec_tmp->alignment = g_parsed_int;
     }
     /* offset the ramsection? */
@@ -5608,6 +5613,11 @@ int directive_section(void) {
         return FAILED;
       }
 
+      if (g_parsed_int < 1) {
+        print_error(ERROR_DIR, "The alignment of a .SECTION must be at least 1.\n");
+        return FAILED;
+      }
+
       g_sec_tmp->alignment = g_parsed_int;
     }
     /* org? */
diff --git a/wlalink/files.c b/wlalink/files.c
index 3812faa..6542463 100644
--- a/wlalink/files.c
+++ b/wlalink/files.c
@@ -632,6 +632,11 @@ int load_files(char *argv[], int argc) {
             fclose(fop);
             return FAILED;
           }
+          if (alignment < 1) {
+            print_text(NO, "%s:%d: LOAD_FILES: ALIGNMENT must be at least 1.\n", argv[argc - 2], line);
+            fclose(fop);
+            return FAILED;
+          }
         }
         else if (strcaselesscmp(token, "offset") == 0) {
           if (offset_defined == YES) {
-- 
2.43.0


From 2a7054da7d4eab89fdb4df79006229e64040fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 053/121] fix: negative section OFFSETs don't write outside the
 ROM

---
 phase_1.c       | 18 ++++++++++++++++--
 wlalink/write.c | 25 +++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index cca506d..52efa63 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4964,7 +4964,7 @@ int directive_struct(void) {
 
 int directive_ramsection(void) {
 
-  int q, orga_given = -1;
+  int q, orga_given = -1, is_after = NO;
   char c1;
 
   if (g_section_status == ON) {
@@ -5352,6 +5352,7 @@ int directive_ramsection(void) {
 
       after_tmp->alive = YES;
       after_tmp->is_appendto = NO;
+      is_after = YES;
     
       /* get the target section name */
       if (get_next_token() == FAILED) {
@@ -5404,6 +5405,12 @@ int directive_ramsection(void) {
       break;
   }
 
+  /* a negative OFFSET makes sense only when the section is placed AFTER another */
+  if (g_sec_tmp->offset < 0 && is_after == NO) {
+    print_error(ERROR_DIR, "The OFFSET of a .RAMSECTION can be negative only with AFTER.\n");
+    return FAILED;
+  }
+
   s_enum_offset = 0;
   s_last_enum_offset = 0;
   s_max_enum_offset = 0;
@@ -5447,7 +5454,7 @@ int directive_ramsection(void) {
 
 int directive_section(void) {
 
-  int l, q, org_given = -1, orga_given = -1;
+  int l, q, org_given = -1, orga_given = -1, is_after = NO;
   char c1;
 
   if (s_dstruct_status == ON) {
@@ -5918,6 +5925,7 @@ int directive_section(void) {
 
       after_tmp->alive = YES;
       after_tmp->is_appendto = NO;
+      is_after = YES;
     
       /* get the target section name */
       if (get_next_token() == FAILED) {
@@ -5979,6 +5987,12 @@ int directive_section(void) {
       break;
   }
   
+  /* a negative OFFSET makes sense only when the section is placed AFTER another */
+  if (g_sec_tmp->offset < 0 && is_after == NO) {
+    print_error(ERROR_DIR, "The OFFSET of a .SECTION can be negative only with AFTER.\n");
+    return FAILED;
+  }
+
   /* add the namespace to the section's name? */
   if (g_active_file_info_last->namespace[0] != 0 && g_sec_tmp->nspace == NULL) {
     if (add_namespace_to_string(g_sec_tmp->name, sizeof(g_sec_tmp->name), "SECTION") == FAILED)
diff --git a/wlalink/write.c b/wlalink/write.c
index d83e2d5..2b21309 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -289,6 +289,11 @@ static int _after_section_override_ram(struct section *s, char **ram_slots[256],
   }
 
   a = s->after->address + s->after->size + s->offset;
+
+  if (a < 0) {
+    print_text(NO, "INSERT_SECTIONS: RAMSECTION \"%s\" after \"%s\" would start before its slot.\n", s->name, s->after->name);
+    return FAILED;
+  }
   
   s->address = a;
   s->output_address = a;
@@ -338,6 +343,11 @@ static int _insert_rom_after_section(struct section *s) {
 
   s->address = s->after->address + s->after->size + s->offset;
 
+  if (s->address < 0) {
+    print_text(NO, "INSERT_SECTIONS: SECTION \"%s\" after \"%s\" would start before its bank.\n", s->name, s->after->name);
+    return FAILED;
+  }
+
   g_memory_file_id = s->file_id;
   g_banksize = g_banksizes[s->bank];
   g_pc_bank = s->address;
@@ -594,6 +604,11 @@ static int _write_section_absolute(struct section *s) {
     }
 
     s->address = s->after->address + s->after->size + s->offset;
+
+    if (s->address < 0) {
+      print_text(NO, "INSERT_SECTIONS: SECTION \"%s\" after \"%s\" would start before its bank.\n", s->name, s->after->name);
+      return FAILED;
+    }
   }
 
   d = s->address;
@@ -649,6 +664,11 @@ static int _write_section_force(struct section *s) {
     }
 
     s->address = s->after->address + s->after->size + s->offset;
+
+    if (s->address < 0) {
+      print_text(NO, "INSERT_SECTIONS: SECTION \"%s\" after \"%s\" would start before its bank.\n", s->name, s->after->name);
+      return FAILED;
+    }
   }
       
   g_memory_file_id = s->file_id;
@@ -1049,6 +1069,11 @@ static int _write_section_overwrite(struct section *s) {
     }
     
     s->address = s->after->address + s->after->size + s->offset;
+
+    if (s->address < 0) {
+      print_text(NO, "INSERT_SECTIONS: SECTION \"%s\" after \"%s\" would start before its bank.\n", s->name, s->after->name);
+      return FAILED;
+    }
   }
 
   g_memory_file_id = s->file_id;
-- 
2.43.0


From 36fcb9d9ec2d94862e3db085375a096066b1bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 054/121] fix: RAM sections are aligned also when their slot or
 start is not aligned

---
 wlalink/write.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 2b21309..94c28ad 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -1138,7 +1138,8 @@ static int _write_ramsection_force(struct section *s) {
   /* align the starting address */
   overflow = (slot_address + s->address) % s->alignment;
   address = s->address;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
   address += s->offset;
 
   c = g_ram_slots[s->bank][s->slot];
@@ -1196,7 +1197,8 @@ static int _write_ramsection_semisubfree(struct section *s) {
   overflow = slot_address % s->alignment;
   address = 0;
   offset = s->offset;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
 
   c = g_ram_slots[s->bank][s->slot];
   max_address = s->address;
@@ -1266,7 +1268,8 @@ static int _write_ramsection_free_and_semifree(struct section *s) {
   overflow = (slot_address + s->address) % s->alignment;
   address = s->address;
   offset = s->offset;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
 
   c = g_ram_slots[s->bank][s->slot];
   slot_size = g_slots[s->slot].size;
-- 
2.43.0


From 64ebf8da2fe0c7b203434862e7e460175d8f16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 055/121] fix: RAM sections placed AFTER a SEMISUBFREE one are
 not refused for lack of room

---
 wlalink/write.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index 94c28ad..8725414 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -1206,6 +1206,9 @@ static int _write_ramsection_semisubfree(struct section *s) {
     /* AFTER section override! */
     if (_after_section_override_ram(s, g_ram_slots, &address) == FAILED)
       return FAILED;
+
+    /* the limit is about the section we follow */
+    max_address = g_slots[s->slot].size;
   }
   else {
     t = 0;
-- 
2.43.0


From 792bcfcd83b79219ca527cf4f8117d78fe71f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 056/121] fix: negative .ORGs and section ORGs are refused
 instead of writing before the ROM

---
 phase_1.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 52efa63..9116f97 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -2587,7 +2587,7 @@ int directive_org(void) {
   if (q == FAILED)
     return FAILED;
 
-  if (q != SUCCEEDED) {
+  if (q != SUCCEEDED || g_parsed_int < 0) {
     print_error(ERROR_DIR, ".ORG needs a positive or zero integer value.\n");
     return FAILED;
   }
@@ -5180,6 +5180,10 @@ int directive_ramsection(void) {
         print_error(ERROR_DIR, "Cannot get the ORG.\n");
         return FAILED;
       }
+      if (g_parsed_int < 0) {
+        print_error(ERROR_DIR, "ORG must be zero or positive.\n");
+        return FAILED;
+      }
 
       g_sec_tmp->address = g_parsed_int;
     }
@@ -5638,6 +5642,10 @@ int directive_section(void) {
         print_error(ERROR_DIR, "Could not parse the ORG.\n");
         return FAILED;
       }
+      if (g_parsed_int < 0) {
+        print_error(ERROR_DIR, "ORG must be zero or positive.\n");
+        return FAILED;
+      }
 
       org_given = g_parsed_int;
     }
-- 
2.43.0


From 1f501ea3e471eb2d24df49b38a397ed177cdba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 057/121] fix: local labels outside sections stay inside their
 object file

---
 wlalink/analyze.c | 17 ++++++++++++++++-
 wlalink/analyze.h |  2 +-
 wlalink/defines.h |  1 +
 wlalink/discard.c |  4 ++--
 wlalink/main.c    |  2 ++
 wlalink/write.c   | 32 ++++++++++++++++++++++++--------
 6 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 283134a..85fbe7a 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -387,7 +387,7 @@ int free_section(struct section *s) {
 }
 
 
-int find_label(char *str, struct section *s, struct label **out) {
+int find_label(char *str, struct section *s, int file_id, struct label **out) {
 
   char *str2, *stripped;
   char prefix[MAX_NAME_LENGTH*2+2];
@@ -434,6 +434,21 @@ int find_label(char *str, struct section *s, struct label **out) {
       return SUCCEEDED;
     }
   }
+  /* check the object file's local labels (the ones outside sections) */
+  if (str[0] == '_') {
+    struct object_file *o = g_obj_first;
+
+    while (o != NULL) {
+      /* a negative file_id means any object file */
+      if ((file_id < 0 || o->id == file_id) && o->local_label_map != NULL) {
+        if (hashmap_get(o->local_label_map, str, (void*)&l) == MAP_OK) {
+          *out = l;
+          return SUCCEEDED;
+        }
+      }
+      o = o->next;
+    }
+  }
   /* check the global namespace */
   if (hashmap_get(g_global_unique_label_map, str, (void*)&l) == MAP_OK) {
     *out = l;
diff --git a/wlalink/analyze.h b/wlalink/analyze.h
index cd93472..69a0653 100644
--- a/wlalink/analyze.h
+++ b/wlalink/analyze.h
@@ -6,7 +6,7 @@ int free_stack(struct stack *s);
 int add_label(struct label *l);
 int add_section(struct section *s);
 int free_section(struct section *s);
-int find_label(char *name, struct section *context, struct label **l);
+int find_label(char *name, struct section *context, int file_id, struct label **l);
 int parse_data_blocks(void);
 int obtain_source_file_names(void);
 int obtain_memorymap(void);
diff --git a/wlalink/defines.h b/wlalink/defines.h
index 948d200..346d37a 100644
--- a/wlalink/defines.h
+++ b/wlalink/defines.h
@@ -104,6 +104,7 @@ struct object_file {
   struct stack **stacks;
   int stacks_max;
   int stacks_array_max;
+  struct map_t *local_label_map;
   struct object_file *next;
 };
 
diff --git a/wlalink/discard.c b/wlalink/discard.c
index c5aa29a..0e03fb2 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -99,7 +99,7 @@ int discard_iteration(void) {
     else
       s = NULL;
 
-    find_label(r->name, s, &l);
+    find_label(r->name, s, r->file_id, &l);
 
     if (l != NULL && l->section_status == ON) {
       s = l->section_struct;
@@ -133,7 +133,7 @@ int discard_iteration(void) {
     i = 0;
     while (i != st->stacksize) {
       if (si->type == STACK_ITEM_TYPE_LABEL && is_label_anonymous(si->string) == NO) {
-        find_label(si->string, ss, &l);
+        find_label(si->string, ss, st->file_id, &l);
 
         if (l != NULL && l->section_struct != NULL) {
           s = l->section_struct;
diff --git a/wlalink/main.c b/wlalink/main.c
index 9c98013..123895a 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -808,6 +808,8 @@ static void _procedures_at_exit(void) {
     free(g_obj_first->listfile_ints);
     free(g_obj_first->listfile_cmds);
     free(g_obj_first->stacks);
+    if (g_obj_first->local_label_map != NULL)
+      hashmap_free(g_obj_first->local_label_map);
     o = g_obj_first;
     g_obj_first = g_obj_first->next;
     free(o);
diff --git a/wlalink/write.c b/wlalink/write.c
index 8725414..f19ab75 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -101,7 +101,7 @@ int _cbm_write_prg_header(FILE *f) {
     /* find the address of the label */
     struct label *l;
     
-    find_label(g_load_address_label, NULL, &l);
+    find_label(g_load_address_label, NULL, -1, &l);
 
     if (l == NULL) {
       print_text(NO, "_CBM_WRITE_PRG_HEADER: Cannot find label \"%s\".\n", g_load_address_label);
@@ -1799,6 +1799,22 @@ int insert_label_into_maps(struct label* l, int is_sizeof) {
     }
   }
 
+  /* local labels outside sections are visible only inside their object file */
+  if (put_in_anything && l->section_status != ON && base_name[0] == '_' && l->file_id >= 0 && (is_sizeof || l->status == LABEL_STATUS_LABEL)) {
+    struct object_file *o = get_file(l->file_id);
+
+    if (o == NULL)
+      return FAILED;
+    if (o->local_label_map == NULL)
+      o->local_label_map = hashmap_new();
+    if (o->local_label_map == NULL)
+      return FAILED;
+    if (_try_put_label(o->local_label_map, l) == FAILED)
+      return FAILED;
+
+    put_in_global = 0;
+  }
+
   /* put the label into the global namespace */
   if (put_in_anything && put_in_global) {
     if (_try_put_label(g_global_unique_label_map, l) == FAILED)
@@ -2019,7 +2035,7 @@ int fix_references(void) {
         l = &lt;
       }
       else
-        find_label(&r->name[1], s, &l);
+        find_label(&r->name[1], s, r->file_id, &l);
 
       if (l == NULL || l->status == LABEL_STATUS_SYMBOL || l->status == LABEL_STATUS_BREAKPOINT) {
         print_text(NO, "%s: %s:%d: FIX_REFERENCES: Bank number request for an unknown label \"%s\".\n",
@@ -2131,7 +2147,7 @@ int fix_references(void) {
         l = &lt;
       }
       else
-        find_label(r->name, s, &l);
+        find_label(r->name, s, r->file_id, &l);
 
       if (l == NULL || l->status == LABEL_STATUS_SYMBOL || l->status == LABEL_STATUS_BREAKPOINT) {
         print_text(NO, "%s: %s:%d: FIX_REFERENCES: Reference to an unknown label \"%s\".\n",
@@ -2699,7 +2715,7 @@ static int _get_rom_address_of_label(char *label, int *address) {
 
   struct label *l;
 
-  find_label(label, NULL, &l);
+  find_label(label, NULL, -1, &l);
 
   if (l == NULL) {
     print_text(NO, "_GET_ROM_ADDRESS_OF_LABEL: Cannot find label \"%s\".\n", label);
@@ -4259,7 +4275,7 @@ int write_bank_header_references(struct reference *r) {
   t = s->data + r->address;
 
   /* find the destination */
-  find_label(r->name, s, &l);
+  find_label(r->name, s, r->file_id, &l);
   if (l != NULL) {
     a = (int)l->address;
     /* direct 16-bit */
@@ -4473,7 +4489,7 @@ int parse_stack(struct stack *sta) {
           l = &lt;
           }
           else {
-          find_label(&si->string[1], s, &l);
+          find_label(&si->string[1], s, sta->file_id, &l);
 
           if (l != NULL) {
           if (get_file(sta->file_id)->cpu_65816 == YES)
@@ -4520,13 +4536,13 @@ int parse_stack(struct stack *sta) {
           l = &lt;
         }
         else {
-          find_label(si->string, s, &l);
+          find_label(si->string, s, sta->file_id, &l);
 
           /* find matches until something else than a label is found */
           while (l != NULL && l->status == LABEL_STATUS_LABEL) {
             struct label *label_old = l;
             
-            find_label(l->string, s, &l);
+            find_label(l->string, s, sta->file_id, &l);
 
             if (l == NULL) {
               l = label_old;
-- 
2.43.0


From 44c33a8f31542cd17c33d7f27359125cb4e38ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 058/121] fix: calculations see the labels of NAMESPACE
 sections only inside them

---
 defines.h |  1 +
 stack.c   | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/defines.h b/defines.h
index 1057d6f..d592148 100644
--- a/defines.h
+++ b/defines.h
@@ -898,6 +898,7 @@ struct stack_item_priority_item {
 
 struct data_stream_item {
   char label[MAX_NAME_LENGTH + 1];
+  char key[MAX_NAME_LENGTH*2 + 2];
   int  section_id;
   int  address;
   int  bank;
diff --git a/stack.c b/stack.c
index a3a180f..75d3698 100644
--- a/stack.c
+++ b/stack.c
@@ -1532,6 +1532,7 @@ static int _parse_function_math3_base(char **in, struct stack_item *si, int *q,
 
 static struct data_stream_item *s_dsp_parent_labels[10];
 static struct map_t *s_dsp_labels_map = NULL;
+static struct section_def *s_dsp_s = NULL;
 
 
 static struct data_stream_item *_data_stream_parser_find_label(char *label, int file_name_id, int line_number) {
@@ -1562,6 +1563,16 @@ static struct data_stream_item *_data_stream_parser_find_label(char *label, int
     }
   }
 
+  /* inside a .SECTION with a NAMESPACE its labels hide the others */
+  if (s_dsp_s != NULL && s_dsp_s->nspace != NULL) {
+    char namespaced_label[MAX_NAME_LENGTH*2+2];
+
+    sprintf(namespaced_label, "%s.%s", s_dsp_s->nspace->name, mangled_label);
+
+    if (hashmap_get(s_dsp_labels_map, namespaced_label, (void *)&dSI) == MAP_OK)
+      return dSI;
+  }
+  
   hashmap_get(s_dsp_labels_map, mangled_label, (void *)&dSI);
 
   return dSI;
@@ -4871,7 +4882,6 @@ extern FILE *g_file_out_ptr;
 static int s_dsp_last_data_stream_position = 0, s_dsp_has_data_stream_parser_been_initialized = NO, s_dsp_base = -1;
 static int s_dsp_add = 0, s_dsp_add_old = 0, s_dsp_section_id = -1, s_dsp_bits_current = 0, s_dsp_inz;
 static int s_dstruct_start, s_dstruct_item_offset, s_dstruct_item_size, s_dsp_bank = 0, s_dsp_slot = 0;
-static struct section_def *s_dsp_s = NULL;
 static struct data_stream_item *s_data_stream_items_first = NULL, *s_data_stream_items_last = NULL;
 
 
@@ -5346,8 +5356,14 @@ int data_stream_parser_parse(void) {
           dSI->slot = s_dsp_slot;
           dSI->base = s_dsp_base;
 
+          /* labels in .SECTIONs with a NAMESPACE are stored with the namespace */
+          if (s_dsp_s != NULL && s_dsp_s->nspace != NULL)
+            sprintf(dSI->key, "%s.%s", s_dsp_s->nspace->name, dSI->label);
+          else
+            strcpy(dSI->key, dSI->label);
+
           /* store the entry in a hashmap for quick discovery */
-          if (hashmap_put(s_dsp_labels_map, dSI->label, dSI) == MAP_OMEM) {
+          if (hashmap_put(s_dsp_labels_map, dSI->key, dSI) == MAP_OMEM) {
             print_text(NO, "data_stream_parser_parse(): Out of memory error while trying to insert label \"%s\" into a hashmap.\n", dSI->label);
             return FAILED;
           }
-- 
2.43.0


From 46b3ca7d55e8bf10fac4b4cbea14066a9fbd153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 059/121] fix: children of local labels in ISOLATED .MACROs are
 found

---
 phase_3.c | 11 ++++++++---
 phase_4.c |  6 ++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/phase_3.c b/phase_3.c
index c819d33..486bf8d 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -1443,7 +1443,7 @@ int process_macro_out(int id, char *name, int file_name_id, int line_number) {
 
 int add_context_to_anonymous_label(char *label, int label_size, struct label_context *label_context, int file_name_id, int line_number) {
 
-  char new_label[MAX_NAME_LENGTH + 1];
+  char new_label[MAX_NAME_LENGTH + 1], *children = NULL;
   int can_do = NO;
 
   if (is_label_anonymous(label) == YES) {
@@ -1451,15 +1451,20 @@ int add_context_to_anonymous_label(char *label, int label_size, struct label_con
       can_do = YES;
   }
   else if (label[0] == '_') {
-    if (label_context->isolated_macro->isolated_local == YES)
+    /* the context goes into the name of the local label. its child labels might have already got it from there */
+    if (label_context->isolated_macro->isolated_local == YES && strchr(label, ':') == NULL) {
+      children = strchr(label, '@');
       can_do = YES;
+    }
   }
 
   if (can_do == YES) {
     int full_length = (int)strlen(label) + 1 + (int)strlen(label_context->isolated_macro->name) + 1 + (int)strlen(g_asm_name) + 10;
 
     if (full_length < label_size - 1 && full_length < (int)(sizeof(new_label) - 1)) {
-      snprintf(new_label, sizeof(new_label), "%s:%s_%s_%d", label, g_asm_name, label_context->isolated_macro->name, label_context->running_number);
+      int length = (children == NULL) ? (int)strlen(label) : (int)(children - label);
+      
+      snprintf(new_label, sizeof(new_label), "%.*s:%s_%s_%d%s", length, label, g_asm_name, label_context->isolated_macro->name, label_context->running_number, label + length);
       strcpy(label, new_label);
     }
     else {
diff --git a/phase_4.c b/phase_4.c
index 3da17be..9dd30f8 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -1092,6 +1092,12 @@ int phase_4(void) {
             }
           }
             
+          /* local labels have the context of the ISOLATED .MACRO in their names */
+          if (g_tmp[0] == '_' && g_label_context_last->isolated_macro != NULL) {
+            if (add_context_to_anonymous_label(g_tmp, g_sizeof_g_tmp, g_label_context_last, s_filename_id, s_line_number) == FAILED)
+              return FAILED;
+          }
+
           if (m < 10 && find_label(g_tmp, g_sec_tmp, (void*)&l) == SUCCEEDED)
             g_label_context_last->parent_labels[m] = l;
         }
-- 
2.43.0


From f78611cad5f30a3db51106ccd5a41da89a88ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 060/121] fix: early label lookups follow local parents,
 ISOLATED .MACROs and namespaces of .INCLUDEs

---
 defines.h |  1 +
 stack.c   | 98 ++++++++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 91 insertions(+), 8 deletions(-)

diff --git a/defines.h b/defines.h
index d592148..f9c7c27 100644
--- a/defines.h
+++ b/defines.h
@@ -899,6 +899,7 @@ struct stack_item_priority_item {
 struct data_stream_item {
   char label[MAX_NAME_LENGTH + 1];
   char key[MAX_NAME_LENGTH*2 + 2];
+  int  filename_id;
   int  section_id;
   int  address;
   int  bank;
diff --git a/stack.c b/stack.c
index 75d3698..3ef59bf 100644
--- a/stack.c
+++ b/stack.c
@@ -1530,7 +1530,16 @@ static int _parse_function_math3_base(char **in, struct stack_item *si, int *q,
 }
 
 
+extern char g_namespace[MAX_NAME_LENGTH + 1];
+
+/* the parents of child labels, and those outside the ISOLATED .MACRO calls we are in */
+struct dsp_parent_labels {
+  struct data_stream_item *labels[10];
+  struct dsp_parent_labels *next;
+};
+
 static struct data_stream_item *s_dsp_parent_labels[10];
+static struct dsp_parent_labels *s_dsp_outer_parent_labels = NULL;
 static struct map_t *s_dsp_labels_map = NULL;
 static struct section_def *s_dsp_s = NULL;
 
@@ -1554,15 +1563,24 @@ static struct data_stream_item *_data_stream_parser_find_label(char *label, int
     n--;
 
     if (n >= 0) {
-      if (s_dsp_parent_labels[n] == NULL) {
-        print_text(NO, "_DATA_STREAM_PARSER_FIND_LABEL: Parent of label \"%s\" is missing! Please submit a bug report!\n", label);
+      /* no parent? leave this one to wlalink */
+      if (s_dsp_parent_labels[n] == NULL)
         return NULL;
-      }
       if (mangle_label(mangled_label, s_dsp_parent_labels[n]->label, n, MAX_NAME_LENGTH, file_name_id, line_number) == FAILED)
         return NULL;
     }
   }
 
+  /* inside an .INCLUDE with a NAMESPACE the labels of the file hide the others */
+  if (g_namespace[0] != 0) {
+    char namespaced_label[MAX_NAME_LENGTH*2+2];
+
+    sprintf(namespaced_label, "%s.%s", g_namespace, mangled_label);
+
+    if (hashmap_get(s_dsp_labels_map, namespaced_label, (void *)&dSI) == MAP_OK && dSI->filename_id == s_dsp_file_name_id)
+      return dSI;
+  }
+
   /* inside a .SECTION with a NAMESPACE its labels hide the others */
   if (s_dsp_s != NULL && s_dsp_s->nspace != NULL) {
     char namespaced_label[MAX_NAME_LENGTH*2+2];
@@ -4874,7 +4892,7 @@ int stack_create_stack_caddr_offset_plus_n(int type, int data, char *label, int
 #define STRING_READ_FORMAT_NO_SPACE ("%" STRINGIFY(MAX_NAME_LENGTH) "s")
 
 extern struct section_def *g_sections_first, *g_sections_last, *g_sec_tmp, *g_sec_next;
-extern char g_namespace[MAX_NAME_LENGTH + 1];
+extern struct macro_static *g_macros_first;
 extern FILE *g_file_out_ptr;
 
 /* internal variables for data_stream_parser_parse(), saved here so that the function can continue next time it's called from
@@ -4918,8 +4936,67 @@ static int _print_fscanf_error_accessing_internal_data_stream(int file_name_id,
 }
 
 
+static int _dsp_is_macro_isolated(int id) {
+
+  struct macro_static *macro = g_macros_first;
+
+  while (macro != NULL && macro->id != id)
+    macro = macro->next;
+
+  if (macro != NULL && (macro->isolated_local == YES || macro->isolated_unnamed == YES))
+    return YES;
+
+  return NO;
+}
+
+
+static int _dsp_macro_in(int id) {
+
+  struct dsp_parent_labels *p;
+
+  /* an ISOLATED .MACRO has parents of its own */
+  if (_dsp_is_macro_isolated(id) == NO)
+    return SUCCEEDED;
+
+  p = calloc(sizeof(struct dsp_parent_labels), 1);
+  if (p == NULL) {
+    print_error(ERROR_ERR, "Out of memory error while remembering parent labels.\n");
+    return FAILED;
+  }
+
+  memcpy(p->labels, s_dsp_parent_labels, sizeof(s_dsp_parent_labels));
+  p->next = s_dsp_outer_parent_labels;
+  s_dsp_outer_parent_labels = p;
+
+  memset(s_dsp_parent_labels, 0, sizeof(s_dsp_parent_labels));
+
+  return SUCCEEDED;
+}
+
+
+static int _dsp_macro_out(int id) {
+
+  struct dsp_parent_labels *p = s_dsp_outer_parent_labels;
+
+  if (p == NULL || _dsp_is_macro_isolated(id) == NO)
+    return SUCCEEDED;
+
+  memcpy(s_dsp_parent_labels, p->labels, sizeof(s_dsp_parent_labels));
+  s_dsp_outer_parent_labels = p->next;
+  free(p);
+
+  return SUCCEEDED;
+}
+
+
 int data_stream_parser_free(void) {
 
+  while (s_dsp_outer_parent_labels != NULL) {
+    struct dsp_parent_labels *next = s_dsp_outer_parent_labels->next;
+    free(s_dsp_outer_parent_labels);
+    s_dsp_outer_parent_labels = next;
+  }
+
   if (s_dsp_labels_map != NULL) {
     hashmap_free(s_dsp_labels_map);
     s_dsp_labels_map = NULL;
@@ -4993,6 +5070,8 @@ int data_stream_parser_parse(void) {
       err = fscanf(g_file_out_ptr, STRING_READ_FORMAT, temp_s);
       if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
+      if (_dsp_macro_in(temp_1) == FAILED)
+        return FAILED;
       continue;
     case 'I':
       err = fscanf(g_file_out_ptr, "%d ", &temp_1);
@@ -5001,6 +5080,8 @@ int data_stream_parser_parse(void) {
       err = fscanf(g_file_out_ptr, STRING_READ_FORMAT, temp_s);
       if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
+      if (_dsp_macro_out(temp_1) == FAILED)
+        return FAILED;
       continue;
 
     case 'P':
@@ -5314,8 +5395,8 @@ int data_stream_parser_parse(void) {
         if (err < 1)
           return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
         
-        if (is_label_anonymous(dSI->label) == YES || dSI->label[0] == '_') {
-          /* we skip anonymous and local labels here, too much trouble */
+        if (is_label_anonymous(dSI->label) == YES) {
+          /* we skip anonymous labels here, too much trouble */
           free(dSI);
         }
         else {
@@ -5351,6 +5432,7 @@ int data_stream_parser_parse(void) {
         
           dSI->next = NULL;
           dSI->address = s_dsp_add;
+          dSI->filename_id = s_dsp_file_name_id;
           dSI->section_id = s_dsp_section_id;
           dSI->bank = s_dsp_bank;
           dSI->slot = s_dsp_slot;
@@ -5362,8 +5444,8 @@ int data_stream_parser_parse(void) {
           else
             strcpy(dSI->key, dSI->label);
 
-          /* store the entry in a hashmap for quick discovery */
-          if (hashmap_put(s_dsp_labels_map, dSI->key, dSI) == MAP_OMEM) {
+          /* store the entry in a hashmap for quick discovery. local labels are here only as parents */
+          if (dSI->label[0] != '_' && hashmap_put(s_dsp_labels_map, dSI->key, dSI) == MAP_OMEM) {
             print_text(NO, "data_stream_parser_parse(): Out of memory error while trying to insert label \"%s\" into a hashmap.\n", dSI->label);
             return FAILED;
           }
-- 
2.43.0


From 6d97b903c78b783320d019cec826c24d6f1601f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 061/121] fix: the SMS checksum goes to the header's address
 when ROMSIZE is 8KB or 16KB in a bigger ROM

---
 wlalink/compute.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 5714d9e..0badadc 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -458,7 +458,7 @@ int add_tmr_sega(void) {
 
 int compute_sms_checksum(void) {
 
-  int tag_address, j, checksum, checksum_max;
+  int tag_address, header_address, j, checksum, checksum_max;
 
   /* has the checksum already been written by FORCECHECKSUM? */
   if (g_sms_checksum_already_written != 0)
@@ -469,7 +469,8 @@ int compute_sms_checksum(void) {
     return FAILED;
   }
 
-  tag_address = get_sms_tag_address();
+  header_address = get_sms_tag_address();
+  tag_address = header_address;
 
   /* NOTE: this is one only if we have nothing written there as we've then reserved the byte (one write). if we had written to that
      previously then it would be > 1 as reserving it would increase the counter by one... */
@@ -539,15 +540,15 @@ int compute_sms_checksum(void) {
   /* add together ROM SIZE minus SMS/GG header */
   checksum = 0;
   for (j = 0; j < checksum_max; j++) {
-    if (j < tag_address || j >= tag_address + 0x10)
+    if ((j < tag_address || j >= tag_address + 0x10) && (j < header_address || j >= header_address + 0x10))
       checksum += g_rom[j];
   }
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SMS/GG ROM checksum bytes");
   
-  mem_insert_allow_overwrite(tag_address + 0xA, checksum & 0xFF, 1);
-  mem_insert_allow_overwrite(tag_address + 0xB, (checksum >> 8) & 0xFF, 1);
+  mem_insert_allow_overwrite(header_address + 0xA, checksum & 0xFF, 1);
+  mem_insert_allow_overwrite(header_address + 0xB, (checksum >> 8) & 0xFF, 1);
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "???");
-- 
2.43.0


From 103d592d26159d6661f6a1c2abca82fc75e673f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 062/121] fix: the Mega Drive checksum is the sum of big endian
 words

---
 wlalink/compute.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 0badadc..1094696 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -201,7 +201,6 @@ int compute_gb_complement_check(void) {
 
 int compute_smd_checksum(void) {
 
-  unsigned short int *rom = (unsigned short int *)g_rom;
   int checksum, j;
 
   if (g_romsize < 0x1000) {
@@ -211,8 +210,9 @@ int compute_smd_checksum(void) {
 
   checksum = 0;
 
-  for (j = 0x100; j < g_romsize/2; j++)
-    checksum += rom[j];
+  /* the sum of the big endian words after the header */
+  for (j = 0x200; j < g_romsize - 1; j += 2)
+    checksum += (g_rom[j] << 8) | g_rom[j + 1];
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SMD ROM checksum bytes");
-- 
2.43.0


From 2fac9f7a4582aaa5ab9dd20a615cc1c704a7c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 063/121] fix: GB header directives outside .GBHEADER refuse
 values that don't fit in 8 bits

---
 phase_1.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 9116f97..757baf5 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -11343,8 +11343,8 @@ int parse_directive(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED || q < 0) {
-        print_error(ERROR_DIR, ".COUNTRYCODE needs a non-negative value.\n");
+      if (q != SUCCEEDED || g_parsed_int < -128 || g_parsed_int > 255) {
+        print_error(ERROR_DIR, ".COUNTRYCODE needs a 8-bit value, got %d.\n", g_parsed_int);
         return FAILED;
       }
 
@@ -11376,8 +11376,8 @@ int parse_directive(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED) {
-        print_error(ERROR_DIR, ".CARTRIDGETYPE needs an immediate value.\n");
+      if (q != SUCCEEDED || g_parsed_int < -128 || g_parsed_int > 255) {
+        print_error(ERROR_DIR, ".CARTRIDGETYPE needs a 8-bit value, got %d.\n", g_parsed_int);
         return FAILED;
       }
 
@@ -11612,8 +11612,8 @@ int parse_directive(void) {
 
         if (q == FAILED)
           return FAILED;
-        if (q != SUCCEEDED || q < 0) {
-          print_error(ERROR_DIR, ".DESTINATIONCODE needs a non-negative value.\n");
+        if (q != SUCCEEDED || g_parsed_int < -128 || g_parsed_int > 255) {
+          print_error(ERROR_DIR, ".DESTINATIONCODE needs a 8-bit value, got %d.\n", g_parsed_int);
           return FAILED;
         }
 
@@ -12321,8 +12321,8 @@ int parse_directive(void) {
         next_line();
         g_parsed_int = -1;
       }
-      else if (q != SUCCEEDED || g_parsed_int < 0) {
-        print_error(ERROR_DIR, ".ROMSIZE needs a non-negative value.\n");
+      else if (q != SUCCEEDED || g_parsed_int < 0 || g_parsed_int > 255) {
+        print_error(ERROR_DIR, ".ROMSIZE needs a non-negative 8-bit value, got %d.\n", g_parsed_int);
         return FAILED;
       }
 
-- 
2.43.0


From acbaccd4722586c192070016802af6f9051e1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 064/121] fix: ID in .SNESHEADER accepts strings of less than 4
 letters

---
 phase_1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 757baf5..a942915 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9663,7 +9663,7 @@ int directive_snesheader(void) {
       if ((token_result = get_next_token()) == FAILED)
         return FAILED;
 
-      if (token_result != GET_NEXT_TOKEN_STRING || g_tmp[4] != 0) {
+      if (token_result != GET_NEXT_TOKEN_STRING || g_ss > 4) {
         print_error(ERROR_DIR, "ID requires a string of 1 to 4 letters.\n");
         return FAILED;
       }
-- 
2.43.0


From e34ab084101d1a1d8d7f421d7f1f45700a09d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 065/121] fix: negative BASEADDRESS and CHECKSUMSIZE, and
 CHECKSUMSIZE past the ROM, are not used

---
 phase_1.c         | 8 ++++++++
 wlalink/compute.c | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index a942915..9e02862 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -8684,6 +8684,10 @@ int directive_smsheader(void) {
         print_error(ERROR_DIR, "CHECKSUMSIZE needs the number of bytes for calculating the checksum.\n");
         return FAILED;
       }
+      if (g_parsed_int < 0) {
+        print_error(ERROR_DIR, "CHECKSUMSIZE needs a non-negative value, got %d.\n", g_parsed_int);
+        return FAILED;
+      }
 
       g_smschecksumsize = g_parsed_int;
       g_smschecksumsize_defined = 1;
@@ -8720,6 +8724,10 @@ int directive_smsheader(void) {
         print_error(ERROR_DIR, "BASEADDRESS needs an immediate value.\n");
         return FAILED;
       }
+      if (g_parsed_int < 0) {
+        print_error(ERROR_DIR, "BASEADDRESS needs a non-negative value, got %d.\n", g_parsed_int);
+        return FAILED;
+      }
 
       g_romheader_baseaddress = g_parsed_int;
       g_romheader_baseaddress_defined = 1;
diff --git a/wlalink/compute.c b/wlalink/compute.c
index 1094696..4fea073 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -534,8 +534,14 @@ int compute_sms_checksum(void) {
   }
 
   /* OVERRIDE from CHECKSUMSIZE! */
-  if (g_sms_checksum_size_defined != 0)
+  if (g_sms_checksum_size_defined != 0) {
     checksum_max = g_sms_checksum_size;
+
+    if (checksum_max > g_romsize) {
+      print_text(NO, "COMPUTE_SMS_CHECKSUM: Defined CHECKSUMSIZE (%d bytes) is bigger than the ROM image (%d bytes) itself - not calculating the checksum.\n", checksum_max, g_romsize);
+      return FAILED;
+    }
+  }
   
   /* add together ROM SIZE minus SMS/GG header */
   checksum = 0;
-- 
2.43.0


From 70199af52c7ec079c4a0eeab6dcc49d2f6f66627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 066/121] fix: program file output never reads past the ROM,
 writes nothing when nothing is used, and refuses -bE before the first used
 byte

---
 wlalink/write.c | 61 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index f19ab75..21ed9fa 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2741,7 +2741,7 @@ int write_rom_file(char *outname) {
 
   struct section *s;
   FILE *f;
-  int i, b, e;
+  int i, b = 0, e = -1;
   
   /* get the addresses of the program start and end */
   if (g_program_address_start_type == LOAD_ADDRESS_TYPE_LABEL) {
@@ -2753,11 +2753,11 @@ int write_rom_file(char *outname) {
       return FAILED;
   }
 
-  if (g_program_address_start > g_romsize) {
+  if (g_program_address_start >= g_romsize) {
     print_text(NO, "WRITE_ROM_FILE: The supplied -bS ($%x) overflows from the ROM!\n", g_program_address_start);
     return FAILED;
   }
-  if (g_program_address_end > g_romsize) {
+  if (g_program_address_end >= g_romsize) {
     print_text(NO, "WRITE_ROM_FILE: The supplied -bE ($%x) overflows from the ROM!\n", g_program_address_end);
     return FAILED;
   }
@@ -2766,6 +2766,40 @@ int write_rom_file(char *outname) {
     return FAILED;
   }
 
+  /* calculate the program's boundaries */
+  if (g_output_mode != OUTPUT_ROM) {
+    for (i = 0; i < g_romsize; i++) {
+      if (g_rom_usage[i] != 0)
+        break;
+    }
+    b = i;
+    for (e = b; i < g_romsize; i++) {
+      if (g_rom_usage[i] != 0)
+        e = i;
+    }
+
+    /* no used bytes -> the program is empty */
+    if (b == g_romsize) {
+      b = 0;
+      e = -1;
+    }
+
+    /* overrides from the options to WLALINK */
+    if (g_program_address_start >= 0)
+      b = g_program_address_start;
+    if (g_program_address_end >= 0)
+      e = g_program_address_end;
+
+    if (g_program_address_start >= 0 && g_program_address_end < 0 && b > e) {
+      print_text(NO, "WRITE_ROM_FILE: The supplied -bS ($%x) is larger than calculated end ($%x).\n", b, e);
+      return FAILED;
+    }
+    if (g_program_address_start < 0 && g_program_address_end >= 0 && b > e) {
+      print_text(NO, "WRITE_ROM_FILE: The supplied -bE ($%x) is smaller than calculated start ($%x).\n", e, b);
+      return FAILED;
+    }
+  }
+
   f = fopen(outname, "wb");
   if (f == NULL) {
     print_text(NO, "WRITE_ROM_FILE: Error opening file \"%s\" for writing.\n", outname);
@@ -2805,22 +2839,6 @@ int write_rom_file(char *outname) {
   }
   /* program file output mode */
   else {
-    for (i = 0; i < g_romsize; i++) {
-      if (g_rom_usage[i] != 0)
-        break;
-    }
-    b = i;
-    for (e = b; i < g_romsize; i++) {
-      if (g_rom_usage[i] != 0)
-        e = i;
-    }
-
-    /* overrides from the options to WLALINK */
-    if (g_program_address_start >= 0)
-      b = g_program_address_start;
-    if (g_program_address_end >= 0)
-      e = g_program_address_end;
-
     s = g_sec_bankhd_first;
     while (s != NULL) {
       if (s->bank == 0) {
@@ -2833,11 +2851,6 @@ int write_rom_file(char *outname) {
     fwrite(g_rom + b, 1, e - b + 1, f);
     g_program_start = b;
     g_program_end = e;
-
-    if (g_program_address_start >= 0 && g_program_address_end < 0 && b > e) {
-      print_text(NO, "WRITE_ROM_FILE: The supplied -bS ($%x) is larger than calculated end ($%x).\n", b, e);
-      return FAILED;
-    }
   }
 
   if (g_file_footer != NULL)
-- 
2.43.0


From d25a4d49f9f18251bb412d6a952ed11e7f071bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 067/121] fix: .UNBACKGROUND stays inside the ROM and refuses
 negative addresses

---
 phase_1.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 9e02862..ee2108b 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -7072,7 +7072,7 @@ int directive_unbackground(void) {
 
   if (q == FAILED)
     return FAILED;
-  if (q != SUCCEEDED || q < 0) {
+  if (q != SUCCEEDED || g_parsed_int < 0) {
     print_error(ERROR_DIR, ".UNBACKGROUND needs the block's starting address.\n");
     return FAILED;
   }
@@ -7084,7 +7084,7 @@ int directive_unbackground(void) {
 
   if (q == FAILED)
     return FAILED;
-  if (q != SUCCEEDED || q < 0) {
+  if (q != SUCCEEDED || g_parsed_int < 0) {
     print_error(ERROR_DIR, ".UNBACKGROUND needs the block's ending address.\n");
     return FAILED;
   }
@@ -7100,7 +7100,7 @@ int directive_unbackground(void) {
     return FAILED;
   }
   if (end >= g_max_address) {
-    end = g_max_address;
+    end = g_max_address-1;
     print_error(ERROR_WRN, "The block's ending address $%x is beyond the ROM's ending address $%x. Using the ROM's ending address instead.\n", end, g_max_address-1);
   }
   
-- 
2.43.0


From 26677b27bcb7e1a2cff81a66805481f02dcf82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 068/121] fix: WLALINK accepts the documented output type
 c64PRG

---
 wlalink/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/main.c b/wlalink/main.c
index 123895a..3c4c68b 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -1009,7 +1009,7 @@ static int _parse_flags(char **flags, int flagc) {
     else if (!strcmp(flags[count], "-t")) {
       if (count + 1 < flagc) {
         /* get arg */
-        if (!strcmp(flags[count + 1], "CBMPRG"))
+        if (!strcmp(flags[count + 1], "CBMPRG") || !strcmp(flags[count + 1], "c64PRG"))
           g_output_type = OUTPUT_TYPE_CBM_PRG;
         else
           return FAILED;
-- 
2.43.0


From ab591ee40e14667e3f273c62ef239d6131395970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 069/121] fix: wrong command line options end with an error
 exit code

---
 main.c         | 4 +++-
 wlalink/main.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index bee47ab..a793a56 100644
--- a/main.c
+++ b/main.c
@@ -1151,7 +1151,9 @@ int main(int argc, char *argv[]) {
     print_text(YES, "EXAMPLES:\n");
     print_text(YES, "%s -M -t -o main.o main.asm\n", argv[0]);
     print_text(YES, "%s -D VER=1 -D TWO=2 -v -o main.o main.asm\n", argv[0]);
-    return 0;
+
+    /* wrong options are an error, asking for the usage isn't */
+    return argc > 1 ? 1 : 0;
   }
 
   if (strcmp(g_asm_name, g_final_name) == 0) {
diff --git a/wlalink/main.c b/wlalink/main.c
index 3c4c68b..37e5cb5 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -1215,7 +1215,9 @@ int main(int argc, char *argv[]) {
     print_text(YES, "-v2 Verbose messages (-v1 plus short summary)\n");
     print_text(YES, "\n");
     print_text(YES, "EXAMPLE: %s -d -v -S linkfile linked.rom\n\n", argv[0]);
-    return 0;
+
+    /* wrong options are an error, asking for the usage isn't */
+    return argc > 1 ? 1 : 0;
   }
 
   /* initialize some variables */
-- 
2.43.0


From 3411688e266be353aecc1bd1b62403fbfbc17281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 070/121] fix: failed writes of object and library files are
 errors

---
 phase_4.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/phase_4.c b/phase_4.c
index 9dd30f8..268032c 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -2098,6 +2098,19 @@ int phase_4(void) {
 }
 
 
+static int _close_output_file(FILE *final_ptr) {
+
+  int failed = ferror(final_ptr);
+
+  if (fclose(final_ptr) != 0 || failed != 0) {
+    print_text(NO, "INTERNAL_PHASE_2: Error writing file \"%s\".\n", g_final_name);
+    return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
 int write_object_file(void) {
 
   int ind, ov, inz, i;
@@ -2575,9 +2588,7 @@ int write_object_file(void) {
     g_sec_tmp = g_sec_tmp->next;
   }
 
-  fclose(final_ptr);
-
-  return SUCCEEDED;
+  return _close_output_file(final_ptr);
 }
 
 
@@ -2835,9 +2846,7 @@ int write_library_file(void) {
     g_sec_tmp = g_sec_tmp->next;
   }
 
-  fclose(final_ptr);
-
-  return SUCCEEDED;
+  return _close_output_file(final_ptr);
 }
 
 
-- 
2.43.0


From 8166f71fc6cb110c6576004cba72186187599acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 071/121] fix: failed reads and writes end the linking with an
 error

---
 wlalink/files.c    | 52 ++++++++++++++++++++++++++++++++++++++++++----
 wlalink/files.h    |  2 ++
 wlalink/listfile.c | 23 +++++++++++++-------
 wlalink/write.c    | 30 ++++++++++++++++----------
 4 files changed, 85 insertions(+), 22 deletions(-)

diff --git a/wlalink/files.c b/wlalink/files.c
index 6542463..caaf3f7 100644
--- a/wlalink/files.c
+++ b/wlalink/files.c
@@ -1005,6 +1005,12 @@ int load_files(char *argv[], int argc) {
     return FAILED;
   }
 
+  if (ferror(fop) != 0) {
+    print_text(NO, "LOAD_FILES: Error reading file \"%s\".\n", argv[argc - 2]);
+    fclose(fop);
+    return FAILED;
+  }
+
   fclose(fop);
 
   return SUCCEEDED;
@@ -1083,6 +1089,39 @@ int load_file(char *file_name, int bank, int slot, char *slot_name, int fix_slot
 }
 
 
+int close_output_file(FILE *f, char *file_name) {
+
+  int failed = ferror(f);
+
+  if (fclose(f) != 0 || failed != 0) {
+    print_text(NO, "CLOSE_OUTPUT_FILE: Error writing file \"%s\".\n", file_name);
+    return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
+int get_file_size(FILE *f, int *size) {
+
+  long l;
+
+  if (fseek(f, 0, SEEK_END) != 0)
+    return FAILED;
+
+  l = ftell(f);
+  if (l < 0 || l > 0x7FFFFFFE)
+    return FAILED;
+
+  if (fseek(f, 0, SEEK_SET) != 0)
+    return FAILED;
+
+  *size = (int)l;
+
+  return SUCCEEDED;
+}
+
+
 int load_file_data(char *file_name, unsigned char **data, int *size) {
 
   FILE *fop;
@@ -1093,23 +1132,28 @@ int load_file_data(char *file_name, unsigned char **data, int *size) {
     return FAILED;
   }
 
-  fseek(fop, 0, SEEK_END);
-  *size = (int)ftell(fop);
-  fseek(fop, 0, SEEK_SET);
+  if (get_file_size(fop, size) == FAILED) {
+    print_text(NO, "LOAD_FILE_DATA: Could not get the size of file \"%s\".\n", file_name);
+    fclose(fop);
+    return FAILED;
+  }
 
   if (*size == 0) {
     print_text(NO, "LOAD_FILE_DATA: File \"%s\" is empty!\n", file_name);
+    fclose(fop);
     return FAILED;
   }
   
   *data = calloc(*size, 1);
   if (*data == NULL) {
+    print_text(NO, "LOAD_FILE_DATA: Out of memory error.\n");
     fclose(fop);
     return FAILED;
   }
 
   if (fread(*data, 1, *size, fop) != (size_t) *size) {
-    print_text(NO, "LOAD_FILE_DATA: Could not read all %d bytes of \"%s\"!", *size, file_name);
+    print_text(NO, "LOAD_FILE_DATA: Could not read all %d bytes of \"%s\"!\n", *size, file_name);
+    fclose(fop);
     return FAILED;
   }
 
diff --git a/wlalink/files.h b/wlalink/files.h
index afde0ed..cf05f17 100644
--- a/wlalink/files.h
+++ b/wlalink/files.h
@@ -4,6 +4,8 @@
 
 int load_files(char *argv[], int argc);
 int load_file(char *fn, int bank, int slot, char *slot_name, int fix_slot, int base, int base_defined);
+int close_output_file(FILE *f, char *file_name);
+int get_file_size(FILE *f, int *size);
 int load_file_data(char *fn, unsigned char **da, int *size);
 char *get_file_name(int file_id);
 char *get_source_file_name(int file_id, int source_id);
diff --git a/wlalink/listfile.c b/wlalink/listfile.c
index 8b3bd60..01edf97 100644
--- a/wlalink/listfile.c
+++ b/wlalink/listfile.c
@@ -303,11 +303,16 @@ int listfile_write_listfiles(void) {
 
     source_file_name = listfileitems_ptr[j]->sourcefilename;
     f = fopen(source_file_name, "rb");
-    fseek(f, 0, SEEK_END);
-    file_size = (int)ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if (f == NULL || get_file_size(f, &file_size) == FAILED) {
+      print_text(NO, "LISTFILE_WRITE_LISTFILES: Could not read file \"%s\".\n", source_file_name);
+      if (f != NULL)
+        fclose(f);
+      free(listfileitems);
+      free(listfileitems_ptr);
+      return FAILED;
+    }
 
-    source_file = calloc(file_size, 1);
+    source_file = calloc(file_size + 1, 1);
     if (source_file == NULL) {
       print_text(NO, "LISTFILE_WRITE_LISTFILES: Out of memory error.\n");
       fclose(f);
@@ -317,7 +322,7 @@ int listfile_write_listfiles(void) {
     }
 
     if (fread(source_file, 1, file_size, f) != (size_t)file_size) {
-      print_text(NO, "LISTFILE_WRITE_LISTFILES: Could not read all %d bytes of \"%s\"!", file_size, source_file_name);
+      print_text(NO, "LISTFILE_WRITE_LISTFILES: Could not read all %d bytes of \"%s\"!\n", file_size, source_file_name);
       fclose(f);
       free(listfileitems);
       free(listfileitems_ptr);
@@ -520,10 +525,14 @@ int listfile_write_listfiles(void) {
       }
     }
 
-    fclose(f);
-
     if (source_file != NULL)
       free(source_file);
+
+    if (close_output_file(f, tmp) == FAILED) {
+      free(listfileitems);
+      free(listfileitems_ptr);
+      return FAILED;
+    }
   }
 
   if (listfileitems != NULL)
diff --git a/wlalink/write.c b/wlalink/write.c
index 21ed9fa..7f2b4c1 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2656,13 +2656,25 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
 
       /* full rom-output checksum */
       outfile = fopen(outname, "rb");
-      fseek(outfile, 0, SEEK_END);
-      outfile_size = (int)ftell(outfile);
-      fseek(outfile, 0, SEEK_SET);
-      outfile_tmp = calloc(sizeof(char) * outfile_size, 1);
+      if (outfile == NULL || get_file_size(outfile, &outfile_size) == FAILED) {
+        print_text(NO, "WRITE_SYMBOL_FILE: Could not read file \"%s\".\n", outname);
+        if (outfile != NULL)
+          fclose(outfile);
+        fclose(f);
+        return FAILED;
+      }
+      outfile_tmp = calloc(sizeof(char) * outfile_size + 1, 1);
+      if (outfile_tmp == NULL) {
+        print_text(NO, "WRITE_SYMBOL_FILE: Out of memory error.\n");
+        fclose(outfile);
+        fclose(f);
+        return FAILED;
+      }
 
       if (fread(outfile_tmp, 1, outfile_size, outfile) != (size_t) outfile_size) {
-        print_text(NO, "WRITE_SYMBOL_FILE: Could not read all %d bytes of \"%s\"!", outfile_size, outname);
+        print_text(NO, "WRITE_SYMBOL_FILE: Could not read all %d bytes of \"%s\"!\n", outfile_size, outname);
+        fclose(outfile);
+        fclose(f);
         return FAILED;
       }
 
@@ -2705,9 +2717,7 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
     }
   }
 
-  fclose(f);
-
-  return SUCCEEDED;
+  return close_output_file(f, name);
 }
 
 
@@ -2856,9 +2866,7 @@ int write_rom_file(char *outname) {
   if (g_file_footer != NULL)
     fwrite(g_file_footer, 1, g_file_footer_size, f);
 
-  fclose(f);
-
-  return SUCCEEDED;
+  return close_output_file(f, outname);
 }
 
 
-- 
2.43.0


From e6c2b70ccde661849c8568e5d99caab542da6b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 072/121] fix: WLAB ends with an error when it cannot read its
 input or write its output

---
 wlab/main.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/wlab/main.c b/wlab/main.c
index 16ce56d..56c3b58 100644
--- a/wlab/main.c
+++ b/wlab/main.c
@@ -27,6 +27,7 @@ int main(int argc, char *argv[]) {
   unsigned char *in;
   char *name;
   int i, file_size, t, address = 0, result;
+  long size;
 
   result = SUCCEEDED;
 
@@ -58,9 +59,12 @@ int main(int argc, char *argv[]) {
     return 1;
   }
 
-  fseek(fp, 0, SEEK_END);
-  file_size = ftell(fp);
-  fseek(fp, 0, SEEK_SET);
+  if (fseek(fp, 0, SEEK_END) != 0 || (size = ftell(fp)) < 0 || size > 0x7FFFFFFE || fseek(fp, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "MAIN: Could not get the size of file \"%s\".\n", name);
+    fclose(fp);
+    return 1;
+  }
+  file_size = (int)size;
 
   in = calloc(sizeof(char) * file_size, 1);
   if (in == NULL) {
@@ -70,8 +74,9 @@ int main(int argc, char *argv[]) {
   }
 
   if (fread(in, 1, file_size, fp) != (size_t) file_size) {
-    fprintf(stderr, "Could not read all %d bytes of \"%s\"!", file_size, name);
-    return FAILED;
+    fprintf(stderr, "Could not read all %d bytes of \"%s\"!\n", file_size, name);
+    fclose(fp);
+    return 1;
   }
 
   fclose(fp);
@@ -185,6 +190,11 @@ int main(int argc, char *argv[]) {
 
   free(in);
 
+  if (fflush(stdout) != 0 || ferror(stdout) != 0) {
+    fprintf(stderr, "MAIN: Error writing the output.\n");
+    return 1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 48b113f884b5c536d9bc6aac7fdd3a7c1344641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 073/121] fix: source and data files that cannot be read are
 errors

---
 include.c | 38 ++++++++++++++++++++++++++++++++------
 include.h |  1 +
 phase_1.c | 24 +++++++++++++++++-------
 3 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/include.c b/include.c
index 0c0e6f9..f041bd2 100644
--- a/include.c
+++ b/include.c
@@ -185,6 +185,26 @@ int find_file(char *name, FILE **f, int is_full_path) {
 }
 
 
+int get_file_size(FILE *f, int *size) {
+
+  long l;
+
+  if (fseek(f, 0, SEEK_END) != 0)
+    return FAILED;
+
+  l = ftell(f);
+  if (l < 0 || l > 0x7FFFFFFE)
+    return FAILED;
+
+  if (fseek(f, 0, SEEK_SET) != 0)
+    return FAILED;
+
+  *size = (int)l;
+
+  return SUCCEEDED;
+}
+
+
 int include_file(char *name, int *include_size, char *namespace, int is_full_path) {
 
   int file_size, id, change_file_buffer_size, size, isolation_counter, i;
@@ -195,9 +215,11 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
   if (error_code != SUCCEEDED)
     return error_code;
 
-  fseek(f, 0, SEEK_END);
-  file_size = (int)ftell(f);
-  fseek(f, 0, SEEK_SET);
+  if (get_file_size(f, &file_size) == FAILED) {
+    print_error(ERROR_INC, "Could not get the size of \"%s\"!\n", name);
+    fclose(f);
+    return FAILED;
+  }
 
   /* name */
   g_file_name_info_tmp = g_file_name_info_first;
@@ -269,6 +291,7 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
   /* read the whole file into a buffer */
   if (fread(g_include_in_tmp, 1, file_size, f) != (size_t)file_size) {
     print_error(ERROR_INC, "Could not read all %d bytes of \"%s\"!\n", file_size, g_full_name);
+    fclose(f);
     return FAILED;
   }
 
@@ -503,9 +526,11 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
     struct incbin_file_data *ifd2;
     
     /* add the file to our cache */
-    fseek(f, 0, SEEK_END);
-    file_size = (int)ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if (get_file_size(f, &file_size) == FAILED) {
+      print_error(ERROR_INB, "Could not get the size of \"%s\"!\n", name);
+      fclose(f);
+      return FAILED;
+    }
 
     ifd = (struct incbin_file_data *)calloc(sizeof(struct incbin_file_data), 1);
     n = calloc(sizeof(char) * (strlen(g_full_name)+1), 1);
@@ -525,6 +550,7 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
       free(n);
       free(in_tmp);
       print_error(ERROR_INC, "Could not read all %d bytes of \"%s\"!\n", file_size, g_full_name);
+      fclose(f);
       return FAILED;
     }
 
diff --git a/include.h b/include.h
index bee673d..939c959 100644
--- a/include.h
+++ b/include.h
@@ -8,6 +8,7 @@ int preprocess_file(char *c, char *d, char *o, int *s, char *f);
 int create_full_name(char *dir, char *name);
 int print_file_names(char *target_file_name);
 int find_file(char *name, FILE **f, int is_full_path);
+int get_file_size(FILE *f, int *size);
 char *get_file_name(int id);
 
 #endif
diff --git a/phase_1.c b/phase_1.c
index ee2108b..37d386b 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -6240,9 +6240,10 @@ int directive_fsize(void) {
   }
 
   l = ftell(f->f);
-  fseek(f->f, 0, SEEK_END);
-  b = ftell(f->f);
-  fseek(f->f, l, SEEK_SET);
+  if (l < 0 || fseek(f->f, 0, SEEK_END) != 0 || (b = ftell(f->f)) < 0 || fseek(f->f, l, SEEK_SET) != 0) {
+    print_error(ERROR_DIR, "Could not get the size of file \"%s\" (%s).\n", f->filename, g_tmp);
+    return FAILED;
+  }
 
   /* get the definition label */
   if (get_next_token() == FAILED)
@@ -7156,9 +7157,11 @@ int directive_background(void) {
     return FAILED;
   }
 
-  fseek(file_in_ptr, 0, SEEK_END);
-  background_size = (int)ftell(file_in_ptr);
-  fseek(file_in_ptr, 0, SEEK_SET);
+  if (get_file_size(file_in_ptr, &background_size) == FAILED) {
+    print_error(ERROR_DIR, "Could not get the size of .BACKGROUND file \"%s\".\n", g_full_name);
+    fclose(file_in_ptr);
+    return FAILED;
+  }
   
   if (background_size > g_max_address) {
     print_error(ERROR_DIR, ".BACKGROUND file \"%s\" size (%d) is larger than ROM size (%d).\n", g_full_name, background_size, g_max_address);
@@ -7168,7 +7171,8 @@ int directive_background(void) {
 
   memset(g_rom_banks_usage_table, 2, background_size);
   if (fread(g_rom_banks, 1, background_size, file_in_ptr) != (size_t) background_size) {
-    print_error(ERROR_INC, "Could not read all %d bytes of \"%s\"!", background_size, g_full_name);
+    print_error(ERROR_INC, "Could not read all %d bytes of \"%s\"!\n", background_size, g_full_name);
+    fclose(file_in_ptr);
     return FAILED;
   }
 
@@ -10848,6 +10852,12 @@ int directive_stringmaptable(void) {
     strcpy(entry->text, p);
   }
 
+  if (ferror(table_file) != 0) {
+    print_error(ERROR_DIR, "Error reading file \"%s\".\n", map->filename);
+    fclose(table_file);
+    return FAILED;
+  }
+
   fclose(table_file);
 
   return SUCCEEDED;
-- 
2.43.0


From b26a498f98460b3cab4ce876adcaf4538aee14c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 074/121] fix: makefile rules that cannot be written are errors

---
 include.c | 5 +++++
 main.c    | 5 ++++-
 phase_4.c | 6 ++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include.c b/include.c
index f041bd2..1f3f81a 100644
--- a/include.c
+++ b/include.c
@@ -739,6 +739,11 @@ int print_file_names(char *target_file_name) {
     fopens = fopens->next;
   }
 
+  if (fflush(g_makefile_rule_file) != 0 || ferror(g_makefile_rule_file) != 0) {
+    print_text(NO, "PRINT_FILE_NAMES: Error writing the makefile rules.\n");
+    return FAILED;
+  }
+
   return SUCCEEDED;
 }
 
diff --git a/main.c b/main.c
index a793a56..93f0f76 100644
--- a/main.c
+++ b/main.c
@@ -523,8 +523,11 @@ static int _parse_flags(char **flags, int flagc, int *print_usage) {
     else if (!strcmp(flags[count], "-MF")) {
       if (count + 1 < flagc) {
         g_makefile_rule_file = fopen(flags[count+1], "w");
-        if (g_makefile_rule_file == NULL)
+        if (g_makefile_rule_file == NULL) {
+          print_text(NO, "MAIN: Error opening file \"%s\" for writing.\n", flags[count+1]);
+          *print_usage = NO;
           return FAILED;
+        }
       }
       else
         return FAILED;
diff --git a/phase_4.c b/phase_4.c
index 268032c..23d2cef 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -2085,8 +2085,10 @@ int phase_4(void) {
   }
 
   /* output makefile rules */
-  if (g_makefile_rules == YES)
-    print_file_names(g_final_name);
+  if (g_makefile_rules == YES) {
+    if (print_file_names(g_final_name) == FAILED)
+      return FAILED;
+  }
 
   /* show project information */
   if (g_verbose_level >= 2 && g_output_format == OUTPUT_OBJECT)
-- 
2.43.0


From 156c81d681c1db05404db0a753bcd262dbcc8342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 075/121] fix: failed reads and writes of the internal data
 stream are errors

---
 listfile.c |  6 +++++-
 main.c     | 23 +++++++++++++++++++++++
 main.h     |  2 ++
 phase_3.c  |  6 +++++-
 phase_4.c  |  6 +++++-
 stack.c    | 21 ++++++++++++++++-----
 6 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/listfile.c b/listfile.c
index 2e1aa43..cb32b9e 100644
--- a/listfile.c
+++ b/listfile.c
@@ -40,7 +40,8 @@ int listfile_collect(void) {
   char c;
 
   /* rewind to the beginning of the internal data stream */
-  fseek(g_file_out_ptr, 0, SEEK_SET);
+  if (rewind_data_stream() == FAILED)
+    return FAILED;
   
   /* allocate the global listfile data */
   g_global_listfile_ints = calloc(sizeof(int) * g_global_listfile_items * 8, 1);
@@ -503,6 +504,9 @@ int listfile_collect(void) {
     }
   }
 
+  if (check_data_stream() == FAILED)
+    return FAILED;
+
   /* sanity check */
   if (g_global_listfile_items != global_command) {
     print_text(NO, "LISTFILE_COLLECT: Global final listfile item count %d doesn't match the anticipated count %d.\n", global_command, g_global_listfile_items);
diff --git a/main.c b/main.c
index 93f0f76..483ac46 100644
--- a/main.c
+++ b/main.c
@@ -1003,6 +1003,29 @@ int create_tmp_file(FILE ** file_out_ptr) {
 }
 
 
+int check_data_stream(void) {
+
+  if (ferror(g_file_out_ptr) != 0) {
+    print_text(NO, "CHECK_DATA_STREAM: Error accessing the internal data stream.\n");
+    return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
+int rewind_data_stream(void) {
+
+  /* this also flushes the data written so far */
+  if (fseek(g_file_out_ptr, 0, SEEK_SET) != 0) {
+    print_text(NO, "REWIND_DATA_STREAM: Error accessing the internal data stream.\n");
+    return FAILED;
+  }
+
+  return check_data_stream();
+}
+
+
 int main(int argc, char *argv[]) {
 
   int parse_flags_result, print_usage = YES, n_ctr, q, include_size = 0;
diff --git a/main.h b/main.h
index fb040a7..6dda30c 100644
--- a/main.h
+++ b/main.h
@@ -6,5 +6,7 @@
 
 void print_text(int is_stdout, const char *format, ...);
 void print_text_using_args(int is_stdout, const char *format, va_list args);
+int rewind_data_stream(void);
+int check_data_stream(void);
 
 #endif
diff --git a/phase_3.c b/phase_3.c
index 486bf8d..6250367 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -164,7 +164,8 @@ int phase_3(void) {
     print_text(YES, "Internal pass 1...\n");
 
   /* rewind to the beginning of the internal data stream */
-  fseek(g_file_out_ptr, 0, SEEK_SET);
+  if (rewind_data_stream() == FAILED)
+    return FAILED;
 
   /* first loop */
   o = 0;
@@ -1276,6 +1277,9 @@ int phase_3(void) {
     }
   }
 
+  if (check_data_stream() == FAILED)
+    return FAILED;
+
   if (s_blocks != NULL) {
     print_text(NO, "%s:%d: INTERNAL_PHASE_1: .BLOCK \"%s\" was left open.\n", get_file_name(s_blocks->filename_id), s_blocks->line_number, s_blocks->name);
     return FAILED;
diff --git a/phase_4.c b/phase_4.c
index 23d2cef..4d64eb1 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -342,7 +342,8 @@ int phase_4(void) {
     print_text(YES, "Internal pass 2...\n");
 
   /* rewind to the beginning of the internal data stream */
-  fseek(g_file_out_ptr, 0, SEEK_SET);
+  if (rewind_data_stream() == FAILED)
+    return FAILED;
   
   while (fread(&c, 1, 1, g_file_out_ptr) != 0) {
     switch (c) {
@@ -2065,6 +2066,9 @@ int phase_4(void) {
     }
   }
 
+  if (check_data_stream() == FAILED)
+    return FAILED;
+
   /* make sure that the pending calculations we export next have consecutive IDs starting from zero.
      when pending calculations are exported like this the pointer tables in the linker take less memory. */
   if (compress_stack_calculation_ids() == FAILED)
diff --git a/stack.c b/stack.c
index 3ef59bf..961372f 100644
--- a/stack.c
+++ b/stack.c
@@ -5032,7 +5032,10 @@ int data_stream_parser_parse(void) {
     return FAILED;
   }
 
-  fflush(g_file_out_ptr);
+  if (fflush(g_file_out_ptr) != 0 || ferror(g_file_out_ptr) != 0) {
+    print_error(ERROR_STC, "Could not write to the internal data stream.\n");
+    return FAILED;
+  }
 
   if (s_dsp_has_data_stream_parser_been_initialized == NO) {
     /* do the init when we first time come here */
@@ -5044,10 +5047,15 @@ int data_stream_parser_parse(void) {
     s_dsp_labels_map = hashmap_new();
   
     /* seek to the beginning of the file for parsing */
-    fseek(g_file_out_ptr, 0, SEEK_SET);
+    err = fseek(g_file_out_ptr, 0, SEEK_SET);
   }
   else
-    fseek(g_file_out_ptr, s_dsp_last_data_stream_position, SEEK_SET);
+    err = fseek(g_file_out_ptr, s_dsp_last_data_stream_position, SEEK_SET);
+
+  if (err != 0) {
+    print_error(ERROR_STC, "Could not rewind the internal data stream.\n");
+    return FAILED;
+  }
 
   /* parse the internal data stream to find labels and their possibly non-final addresses */
   
@@ -5516,7 +5524,10 @@ int data_stream_parser_parse(void) {
   s_dsp_last_data_stream_position = (int)ftell(g_file_out_ptr);
   
   /* seek to the very end of the file so we can continue writing to it */
-  fseek(g_file_out_ptr, 0, SEEK_END);
+  if (s_dsp_last_data_stream_position < 0 || fseek(g_file_out_ptr, 0, SEEK_END) != 0) {
+    print_error(ERROR_STC, "Could not seek in the internal data stream.\n");
+    return FAILED;
+  }
   
-  return SUCCEEDED;
+  return check_data_stream();
 }
-- 
2.43.0


From 42fcbc97470f45d178d09a9c9ffe16ca5252ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 076/121] fix: list file information can be added to programs
 with namespaces and 16-bit relative references

---
 listfile.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/listfile.c b/listfile.c
index cb32b9e..b36393a 100644
--- a/listfile.c
+++ b/listfile.c
@@ -270,9 +270,7 @@ int listfile_collect(void) {
     case '.':
       continue;
 
-#if defined(W65816)
     case 'M':
-#endif
     case 'r':
       err = fscanf(g_file_out_ptr, "%*s ");
       if (err < 0)
@@ -393,9 +391,15 @@ int listfile_collect(void) {
       continue;
 
     case 't':
-      err = fscanf(g_file_out_ptr, "%*s ");
-      if (err < 0)
+      err = fscanf(g_file_out_ptr, "%d ", &inz);
+      if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+
+      if (inz != 0) {
+        err = fscanf(g_file_out_ptr, "%*s ");
+        if (err < 0)
+          return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+      }
       continue;
       
     case 'Y':
-- 
2.43.0


From 138a0c5cf66442213c940e4dbc73fdb23082a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 077/121] fix: the internal data stream isn't read any further
 after a failed read

---
 listfile.c | 2 +-
 phase_3.c  | 9 ++++++---
 phase_4.c  | 2 +-
 stack.c    | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/listfile.c b/listfile.c
index b36393a..945b33f 100644
--- a/listfile.c
+++ b/listfile.c
@@ -51,7 +51,7 @@ int listfile_collect(void) {
     return FAILED;
   }
 
-  while (fread(&c, 1, 1, g_file_out_ptr) != 0) {
+  while (ferror(g_file_out_ptr) == 0 && fread(&c, 1, 1, g_file_out_ptr) != 0) {
     switch (c) {
 
     case 'j':
diff --git a/phase_3.c b/phase_3.c
index 6250367..3e28aa6 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -171,7 +171,7 @@ int phase_3(void) {
   o = 0;
   if (g_output_format == OUTPUT_OBJECT) {
     /* OUTPUT_OBJECT */
-    while (o == 0 && fread(&c, 1, 1, g_file_out_ptr) != 0) {
+    while (o == 0 && ferror(g_file_out_ptr) == 0 && fread(&c, 1, 1, g_file_out_ptr) != 0) {
       switch (c) {
 
       case ' ':
@@ -614,7 +614,7 @@ int phase_3(void) {
   }
   else {
     /* OUTPUT_LIBRARY */
-    while (o == 0 && fread(&c, 1, 1, g_file_out_ptr) != 0) {
+    while (o == 0 && ferror(g_file_out_ptr) == 0 && fread(&c, 1, 1, g_file_out_ptr) != 0) {
       switch (c) {
 
       case ' ':
@@ -730,8 +730,11 @@ int phase_3(void) {
     }
   }
 
+  if (check_data_stream() == FAILED)
+    return FAILED;
+
   /* second (major) loop */
-  while (fread(&c, 1, 1, g_file_out_ptr) != 0) {
+  while (ferror(g_file_out_ptr) == 0 && fread(&c, 1, 1, g_file_out_ptr) != 0) {
     switch (c) {
 
     case ' ':
diff --git a/phase_4.c b/phase_4.c
index 4d64eb1..214f239 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -345,7 +345,7 @@ int phase_4(void) {
   if (rewind_data_stream() == FAILED)
     return FAILED;
   
-  while (fread(&c, 1, 1, g_file_out_ptr) != 0) {
+  while (ferror(g_file_out_ptr) == 0 && fread(&c, 1, 1, g_file_out_ptr) != 0) {
     switch (c) {
 
       /* SPECIAL CASE ID */
diff --git a/stack.c b/stack.c
index 961372f..1ec23da 100644
--- a/stack.c
+++ b/stack.c
@@ -5059,7 +5059,7 @@ int data_stream_parser_parse(void) {
 
   /* parse the internal data stream to find labels and their possibly non-final addresses */
   
-  while (fread(&c, 1, 1, g_file_out_ptr) != 0) {
+  while (ferror(g_file_out_ptr) == 0 && fread(&c, 1, 1, g_file_out_ptr) != 0) {
     switch (c) {
 
     case ' ':
-- 
2.43.0


From 6f24e9af6f13ea65ae593b410b133745ed2debce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 078/121] fix: padding of structure instances in arrays isn't
 written into the ROM, and dotted instances don't shift RAM section labels

---
 phase_1.c | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 37d386b..90c7ee9 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1748,7 +1748,6 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
   while (si != NULL) {
     int real_si_size = si->size;
     int old_g_enum_offset = s_enum_offset;
-    int old_g_last_enum_offset = s_last_enum_offset;
     
     if (si->type == STRUCTURE_ITEM_TYPE_DOTTED || si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF)
       real_si_size = 0;
@@ -1791,25 +1790,17 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
 
         /* there is padding in the INSTANCEOF */
         if (padding > 0) {
-          if (s_enum_sizeof_pass == NO) {
-            if (g_in_enum == NO && g_in_struct == NO)
-              fprintf(g_file_out_ptr, "x%d %d ", padding, g_emptyfill);
-          }
-          else {
-            if (si->name[0] != '\0') {
-              if (_add_paddingof_definition(tmp, padding) == FAILED)
-                return FAILED;
-            }
+          if (s_enum_sizeof_pass == YES && si->name[0] != '\0') {
+            if (_add_paddingof_definition(tmp, padding) == FAILED)
+              return FAILED;
           }
 
           s_enum_offset += padding;
-          s_last_enum_offset += padding;
         }
 
         if (si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
-          /* this doesn't advance the counters */
+          /* this doesn't advance the offset */
           s_enum_offset = old_g_enum_offset;
-          s_last_enum_offset = old_g_last_enum_offset;
         }
       }
       else {
@@ -1842,24 +1833,18 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
 
           /* there is padding in the INSTANCEOF */
           if (padding > 0) {
-            if (s_enum_sizeof_pass == NO)
-              fprintf(g_file_out_ptr, "x%d %d ", padding, g_emptyfill);
-            else {
-              if (si->name[0] != '\0') {
-                if (_add_paddingof_definition(tmp, padding) == FAILED)
-                  return FAILED;
-              }
+            if (s_enum_sizeof_pass == YES && si->name[0] != '\0') {
+              if (_add_paddingof_definition(tmp, padding) == FAILED)
+                return FAILED;
             }
             
             s_enum_offset += padding;
-            s_last_enum_offset += padding;
           }
         }
 
         if (si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
-          /* this doesn't advance the counters */
+          /* this doesn't advance the offset */
           s_enum_offset = old_g_enum_offset;
-          s_last_enum_offset = old_g_last_enum_offset;
         }
       }
     }
-- 
2.43.0


From 81ab9196474a3d8a7cc07487fa29e8c28fe7b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 079/121] fix: labels of dotted items at the end of a RAM
 section don't overflow or enlarge the section

---
 phase_1.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 90c7ee9..9e80c74 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1678,8 +1678,8 @@ int add_label_to_enum_or_ramsection(char *name, int size) {
     }
     else if (g_in_ramsection == YES) {
       if (s_last_enum_offset != s_enum_offset) {
-        /* this sometimes abuses the "dsb" implementation to move backwards in the ramsection. */
-        fprintf(g_file_out_ptr, "x%d 0 ", s_enum_offset-s_last_enum_offset);
+        /* move to the label, forwards or backwards */
+        fprintf(g_file_out_ptr, "o%d 0 ", s_enum_offset-s_last_enum_offset);
       }
       fprintf(g_file_out_ptr, "k%d ", g_active_file_info_last->line_current);
       /* we skip label emissions for "." (because .ENUM and .RAMSECTION use it as an anonymous label) */
@@ -2152,7 +2152,8 @@ int parse_enum_token(void) {
     if (enum_add_struct_fields("", s_active_struct, 0) == FAILED)
       return FAILED;
 
-    if (s_max_enum_offset > s_last_enum_offset)
+    /* move to the end of the section, dotted items can have labels after it */
+    if (s_max_enum_offset != s_last_enum_offset)
       fprintf(g_file_out_ptr, "o%d 0 ", s_max_enum_offset-s_last_enum_offset);
 
     /* generate a section end label? */
-- 
2.43.0


From 48da67d475b67985d64ae99d4cdbe7d3ddcce79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 080/121] fix: anonymous items can be used many times in a
 structure and have no labels

---
 phase_1.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 9e80c74..2d31f18 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1755,7 +1755,7 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
     if (reverse)
       s_enum_offset -= real_si_size;
 
-    /* make definition for this item */
+    /* make definition for this item. "." is an anonymous item and has no definition */
     if (si->name[0] != '\0') {
       if (basename[0] != '\0')
         snprintf(tmp, sizeof(tmp), "%s.%s", basename, si->name);
@@ -1765,8 +1765,10 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
       if (verify_name_length(tmp) == FAILED)
         return FAILED;
 
-      if (add_label_to_enum_or_ramsection(tmp, si->size) == FAILED)
-        return FAILED;
+      if (strcmp(".", si->name) != 0) {
+        if (add_label_to_enum_or_ramsection(tmp, si->size) == FAILED)
+          return FAILED;
+      }
     }
     else
       snprintf(tmp, sizeof(tmp), "%s", basename);
-- 
2.43.0


From 01dce121b9824b3e9069bcf74b9bce9dac6b197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 081/121] fix: .DSTRUCT handles nameless, dotted, padded and
 numbered instances

---
 phase_1.c | 124 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 69 insertions(+), 55 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 2d31f18..597dc2d 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -3848,6 +3848,36 @@ int directive_name_w65816(void) {
 #endif
 
 
+/* returns the size of one instance, padding included, in an INSTANCEOF item */
+static int _get_instance_size(struct structure_item *si) {
+
+  if (si->defined_size > 0)
+    return si->defined_size;
+  if (si->instance->defined_size > 0)
+    return si->instance->defined_size;
+
+  return si->instance->size;
+}
+
+
+static int _add_dstruct_label(char *name, int size, int generate_labels) {
+
+  char full_label[MAX_NAME_LENGTH + 1];
+
+  if (verify_name_length(name) == FAILED)
+    return FAILED;
+  if (get_full_label(name, full_label) == FAILED)
+    return FAILED;
+
+  if (generate_labels == NO)
+    return SUCCEEDED;
+
+  fprintf(g_file_out_ptr, "k%d L%s ", g_active_file_info_last->line_current, name);
+
+  return add_label_sizeof(full_label, size);
+}
+
+
 /* this is used for legacy .DSTRUCT syntax, and only for generating labels in the new
  * .DSTRUCT syntax. */
 int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int generate_labels) {
@@ -3859,23 +3889,18 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
   /* read the data */
   it = s->items;
   while (it != NULL) {
-    snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
+    /* nameless instances add their fields directly, "." is an anonymous item and has no label */
+    if (it->name[0] != '\0')
+      snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
+    else
+      snprintf(tmpname, sizeof(tmpname), "%s", iname);
     if (verify_name_length(tmpname) == FAILED)
       return FAILED;
 
-    if (it->type != STRUCTURE_ITEM_TYPE_UNION) {
+    if (it->type != STRUCTURE_ITEM_TYPE_UNION && it->name[0] != '\0' && strcmp(".", it->name) != 0) {
       /* add field label */
-      char full_label[MAX_NAME_LENGTH + 1];
-
-      if (generate_labels == YES)
-        fprintf(g_file_out_ptr, "k%d L%s ", g_active_file_info_last->line_current, tmpname);
-    
-      if (get_full_label(tmpname, full_label) == FAILED)
+      if (_add_dstruct_label(tmpname, it->size, generate_labels) == FAILED)
         return FAILED;
-      if (generate_labels == YES) {
-        if (add_label_sizeof(full_label, it->size) == FAILED)
-          return FAILED;
-      }
     }
 
     if (it->type == STRUCTURE_ITEM_TYPE_UNION) {
@@ -3890,26 +3915,15 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
         while (us != NULL) {
           if (us->name[0] != '\0') {
             /* check if the union is named */
-            char full_label[MAX_NAME_LENGTH + 1];
-
             snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, us->name);
-            if (verify_name_length(tmpname) == FAILED)
+            if (_add_dstruct_label(tmpname, us->size, generate_labels) == FAILED)
               return FAILED;
-
-            if (generate_labels == YES)
-              fprintf(g_file_out_ptr, "k%d L%s ", g_active_file_info_last->line_current, tmpname);
-
-            if (get_full_label(tmpname, full_label) == FAILED)
-              return FAILED;
-            if (generate_labels == YES) {
-              if (add_label_sizeof(full_label, us->size) == FAILED)
-                return FAILED;
-            }
           }
           else
             strcpy(tmpname, iname);
 
-          parse_dstruct_entry(tmpname, us, labels_only, generate_labels);
+          if (parse_dstruct_entry(tmpname, us, labels_only, generate_labels) == FAILED)
+            return FAILED;
 
           /* rewind */
           fprintf(g_file_out_ptr, "o%d 0 ", -us->size);
@@ -3920,50 +3934,50 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
         fprintf(g_file_out_ptr, "o%d 0 ", it->size);
       }
     }
-    else if (it->type == STRUCTURE_ITEM_TYPE_INSTANCEOF) {
+    else if (it->type == STRUCTURE_ITEM_TYPE_INSTANCEOF || it->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
       /* handle .INSTANCEOF directive */
-      /* update the naming prefix */
-      snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
-      if (verify_name_length(tmpname) == FAILED)
-        return FAILED;
+      int labels_only_tmp = YES, size = _get_instance_size(it), padding, *labels_only_instance = labels_only;
 
-      if (it->num_instances == 1) {
-        if (parse_dstruct_entry(tmpname, it->instance, labels_only, generate_labels) == FAILED)
-          return FAILED;
-      }
-      else {
-        int labels_only_tmp = YES;
+      padding = size - it->instance->size;
 
-        snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
-      
+      /* dotted instances don't have data of their own */
+      if (it->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF)
+        labels_only_instance = &labels_only_tmp;
+
+      if (it->num_instances > 1) {
         /* we have "struct.instance" and "struct.1.instance" referencing the same data. */
-        parse_dstruct_entry(tmpname, it->instance, &labels_only_tmp, generate_labels);
+        if (parse_dstruct_entry(tmpname, it->instance, &labels_only_tmp, generate_labels) == FAILED)
+          return FAILED;
 
         /* return to start of struct */
         fprintf(g_file_out_ptr, "o%d 0 ", -it->instance->size);
+      }
 
-        for (g = 1; g <= it->num_instances; g++) {
-          int size = it->instance->size;
-
-          if (it->defined_size > 0)
-            size = it->defined_size;
-          
-          snprintf(tmpname, sizeof(tmpname), "%s.%s.%d", iname, it->name, g);
-          if (verify_name_length(tmpname) == FAILED)
+      for (g = 0; g < it->num_instances; g++) {
+        if (it->num_instances > 1) {
+          snprintf(tmpname, sizeof(tmpname), "%s.%s.%d", iname, it->name, it->start_from + g);
+          if (_add_dstruct_label(tmpname, size, generate_labels) == FAILED)
             return FAILED;
+        }
 
-          if (generate_labels == YES)
-            fprintf(g_file_out_ptr, "k%d L%s ", g_active_file_info_last->line_current, tmpname);
+        if (parse_dstruct_entry(tmpname, it->instance, labels_only_instance, generate_labels) == FAILED)
+          return FAILED;
 
-          if (generate_labels == YES) {
-            if (add_label_sizeof(tmpname, size) == FAILED)
-              return FAILED;
+        /* padding in the INSTANCEOF */
+        if (padding > 0) {
+          if (*labels_only_instance == YES)
+            fprintf(g_file_out_ptr, "o%d 0 ", padding);
+          else {
+            for (o = 0; o < padding; o++)
+              fprintf(g_file_out_ptr, "d%d ", g_emptyfill);
           }
-          if (parse_dstruct_entry(tmpname, it->instance, labels_only, generate_labels) == FAILED)
-            return FAILED;
         }
       }
 
+      /* dotted instances don't advance the address */
+      if (it->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF)
+        fprintf(g_file_out_ptr, "o%d 0 ", -it->size);
+
       it = it->next;
       continue;
     }
-- 
2.43.0


From a0465c444711b43419d1513144de441c17f35c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 082/121] fix: .DSTRUCT finds fields of nameless, dotted,
 padded and numbered instances

---
 phase_1.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 597dc2d..ebe2a5e 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4140,9 +4140,18 @@ int find_struct_field(struct structure *s, char *field_name, int *item_size, int
       *item_size = si->size;
       return SUCCEEDED;
     }
+    /* the fields of a nameless ".instanceof" are the structure's own fields */
+    else if (si->name[0] == '\0') {
+      if ((si->type == STRUCTURE_ITEM_TYPE_INSTANCEOF || si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) && si->num_instances <= 1) {
+        if (find_struct_field(si->instance, field_name, item_size, field_offset) == SUCCEEDED) {
+          *field_offset += offset;
+          return SUCCEEDED;
+        }
+      }
+    }
     /* look for prefix for an ".instanceof" */
     else if (after_dot != NULL && strcmp(prefix, si->name) == 0) {
-      if (si->type == STRUCTURE_ITEM_TYPE_INSTANCEOF) {
+      if (si->type == STRUCTURE_ITEM_TYPE_INSTANCEOF || si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
         if (find_struct_field(si->instance, after_dot, item_size, field_offset) == SUCCEEDED) {
           *field_offset += offset;
           return SUCCEEDED;
@@ -4151,25 +4160,22 @@ int find_struct_field(struct structure *s, char *field_name, int *item_size, int
         else if (si->num_instances > 1) {
           int g;
           
-          for (g = 1; g <= si->num_instances; g++) {
+          for (g = 0; g < si->num_instances; g++) {
             char num_str[256];
         
-            snprintf(num_str, sizeof(num_str), "%d", g);
+            snprintf(num_str, sizeof(num_str), "%d", si->start_from + g);
             if (strncmp(num_str, after_dot, strlen(num_str)) == 0) {
-              int size = si->instance->size;
-
-              if (si->defined_size > 0)
-                size = si->defined_size;
+              int size = _get_instance_size(si);
 
               /* entire string matched? */
               if (strcmp(num_str, after_dot) == 0) {
-                *field_offset = offset + (g-1) * size;
+                *field_offset = offset + g * size;
                 *item_size = size;
                 return SUCCEEDED;
               }
               /* only prefix matched */
               if (after_dot[strlen(num_str)] == '.' && find_struct_field(si->instance, after_dot + strlen(num_str) + 1, item_size, field_offset) == SUCCEEDED) {
-                *field_offset += offset + (g-1) * size;
+                *field_offset += offset + g * size;
                 return SUCCEEDED;
               }
             }
-- 
2.43.0


From aa38f9459a4ff2aa1fd0c8a9fb9510d04293bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 083/121] fix: conditionals inside .DSTRUCT VALUES don't end
 the structure

---
 phase_1.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index ebe2a5e..e02b07e 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4357,8 +4357,12 @@ int directive_dstruct(void) {
     q = get_next_token();
 
     while (q == SUCCEEDED) {
-      if ((q2 = parse_if_directive()) != -1)
-        return q2;
+      if (g_tmp[0] == '.' && (q2 = parse_if_directive()) != -1) {
+        if (q2 == FAILED)
+          return FAILED;
+        q = get_next_token();
+        continue;
+      }
       if (strcaselesscmp(g_tmp, ".ENDST") == 0)
         break;
       else {
-- 
2.43.0


From 210bef884b3eefefb989c674a78c6970920864ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 084/121] fix: nameless .DSTRUCT with DATA doesn't define
 labels without the name

---
 phase_1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index e02b07e..dcf13bd 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4435,6 +4435,10 @@ int directive_dstruct(void) {
     }
   }
   
+  /* nameless instances have no labels */
+  if (iname[0] == '\0')
+    generate_labels = NO;
+  
   labels_only = NO;
   if (parse_dstruct_entry(iname, s, &labels_only, generate_labels) == FAILED)
     return FAILED;
-- 
2.43.0


From 69344d113cd724af2d77a6af80ab0e712dca44f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 085/121] fix: discarding follows references through calculated
 definitions and from .BANKHEADER sections

---
 wlalink/defines.h |   1 +
 wlalink/discard.c | 129 ++++++++++++++++++++++++++++------------------
 2 files changed, 80 insertions(+), 50 deletions(-)

diff --git a/wlalink/defines.h b/wlalink/defines.h
index 346d37a..ab7d238 100644
--- a/wlalink/defines.h
+++ b/wlalink/defines.h
@@ -280,6 +280,7 @@ struct stack {
   int special_id;
   int bits_position;
   int bits_to_define;
+  int discard_visit;
 };
 
 struct stack_item {
diff --git a/wlalink/discard.c b/wlalink/discard.c
index 0e03fb2..bf0244c 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -66,14 +66,81 @@ int discard_unused_sections(void) {
 }
 
 
+static int s_discard_visit = 0;
+
+
+static struct section *_find_any_section(int id) {
+
+  struct section *s;
+
+  /* find it in special sections first */
+  s = g_sec_bankhd_first;
+  while (s != NULL && s->id != id)
+    s = s->next;
+  if (s == NULL)
+    s = find_section(id);
+
+  return s;
+}
+
+
+static void _reference_stack(struct stack *st, int section_status, int section);
+
+
+/* section_status and section tell where the reference is. s and file_id tell where the name is looked up */
+static void _reference_label(char *name, struct section *s, int file_id, int section_status, int section) {
+
+  struct label *l;
+
+  find_label(name, s, file_id, &l);
+
+  if (l == NULL)
+    return;
+
+  /* a definition that's a calculation? then the labels inside the calculation are referenced */
+  if (l->status == LABEL_STATUS_STACK) {
+    _reference_stack(find_stack((int)l->address, l->file_id), section_status, section);
+    return;
+  }
+
+  if (l->section_status == ON && l->section_struct != NULL) {
+    if (section_status == OFF)
+      l->section_struct->referenced++;
+    else if (section != l->section_struct->id && _find_any_section(section)->alive == YES)
+      l->section_struct->referenced++;
+  }
+}
+
+
+static void _reference_stack(struct stack *st, int section_status, int section) {
+
+  struct stack_item *si;
+  struct section *s = NULL;
+  int i;
+
+  if (st == NULL || st->discard_visit == s_discard_visit)
+    return;
+
+  st->discard_visit = s_discard_visit;
+
+  if (st->section_status != OFF)
+    s = _find_any_section(st->section);
+
+  si = st->stack_items;
+  for (i = 0; i < st->stacksize; i++, si++) {
+    if (si->type == STACK_ITEM_TYPE_LABEL && is_label_anonymous(si->string) == NO)
+      _reference_label(si->string, s, st->file_id, section_status, section);
+    else if (si->type == STACK_ITEM_TYPE_STACK)
+      _reference_stack(find_stack((int)si->value_ram, si->stack_file_id >= 0 ? si->stack_file_id : st->file_id), section_status, section);
+  }
+}
+
+
 int discard_iteration(void) {
 
   struct reference *r;
-  struct stack_item *si;
-  struct section *s, *ss;
-  struct label *l;
+  struct section *s;
   struct stack *st;
-  int i;
   
   /* check section names for special characters '!', and check if the section is of proper type */
   s = g_sec_first;
@@ -94,64 +161,26 @@ int discard_iteration(void) {
       continue;
     }
 
-    if (r->section_status != 0)
-      s = find_section(r->section);
+    if (r->section_status != OFF)
+      s = _find_any_section(r->section);
     else
       s = NULL;
 
-    find_label(r->name, s, r->file_id, &l);
-
-    if (l != NULL && l->section_status == ON) {
-      s = l->section_struct;
-      if (s == NULL)
-        print_text(NO, "DISCARD_ITERATION: Internal error! Please send a bug report.\n");
-      if (r->section_status == OFF)
-        s->referenced++;
-      else if (r->section != s->id) {
-        ss = g_sec_bankhd_first;
-        /* find it in special sections first */
-        while (ss != NULL && ss->id != r->section)
-          ss = ss->next;
-        if (ss == NULL)
-          ss = find_section(r->section);
-        if (ss->alive == YES)
-          s->referenced++;
-      }
-    }
+    s_discard_visit++;
+    _reference_label(r->name, s, r->file_id, r->section_status, r->section);
+
     r = r->next;
   }
 
   /* loop through computations */
   st = g_stacks_first;
   while (st != NULL) {
-    if (st->section_status != 0)
-      ss = find_section(st->section);
-    else
-      ss = NULL;
-
-    si = st->stack_items;
-    i = 0;
-    while (i != st->stacksize) {
-      if (si->type == STACK_ITEM_TYPE_LABEL && is_label_anonymous(si->string) == NO) {
-        find_label(si->string, ss, st->file_id, &l);
-
-        if (l != NULL && l->section_struct != NULL) {
-          s = l->section_struct;
-          if (st->section_status == OFF)
-            s->referenced++;
-          else if (st->section != s->id) {
-            if (ss->alive == YES)
-              s->referenced++;
-          }
-        }
-      }
-      si++;
-      i++;
-    }
+    s_discard_visit++;
+    _reference_stack(st, st->section_status, st->section);
+
     st = st->next;
   }
 
-
   return SUCCEEDED;
 }
 
-- 
2.43.0


From 124640770b34cf7ea429eeaa10aef6dba5eedef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 086/121] fix: using the size of a label keeps the label's
 section from being discarded

---
 wlalink/discard.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wlalink/discard.c b/wlalink/discard.c
index bf0244c..86953c4 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -94,6 +94,10 @@ static void _reference_label(char *name, struct section *s, int file_id, int sec
 
   find_label(name, s, file_id, &l);
 
+  /* using the size of a label is using the label */
+  if (l == NULL && strncmp(name, "_sizeof_", 8) == 0)
+    find_label(&name[8], s, file_id, &l);
+
   if (l == NULL)
     return;
 
@@ -156,7 +160,7 @@ int discard_iteration(void) {
   r = g_reference_first;
   while (r != NULL) {
     /* references to local labels don't count */
-    if (r->name[0] == '_' || is_label_anonymous(r->name) == YES) {
+    if ((r->name[0] == '_' && strncmp(r->name, "_sizeof_", 8) != 0) || is_label_anonymous(r->name) == YES) {
       r = r->next;
       continue;
     }
-- 
2.43.0


From 313a9b053085d1bf4d7f43e28ab43a18420d708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 087/121] fix: RETURNORG in a library's section doesn't crash
 the assembler

---
 phase_4.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phase_4.c b/phase_4.c
index 214f239..460cde8 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -502,7 +502,10 @@ int phase_4(void) {
       /* some sections don't affect the ORG outside of them */
       if (g_sec_tmp->advance_org == NO) {
         s_pc_bank = add_old;
-        s_pc_full = g_bankaddress[s_rom_bank] + s_pc_bank;
+        /* (libraries don't have banks) */
+        s_pc_full = s_pc_bank;
+        if (g_bankaddress != NULL)
+          s_pc_full += g_bankaddress[s_rom_bank];
         s_pc_slot = g_slots[s_slot].address + s_pc_bank;
         s_pc_slot_max = g_slots[s_slot].address + g_slots[s_slot].size;
       }
-- 
2.43.0


From 81e967c83e18841b3b4d220bf9546350c30fcfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 088/121] fix: the only label of a program gets its _sizeof_ as
 well

---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 7f2b4c1..8f178be 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4998,7 +4998,7 @@ int generate_sizeof_label_definitions(void) {
     l = l->next;
   }
 
-  if (labelsN <= 1)
+  if (labelsN == 0)
     return SUCCEEDED;
 
   labels = calloc(sizeof(struct label *) * labelsN, 1);
-- 
2.43.0


From 49670cff70af195aef668536b999d075aa9d5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 089/121] fix: labels in RAM and the next bank's contents don't
 change the _sizeof_ of labels in ROM

---
 wlalink/write.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 8f178be..24bc273 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4975,6 +4975,21 @@ int generate_ram_bank_usage_labels(void) {
 }
 
 
+static int _is_label_in_ram(struct label *l) {
+
+  int status;
+  
+  if (l->section_struct == NULL)
+    return NO;
+
+  status = l->section_struct->status;
+  if (status == SECTION_STATUS_RAM_FREE || status == SECTION_STATUS_RAM_FORCE || status == SECTION_STATUS_RAM_SEMIFREE || status == SECTION_STATUS_RAM_SEMISUBFREE)
+    return YES;
+
+  return NO;
+}
+
+
 int generate_sizeof_label_definitions(void) {
 
   struct label *l, *lastL, **labels;
@@ -5057,11 +5072,18 @@ int generate_sizeof_label_definitions(void) {
       else {
         /* find the size by examining g_rom_usage */
         int absolute_end, i;
-        
-        if (j == labelsN - 1)
-          absolute_end = g_romsize;
-        else
-          absolute_end = (int)labels[j+1]->rom_address;
+
+        /* the data ends at the end of the bank at the latest... */
+        absolute_end = g_bankaddress[labels[j]->bank] + g_banksizes[labels[j]->bank];
+
+        /* ... and at the next label that is in ROM */
+        for (i = j + 1; i < labelsN; i++) {
+          if (_is_label_in_ram(labels[i]) == NO) {
+            if ((int)labels[i]->rom_address < absolute_end)
+              absolute_end = (int)labels[i]->rom_address;
+            break;
+          }
+        }
 
         /* find the next unused byte or encounter absolute_end */
         for (i = (int)labels[j]->rom_address; i < absolute_end; i++) {
-- 
2.43.0


From 48c5bea89814cf0ce5244b253b1891a4859b0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 090/121] fix: _sizeof_ is right for labels that have the same
 address as another .SECTION's or source file's label

---
 wlalink/analyze.c |  6 ++++++
 wlalink/defines.h |  3 +++
 wlalink/write.c   | 40 ++++++++++++++++++++++++++++++++--------
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 85fbe7a..7483b73 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -459,6 +459,9 @@ int find_label(char *str, struct section *s, int file_id, struct label **out) {
 }
 
 
+static int s_label_order = 0;
+
+
 int add_label(struct label *l) {
 
   l->context[0] = 0;
@@ -470,6 +473,7 @@ int add_label(struct label *l) {
   
   l->next = NULL;
   l->alive = YES;
+  l->order = s_label_order++;
 
   if (g_labels_first == NULL) {
     g_labels_first = l;
@@ -1472,9 +1476,11 @@ static int _append_sections(struct section *s_source, struct section *s_target)
       l->section = s_target->id;
       l->bank = s_target->bank;
       l->slot = s_target->slot;
+      l->part += s_target->appended_parts + 1;
     }
     l = l->next;
   }
+  s_target->appended_parts += s_source->appended_parts + 1;
 
   /* try to adjust SECTIONEND_%s of the target as the target section has grown */
   snprintf(label_tmp, sizeof(label_tmp), "SECTIONEND_%s", s_target->name);
diff --git a/wlalink/defines.h b/wlalink/defines.h
index ab7d238..3859b37 100644
--- a/wlalink/defines.h
+++ b/wlalink/defines.h
@@ -151,6 +151,8 @@ struct label {
   int slot;
   int status;
   int alive;
+  int order;   /* in the order of the source files and object files */
+  int part;    /* in sections that others have been appended to: which of the appended sections the label is from */
   double address;
   double rom_address;
   struct section *section_struct;
@@ -205,6 +207,7 @@ struct section {
   int  alignment;
   int  offset;
   int  appended_to_offset;
+  int  appended_parts;
   int  listfile_items;
   int  *listfile_ints;
   char marked;
diff --git a/wlalink/write.c b/wlalink/write.c
index 24bc273..6bbfccb 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4975,6 +4975,23 @@ int generate_ram_bank_usage_labels(void) {
 }
 
 
+/* sort the labels by address, and labels that have the same address in the order they have in their section */
+static int _sizeof_labels_sort(const void *a, const void *b) {
+
+  const struct label *l1 = *(const struct label * const *)a;
+  const struct label *l2 = *(const struct label * const *)b;
+
+  if (l1->rom_address != l2->rom_address)
+    return l1->rom_address < l2->rom_address ? -1 : 1;
+  if (l1->section != l2->section)
+    return l1->section < l2->section ? -1 : 1;
+  if (l1->part != l2->part)
+    return l1->part - l2->part;
+
+  return l1->order - l2->order;
+}
+
+
 static int _is_label_in_ram(struct label *l) {
 
   int status;
@@ -5037,7 +5054,7 @@ int generate_sizeof_label_definitions(void) {
   }
 
   /* sort the labels by address, smallest first */
-  qsort(labels, labelsN, sizeof(struct label *), _labels_sort);
+  qsort(labels, labelsN, sizeof(struct label *), _sizeof_labels_sort);
 
   /*
     for (j = 0; j < labelsN; j++) {
@@ -5062,12 +5079,18 @@ int generate_sizeof_label_definitions(void) {
     if (ls == NULL) {
       if (labels[j]->section_struct != NULL) {
         /* inside a .SECTION, there are no holes in .SECTIONs so use labels to calculate the size */
-        if (j == labelsN - 1 || labels[j]->section != labels[j+1]->section) {
-          /* last label in this .SECTION */
-          size = labels[j]->section_struct->size - labels[j]->address_in_section;
+        int k;
+
+        /* the last label in this .SECTION ends where the .SECTION ends */
+        size = labels[j]->section_struct->size - labels[j]->address_in_section;
+
+        /* find the next label in the same .SECTION */
+        for (k = j + 1; k < labelsN && labels[k]->rom_address <= labels[j]->rom_address + size; k++) {
+          if (labels[k]->section == labels[j]->section) {
+            size = (int)labels[k]->rom_address - (int)labels[j]->rom_address;
+            break;
+          }
         }
-        else
-          size = (int)labels[j+1]->rom_address - (int)labels[j]->rom_address;
       }
       else {
         /* find the size by examining g_rom_usage */
@@ -5076,9 +5099,10 @@ int generate_sizeof_label_definitions(void) {
         /* the data ends at the end of the bank at the latest... */
         absolute_end = g_bankaddress[labels[j]->bank] + g_banksizes[labels[j]->bank];
 
-        /* ... and at the next label that is in ROM */
+        /* ... and at the next label that is in ROM, but not at the end of the preceding .SECTION */
         for (i = j + 1; i < labelsN; i++) {
-          if (_is_label_in_ram(labels[i]) == NO) {
+          if (_is_label_in_ram(labels[i]) == NO && (labels[i]->section_struct == NULL || labels[i]->rom_address != labels[j]->rom_address ||
+                                                    labels[i]->address_in_section < labels[i]->section_struct->size)) {
             if ((int)labels[i]->rom_address < absolute_end)
               absolute_end = (int)labels[i]->rom_address;
             break;
-- 
2.43.0


From 41e13aa8890f8eebd44edeab72581a491f7b9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 091/121] fix: child labels in isolated macros don't end the
 preceding label's _sizeof_

---
 wlalink/write.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index 6bbfccb..9022964 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4883,6 +4883,10 @@ int is_label_ok_for_sizeof(char *label) {
   if (is_label_anonymous(label) == YES)
     return NO;
 
+  /* a child label of an isolated .MACRO */
+  if (label[0] == '@')
+    return NO;
+
   if (strncmp("SECTIONSTART", label, 12) == 0)
     return NO;
   if (strncmp("SECTIONEND", label, 10) == 0)
-- 
2.43.0


From dbba8e70a77940efa602b62f64448b8d8188447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 092/121] fix: unnamed labels on the line after .INCLUDE are
 accepted

---
 phase_1.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index dcf13bd..b7cf6a0 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -11708,6 +11708,11 @@ int parse_directive(void) {
           g_is_file_isolated_counter--;
         if (g_is_file_isolated_counter == 1)
           g_is_file_isolated_counter = 0;
+
+        /* the text after the .INCLUDE begins a new line */
+        if (g_buffer[g_source_index] == ' ')
+          g_source_index++;
+        g_newline_beginning = ON;
           
         return SUCCEEDED;
       }
-- 
2.43.0


From 76c5cf010a5c031d6cb0d6b39c597800f92debe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 093/121] fix: /*/ begins a block comment but doesn't end it

---
 include.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include.c b/include.c
index 1f3f81a..d8a0197 100644
--- a/include.c
+++ b/include.c
@@ -801,9 +801,12 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
       break;
     case '/':
       if (*(input + 1) == '*') {
+        char *comment_start;
+
         /* remove an ANSI C -style block comment */
         got_chars_on_line = 0;
         input += 2;
+        comment_start = input;
         while (got_chars_on_line == 0) {
           for ( ; input < input_end && *input != '/' && *input != 0x0A; input++)
             ;
@@ -815,7 +818,7 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
             *output = 0x0A;
             output++;
           }
-          if (*input == '/' && *(input - 1) == '*') {
+          if (*input == '/' && input > comment_start && *(input - 1) == '*') {
             got_chars_on_line = 1;
           }
           input++;
-- 
2.43.0


From 34c836d842378b8e7a3165ff54434b22f0e21739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 094/121] fix: .REPT's later rounds keep the line numbers right

---
 phase_1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index b7cf6a0..2e0be10 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -11146,6 +11146,8 @@ int directive_endr_continue(int is_continue) {
     /* roll past the count */
     while (g_buffer[g_source_index++] != 0xA)
       ;
+
+    next_line();
   }
   
   return SUCCEEDED;
-- 
2.43.0


From 0c070c7f5d69af01eac04c4b1606b4d21edda618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 095/121] fix: .ELIF and .ELSE after skipped blocks keep the
 line numbers right

---
 phase_1.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 2e0be10..c61d1c3 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -13044,7 +13044,7 @@ int parse_if_directive(void) {
 
 int find_next_point(char *name) {
 
-  int depth = 1, m, token_result, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index;
+  int depth = 1, m, token_result, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index, line_current_old = line_current;
 
   /* find the next compiling point */
   m = g_macro_active;
@@ -13066,13 +13066,16 @@ int find_next_point(char *name) {
       }
       if (strcaselesscmp(g_current_directive, "ELSE") == 0 && depth == 1) {
         depth--;
-        if (s_skip_elifs[g_ifdef] == YES)
+        if (s_skip_elifs[g_ifdef] == YES) {
           g_source_index = source_index_old;
+          g_active_file_info_last->line_current = line_current_old;
+        }
       }
       if (strcaselesscmp(g_current_directive, "ELIF") == 0 && depth == 1) {
         if (s_skip_elifs[g_ifdef] == NO) {
           /* go backwards so we'll actually parse .ELIF later */
           g_source_index = source_index_old;
+          g_active_file_info_last->line_current = line_current_old;
           depth--;
         }
       }
@@ -13093,8 +13096,10 @@ int find_next_point(char *name) {
       g_get_next_token_use_substitution = YES;
       return SUCCEEDED;
     }
-    else
+    else {
       source_index_old = g_source_index;
+      line_current_old = g_active_file_info_last->line_current;
+    }
   }
 
   /* return the condition's line number */
-- 
2.43.0


From 6239c49607ab0afff5a6cc4f0e258df2a8349dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 096/121] fix: the line after .INCLUDE gets its own line number
 in the object file

---
 phase_1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index c61d1c3..f7185d6 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -11701,6 +11701,10 @@ int parse_directive(void) {
         if (g_open_files == 0)
           return EVALUATE_TOKEN_EOP;
 
+        /* go on from the line after the .INCLUDE */
+        if (g_active_file_info_last != NULL)
+          fprintf(g_file_out_ptr, "k%d ", g_active_file_info_last->line_current);
+
         if (g_extra_definitions == ON) {
           redefine("WLA_FILENAME", 0.0, get_file_name(g_active_file_info_last->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_active_file_info_last->filename_id)));
           redefine("wla_filename", 0.0, get_file_name(g_active_file_info_last->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_active_file_info_last->filename_id)));
-- 
2.43.0


From 039164bea0aa9cfc4908cd46fc50cec2ab82804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 097/121] fix: white space before a block comment over several
 lines is removed

---
 include.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include.c b/include.c
index d8a0197..21a19a0 100644
--- a/include.c
+++ b/include.c
@@ -815,6 +815,9 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
             return FAILED;
           }
           if (*input == 0x0A) {
+            /* take away white space from the end of the line */
+            while (output > out_buffer && *(output - 1) == ' ')
+              output--;
             *output = 0x0A;
             output++;
           }
-- 
2.43.0


From af67da0f9f2ed743d3b566a305d5a728615756ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 098/121] fix: operands may have a block comment after the
 comma

---
 include.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include.c b/include.c
index 21a19a0..b6404d9 100644
--- a/include.c
+++ b/include.c
@@ -833,6 +833,12 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
           output = out_buffer;
         else if (*output != ' ')
           output++;
+
+        /* white space after a comma is removed also behind a comment */
+        if (output > out_buffer && *(output - 1) == ',') {
+          for ( ; input < input_end && (*input == ' ' || *input == 0x09); input++)
+            ;
+        }
       }
       else if (*(input + 1) == '/') {
         /* C++ style comment -> clear a commented line */
-- 
2.43.0


From 8501437b0c1cf72a9360af87083462d696c9b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 099/121] fix: .ENDM ends a macro in any letter case

---
 phase_1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index f7185d6..2ad22ff 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9353,7 +9353,7 @@ int directive_macro(void) {
       print_error(ERROR_DIR, "MACRO \"%s\" wasn't terminated with .ENDM.\n", m->name);
       return FAILED;
     }
-    else if ((strncmp(&g_buffer[g_source_index], ".ENDM", 5) == 0 || strncmp(&g_buffer[g_source_index], ".endm", 5) == 0) && (g_buffer[g_source_index + 5] == 0x0A || g_buffer[g_source_index + 5] == ' ')) {
+    else if (strcaselesscmpn(&g_buffer[g_source_index], ".ENDM", 5) == 0 && (g_buffer[g_source_index + 5] == 0x0A || g_buffer[g_source_index + 5] == ' ')) {
       g_source_index += 5;
       break;
     }
-- 
2.43.0


From eaed07a0afaf35c105aa575e969419d860193ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 100/121] fix: files found in the current directory are known
 by their own names

---
 include.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include.c b/include.c
index b6404d9..82b19fb 100644
--- a/include.c
+++ b/include.c
@@ -163,10 +163,12 @@ int find_file(char *name, FILE **f, int is_full_path) {
     return SUCCEEDED;
 
   /* if failed try to find the file in the current directory */
-  (*f) = fopen(name, "rb");
+  _try_open_file(NULL, name, f);
   if (*f != NULL)
     return SUCCEEDED;
 
+  create_full_name(g_include_dir, name);
+
   /* if we can't find the file, but are only printing makefile rules, silently use an empty file */
   /* a warning might be nice */
   if (g_makefile_skip_file_handling == YES) {
-- 
2.43.0


From d52dad2a4376e0803f6933c036fe282956d6c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 101/121] fix: LATESTDIR knows the directories of files found
 using LATESTDIR and RELATIVEDIR

---
 include.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include.c b/include.c
index 82b19fb..eaf9902 100644
--- a/include.c
+++ b/include.c
@@ -135,9 +135,7 @@ int find_file(char *name, FILE **f, int is_full_path) {
   int index;
 
   if (is_full_path == YES) {
-    create_full_name(NULL, name);
-    
-    (*f) = fopen(name, "rb");
+    _try_open_file(NULL, name, f);
     if (*f != NULL)
       return SUCCEEDED;
 
-- 
2.43.0


From 2db6416323422a817e5cac94f3fe03dafe8b97ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 102/121] fix: .INCLUDE in a .REPT keeps the positions of the
 macros behind it

---
 phase_1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 2ad22ff..5307b18 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4807,8 +4807,8 @@ int directive_include(int is_real) {
     if (include_file(path, &include_size, namespace, is_full_path) == FAILED)
       return FAILED;
   
-    /* WARNING: this is tricky: did we just include a file inside a macro? */
-    if (g_macro_active != 0) {
+    /* WARNING: this is tricky: did we just include a file inside a macro or a loop? */
+    if (g_macro_active != 0 || s_repeat_active > 0) {
       /* yes. note that the now we added new bytes after g_source_index, so if a macro_return_i is
          bigger than g_source_index, we'll need to add the bytes to it */
       struct macro_static *ms;
-- 
2.43.0


From f4af62a37c367dd672891cb9d17804950186b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 103/121] fix: files in include directories don't hide the main
 source file

---
 main.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 483ac46..28bf961 100644
--- a/main.c
+++ b/main.c
@@ -1028,7 +1028,8 @@ int rewind_data_stream(void) {
 
 int main(int argc, char *argv[]) {
 
-  int parse_flags_result, print_usage = YES, n_ctr, q, include_size = 0;
+  int parse_flags_result, print_usage = YES, n_ctr, q, include_size = 0, is_full_path = NO;
+  FILE *f;
   PROFILE_VARIABLES();
 
   if (sizeof(double) != 8) {
@@ -1197,7 +1198,14 @@ int main(int argc, char *argv[]) {
   g_commandline_parsing = OFF;
 
   /* start the process */
-  if (include_file(g_asm_name, &include_size, NULL, NO) == FAILED)
+  /* include directories are not for the main file, unless it's not where the command line says it is */
+  f = fopen(g_asm_name, "rb");
+  if (f != NULL) {
+    is_full_path = YES;
+    fclose(f);
+  }
+
+  if (include_file(g_asm_name, &include_size, NULL, is_full_path) == FAILED)
     return 1;
 
   PROFILE_START();  
-- 
2.43.0


From 37dbe1f45b5069fa15a2bd6aefadbcb979390150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 104/121] fix: .STRINGMAPTABLE searches the include directories
 and the current directory for its file

---
 phase_1.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 5307b18..494e299 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -10759,23 +10759,17 @@ int directive_stringmaptable(void) {
     return FAILED;
   }
 
-  /* apply any include dir and convert the path to local enviroment */
-  create_full_name(g_include_dir, g_label);
-  localize_path(g_full_name);
+  /* convert the path to local enviroment */
+  localize_path(g_label);
+
+  /* a missing file is an empty map in makefile mode */
+  if (find_file(g_label, &table_file, NO) == FAILED)
+    return FAILED;
 
   map->filename = _string_duplicate(g_full_name);
   if (map->filename == NULL) {
     print_error(ERROR_ERR, "STRINGMAPTABLE: Out of memory error.\n");
-    return FAILED;
-  }
-
-  table_file = fopen(map->filename, "r");
-  if (table_file == NULL) {
-    if (g_makefile_skip_file_handling == YES) {
-      /* if in makefile mode, this is not an error, we just make an empty map */
-      return SUCCEEDED;
-    }
-    print_error(ERROR_DIR, "Error opening file \"%s\".\n", map->filename);
+    fclose(table_file);
     return FAILED;
   }
 
-- 
2.43.0


From e737dbcb4feeb472619680367b19d54c089ad241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 105/121] fix: dependency rules name the files .FOPEN opens
 with their directories

---
 phase_1.c | 69 +++++++++++++++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 494e299..ac541fe 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -6098,41 +6098,6 @@ int directive_fopen(void) {
   }
   strcpy(c, g_label);
 
-  string = g_fopen_filenames_first;
-  while (string != NULL) {
-    if (strcmp(c, string->string) == 0)
-      break;
-    string = string->next;
-  }
-
-  if (string == NULL) {
-    /* remember the file name for makefile generation */
-    string = calloc(sizeof(struct string), 1);
-    if (string == NULL) {
-      print_error(ERROR_DIR, "Out of memory error.\n");
-      free(c);
-      return FAILED;
-    }
-    string->string = calloc(strlen(g_label) + 1, 1);
-    if (string->string == NULL) {
-      print_error(ERROR_DIR, "Out of memory error.\n");
-      free(c);
-      free(string);
-      return FAILED;
-    }
-    strcpy(string->string, g_label);
-    string->next = NULL;
-
-    if (g_fopen_filenames_first == NULL) {
-      g_fopen_filenames_first = string;
-      g_fopen_filenames_last = string;
-    }
-    else {
-      g_fopen_filenames_last->next = string;
-      g_fopen_filenames_last = string;
-    }
-  }
-  
   /* get the file pointer name */
   if (get_next_token() == FAILED) {
     free(c);
@@ -6193,6 +6158,40 @@ int directive_fopen(void) {
     }
   }
 
+  /* the file's name is now in g_full_name */
+  string = g_fopen_filenames_first;
+  while (string != NULL) {
+    if (strcmp(g_full_name, string->string) == 0)
+      break;
+    string = string->next;
+  }
+
+  if (string == NULL) {
+    /* remember the file name for makefile generation */
+    string = calloc(sizeof(struct string), 1);
+    if (string == NULL) {
+      print_error(ERROR_DIR, "Out of memory error.\n");
+      return FAILED;
+    }
+    string->string = calloc(strlen(g_full_name) + 1, 1);
+    if (string->string == NULL) {
+      print_error(ERROR_DIR, "Out of memory error.\n");
+      free(string);
+      return FAILED;
+    }
+    strcpy(string->string, g_full_name);
+    string->next = NULL;
+
+    if (g_fopen_filenames_first == NULL) {
+      g_fopen_filenames_first = string;
+      g_fopen_filenames_last = string;
+    }
+    else {
+      g_fopen_filenames_last->next = string;
+      g_fopen_filenames_last = string;
+    }
+  }
+
   return SUCCEEDED;
 }
 
-- 
2.43.0


From 571f99f305bcdb5ce24ac36144ac7136e3c4eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 106/121] fix: strings in skipped .ELSE and .REPT blocks aren't
 substituted

---
 phase_1.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index ac541fe..f409739 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9382,12 +9382,16 @@ static int _find_next_endr(void) {
   /* disable macro decoding */
   g_macro_active = 0;
 
+  /* don't use substitution in get_next_token() */
+  g_get_next_token_use_substitution = NO;
+
   while ((token_result = get_next_token()) != FAILED) {
     if (_is_token_directive(token_result) == YES) {
       if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
         r--;
         if (r == 0) {
           g_macro_active = m;
+          g_get_next_token_use_substitution = YES;
           return SUCCEEDED;
         }
       }
@@ -12713,6 +12717,9 @@ int parse_if_directive(void) {
     /* disable macro decoding */
     g_macro_active = 0;
 
+    /* don't use substitution in get_next_token() */
+    g_get_next_token_use_substitution = NO;
+
     while ((token_result = get_next_token()) != FAILED) {
       if (_is_token_directive(token_result) == YES) {
         if (strcaselesscmp(g_current_directive, "ENDIF") == 0)
@@ -12728,6 +12735,7 @@ int parse_if_directive(void) {
         if (_decrease_ifdef() == FAILED)
           return FAILED;
         g_macro_active = m;
+        g_get_next_token_use_substitution = YES;
         return SUCCEEDED;
       }
     }
-- 
2.43.0


From 8eae35d374966531c966f35ce29507a86ce58163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 107/121] fix: skipped text may have .INCLUDEs that were not
 skipped in earlier rounds

---
 phase_1.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index f409739..8f07b4b 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4687,6 +4687,39 @@ void get_dir(char *full_path, char *tmp) {
 }
 
 
+/* text that is skipped can have files that were included when it wasn't skipped in earlier rounds */
+static void _skip_included_file_in_skipped_text(void) {
+
+  static char start[] = "\n.CHANGEFILE ", end[] = "\n.E ";
+  int start_length = (int)strlen(start), end_length = (int)strlen(end), depth = 1;
+
+  if (strcaselesscmp(g_current_directive, "CHANGEFILE") != 0)
+    return;
+
+  /* the line feed before .CHANGEFILE isn't in the source file */
+  g_active_file_info_last->line_current--;
+
+  while (depth > 0 && g_source_index < g_source_file_size) {
+    if (strncmp(&g_buffer[g_source_index], start, start_length) == 0) {
+      depth++;
+      g_source_index += start_length;
+    }
+    else if (strncmp(&g_buffer[g_source_index], end, end_length) == 0) {
+      depth--;
+      g_source_index += end_length;
+
+      /* an .INCLUDE without a line feed at the end of a file? */
+      while (depth > 0 && strncmp(&g_buffer[g_source_index], &end[1], end_length - 1) == 0) {
+        depth--;
+        g_source_index += end_length - 1;
+      }
+    }
+    else
+      g_source_index++;
+  }
+}
+
+
 int directive_include(int is_real) {
 
   int o, include_size = 0, accumulated_name_length = 0, character_c_position = 0, got_once = NO, is_full_path = NO;
@@ -9387,6 +9420,8 @@ static int _find_next_endr(void) {
 
   while ((token_result = get_next_token()) != FAILED) {
     if (_is_token_directive(token_result) == YES) {
+      _skip_included_file_in_skipped_text();
+
       if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
         r--;
         if (r == 0) {
@@ -11036,6 +11071,8 @@ int directive_break(void) {
 
   while ((token_result = get_next_token()) != FAILED) {
     if (_is_token_directive(token_result) == YES) {
+      _skip_included_file_in_skipped_text();
+
       if (strcaselesscmp(g_current_directive, "E") == 0)
         break;
       if (strcaselesscmp(g_current_directive, "REPT") == 0 || strcaselesscmp(g_current_directive, "REPEAT") == 0 ||
@@ -12722,6 +12759,8 @@ int parse_if_directive(void) {
 
     while ((token_result = get_next_token()) != FAILED) {
       if (_is_token_directive(token_result) == YES) {
+        _skip_included_file_in_skipped_text();
+
         if (strcaselesscmp(g_current_directive, "ENDIF") == 0)
           r--;
         if (strcaselesscmp(g_current_directive, "E") == 0)
@@ -13062,6 +13101,8 @@ int find_next_point(char *name) {
 
   while ((token_result = get_next_token()) != FAILED) {
     if (_is_token_directive(token_result) == YES) {
+      _skip_included_file_in_skipped_text();
+
       if (strcaselesscmp(g_current_directive, "ENDIF") == 0) {
         depth--;
         if (depth == 0)
-- 
2.43.0


From 17192978ab2046f33e6e9987d418528499990388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 108/121] fix: WLALINK keeps only the first of the sections
 that share a name beginning with two underlines

---
 wlalink/analyze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 7483b73..4c68c2a 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -2192,7 +2192,7 @@ int clean_up_dlr(void) {
 
   while (se != NULL) {
     /* remove duplicates of unique sections and all the related data */
-    if (strlen(se->name) >= 3 && se->name[0] == '!' && se->name[1] == '_' && se->name[2] == '_') {
+    if (strncmp(se->name, "__", 2) == 0 || strncmp(se->name, "!__", 3) == 0) {
       c1 = se->name[0];
       sec = se->next;
       while (sec != NULL) {
-- 
2.43.0


From 055d3bfe3af952355d7034783084d7f84dd124ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 109/121] fix: WLALINK's address-to-line mapping reads the line
 records with their real size and follows appended sections

---
 wlalink/write.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 9022964..65a34a0 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2695,21 +2695,37 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
 
       s = g_sec_first;
       while (s != NULL) {
+        struct section *target = s;
+
         /* parse the list file information */
         list_address_offset = 0;
         list_source_file = -1;
+
+        /* this loop finds the target of possibly chained appendto sections */
+        while (target->appended_to == YES) {
+          list_address_offset += target->appended_to_offset;
+          target = target->appended_to_section;
+        }
+
+        /* skip all dropped sections */
+        if (target->alive == NO) {
+          s = s->next;
+          continue;
+        }
+
         for (list_cmd_idx = 0; list_cmd_idx < s->listfile_items; list_cmd_idx++) {
           list_cmd = s->listfile_cmds[list_cmd_idx];
           if (list_cmd == 'k') {
             /* new line */
-            if (s->listfile_ints[list_cmd_idx * 3 + 1] > 0) {
-              fprintf(f, "%.8x %.2x:%.4x %.4x %.4x:%.4x:%.8lx\n", s->output_address + list_address_offset, s->bank + s->base, s->address + list_address_offset, g_slots[s->slot].address + s->address + list_address_offset, s->file_id + 1, list_source_file, (long unsigned int)s->listfile_ints[list_cmd_idx * 3 + 0]);
-              list_address_offset += s->listfile_ints[list_cmd_idx * 3 + 1];
+            list_address_offset += s->listfile_ints[list_cmd_idx * 5 + 2];
+            if (s->listfile_ints[list_cmd_idx * 5 + 1] > 0) {
+              fprintf(f, "%.8x %.2x:%.4x %.4x %.4x:%.4x:%.8lx\n", target->output_address + list_address_offset, target->bank + target->base, target->address + list_address_offset, g_slots[target->slot].address + target->address + list_address_offset, s->file_id + 1, list_source_file, (long unsigned int)s->listfile_ints[list_cmd_idx * 5 + 4]);
+              list_address_offset += s->listfile_ints[list_cmd_idx * 5 + 1];
             }
           }
           else if (list_cmd == 'f') {
             /* another file */
-            list_source_file = s->listfile_ints[list_cmd_idx * 3 + 0];
+            list_source_file = s->listfile_ints[list_cmd_idx * 5 + 0];
           }
         }
         s = s->next;
-- 
2.43.0


From 34d610fbf2cf5b2dfd0eaf3b9d0597aa9d60fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 110/121] fix: the line records of .DSTRUCT's values have the
 right addresses

---
 listfile.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/listfile.c b/listfile.c
index 945b33f..b12905b 100644
--- a/listfile.c
+++ b/listfile.c
@@ -141,7 +141,6 @@ int listfile_collect(void) {
       continue;
 
     case 'x':
-    case 'o':
       err = fscanf(g_file_out_ptr, "%d %*d ", &inz);
       if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
@@ -150,6 +149,19 @@ int listfile_collect(void) {
       origin += inz;
       continue;
 
+    case 'o':
+      err = fscanf(g_file_out_ptr, "%d %*d ", &inz);
+      if (err < 1)
+        return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+
+      /* 'o' moves without writing anything */
+      if (add == 0)
+        skip += inz;
+      else
+        add += inz;
+      origin += inz;
+      continue;
+
     case 'X':
       err = fscanf(g_file_out_ptr, "%d %*d ", &inz);
       if (err < 1)
@@ -441,6 +453,12 @@ int listfile_collect(void) {
       continue;
 
     case 'k':
+      /* no bytes were written, we just moved backwards */
+      if (add < 0) {
+        skip += add;
+        add = 0;
+      }
+
       /* all listfile data produced by .MACROs are put where they are called from */
       if (inside_macro > 0 || inside_repeat > 0) {
         err = fscanf(g_file_out_ptr, "%d ", &real_line_number);
@@ -497,9 +515,16 @@ int listfile_collect(void) {
         return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
       
       if (y == -1) /* Mark start of .DSTRUCT */
-        dstruct_start = add;
-      else
-        add = dstruct_start + x;
+        dstruct_start = origin;
+      else {
+        /* move to an offset relative to the start of .DSTRUCT, the values can be on many lines */
+        inz = dstruct_start + x - origin;
+        if (add == 0)
+          skip += inz;
+        else
+          add += inz;
+        origin += inz;
+      }
       continue;
 
     default:
-- 
2.43.0


From 6f5e1c209e124c4c6a05631165370976515c9318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 111/121] fix: bytes before the middle of a line belong to the
 line itself in the line records

---
 listfile.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/listfile.c b/listfile.c
index b12905b..1ce7adc 100644
--- a/listfile.c
+++ b/listfile.c
@@ -35,7 +35,7 @@ int listfile_collect(void) {
 
   int add = 0, skip = 0, file_name_id = 0, inz, line_number = 0, command = 0, global_command = 0, inside_macro = 0, inside_repeat = 0;
   int x, y, dstruct_start = -1, bits_current = 0, base = 0, bank = 0, origin = 0, origin_old = 0, slot = 0, running_id = 0;
-  int real_line_number = 0, err;
+  int real_line_number = 0, last_line_number = -1, is_same_line, err;
   struct section_def *section = NULL;
   char c;
 
@@ -55,11 +55,13 @@ int listfile_collect(void) {
     switch (c) {
 
     case 'j':
+      last_line_number = -1;
       inside_repeat++;
       /* HACK! */
       line_number += 2;
       continue;
     case 'J':
+      last_line_number = -1;
       inside_repeat--;
       continue;
 
@@ -68,6 +70,7 @@ int listfile_collect(void) {
       if (err < 0)
         return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
 
+      last_line_number = -1;
       inside_macro++;
       /* HACK! */
       line_number--;
@@ -77,6 +80,7 @@ int listfile_collect(void) {
       if (err < 0)
         return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
 
+      last_line_number = -1;
       inside_macro--;
       continue;
 
@@ -425,7 +429,9 @@ int listfile_collect(void) {
       err = fscanf(g_file_out_ptr, "%d ", &file_name_id);
       if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
-      
+
+      last_line_number = -1;
+
       if (section != NULL) {
         /* terminate the previous line */
         section->listfile_ints[command*5 + 1] = add;
@@ -459,16 +465,22 @@ int listfile_collect(void) {
         add = 0;
       }
 
+      /* the line number can be repeated in the middle of a line */
+      err = fscanf(g_file_out_ptr, "%d ", &inz);
+      if (err < 1)
+        return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+
+      if (inz == last_line_number)
+        is_same_line = YES;
+      else
+        is_same_line = NO;
+      last_line_number = inz;
+
       /* all listfile data produced by .MACROs are put where they are called from */
-      if (inside_macro > 0 || inside_repeat > 0) {
-        err = fscanf(g_file_out_ptr, "%d ", &real_line_number);
-        if (err < 1)
-          return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
-      }
+      if (inside_macro > 0 || inside_repeat > 0)
+        real_line_number = inz;
       else {
-        err = fscanf(g_file_out_ptr, "%d ", &line_number);
-        if (err < 1)
-          return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+        line_number = inz;
         real_line_number = line_number;
       }
       
@@ -483,8 +495,8 @@ int listfile_collect(void) {
 
         /* add line number - NOTE: this 'k' terminates the list file item on the previous line, thus -1 */
         section->listfile_cmds[command] = 'k';
-        section->listfile_ints[command*5 + 0] = line_number-1;
-        section->listfile_ints[command*5 + 4] = real_line_number-1;
+        section->listfile_ints[command*5 + 0] = (is_same_line == YES && line_number == inz) ? line_number : line_number-1;
+        section->listfile_ints[command*5 + 4] = is_same_line == YES ? real_line_number : real_line_number-1;
         command++;
         running_id++;
       }
@@ -502,8 +514,8 @@ int listfile_collect(void) {
 
         /* add line number - NOTE: this 'k' terminates the list file item on the previous line, thus -1 */
         g_global_listfile_cmds[global_command] = 'k';
-        g_global_listfile_ints[global_command*8 + 0] = line_number-1;
-        g_global_listfile_ints[global_command*8 + 7] = real_line_number-1;
+        g_global_listfile_ints[global_command*8 + 0] = (is_same_line == YES && line_number == inz) ? line_number : line_number-1;
+        g_global_listfile_ints[global_command*8 + 7] = is_same_line == YES ? real_line_number : real_line_number-1;
         global_command++;
         running_id++;
       }
-- 
2.43.0


From 4979ab8b5a53f3380b68ea1f6f774b7c3fa8acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 112/121] fix: list files get names next to sources without an
 extension, and don't show dropped sections

---
 wlalink/listfile.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/wlalink/listfile.c b/wlalink/listfile.c
index 01edf97..d209d36 100644
--- a/wlalink/listfile.c
+++ b/wlalink/listfile.c
@@ -37,14 +37,14 @@ static int _listfile_write_hex(FILE *f, int data) {
 static int _listfileitem_sort(const void *a, const void *b) {
 
   struct listfileitem *sa, *sb;
+  int result;
 
   sa = *((struct listfileitem **)a);
   sb = *((struct listfileitem **)b);
 
-  if (sa->sourcefilename > sb->sourcefilename)
-    return 1;
-  else if (sa->sourcefilename < sb->sourcefilename)
-    return -1;
+  result = strcmp(sa->sourcefilename, sb->sourcefilename);
+  if (result != 0)
+    return result;
 
   if (sa->linenumber > sb->linenumber)
     return 1;
@@ -66,6 +66,19 @@ static int _get_pc(int slot, int offset) {
 }
 
 
+static int _is_section_dropped(struct section *s) {
+
+  /* this loop finds the target of possibly chained appendto sections */
+  while (s->appended_to == YES)
+    s = s->appended_to_section;
+
+  if (s->alive == NO)
+    return YES;
+
+  return NO;
+}
+
+
 int listfile_write_listfiles(void) {
 
   struct listfileitem *listfileitems, **listfileitems_ptr;
@@ -77,7 +90,7 @@ int listfile_write_listfiles(void) {
   /* count the listfile items */
   s = g_sec_first;
   while (s != NULL) {
-    if (s->listfile_items <= 0 || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
+    if (s->listfile_items <= 0 || _is_section_dropped(s) == YES || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
         s->status == SECTION_STATUS_RAM_SEMIFREE || s->status == SECTION_STATUS_RAM_SEMISUBFREE) {
     }
     else {
@@ -89,7 +102,7 @@ int listfile_write_listfiles(void) {
   }
   s = g_sec_bankhd_first;
   while (s != NULL) {
-    if (s->listfile_items <= 0 || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
+    if (s->listfile_items <= 0 || _is_section_dropped(s) == YES || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
         s->status == SECTION_STATUS_RAM_SEMIFREE || s->status == SECTION_STATUS_RAM_SEMISUBFREE) {
     }
     else {
@@ -138,7 +151,7 @@ int listfile_write_listfiles(void) {
   j = 0;
   s = g_sec_first;
   while (s != NULL) {
-    if (s->listfile_items <= 0 || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
+    if (s->listfile_items <= 0 || _is_section_dropped(s) == YES || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
         s->status == SECTION_STATUS_RAM_SEMIFREE || s->status == SECTION_STATUS_RAM_SEMISUBFREE) {
     }
     else
@@ -148,7 +161,7 @@ int listfile_write_listfiles(void) {
   }
   s = g_sec_bankhd_first;
   while (s != NULL) {
-    if (s->listfile_items <= 0 || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
+    if (s->listfile_items <= 0 || _is_section_dropped(s) == YES || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
         s->status == SECTION_STATUS_RAM_SEMIFREE || s->status == SECTION_STATUS_RAM_SEMISUBFREE) {
     }
     else
@@ -334,9 +347,12 @@ int listfile_write_listfiles(void) {
 
     strcpy(tmp, source_file_name);
     for (i = (int)(strlen(tmp)-1); i >= 0; i--) {
-      if (tmp[i] == '.')
+      if (tmp[i] == '.' || tmp[i] == '/' || tmp[i] == '\\')
         break;
     }
+    /* the name of the file might not have an extension */
+    if (i < 0 || tmp[i] != '.')
+      i = (int)strlen(tmp);
     strcpy(&tmp[i], ".lst");
 
     f = fopen(tmp, "wb");
-- 
2.43.0


From ac4ca5a00671a8d8a1862628117292b9aebdda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 113/121] fix: list files keep bytes apart from a last line
 without a line feed

---
 wlalink/listfile.c | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/wlalink/listfile.c b/wlalink/listfile.c
index d209d36..cccf77a 100644
--- a/wlalink/listfile.c
+++ b/wlalink/listfile.c
@@ -471,18 +471,16 @@ int listfile_write_listfiles(void) {
               fprintf(f, "\n");
             else {
               /* write the rest of the line */
-              while (m < file_size) {
-                if (source_file[m] == 0xA) {
+              while (m < file_size && source_file[m] != 0xA)
+                fprintf(f, "%c", source_file[m++]);
+              /* the last line might not have a line feed */
+              if (m < file_size) {
+                m++;
+                if (m < file_size && source_file[m] == 0xD)
                   m++;
-                  if (m < file_size && source_file[m] == 0xD)
-                    m++;
-                  current_linenumber++;
-                  fprintf(f, "\n");
-                  break;
-                }
-                else
-                  fprintf(f, "%c", source_file[m++]);
               }
+              current_linenumber++;
+              fprintf(f, "\n");
             }
           }
           else
@@ -504,18 +502,16 @@ int listfile_write_listfiles(void) {
           }
 
           /* write the rest of the line */
-          while (m < file_size) {
-            if (source_file[m] == 0xA) {
+          while (m < file_size && source_file[m] != 0xA)
+            fprintf(f, "%c", source_file[m++]);
+          /* the last line might not have a line feed */
+          if (m < file_size) {
+            m++;
+            if (m < file_size && source_file[m] == 0xD)
               m++;
-              if (m < file_size && source_file[m] == 0xD)
-                m++;
-              current_linenumber++;
-              fprintf(f, "\n");
-              break;
-            }
-            else
-              fprintf(f, "%c", source_file[m++]);
           }
+          current_linenumber++;
+          fprintf(f, "\n");
         }
         else
           fprintf(f, "\n");
-- 
2.43.0


From cc99b625e57cf8156dde483bb31305bc4034f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 114/121] fix: WLALINK refuses truncated object and library
 files

---
 wlalink/analyze.c  | 85 ++++++++++++++++++++++++++++++++++++++++++++--
 wlalink/analyze.h  |  1 +
 wlalink/check.c    |  6 ++++
 wlalink/files.c    |  3 +-
 wlalink/listfile.c | 18 ++++++++--
 wlalink/listfile.h |  2 +-
 6 files changed, 109 insertions(+), 6 deletions(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 4c68c2a..d81c3a2 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -490,6 +490,18 @@ int add_label(struct label *l) {
 }
 
 
+/* the buffer of a file has some empty space in its end for the item that gets read when the file ends */
+int is_file_truncated(struct object_file *o, unsigned char *t) {
+
+  if (t >= o->data && t <= o->data + o->size)
+    return NO;
+
+  print_text(NO, "IS_FILE_TRUNCATED: File \"%s\" has been truncated.\n", o->name);
+
+  return YES;
+}
+
+
 int obtain_rombankmap(void) {
 
   int map_found = OFF, i, x, a;
@@ -530,6 +542,9 @@ int obtain_rombankmap(void) {
       }
       else {
         for (a = 0, x = 0; x < o->rom_banks; x++) {
+          if (is_file_truncated(o, t) == YES)
+            return FAILED;
+
           g_banksize = READ_T;
           if (g_banksizes[x] == 0) {
             g_banksizes[x] = g_banksize;
@@ -578,6 +593,9 @@ int obtain_source_file_names(void) {
 
     p = &(o->source_file_names_list);
     for (; x > 0; x--) {
+      if (is_file_truncated(o, t) == YES)
+        return FAILED;
+
       s = calloc(sizeof(struct source_file_name), 1);
       if (s == NULL) {
         print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -641,6 +659,9 @@ int obtain_memorymap(void) {
       t++;
 
       for (x = 0; i > 0; i--, x++) {
+        if (is_file_truncated(o, t) == YES)
+          return FAILED;
+
         g_slots[x].usage = ON;
         g_slots[x].address =  READ_T;
         g_slots[x].size =  READ_T;
@@ -676,6 +697,9 @@ int obtain_memorymap(void) {
       t++;
 
       for (x = 0; i > 0; i--, x++) {
+        if (is_file_truncated(o, t) == YES)
+          return FAILED;
+
         s[x].usage = ON;
         s[x].address =  READ_T;
         s[x].size =  READ_T;
@@ -751,6 +775,9 @@ int collect_dlr(void) {
 
       /* load defines */
       for (; i > 0; i--) {
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         l = calloc(1, sizeof(struct label));
         if (l == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -786,6 +813,9 @@ int collect_dlr(void) {
       i = READ_T;
 
       for (; i > 0; i--) {
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         l = calloc(1, sizeof(struct label));
         if (l == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -833,6 +863,9 @@ int collect_dlr(void) {
 
       /* load references */
       for (; i > 0; i--) {
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         r = calloc(sizeof(struct reference), 1);
         if (r == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -875,6 +908,9 @@ int collect_dlr(void) {
 
       /* load pending calculations */
       for (; i > 0; i--) {
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         s = calloc(sizeof(struct stack), 1);
         if (s == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -921,6 +957,9 @@ int collect_dlr(void) {
         add_stack(s);
 
         for (n = 0; n != x; n++) {
+          if (is_file_truncated(g_obj_tmp, t) == YES)
+            return FAILED;
+
           s->stack_items[n].slot = -1;
           s->stack_items[n].base = -1;
           s->stack_items[n].bank = -1;
@@ -947,6 +986,9 @@ int collect_dlr(void) {
       while (i > 0) {
         i--;
 
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         ls = calloc(sizeof(struct label_sizeof), 1);
         if (ls == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -976,6 +1018,9 @@ int collect_dlr(void) {
       while (i > 0) {
         i--;
 
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         g_after_tmp = calloc(1, sizeof(struct after_section));
         if (g_after_tmp == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -1005,6 +1050,9 @@ int collect_dlr(void) {
         g_after_sections = g_after_tmp;
       }
 
+      if (is_file_truncated(g_obj_tmp, t) == YES)
+        return FAILED;
+
       /* save pointer to data block area */
       g_obj_tmp->data_blocks = t;
     }
@@ -1015,6 +1063,9 @@ int collect_dlr(void) {
 
       /* load definitions */
       for (; i > 0; i--) {
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         l = calloc(1, sizeof(struct label));
         if (l == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -1051,6 +1102,9 @@ int collect_dlr(void) {
 
       /* load labels and symbols */
       for (; i > 0; i--) {
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         l = calloc(1, sizeof(struct label));
         if (l == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -1092,6 +1146,9 @@ int collect_dlr(void) {
 
       /* load references */
       for (; i > 0; i--) {
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         r = calloc(sizeof(struct reference), 1);
         if (r == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -1131,6 +1188,9 @@ int collect_dlr(void) {
 
       /* load pending calculations */
       for (; i > 0; i--) {
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         s = calloc(sizeof(struct stack), 1);
         if (s == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -1177,6 +1237,9 @@ int collect_dlr(void) {
         add_stack(s);
 
         for (n = 0; n != x; n++) {
+          if (is_file_truncated(g_obj_tmp, t) == YES)
+            return FAILED;
+
           s->stack_items[n].slot = -1;
           s->stack_items[n].base = -1;
           s->stack_items[n].bank = -1;
@@ -1203,6 +1266,9 @@ int collect_dlr(void) {
       while (i > 0) {
         i--;
 
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         ls = calloc(sizeof(struct label_sizeof), 1);
         if (ls == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -1232,6 +1298,9 @@ int collect_dlr(void) {
       while (i > 0) {
         i--;
 
+        if (is_file_truncated(g_obj_tmp, t) == YES)
+          return FAILED;
+
         g_after_tmp = calloc(1, sizeof(struct after_section));
         if (g_after_tmp == NULL) {
           print_text(NO, "COLLECT_DLR: Out of memory.\n");
@@ -1261,6 +1330,9 @@ int collect_dlr(void) {
         g_after_sections = g_after_tmp;
       }
 
+      if (is_file_truncated(g_obj_tmp, t) == YES)
+        return FAILED;
+
       /* save pointer to data block area */
       g_obj_tmp->data_blocks = t;
     }
@@ -1953,6 +2025,9 @@ int parse_data_blocks(void) {
           /* amount of bytes */
           x = READ_T;
 
+          if (is_file_truncated(g_obj_tmp, t) == YES || is_file_truncated(g_obj_tmp, t + x) == YES)
+            return FAILED;
+
           /* create a what-we-are-doing message for mem_insert*() warnings/errors */
           snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing fixed data block from \"%s\".", g_obj_tmp->name);
 
@@ -2031,6 +2106,9 @@ int parse_data_blocks(void) {
           s->bitwindow = READ_T;
           s->window_start = READ_T;
           s->window_end = READ_T;
+          if (is_file_truncated(g_obj_tmp, t) == YES || is_file_truncated(g_obj_tmp, t + s->size) == YES)
+            return FAILED;
+
           s->data = t;
 
           s->library_status = OFF;
@@ -2038,7 +2116,7 @@ int parse_data_blocks(void) {
           t += s->size;
 
           /* listfile block */
-          if (listfile_block_read(&t, s) == FAILED)
+          if (listfile_block_read(&t, s, g_obj_tmp) == FAILED)
             return FAILED;
 
           if (add_section(s) == FAILED)
@@ -2110,6 +2188,9 @@ int parse_data_blocks(void) {
         s->bitwindow = READ_T;
         s->window_start = READ_T;
         s->window_end = READ_T;
+        if (is_file_truncated(g_obj_tmp, t) == YES || is_file_truncated(g_obj_tmp, t + s->size) == YES)
+          return FAILED;
+
         s->data = t;
           
         s->address = 0;
@@ -2129,7 +2210,7 @@ int parse_data_blocks(void) {
         }
 
         /* listfile block */
-        if (listfile_block_read(&t, s) == FAILED)
+        if (listfile_block_read(&t, s, g_obj_tmp) == FAILED)
           return FAILED;
 
         add_section(s);
diff --git a/wlalink/analyze.h b/wlalink/analyze.h
index 69a0653..0335a0d 100644
--- a/wlalink/analyze.h
+++ b/wlalink/analyze.h
@@ -7,6 +7,7 @@ int add_label(struct label *l);
 int add_section(struct section *s);
 int free_section(struct section *s);
 int find_label(char *name, struct section *context, int file_id, struct label **l);
+int is_file_truncated(struct object_file *o, unsigned char *t);
 int parse_data_blocks(void);
 int obtain_source_file_names(void);
 int obtain_memorymap(void);
diff --git a/wlalink/check.c b/wlalink/check.c
index 1aac09d..6925d6b 100644
--- a/wlalink/check.c
+++ b/wlalink/check.c
@@ -8,6 +8,7 @@
 #include "memory.h"
 #include "files.h"
 #include "main.h"
+#include "analyze.h"
 
 
 /* read an integer from t */
@@ -34,6 +35,11 @@ int check_file_types(void) {
       print_text(NO, "CHECK_FILE_TYPES: File \"%s\" is of unknown format (\"%c%c%c%c\").\n", o->name, o->data[0], o->data[1], o->data[2], o->data[3]);
       return FAILED;
     }
+
+    /* is there a whole header? */
+    if (is_file_truncated(o, o->data + (o->format == WLA_VERSION_OBJ ? OBJ_ROMBANKMAP : LIB_SOURCE_FILE_NAMES)) == YES)
+      return FAILED;
+
     o = o->next;
   }
 
diff --git a/wlalink/files.c b/wlalink/files.c
index caaf3f7..72e82de 100644
--- a/wlalink/files.c
+++ b/wlalink/files.c
@@ -1144,7 +1144,8 @@ int load_file_data(char *file_name, unsigned char **data, int *size) {
     return FAILED;
   }
   
-  *data = calloc(*size, 1);
+  /* some empty space for the parsers that notice the end of a truncated file after they've read an item */
+  *data = calloc(*size + 256, 1);
   if (*data == NULL) {
     print_text(NO, "LOAD_FILE_DATA: Out of memory error.\n");
     fclose(fop);
diff --git a/wlalink/listfile.c b/wlalink/listfile.c
index cccf77a..4e1f922 100644
--- a/wlalink/listfile.c
+++ b/wlalink/listfile.c
@@ -7,6 +7,7 @@
 
 #include "defines.h"
 #include "listfile.h"
+#include "analyze.h"
 #include "files.h"
 #include "main.h"
 
@@ -556,12 +557,12 @@ int listfile_write_listfiles(void) {
 }
 
 
-int listfile_block_read(unsigned char **d, struct section *s) {
+int listfile_block_read(unsigned char **d, struct section *s, struct object_file *obj) {
 
   unsigned char *t;
   int i;
 
-  if (d == NULL || s == NULL)
+  if (d == NULL || s == NULL || obj == NULL)
     return FAILED;
 
   if (**d == 0) {
@@ -588,6 +589,11 @@ int listfile_block_read(unsigned char **d, struct section *s) {
 
   /* read the items */
   for (i = 0; i < s->listfile_items; i++) {
+    if (is_file_truncated(obj, t) == YES) {
+      s->listfile_items = 0;
+      return FAILED;
+    }
+
     s->listfile_cmds[i] = *(t++);
     if (s->listfile_cmds[i] == 'k') {
       /* new line */
@@ -608,6 +614,9 @@ int listfile_block_read(unsigned char **d, struct section *s) {
     }
   }
 
+  if (is_file_truncated(obj, t) == YES)
+    return FAILED;
+
   *d = t;
 
   return SUCCEEDED;
@@ -644,6 +653,11 @@ int listfile_block_read_global(unsigned char **d, struct object_file *obj) {
 
   /* read the items */
   for (i = 0; i < obj->listfile_items; i++) {
+    if (is_file_truncated(obj, t) == YES) {
+      obj->listfile_items = 0;
+      return FAILED;
+    }
+
     obj->listfile_cmds[i] = *(t++);
     if (obj->listfile_cmds[i] == 'k') {
       /* new line */
diff --git a/wlalink/listfile.h b/wlalink/listfile.h
index 08ca6c6..4449c81 100644
--- a/wlalink/listfile.h
+++ b/wlalink/listfile.h
@@ -17,7 +17,7 @@ struct listfileitem {
 };
 
 int listfile_write_listfiles(void);
-int listfile_block_read(unsigned char **d, struct section *s);
+int listfile_block_read(unsigned char **d, struct section *s, struct object_file *obj);
 int listfile_block_read_global(unsigned char **d, struct object_file *obj);
 
 #endif
-- 
2.43.0


From 606de0198c3ff8b535ae6221c36d5b9683711ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 115/121] fix: WLALINK notices sections missing from truncated
 files

---
 wlalink/analyze.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++-
 wlalink/parse.c   |  2 +-
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index d81c3a2..734c8d3 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -2001,6 +2001,55 @@ int append_sections(void) {
 }
 
 
+static int _does_section_exist(int id) {
+
+  struct section *s;
+  int table = id >> 16;
+
+  if (table >= 0 && table <= g_section_table_table_max && g_section_table_table[table] != NULL &&
+      (id & 0xffff) <= g_section_table_table[table]->max && g_section_table_table[table]->ptr[id & 0xffff] != NULL)
+    return YES;
+
+  /* bankheader sections aren't in the tables */
+  for (s = g_sec_bankhd_first; s != NULL; s = s->next) {
+    if (s->id == id)
+      return YES;
+  }
+
+  return NO;
+}
+
+
+/* sections are missing when a file has been truncated between two data blocks */
+static int _check_section_ids(void) {
+
+  struct reference *r;
+  struct stack *sta;
+  struct label *l;
+  int file_id = -1;
+
+  for (l = g_labels_first; l != NULL && file_id < 0; l = l->next) {
+    if (l->section_status == ON && _does_section_exist(l->section) == NO)
+      file_id = l->file_id;
+  }
+  for (r = g_reference_first; r != NULL && file_id < 0; r = r->next) {
+    if (r->section_status == ON && _does_section_exist(r->section) == NO)
+      file_id = r->file_id;
+  }
+  for (sta = g_stacks_first; sta != NULL && file_id < 0; sta = sta->next) {
+    if (sta->section_status == ON && _does_section_exist(sta->section) == NO)
+      file_id = sta->file_id;
+  }
+
+  if (file_id < 0)
+    return SUCCEEDED;
+
+  print_text(NO, "PARSE_DATA_BLOCKS: A section is missing from file \"%s\".\n", get_file_name(file_id));
+
+  return FAILED;
+}
+
+
 int parse_data_blocks(void) {
 
   struct section *s;
@@ -2221,7 +2270,7 @@ int parse_data_blocks(void) {
     }
   }
 
-  return SUCCEEDED;
+  return _check_section_ids();
 }
 
 
diff --git a/wlalink/parse.c b/wlalink/parse.c
index 97cba32..b24b430 100644
--- a/wlalink/parse.c
+++ b/wlalink/parse.c
@@ -140,7 +140,7 @@ int get_next_number(char *in, int *out, int *pos) {
     else {
       /* decimal */
       for (o = 0; in[i] >= '0' && in[i] <= '9'; i++)
-        o = (o * 10) + in[i] - '0';
+        o = (int)((unsigned int)o * 10 + (in[i] - '0'));
       if (!(in[i] == ' ' || in[i] == 0x09 || in[i] == 0))
         return FAILED;
     }
-- 
2.43.0


From f1ad75e22409875b050aca0cca06a2d4cf474cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 116/121] fix: calculations with missing operands are errors
 instead of reads behind the stack

---
 stack.c         | 85 +++++++++++++++++++++++++++++++++++++++++++++++++
 stack.h         |  1 +
 wlalink/write.c | 44 +++++++++++++++++++++++++
 3 files changed, 130 insertions(+)

diff --git a/stack.c b/stack.c
index 1ec23da..5c4c056 100644
--- a/stack.c
+++ b/stack.c
@@ -674,6 +674,18 @@ static int _remember_converted_stack_item(struct stack_item *s) {
 }
 
 
+/* functions read their arguments straight from the source buffer, thus they cannot be used inside strings */
+int is_in_source_buffer(char *in) {
+
+  if (in >= g_buffer && in <= g_buffer + g_source_file_size)
+    return YES;
+
+  print_error(ERROR_STC, "Functions cannot be used here.\n");
+
+  return NO;
+}
+
+
 static int _parse_function_asc(char *in, int *result, int *parsed_chars) {
 
   int res, old_expect = g_expect_calculations, source_index_original = g_source_index, source_index_backup;
@@ -681,6 +693,9 @@ static int _parse_function_asc(char *in, int *result, int *parsed_chars) {
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -726,6 +741,9 @@ static int _parse_function_random(char *in, int *result, int *parsed_chars) {
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -783,6 +801,9 @@ static int _parse_function_is(char *in, int *result, int *parsed_chars) {
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -831,6 +852,9 @@ static int _parse_function_get(char *in, struct stack_item *si, int *parsed_char
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -951,6 +975,9 @@ static int _parse_function_defined(char *in, int *result, int *parsed_chars) {
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -997,6 +1024,9 @@ static int _parse_function_exists(char *in, int *result, int *parsed_chars) {
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -1044,6 +1074,9 @@ static int _parse_function_substring(char *in, struct stack_item *si, int *parse
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -1118,6 +1151,9 @@ static int _parse_function_math1(char *in, int *type, double *value, char *strin
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -1175,6 +1211,9 @@ static int _parse_function_math2(char *in, int *type_a, int *type_b, double *val
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -1256,6 +1295,9 @@ static int _parse_function_math3(char *in, int *type_a, int *type_b, int *type_c
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
      let's update g_source_index for input_number() */
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
 
@@ -4129,6 +4171,44 @@ static int _perform_and(int a, int b) {
 }
 
 
+/* how many operands does an operation take from the stack? */
+static int _get_operand_count(int op) {
+
+  switch (op) {
+  case SI_OP_LOW_BYTE:
+  case SI_OP_HIGH_BYTE:
+  case SI_OP_LOW_WORD:
+  case SI_OP_HIGH_WORD:
+  case SI_OP_BANK:
+  case SI_OP_BANK_BYTE:
+  case SI_OP_NOT:
+  case SI_OP_NEGATE:
+  case SI_OP_ROUND:
+  case SI_OP_CEIL:
+  case SI_OP_FLOOR:
+  case SI_OP_SQRT:
+  case SI_OP_ABS:
+  case SI_OP_SIGN:
+  case SI_OP_COS:
+  case SI_OP_SIN:
+  case SI_OP_TAN:
+  case SI_OP_ACOS:
+  case SI_OP_ASIN:
+  case SI_OP_ATAN:
+  case SI_OP_COSH:
+  case SI_OP_SINH:
+  case SI_OP_TANH:
+  case SI_OP_LOG:
+  case SI_OP_LOG10:
+    return 1;
+  case SI_OP_CLAMP:
+    return 3;
+  default:
+    return 2;
+  }
+}
+
+
 int compute_stack(struct stack *sta, int stack_item_count, double *result) {
 
   struct stack_item *s;
@@ -4165,6 +4245,11 @@ int compute_stack(struct stack *sta, int stack_item_count, double *result) {
       t++;
     }
     else {
+      if (t < _get_operand_count((int)s->value)) {
+        print_text(NO, "%s:%d: COMPUTE_STACK: An operation is missing an operand.\n", get_file_name(sta->filename_id), sta->linenumber);
+        return FAILED;
+      }
+
       switch ((int)s->value) {
       case SI_OP_ADD:
         v[t - 2] += v[t - 1];
diff --git a/stack.h b/stack.h
index 4c41c2f..d8bcccf 100644
--- a/stack.h
+++ b/stack.h
@@ -4,6 +4,7 @@
 
 int get_label_length(char *l);
 int stack_calculate_free_allocations(void);
+int is_in_source_buffer(char *in);
 int stack_calculate(char *in, int *value, int *bytes_parsed, unsigned char from_substitutor);
 int stack_create_label_stack(char *label);
 int stack_create_stack_stack(int stack_id);
diff --git a/wlalink/write.c b/wlalink/write.c
index 65a34a0..a53a177 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3293,6 +3293,44 @@ static int _perform_and(int a, int b) {
 }
 
 
+/* how many operands does an operation take from the stack? */
+static int _get_operand_count(int op) {
+
+  switch (op) {
+  case SI_OP_LOW_BYTE:
+  case SI_OP_HIGH_BYTE:
+  case SI_OP_LOW_WORD:
+  case SI_OP_HIGH_WORD:
+  case SI_OP_BANK:
+  case SI_OP_BANK_BYTE:
+  case SI_OP_NOT:
+  case SI_OP_NEGATE:
+  case SI_OP_ROUND:
+  case SI_OP_CEIL:
+  case SI_OP_FLOOR:
+  case SI_OP_SQRT:
+  case SI_OP_ABS:
+  case SI_OP_SIGN:
+  case SI_OP_COS:
+  case SI_OP_SIN:
+  case SI_OP_TAN:
+  case SI_OP_ACOS:
+  case SI_OP_ASIN:
+  case SI_OP_ATAN:
+  case SI_OP_COSH:
+  case SI_OP_SINH:
+  case SI_OP_TANH:
+  case SI_OP_LOG:
+  case SI_OP_LOG10:
+    return 1;
+  case SI_OP_CLAMP:
+    return 3;
+  default:
+    return 2;
+  }
+}
+
+
 int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int *result_slot, int *result_base, int *result_bank) {
 
   int r, t, z, y, x, res_base, res_bank, res_slot, slot[256], base[256], bank[256];
@@ -3429,6 +3467,12 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
       t++;
     }
     else {
+      if (t < _get_operand_count((int)s->value_ram)) {
+        print_text(NO, "%s: %s:%d: COMPUTE_STACK: An operation is missing an operand.\n", get_file_name(sta->file_id),
+                get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
+        return FAILED;
+      }
+
       switch ((int)s->value_ram) {
       case SI_OP_ADD:
         if (t <= 1) {
-- 
2.43.0


From 49e15f6c81d60859ac6d763d038f5947d8ae64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 117/121] fix: the ends of source files, empty tokens and zero
 bytes don't lead outside the buffers

---
 decode.c  |  4 ++--
 include.c | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/decode.c b/decode.c
index 1d3deb4..3d630ba 100644
--- a/decode.c
+++ b/decode.c
@@ -1063,7 +1063,7 @@ int evaluate_token(void) {
   }
 
   /* is it a label? */
-  if (g_tmp[g_ss - 1] == ':' && g_newline_beginning == ON) {
+  if (g_ss > 0 && g_tmp[g_ss - 1] == ':' && g_newline_beginning == ON) {
     g_tmp[g_ss - 1] = 0;
     g_newline_beginning = OFF;
 
@@ -1085,7 +1085,7 @@ int evaluate_token(void) {
     }
 
     /* check for \@-symbols */
-    if (g_macro_active != 0) {
+    if (g_macro_active != 0 && g_ss >= 3) {
       if (g_tmp[g_ss - 3] == '\\' && g_tmp[g_ss - 2] == '@')
         snprintf(&g_tmp[g_ss - 3], g_sizeof_g_tmp - (g_ss - 3), "%d", g_macro_runtime_current->call_number);
     }
diff --git a/include.c b/include.c
index eaf9902..03a2638 100644
--- a/include.c
+++ b/include.c
@@ -32,6 +32,9 @@ struct active_file_info *g_active_file_info_first = NULL, *g_active_file_info_la
 struct file_name_info *g_file_name_info_first = NULL, *g_file_name_info_last = NULL, *g_file_name_info_tmp;
 char *g_include_in_tmp = NULL, *g_tmp_a = NULL, *g_full_name = NULL, *g_include_dir = NULL, *g_buffer = NULL;
 char g_latest_include_dir[MAX_NAME_LENGTH + 1];
+/* empty space in the ends of the buffers */
+#define INCLUDE_SLACK 16
+
 int g_include_in_tmp_size = 0, g_tmp_a_size = 0, g_open_files = 0;
 int g_include_dir_size = 0, g_source_file_size = 0;
 
@@ -275,17 +278,17 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
   change_file_buffer_size = (int)strlen(change_file_buffer);
 
   /* reallocate buffer */
-  if (g_include_in_tmp_size < file_size) {
+  if (g_include_in_tmp_size < file_size + INCLUDE_SLACK) {
     if (g_include_in_tmp != NULL)
       free(g_include_in_tmp);
 
-    g_include_in_tmp = calloc(sizeof(char) * file_size, 1);
+    g_include_in_tmp = calloc(sizeof(char) * (file_size + INCLUDE_SLACK), 1);
     if (g_include_in_tmp == NULL) {
       print_error(ERROR_INC, "Out of memory while trying to allocate room for \"%s\".\n", g_full_name);
       return FAILED;
     }
 
-    g_include_in_tmp_size = file_size;
+    g_include_in_tmp_size = file_size + INCLUDE_SLACK;
   }
 
   /* read the whole file into a buffer */
@@ -297,11 +300,20 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
 
   fclose(f);
 
+  /* the preprocessor looks at the characters that follow, also in the end of the file */
+  memset(g_include_in_tmp + file_size, 0, INCLUDE_SLACK);
+
   /* calculate checksum for post-compilation file verification */
   g_file_name_info_tmp->checksum = crc32((unsigned char*)g_include_in_tmp, file_size);
 
+  /* zeroes end strings, so they cannot be a part of the source code */
+  for (i = 0; i < file_size; i++) {
+    if (g_include_in_tmp[i] == 0)
+      g_include_in_tmp[i] = ' ';
+  }
+
   if (g_source_file_size == 0) {
-    g_buffer = calloc(sizeof(char) * (change_file_buffer_size + (file_size + 4) + 1024), 1);
+    g_buffer = calloc(sizeof(char) * (change_file_buffer_size + (file_size + 4) + 1024 + INCLUDE_SLACK), 1);
     if (g_buffer == NULL) {
       print_error(ERROR_INC, "Out of memory while trying to allocate room for \"%s\".\n", g_full_name);
       return FAILED;
@@ -327,7 +339,7 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
     return SUCCEEDED;
   }
 
-  tmp_b = calloc(sizeof(char) * (g_source_file_size + change_file_buffer_size + file_size + 4), 1);
+  tmp_b = calloc(sizeof(char) * (g_source_file_size + change_file_buffer_size + file_size + 4 + INCLUDE_SLACK), 1);
   if (tmp_b == NULL) {
     print_error(ERROR_INC, "Out of memory while trying to expand the project to incorporate file \"%s\".\n", g_full_name);
     return FAILED;
@@ -338,7 +350,7 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
     if (g_tmp_a != NULL)
       free(g_tmp_a);
 
-    g_tmp_a = calloc(sizeof(char) * (change_file_buffer_size + file_size + 4), 1);
+    g_tmp_a = calloc(sizeof(char) * (change_file_buffer_size + file_size + 4 + INCLUDE_SLACK), 1);
     if (g_tmp_a == NULL) {
       print_error(ERROR_INC, "Out of memory while allocating new room for \"%s\".\n", g_full_name);
       free(tmp_b);
-- 
2.43.0


From 0e3de73c4cb34184aab474acdc28e6aa32460cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 118/121] fix: malformed macro calls, unions, structures and
 definitions end with an error, not a crash

---
 phase_1.c | 63 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 8f07b4b..d92f858 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -188,7 +188,7 @@ static int s_autopriority = 65535;
 
 static struct section_def *s_active_ramsection = NULL;
 
-static char s_replacement_memory[1024], s_replacement_backup[1024];
+static char s_replacement_memory[1024 + 8], s_replacement_backup[1024 + 8];
 static int s_replacement_length = 0, s_replacement_index = -1;
 
 
@@ -382,6 +382,12 @@ int macro_get(char *name, int add_namespace, struct macro_static **macro_out) {
 
 static int _macro_stack_grow(void) {
 
+  /* a macro that calls itself without an end? */
+  if (g_macro_active >= 65536) {
+    print_error(ERROR_ERR, "There are too many nested macro calls.\n");
+    return FAILED;
+  }
+
   if (g_macro_active == s_macro_stack_size) {
     struct macro_runtime *macro;
     int old_size;
@@ -888,15 +894,20 @@ static int _run_macro_replacements(void) {
 
   /* anything to replace on this line? */
   s--;
-  while (i < (int)sizeof(s_replacement_memory)) {
+  while (i < (int)sizeof(s_replacement_memory) - 8) {
     c = g_buffer[s++];
 
     /* don't replace inside strings */
     if (c == '"') {
       s_replacement_memory[i++] = c;
 
-      while (i < (int)sizeof(s_replacement_memory)) {
+      while (i < (int)sizeof(s_replacement_memory) - 8) {
         c = g_buffer[s++];
+        if (c == 0xA) {
+          /* the string wasn't terminated - handle the end of the line below */
+          s--;
+          break;
+        }
         if (c == '\\' && g_buffer[s] == '"') {
           s_replacement_memory[i++] = c;
           s_replacement_memory[i++] = '"';
@@ -957,6 +968,11 @@ static int _run_macro_replacements(void) {
         if (add_quotes == YES)
           s_replacement_memory[i++] = '"';
 
+        if (i + (int)strlen(ma->string) >= (int)sizeof(s_replacement_memory) - 8) {
+          i = (int)sizeof(s_replacement_memory);
+          break;
+        }
+
         strcpy(&s_replacement_memory[i], ma->string);
         i += (int)strlen(ma->string);
 
@@ -997,7 +1013,7 @@ static int _run_macro_replacements(void) {
       s_replacement_memory[i++] = c;
   }
 
-  if (i >= (int)sizeof(s_replacement_memory) - 1) {
+  if (i >= (int)sizeof(s_replacement_memory) - 8) {
     print_error(ERROR_LOG, "Out of s_replacement_memory buffer size (buffer %d bytes, got %d bytes) in phase_1.c!\n", (int)sizeof(s_replacement_memory), i);
     return FAILED;
   }
@@ -1994,10 +2010,8 @@ int parse_enum_token(void) {
       return FAILED;
   
     inz = input_next_string();
-    if (inz == FAILED) {
-      free(st);
+    if (inz == FAILED)
       return FAILED;
-    }
     else if (inz == SUCCEEDED)
       strcpy(st->name, g_label);
     else if (inz == INPUT_NUMBER_EOL)
@@ -2048,10 +2062,8 @@ int parse_enum_token(void) {
       return FAILED;
     
     inz = input_next_string();
-    if (inz == FAILED) {
-      free(st);
+    if (inz == FAILED)
       return FAILED;
-    }
     else if (inz == SUCCEEDED)
       strcpy(st->name, g_label);
     else if (inz == INPUT_NUMBER_EOL)
@@ -2252,7 +2264,7 @@ int parse_enum_token(void) {
     tmpname[0] = 0;
   }
   else {
-    if (g_tmp[strlen(g_tmp) - 1] == ':')
+    if (g_tmp[0] != 0 && g_tmp[strlen(g_tmp) - 1] == ':')
       g_tmp[strlen(g_tmp) - 1] = 0;
     strcpy(tmpname, g_tmp);
 
@@ -4366,7 +4378,7 @@ int directive_dstruct(void) {
       if (strcaselesscmp(g_tmp, ".ENDST") == 0)
         break;
       else {
-        if (g_tmp[strlen(g_tmp)-1] == ':')
+        if (g_tmp[0] != 0 && g_tmp[strlen(g_tmp)-1] == ':')
           g_tmp[strlen(g_tmp)-1] = '\0';
         strcpy(field_name, g_tmp);
 
@@ -4429,7 +4441,7 @@ int directive_dstruct(void) {
   s_parse_dstruct_result = input_number();
 
   if (s_parse_dstruct_result == INPUT_NUMBER_ADDRESS_LABEL) {
-    if (g_label[strlen(g_label)-1] == ':') {
+    if (g_label[0] != 0 && g_label[strlen(g_label)-1] == ':') {
       print_error(ERROR_ERR, "Label in a wrong place?\n");
       return FAILED;
     }
@@ -5613,7 +5625,7 @@ int directive_section(void) {
       /* get the name */
       if (input_next_string() == FAILED)
         return FAILED;
-      if (g_label[0] == '\"' && g_label[strlen(g_label)-1] == '\"') {
+      if (g_label[0] == '\"' && g_label[1] != 0 && g_label[strlen(g_label)-1] == '\"') {
         l = 0;
         while (g_label[l+1] != '\"') {
           g_label[l] = g_label[l+1];
@@ -8152,6 +8164,11 @@ int directive_function(void) {
     else if (res == FAILED)
       return FAILED;
 
+    if (f->nargument_names >= (int)(sizeof(f->argument_names) / sizeof(f->argument_names[0]))) {
+      print_error(ERROR_DIR, "Function \"%s\" has got too many arguments.\n", name);
+      return FAILED;
+    }
+
     f->argument_names[f->nargument_names] = calloc((int)strlen(g_label) + 1, 1);
     if (f->argument_names[f->nargument_names] == NULL) {
       print_error(ERROR_DIR, "Out of memory while allocating a new function.\n");
@@ -8206,7 +8223,7 @@ int directive_function(void) {
 
 int directive_define_def_equ(void) {
   
-  char k[256], label[MAX_NAME_LENGTH+1];
+  char k[MAX_NAME_LENGTH+1], label[MAX_NAME_LENGTH+1];
   int j, export, q, size;
   struct definition *d;
   double dou;
@@ -8514,7 +8531,7 @@ int directive_input(void) {
 
 int directive_redefine_redef(void) {
   
-  char k[256], label[MAX_NAME_LENGTH+1];
+  char k[MAX_NAME_LENGTH+1], label[MAX_NAME_LENGTH+1];
   int j, export, q, size;
   double dou;
 
@@ -13204,7 +13221,7 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
     x = input_number();
     if (x != INPUT_NUMBER_EOL) {
       print_error(ERROR_DIR, "A computation cannot be output as a string.\n");
-      return SUCCEEDED;
+      return FAILED;
     }
     next_line();
     
@@ -13260,6 +13277,11 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
       x = SUCCEEDED;
     }
 
+    if (s + (x == INPUT_NUMBER_STRING ? g_string_size : 2) > MAX_NAME_LENGTH) {
+      print_error(ERROR_DIR, "The string is too long, the maximum is %d characters.\n", MAX_NAME_LENGTH);
+      return FAILED;
+    }
+
     if (x == INPUT_NUMBER_STRING) {
       memcpy(&c[s], g_label, g_string_size);
       s += g_string_size;
@@ -13277,8 +13299,11 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
         s++;
       }
     }
-    else
-      return x;
+    else {
+      if (x != FAILED)
+        print_error(ERROR_DIR, "A computation cannot be a part of a string.\n");
+      return FAILED;
+    }
 
     n++;
 
-- 
2.43.0


From 267acd6ff45a8b634871efe493bf32c87066bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 119/121] fix: too long and unfinished strings, tokens and
 substitutions end with an error, not a crash

---
 parse.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index a648e04..d6e4eb3 100644
--- a/parse.c
+++ b/parse.c
@@ -145,6 +145,9 @@ int compare_next_token(char *token) {
           break;
       }
 
+      if (d <= 0)
+        return FAILED;
+
       if (d > g_macro_runtime_current->supplied_arguments) {
         if (g_input_number_error_msg == YES) {
           print_error(ERROR_NONE, "COMPARE_NEXT_SYMBOL: Macro \"%s\" wasn't called with enough arguments.\n", g_macro_runtime_current->macro->name);
@@ -499,7 +502,7 @@ static int _input_number_return_definition(struct definition *def) {
 
 int expand_variables_inside_string(char *label, int max_size, int *length) {
 
-  char tmp[MAX_NAME_LENGTH + 1], formatting[8], substitution[MAX_NAME_LENGTH + 1], local[MAX_NAME_LENGTH + 1];
+  char tmp[MAX_NAME_LENGTH + 1], formatting[8], substitution[MAX_NAME_LENGTH + 1], local[MAX_NAME_LENGTH + 3];
   int size, i, k, substitutions = 0, max_size_tmp, p, parsed_int, input_size = 0;
   int q, size_substitution;
 
@@ -518,13 +521,16 @@ int expand_variables_inside_string(char *label, int max_size, int *length) {
 
   input_size++;
   
-  /* copy label -> local as label might be g_label that stack calculator uses */
-  if (input_size > (int)sizeof(local)) {
+  /* copy label -> local as label might be g_label that stack calculator uses, and end it with a line feed so
+     that the calculator cannot run over the end of the buffer */
+  if (input_size + 2 > (int)sizeof(local)) {
     print_error(ERROR_NUM, "Buffer for substitution is too small! Please submit a bug report!\n");
     return FAILED;
   }
 
   strcpy(local, label);
+  local[input_size] = 0xA;
+  local[input_size + 1] = 0;
   
   max_size_tmp = sizeof(tmp);
   
@@ -1697,6 +1703,10 @@ int get_next_token(void) {
   /* "string"? */
   if (g_buffer[g_source_index] == '"') {
     for (g_ss = 0, g_source_index++; g_buffer[g_source_index] != 0xA && g_buffer[g_source_index] != '"'; ) {
+      if (g_ss >= MAX_NAME_LENGTH) {
+        print_error(ERROR_NONE, "GET_NEXT_TOKEN: The string is too long (max %d characters allowed).\n", MAX_NAME_LENGTH);
+        return FAILED;
+      }
       if (g_buffer[g_source_index] == '\\' && g_buffer[g_source_index + 1] == '"') {
         g_tmp[g_ss++] = '"';
         g_source_index += 2;
@@ -1752,7 +1762,7 @@ int get_next_token(void) {
     for (g_ss = 0; g_ss < MAX_NAME_LENGTH; ) {
       unsigned char e = g_buffer[g_source_index];
 
-      if (e == 0xA)
+      if (e == 0xA || e == 0)
         break;
       else if (e == '{')
         curly_brackets++;
@@ -1773,6 +1783,17 @@ int get_next_token(void) {
       g_ss++;
       g_source_index++;
     }
+
+    if (g_ss == 0) {
+      if (g_buffer[g_source_index] == '}') {
+        print_error(ERROR_NONE, "GET_NEXT_TOKEN: Unexpected \"}\".\n");
+        return FAILED;
+      }
+      if (g_buffer[g_source_index] == 0) {
+        print_error(ERROR_NONE, "GET_NEXT_TOKEN: The source file ended unexpectedly.\n");
+        return FAILED;
+      }
+    }
   }
 
   if (g_ss >= MAX_NAME_LENGTH) {
@@ -2468,6 +2489,9 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
     return SUCCEEDED;
   }
 
+  if (is_in_source_buffer(in) == NO)
+    return FAILED;
+
   g_source_index = (int)(in - g_buffer);
   source_index_backup = g_source_index;
   
-- 
2.43.0


From 932a3523d1698d542f8bf64c0e0c89b5f8871785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 120/121] fix: a loop goes on in the right place after a macro
 it calls has included a file

---
 phase_1.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index d92f858..8d046d8 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4876,6 +4876,12 @@ int directive_include(int is_real) {
           ms->start += include_size;
         ms = ms->next;
       }
+
+      /* ... and so do the loops that call the macro the file was included in */
+      for (q = 0; q < s_repeat_active; q++) {
+        if (g_repeat_stack[q].start > g_source_index)
+          g_repeat_stack[q].start += include_size;
+      }
     }
 
     if (got_once == YES) {
-- 
2.43.0


From e4cfd6835e5fbdca4959084d9e562e90c82d5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 121/121] fix: a BANKS list of more than 1024 banks ran over
 the linker's list

---
 wlalink/write.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index a53a177..2967b52 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -462,6 +462,12 @@ static int _unroll_banks(struct section *s, int banks[1024], int *banks_max) {
         return FAILED;
       }
 
+      if (max >= 1024) {
+        print_text(NO, "%s: %s: _UNROLL_BANKS: Section \"%s\"'s BANKS list has more than 1024 banks.\n", get_file_name(s->file_id),
+                get_source_file_name(s->file_id, s->file_id_source), s->name);
+        return FAILED;
+      }
+
       banks[max++] = bank;
 
       if (c == '/')
@@ -506,6 +512,12 @@ static int _unroll_banks(struct section *s, int banks[1024], int *banks_max) {
         return FAILED;
       }
 
+      if (max >= 1024) {
+        print_text(NO, "%s: %s: _UNROLL_BANKS: Section \"%s\"'s BANKS list has more than 1024 banks.\n", get_file_name(s->file_id),
+                get_source_file_name(s->file_id, s->file_id_source), s->name);
+        return FAILED;
+      }
+
       banks[max++] = bank;
 
       if (bank < bank2)
-- 
2.43.0

