From 413bcc9c5b0a5e47959811f705c3bd45f2838d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 01/67] fix: declare passes in actions.h under the function
 name the pass table uses

---
 cocogen/dynamic_backend/gen_action_header.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_action_header.c b/cocogen/dynamic_backend/gen_action_header.c
index 27a34f6..e5c17ea 100644
--- a/cocogen/dynamic_backend/gen_action_header.c
+++ b/cocogen/dynamic_backend/gen_action_header.c
@@ -5,6 +5,7 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "globals.h"
+#include "palm/memory.h"
 #include "dynamic_backend/gen_helpers.h"
 #include "../gen_helpers.h"
 
@@ -37,11 +38,9 @@ node_st *DGAHitraversal(node_st *node)
 node_st *DGAHipass(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    char *prefix = "";
-    if (IPASS_IPREFIX(node)) {
-        prefix = DGH_PASS_PREFIX(node);
-    }
-    OUT_FIELD(DGH_PASS_FUNC_SIG(), prefix, DGH_PASS_NAME(node), "");
+    char *func = DGHpassFuncName(node);
+    OUT_FIELD(DGH_PASS_FUNC_SIG(), "", func, "");
+    MEMfree(func);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 6b8d75af647e98ba3e9e066ed20ce3a550ac2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 02/67] fix: only unwrap the expression of a referenced node
 set

---
 cocogen/frontend/unwrap_setexpr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index db11363..1cf3174 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -9,6 +9,7 @@
 #include "assert.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
+#include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
 #include "sets/set.h"
 #include "frontend/symboltable.h"
@@ -61,7 +62,8 @@ node_st *USEsetreference(node_st *node)
     node_st *nodeset = STlookup(ste, SETREFERENCE_REFERENCE(node));
     assert(nodeset && NODE_TYPE(nodeset) == NT_INODESET);
     if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) != NT_SETLITERAL) {
-        TRAVchildren(nodeset);
+        // Only the expression: the rest of the list may hold the set we are in.
+        TRAVexpr(nodeset);
     }
     if (INODESET_EXPR(nodeset)) {
         assert(NODE_TYPE(INODESET_EXPR(nodeset)) == NT_SETLITERAL);
-- 
2.43.0


From 7e690435b19fb9a29af943e27e063c4477129ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 03/67] fix: keep iteration count and notifications of nested
 phases and cycles apart

---
 copra/src/phase_driver.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index 656eb35..eee9203 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -190,6 +190,11 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.level++;
     bool cycle = phase->is_cycle;
     uint64_t curr_action_id = phase_driver.action_id;
+    // The iteration count and notifications belong to the innermost phase.
+    size_t prev_cycle_iter = phase_driver.cycle_iter;
+    bool prev_fixed_point = phase_driver.fixed_point;
+    bool notified = false;
+    phase_driver.cycle_iter = 0;
 
     do {
         // If we cycle around, reset the action id.
@@ -204,6 +209,7 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
             action_id = phase->action_table[action_counter];
         }
         phase_driver.cycle_iter++;
+        notified = notified || !phase_driver.fixed_point;
     } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
 
     if (phase_driver.phase_error) {
@@ -213,7 +219,9 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
         CTIabortCompilation();
     }
 
-    phase_driver.cycle_iter = 0;
+    phase_driver.cycle_iter = prev_cycle_iter;
+    // A notification inside a nested phase counts for the enclosing cycle too.
+    phase_driver.fixed_point = prev_fixed_point && !notified;
     phase_driver.level--;
 
     phase_driver.current_phase = prev;
-- 
2.43.0


From 8d7eb122bf186b8fe9000ec38665b0fb307deff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 04/67] fix: removing an absent key from an empty bucket

---
 palm/src/hash_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 713d5f4..3e0de12 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -155,7 +155,7 @@ void *HTremove(htable_st *table, void *key)
     }
 
     previous = entry;
-    entry = entry->next;
+    entry = entry ? entry->next : NULL;
 
     while (entry) {
         if (table->is_equal_f(entry->key, key)) {
-- 
2.43.0


From 660a840f076cb0e330484f5be0071fe78526e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 05/67] fix: a cleared hash table has no elements

---
 palm/src/hash_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 3e0de12..26c1026 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -206,6 +206,7 @@ void HTclear(struct htable *table)
         }
         table->entries[i] = NULL;
     }
+    table->elements = 0;
 }
 
 /**
-- 
2.43.0


From df08eb651462342111bd44c6a7cc4fa53ce7101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 06/67] fix: report running out of memory for the buckets of a
 hash table

---
 palm/src/hash_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 26c1026..2e0ae5d 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -6,6 +6,7 @@
 #include <stdio.h>
 
 #include "palm/hash_table.h"
+#include "palm/ctinfo.h"
 #include "palm/memory.h"
 #include "palm/str.h"
 #include "palm/dbug.h"
@@ -44,6 +45,9 @@ struct htable *HTnew(size_t size, hash_key_ft hash_func, is_equal_ft is_equal_fu
     table->size = size;
     table->elements = 0;
     table->entries = calloc(sizeof(struct htable_entry *), size);
+    if (table->entries == NULL && size > 0) {
+        CTIabortOutOfMemory(sizeof(struct htable_entry *) * size);
+    }
     table->hash_f = hash_func;
     table->is_equal_f = is_equal_func;
 
-- 
2.43.0


From 058be973b721ce86bb0dddf73ffe110680c27956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 07/67] fix: STRtok releases its copy with the last token

---
 palm/src/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2dc5cc3..816283c 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -463,6 +463,7 @@ char *STRtok(const char *first, const char *sep)
         if (current[i] == '\0') {
             ret = STRcpy(current);
             current = NULL;
+            keep_string = MEMfree(keep_string);
         } else {
             current[i] = '\0';
             ret = STRcpy(current);
-- 
2.43.0


From 840531ca779fbcb76fe65a6b6407478b24ba39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 08/67] fix: STRsubStr of nothing, and of more than there is

---
 palm/src/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 816283c..82443fa 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -87,11 +87,11 @@ char *STRsubStr(const char *string, int start, int len)
         len = strlen + len; /* + - => - */
     }
 
-    if ((start + len) > strlen) { /* to long take what we can */
+    if (len > strlen - start) { /* to long take what we can */
         len = strlen - start;
     }
 
-    if (start > strlen) {
+    if (start >= strlen || len <= 0) {
         ret = STRnull();
     } else {
         ret = memcpy(MEMmalloc(sizeof(char) * (len + 1)),
-- 
2.43.0


From e97d1754e62eeba3f8fa23acafc4d7d09f285bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 09/67] fix: STRsuffix of NULL, like STRprefix

---
 palm/src/str.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 82443fa..8eba514 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -344,7 +344,11 @@ bool STRsuffix(const char *suffix, const char *str)
 {
     bool res = false;
 
-    if (STRlen(suffix) > STRlen(str)) {
+    if (suffix == NULL) {
+        res = true;
+    } else if (str == NULL) {
+        res = false;
+    } else if (STRlen(suffix) > STRlen(str)) {
         res = false;
     } else {
         str = str + STRlen(str) - STRlen(suffix);
-- 
2.43.0


From 71c2f031e7355e0f2b4fb799f7d3452fdcbaf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 10/67] fix: STRsubstToken of NULL strings and of an empty
 token

---
 palm/src/str.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 8eba514..65b7b86 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -567,6 +567,10 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     char *pos;
     char *result;
 
+    if (str == NULL || STRlen(token) == 0) {
+        return STRcpy(str);
+    }
+
     /* Find number of occurrences of token in str */
     occurrences = 0;
     tlen = STRlen(token);
@@ -584,7 +588,9 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     pos = result;
     while (*str != '\0') {
         if (STRprefix(token, str)) {
-            strncpy(pos, subst, slen);
+            if (slen > 0) {
+                memcpy(pos, subst, slen);
+            }
             pos += slen;
             str += tlen;
         } else {
-- 
2.43.0


From 3d20e88fc1a6372a141ba017cc90667cc474662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 11/67] fix: MEMcopy of size zero

---
 palm/src/memory.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/palm/src/memory.c b/palm/src/memory.c
index 72fe308..852d6d5 100644
--- a/palm/src/memory.c
+++ b/palm/src/memory.c
@@ -93,7 +93,9 @@ void *MEMcopy(size_t size, void *mem)
     void *result;
 
     result = MEMmalloc(size);
-    result = memcpy(result, mem, size);
+    if (result != NULL) {
+        result = memcpy(result, mem, size);
+    }
 
     return result;
 }
-- 
2.43.0


From c21af403f3495204a1a2ed646c377fbe691190cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 12/67] fix: print the size of large requests that run out of
 memory

---
 palm/include/palm/ctinfo.h | 3 ++-
 palm/src/ctinfo.c          | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/palm/include/palm/ctinfo.h b/palm/include/palm/ctinfo.h
index 1f5f9c6..1d6f83f 100644
--- a/palm/include/palm/ctinfo.h
+++ b/palm/include/palm/ctinfo.h
@@ -33,6 +33,7 @@
 
 #include <stdarg.h>
 #include <stdbool.h>
+#include <stddef.h>
 
 /**
  * Object to describe location information of a compile time object.
@@ -118,7 +119,7 @@ extern void CTIabortOnError();
  * @param request size of requested memory
  *
  */
-extern void CTIabortOutOfMemory(unsigned int request);
+extern void CTIabortOutOfMemory(size_t request);
 
 /**
  * Prints a message to stderr with header according to the type.
diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index 6812dff..6f58910 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -435,7 +435,7 @@ int CTIgetWarnings()
 
 /** <!--********************************************************************-->
  *
- * @fn void CTIabortOutOfMemory( unsigned int request)
+ * @fn void CTIabortOutOfMemory( size_t request)
  *
  *   @brief   produces a specific "out of memory" error message
  *            without file name and line number and terminates the
@@ -451,12 +451,12 @@ int CTIgetWarnings()
  *
  ******************************************************************************/
 
-void CTIabortOutOfMemory(unsigned int request)
+void CTIabortOutOfMemory(size_t request)
 {
     fprintf(stderr,
         "\n"
         "%sOut of memory:\n"
-        "%s %u bytes requested\n",
+        "%s %zu bytes requested\n",
         abort_message_header,
         abort_message_header, request);
 
-- 
2.43.0


From b55319fcdce55083fa3588077f0c10c5caa04808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 13/67] fix: keep '@' in messages

---
 palm/src/ctinfo.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index 6f58910..a05e8b3 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -32,8 +32,7 @@ static int warnings = 0;
  *
  *   @brief  formats message according to line length
  *
- *           '@' characters are inserted into the buffer to represent line
- *           breaks.
+ *           Newlines are inserted into the buffer to represent line breaks.
  *
  *   @param buffer  message buffer
  *   @param line_length maximum line length
@@ -57,12 +56,11 @@ static void ProcessMessage(char *buffer, int line_length)
         }
 
         if (buffer[index] == '\n') {
-            buffer[index] = '@';
             column = 0;
         } else {
             if (column == line_length) {
                 if (buffer[last_space] == ' ') {
-                    buffer[last_space] = '@';
+                    buffer[last_space] = '\n';
                     column = index - last_space;
                 } else {
                     break;
@@ -152,7 +150,7 @@ char *CTIgetErrorMessageVA(int line, const char *format, va_list arg_p)
     ProcessMessage(message_buffer,
         message_line_length - strlen(error_message_header));
 
-    first_line = STRfmt("line %d @", line);
+    first_line = STRfmt("line %d \n", line);
     res = STRcat(first_line, message_buffer);
     first_line = MEMfree(first_line);
 
@@ -248,12 +246,12 @@ static void PrintMessage(char *header, const char *format, va_list arg_p, bool n
 
     ProcessMessage(message_buffer, message_line_length - strlen(header));
 
-    line = strtok(message_buffer, "@");
+    line = strtok(message_buffer, "\n");
 
     while (line != NULL) {
         fprintf(stderr, "%s%s\n", header, line);
         header = "";
-        line = strtok(NULL, "@");
+        line = strtok(NULL, "\n");
     }
 
     PrintInfo(info);
-- 
2.43.0


From 37d872e86131d274b5bffa4b0e6bad8a1a9e6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 14/67] fix: a breakpoint path only names actions of the phase
 it leads to

---
 copra/src/phase_driver.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index eee9203..50684c4 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -25,6 +25,7 @@ struct phase_driver {
     bool action_error;
     bool phase_error;
     bool tree_check;
+    bool breakpoint_entered;
     struct ccn_phase *current_phase;
     char *breakpoint;
 };
@@ -40,6 +41,7 @@ static struct phase_driver phase_driver = {
     .action_error = false,
     .phase_error = false,
     .tree_check = true,
+    .breakpoint_entered = false,
     .verbosity = PD_V_QUIET,
     .breakpoint = NULL,
 };
@@ -177,11 +179,15 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     }
 
     char *old_break = NULL;
+    bool old_entered = phase_driver.breakpoint_entered;
     if (phase_driver.breakpoint) {
         char *new_break = Checkbreakpoint(phase_name);
-        if (new_break != NULL) {
+        // Past the first phase of the path, the rest only names actions of that phase
+        // itself, and not those of its other phases.
+        if (new_break != NULL || phase_driver.breakpoint_entered) {
             old_break = phase_driver.breakpoint;
             phase_driver.breakpoint = new_break;
+            phase_driver.breakpoint_entered = true;
         }
     }
 
@@ -227,6 +233,7 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.current_phase = prev;
     if (old_break != NULL) {
         phase_driver.breakpoint = old_break;
+        phase_driver.breakpoint_entered = old_entered;
     }
     return node;
 }
-- 
2.43.0


From ba6af24c736a84e44ea111235cdafef0bf02a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 15/67] fix: name user-typed constructor arguments as the
 constructor uses them

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 46ef2c2..5a6fb11 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -73,7 +73,7 @@ node_st *DGIFattribute(node_st *node)
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
             OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
-            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
             OUT("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), DGHattributeField(node));
         }
-- 
2.43.0


From 43616e3f6ef8725fc13d4433844cb8cb7de57c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 16/67] fix: constructor arguments of an enum type use the
 declared name of the enum

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 5a6fb11..1411a43 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -9,16 +9,19 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "dynamic_backend/gen_helpers.h"
+#include "frontend/symboltable.h"
 
 bool dgif_print_semicolon = false;
 static char *basic_node_type = "node_st";
 static char *curr_node_name = NULL;
 static char *curr_node_name_upr = NULL;
 static int arg_num = 0;
+static node_st *ste = NULL;
 
 node_st *DGIFast(node_st *node)
 {
     dgif_print_semicolon = true;
+    ste = AST_STABLE(node);
     TRAVinodes(node);
     return node;
 }
@@ -71,7 +74,10 @@ node_st *DGIFattribute(node_st *node)
         if (ATTRIBUTE_TYPE(node) == AT_link) {
             OUT("%s *%s", basic_node_type, DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
-            OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
+            // The reference may be spelled in another letter case than the declaration.
+            node_st *ref = STlookup(ste, ATTRIBUTE_TYPE_REFERENCE(node));
+            assert(ref);
+            OUT("enum %s %s", ID_ORIG(IENUM_NAME(ref)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
             OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
-- 
2.43.0


From 4471dd4b9e55acee457a6eeeef6a6725b76e28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 17/67] fix: enforce every lifetime of a list, not only the
 first

---
 cocogen/dynamic_backend/gen_check_traversal.c    | 1 +
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 883b5f8..1b865a5 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -687,6 +687,7 @@ node_st *DGCHTilifetime(node_st *node)
         LifetimeAttributeGen(node);
     }
 
+    TRAVnext(node);
     return node;
 }
 
diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index ed733b0..285a1e6 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -99,6 +99,7 @@ node_st *MITLilifetime(node_st *node)
     TRAVbegin(node);
     last_action = NULL;
     TRAVend(node);
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From 05a759836882b931b4853d6812eda0c8275ceb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 18/67] fix: report children and attributes outside their
 allowed range through CTI

---
 cocogen/dynamic_backend/gen_check_traversal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 1b865a5..6578ca4 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -394,7 +394,7 @@ static void LifetimeChildAllowed(node_st *lifetime_begin, node_st *lifetime_end)
                  ID_UPR(INODE_NAME(curr_node)),
                  ID_UPR(CHILD_NAME(curr_child)));
     OUT_FIELD(
-        "CTIerror(\"Found disallowed child(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed child(%s) in node(%s).\\n\");",
         ID_ORIG(CHILD_NAME(curr_child)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
@@ -567,7 +567,7 @@ static void LifetimeAttributeAllowed(node_st *lifetime_begin, node_st *lifetime_
 
     OUT_BEGIN_IF("%s != NULL", access);
     OUT_FIELD(
-        "CTIerror(\"Found disallowed attribute(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed attribute(%s) in node(%s).\\n\");",
         ID_ORIG(ATTRIBUTE_NAME(curr_attribute)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
-- 
2.43.0


From 8ed192a2cf7777a51d4b8cbcf658fa5c51b609bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 19/67] fix: action ids of lifetimes on nested and on shared
 phases

---
 .../frontend/lifetimes/map_id_to_lifetimes.c  | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 285a1e6..e75a6ed 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -20,6 +20,10 @@ static node_st *ast = NULL;
 static node_st *ste = NULL;
 static bool in_node = false;
 static bool in_lifetime = false;
+// Action IDs of the action last visited, and of the target found last. A phase can be
+// part of several phases, so IDs belong to a position and not to an iactions node.
+static int curr_action_id = 0;
+static int last_action_id = 0;
 
 /**
  * Compare if two identifiers are equal by comparing their lower case form.
@@ -35,6 +39,22 @@ static bool CompareID(node_st *id, node_st *other_id)
     return STReq(ID_LWR(id), ID_LWR(other_id));
 }
 
+/**
+ * The number of actions in a list of actions, including those of nested phases.
+ */
+static int CountActions(node_st *actions)
+{
+    int count = 0;
+    for (; actions; actions = IACTIONS_NEXT(actions)) {
+        node_st *action = STlookup(ste, IACTIONS_REFERENCE(actions));
+        count++;
+        if (action && NODE_TYPE(action) == NT_IPHASE) {
+            count += CountActions(IPHASE_IACTIONS(action));
+        }
+    }
+    return count;
+}
+
 
 node_st *MITLast(node_st *node)
 {
@@ -61,12 +81,14 @@ node_st *MITLinode(node_st *node)
 node_st *MITLiactions(node_st *node)
 {
     node_st *action_lookup = STlookup(ste, IACTIONS_REFERENCE(node));
+    curr_action_id++;
     if (action_lookup == NULL) {
         CTI(CTI_ERROR, true, "Lifetime target(%s) does not reference a valid action.", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     if (NODE_TYPE(action_lookup) == NT_IPHASE) {
         if (CompareID(IPHASE_NAME(action_lookup), curr_target) || CompareID(IPHASE_IPREFIX(action_lookup), curr_target)) {
             last_action = node;
+            last_action_id = curr_action_id;
             last_node = action_lookup;
             return node;
         }
@@ -74,6 +96,7 @@ node_st *MITLiactions(node_st *node)
     } else if (NODE_TYPE(action_lookup) == NT_IPASS) {
         if (CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(IPASS_IPREFIX(action_lookup), curr_target)) {
             last_action = node;
+            last_action_id = curr_action_id;
             last_node = action_lookup;
             return node;
         }
@@ -81,6 +104,7 @@ node_st *MITLiactions(node_st *node)
         if (CompareID(ITRAVERSAL_NAME(action_lookup), curr_target) || CompareID(ITRAVERSAL_IPREFIX(action_lookup), curr_target)) {
             last_node = action_lookup;
             last_action = node;
+            last_action_id = curr_action_id;
             return node;
         }
     }
@@ -115,17 +139,10 @@ node_st *MITLlifetime_range(node_st *node)
         info.last_column = 0;
         CTIobj(CTI_ERROR, true, info, "Lifetime does not target a valid action.");
     } else {
-        LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
+        LIFETIME_RANGE_ACTION_ID(node) = last_action_id;
+        LIFETIME_RANGE_NEXT_ACTION_ID(node) = last_action_id + 1;
         if (NODE_TYPE(last_node) == NT_IPHASE) {
-            node_st *phase_actions = IPHASE_IACTIONS(last_node);
-            node_st *next = IACTIONS_NEXT(phase_actions);
-            while (next) {
-                phase_actions = next;
-                next = IACTIONS_NEXT(phase_actions);
-            }
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(phase_actions) + 1;
-        } else {
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
+            LIFETIME_RANGE_NEXT_ACTION_ID(node) += CountActions(IPHASE_IACTIONS(last_node));
         }
     }
     in_lifetime = false;
@@ -140,6 +157,8 @@ node_st *MITLid(node_st *node)
     }
     curr_target = node;
     if (last_action == NULL) {
+        // The start phase itself has ID 1.
+        curr_action_id = 1;
         TRAViactions(AST_START_PHASE(ast));
     } else {
         node_st *action = STlookup(ste, IACTIONS_REFERENCE(last_action));
@@ -156,6 +175,7 @@ node_st *MITLid(node_st *node)
         } else {
             last_action = NULL;
             last_node = NULL;
+            curr_action_id = last_action_id;
             TRAViactions(action);
         }
     }
-- 
2.43.0


From 615eec77b50f3034333d0aa5d42de08a524618c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 20/67] fix: accept a node whose only block, or only block
 beside equations, is lifetime

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index a805eca..559139e 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -689,6 +689,19 @@ node: is_root[root] T_NODE id[name] '{'  childrenbody[children] ',' attributebod
         INODE_IS_ROOT($$) = $root;
         INODE_IEQUATIONS($$) = $equations;
     }
+    | is_root[root] T_NODE id[name] '{' equationbody[equations] ',' nodelifetimes[lifetimes] '}'
+    {
+        $$ = ASTinode($name, NULL);
+        INODE_IS_ROOT($$) = $root;
+        INODE_IEQUATIONS($$) = $equations;
+        INODE_LIFETIMES($$) = $lifetimes;
+    }
+    | is_root[root] T_NODE id[name] '{' T_LIFETIME '{' lifetimes[lts] '}' '}'
+    {
+        $$ = ASTinode($name, NULL);
+        INODE_IS_ROOT($$) = $root;
+        INODE_LIFETIMES($$) = $lts;
+    }
     | is_root[root] T_NODE id[name] '{' '}'
     {
         $$ = ASTinode($name, NULL);
-- 
2.43.0


From 5601d1aed361d5fbfef0f3caa0ed4acb10625c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 21/67] fix: do not display absent values of a source location

---
 palm/src/ctinfo.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index a05e8b3..2275c0f 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -183,23 +183,35 @@ static void PrintLocation(struct ctinfo *info)
     }
 }
 
+// Values that are 0 or NULL are not displayed.
+static void PrintFilename(struct ctinfo *info)
+{
+    fprintf(stderr, " --> ");
+    if (info->filename != NULL) {
+        fprintf(stderr, info->first_line > 0 ? "%s:" : "%s", info->filename);
+    }
+}
+
 static void PrintLine(struct ctinfo *info)
 {
-    fprintf(stderr, " --> %s:%d\n", info->filename, info->first_line);
+    PrintFilename(info);
+    fprintf(stderr, "%d\n", info->first_line);
 }
 
 static void PrintLineCol(struct ctinfo *info)
 {
-    fprintf(stderr, " --> %s:%d:%d\n", info->filename, info->first_line, info->first_column);
+    PrintFilename(info);
+    fprintf(stderr, "%d:%d\n", info->first_line, info->first_column);
     PrintLocation(info);
 }
 
 static void PrintRange(struct ctinfo *info)
 {
+    PrintFilename(info);
     if (info->last_line == 0 || info->first_line == info->last_line) {
-        fprintf(stderr, " --> %s:%d.%d-%d\n", info->filename, info->first_line, info->first_column, info->last_column);
+        fprintf(stderr, "%d.%d-%d\n", info->first_line, info->first_column, info->last_column);
     } else {
-        fprintf(stderr, " --> %s:%d.%d-%d.%d\n", info->filename, info->first_line, info->first_column, info->last_line, info->last_column);
+        fprintf(stderr, "%d.%d-%d.%d\n", info->first_line, info->first_column, info->last_line, info->last_column);
     }
     PrintLocation(info);
 }
@@ -210,7 +222,15 @@ static void PrintInfo(struct ctinfo *info)
         return;
     }
 
-    if (info->first_line > 0 && info->first_column <= 0) {
+    if (info->first_line <= 0) {
+        if (info->filename != NULL) {
+            PrintFilename(info);
+            fputc('\n', stderr);
+        }
+        if (info->first_column > 0) {
+            PrintLocation(info);
+        }
+    } else if (info->first_column <= 0) {
         PrintLine(info);
     } else if (info->last_column <= 0 || ((info->last_line <= 0 || info->first_line == info->last_line) && info->first_column == info->last_column)) {
         PrintLineCol(info);
-- 
2.43.0


From 27037381367057201c9d8d1a134b81d282bd1768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 22/67] fix: equation headers use node_st without declaring it

---
 cocogen/dynamic_backend/gen_equation_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 922b8fe..1eef61a 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -72,6 +72,7 @@ node_st *DGEFinode(node_st *node) {
         OUT("#include \"ccngen/ccn_defs.h\"\n");
         OUT("#include \"ccn/ccn_types.h\"\n");
         OUT("#include \"ccngen/enum.h\"\n");
+        OUT("#include \"ccngen/ast.h\"\n");
         OUT("#ifdef CCN_USES_UNSAFE\n");
         OUT("#include \"user_types.h\"\n");
         OUT("#endif\n");
-- 
2.43.0


From 40f2259ea5e9a75d456da0c04d7984af19bf6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 23/67] fix: attribute that depends on itself is accepted

---
 cocogen/frontend/attribute_scheduler/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 9b79d81..7836a6b 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -222,7 +222,7 @@ static struct GRedge *add_edge_internal(struct GRgraph *graph,
 static inline bool check_cycle(struct GRgraph *graph, struct GRnode *n1,
                                struct GRnode *n2, struct GRerror *error,
                                enum GRedge_type type) {
-    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {
+    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {
         switch (type) {
         case GRnormal:
             error->type = GR_error_cycle;
-- 
2.43.0


From 41261edafeee1e980cd2ad25424f3b60b4fc67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 24/67] fix: only the first attribute of a node(set) was
 checked

---
 cocogen/frontend/check_attributes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 13c10aa..d53533c 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -68,6 +68,7 @@ node_st *CHAattribute(node_st *node) {
     // Don't check propagated attributes for the rest to prevent duplicate
     // errors
     if (ATTRIBUTE_IS_PROPAGATED(node)) {
+        TRAVnext(node);
         return node;
     }
 
@@ -94,5 +95,6 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 7b3c781b4cad9033320a115e8b21a550fa196601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 25/67] fix: nodeset visit can start with a member that has no
 such visit

---
 .../attribute_scheduler/generate_visits.c     | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index b407020..e54a1d3 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -366,14 +366,41 @@ static node_st *add_visit_sequence_visit_nodeset_rec(
     return sequence;
 }
 
+static inline node_st *get_alt(node_st *sequence) {
+    return NODE_TYPE(sequence) == NT_VISIT_SEQUENCE_VISIT
+               ? VISIT_SEQUENCE_VISIT_ALT(sequence)
+               : VISIT_SEQUENCE_DUMMY_ALT(sequence);
+}
+
 static inline node_st *
 add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
                                  htable_st *visit_stubs_htable, node_st *expr,
                                  node_st *child, struct visit *original_visit) {
     node_st *visit_tail = NULL;
-    return add_visit_sequence_visit_nodeset_rec(&visit_tail, st, visits_htable,
-                                                visit_stubs_htable, expr, child,
-                                                original_visit);
+    node_st *head = add_visit_sequence_visit_nodeset_rec(
+        &visit_tail, st, visits_htable, visit_stubs_htable, expr, child,
+        original_visit);
+
+    // Only an actual visit can be part of a visit sequence, so the
+    // alternatives have to start with one.
+    node_st *prev = NULL;
+    node_st *first = head;
+    while (first != NULL && NODE_TYPE(first) != NT_VISIT_SEQUENCE_VISIT) {
+        prev = first;
+        first = get_alt(first);
+    }
+
+    if (first == NULL) { // None of the node types requires this visit
+        CCNfree(head);
+        return NULL;
+    }
+
+    if (prev != NULL) {
+        set_alt(prev, get_alt(first));
+        set_alt(first, head);
+    }
+
+    return first;
 }
 
 static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
-- 
2.43.0


From 786520d19278fecec14e7ef0d2197b4d721c34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 26/67] fix: equation reads an inherited attribute of a child
 before it is stored

---
 cocogen/dynamic_backend/gen_visit_source.c | 66 +++++++++++++++++++++-
 1 file changed, 63 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6b1ef27..12199b4 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -259,6 +259,64 @@ static inline void print_equation_args(node_st *equation,
     }
 }
 
+static void print_set_child_value(char *child_access, node_st *type_name,
+                                  node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    char *node_name = ID_LWR(type_name);
+    char *attr_name = ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute));
+    OUT("%s->data.N_%s->_%s.ccn_val_set = true;\n", child_access, node_name,
+        attr_name);
+    OUT("%s->data.N_%s->_%s.%s = %s_%s;\n", child_access, node_name, attr_name,
+        attr_name, get_node_name_this(attribute), attr_name);
+}
+
+static void print_set_nodeset_child_value(char *child_access, node_st *expr,
+                                          node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    OUT_BEGIN_IF("NODE_TYPE(%s) == NT_%s", child_access,
+                 ID_UPR(SETLITERAL_REFERENCE(expr)));
+    print_set_child_value(child_access, SETLITERAL_REFERENCE(expr), attribute);
+    OUT_END_IF();
+    print_set_nodeset_child_value(child_access, SETLITERAL_LEFT(expr),
+                                  attribute);
+    print_set_nodeset_child_value(child_access, SETLITERAL_RIGHT(expr),
+                                  attribute);
+}
+
+/* Store the value of an inherited attribute in the child itself, such that it
+   is available to equations that depend on it and to later visits. */
+static void print_store_inherited(node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    node_st *child = get_child(ATTRIBUTE_REFERENCE_INODE(attribute));
+    assert(child != NULL);
+    node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+    assert(type != NULL);
+    char *child_access = STRfmt("%s_%s(node)", ID_UPR(INODE_NAME(curr_node)),
+                                ID_UPR(CHILD_NAME(child)));
+
+    if (!CHILD_IS_MANDATORY(child)) {
+        OUT_BEGIN_IF("%s != NULL", child_access);
+    }
+
+    if (NODE_TYPE(type) == NT_INODESET) {
+        print_set_nodeset_child_value(child_access, INODESET_EXPR(type),
+                                      attribute);
+    } else {
+        print_set_child_value(child_access, INODE_NAME(type), attribute);
+    }
+
+    if (!CHILD_IS_MANDATORY(child)) {
+        OUT_END_IF();
+    }
+
+    MEMfree(child_access);
+}
+
 /**
  * @fn DGVSvisit_sequence_eval
  */
@@ -378,6 +436,8 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
         print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);
         MEMfree(arg_str);
+    } else { // inherited attribute of a child
+        print_store_inherited(attribute);
     }
 
     HTdelete(children_null);
@@ -457,9 +517,9 @@ static void print_visit_call(node_st *node, node_st *outputs,
     for (node_st *in_arg = VISIT_INPUTS(visit); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
         node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(in_arg);
-        OUT_NO_INDENT(", %s_%s",
-                      ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
-                      ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        OUT_NO_INDENT(", %s_%s(%s)", ID_UPR(CHILD_TYPE_REFERENCE(child)),
+                      ID_UPR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
+                      child_access);
     }
 
     OUT_NO_INDENT(");\n");
-- 
2.43.0


From 0dbbf25d62190a8de7780a1958655c2de6170b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 27/67] fix: generator crashes if first member of a nodeset has
 no visit outputs

---
 cocogen/dynamic_backend/gen_visit_source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 12199b4..198d02b 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -449,7 +449,7 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
 static inline bool is_desired(node_st *output, node_st *outputs) {
     assert(NODE_TYPE(output) == NT_VISIT_ARG_LIST);
-    assert(NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
+    assert(outputs == NULL || NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
     for (node_st *candidate = outputs; candidate;
          candidate = VISIT_ARG_LIST_NEXT(candidate)) {
         node_st *attr = VISIT_ARG_LIST_ATTRIBUTE(output);
-- 
2.43.0


From e2f0578af12a297bf4fe8a8e9e0bd8c53d938f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:43 +0000
Subject: [PATCH 28/67] fix: duplicate production rules and dependencies crash
 the generator

---
 cocogen/frontend/check_product_rules.c | 43 ++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index cbd9a20..99d2c32 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -3,8 +3,6 @@
  *
  * Traversal: checkProductRules
  * UID      : CPR
- *
- * TODO: prevent duplicate production rules / args
  */
 
 #include <assert.h>
@@ -220,6 +218,30 @@ static void check_product_rule(node_st *equations, node_st *node_name,
     }
 }
 
+static bool is_same_reference(node_st *a, node_st *b) {
+    node_st *a_node = ATTRIBUTE_REFERENCE_INODE(a);
+    node_st *b_node = ATTRIBUTE_REFERENCE_INODE(b);
+    // NULL == this
+    if ((a_node == NULL) != (b_node == NULL)) {
+        return false;
+    }
+
+    return (a_node == NULL || STReq(ID_LWR(a_node), ID_LWR(b_node))) &&
+           STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(a)),
+                 ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(b)));
+}
+
+static void report_duplicate(node_st *reference, char *kind) {
+    struct ctinfo info;
+    id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference), &info);
+    node_st *node_name = ATTRIBUTE_REFERENCE_INODE(reference);
+    CTIobj(CTI_ERROR, true, info, "Duplicate %s '%s.%s' in node '%s'\n", kind,
+           node_name == NULL ? "this" : ID_ORIG(node_name),
+           ID_ORIG(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference)),
+           ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)));
+    CCNerrorAction();
+}
+
 /**
  * @fn CPRast
  */
@@ -246,6 +268,14 @@ node_st *CPRinode(node_st *node) {
  */
 node_st *CPRequation(node_st *node) {
     check_attribute_reference(EQUATION_RULE(node), true);
+    for (node_st *eq = EQUATION_NEXT(node); eq != NULL;
+         eq = EQUATION_NEXT(eq)) {
+        if (is_same_reference(EQUATION_RULE(node), EQUATION_RULE(eq))) {
+            report_duplicate(EQUATION_RULE(eq), "product rule");
+            break;
+        }
+    }
+
     TRAViargs(node);
     TRAVnext(node);
     return node;
@@ -256,6 +286,15 @@ node_st *CPRequation(node_st *node) {
  */
 node_st *CPRequation_dependency(node_st *node) {
     check_attribute_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node), false);
+    for (node_st *dep = EQUATION_DEPENDENCY_NEXT(node); dep != NULL;
+         dep = EQUATION_DEPENDENCY_NEXT(dep)) {
+        if (is_same_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node),
+                              EQUATION_DEPENDENCY_IATTRIBUTE(dep))) {
+            report_duplicate(EQUATION_DEPENDENCY_IATTRIBUTE(dep), "dependency");
+            break;
+        }
+    }
+
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From fbed79ce8032665201373d8d13ee14f5115e19ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 29/67] fix: members of a nodeset can have inherited attributes
 the nodeset lacks

---
 cocogen/frontend/check_product_rules.c | 43 ++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index 99d2c32..0e2c3fd 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -242,11 +242,53 @@ static void report_duplicate(node_st *reference, char *kind) {
     CCNerrorAction();
 }
 
+/* Report the inherited attributes of the members of a nodeset that are not
+   attributes of the nodeset. */
+static void check_additional_inherited(node_st *expr, node_st *nodeset) {
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    node_st *member =
+        STlookup(DATA_CPR_GET()->symboltable, SETLITERAL_REFERENCE(expr));
+    for (node_st *attribute = INODE_IATTRIBUTES(member); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        if (ATTRIBUTE_IS_INHERITED(attribute) &&
+            find_attribute(nodeset, INODESET_IATTRIBUTES(nodeset),
+                           ATTRIBUTE_NAME(attribute)) == NULL) {
+            struct ctinfo info;
+            id_to_info(ATTRIBUTE_NAME(attribute), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Node '%s' has an inherited attribute '%s' that nodeset "
+                   "'%s' does not have\n",
+                   ID_ORIG(INODE_NAME(member)),
+                   ID_ORIG(ATTRIBUTE_NAME(attribute)),
+                   ID_ORIG(INODESET_NAME(nodeset)));
+            CCNerrorAction();
+        }
+    }
+
+    check_additional_inherited(SETLITERAL_LEFT(expr), nodeset);
+    check_additional_inherited(SETLITERAL_RIGHT(expr), nodeset);
+}
+
 /**
  * @fn CPRast
  */
 node_st *CPRast(node_st *node) {
     DATA_CPR_GET()->symboltable = AST_STABLE(node);
+    for (node_st *nodeset = AST_INODESETS(node); nodeset != NULL;
+         nodeset = INODESET_NEXT(nodeset)) {
+        for (node_st *attribute = INODESET_IATTRIBUTES(nodeset);
+             attribute != NULL; attribute = ATTRIBUTE_NEXT(attribute)) {
+            if (ATTRIBUTE_IS_INHERITED(attribute)) {
+                check_additional_inherited(INODESET_EXPR(nodeset), nodeset);
+                break;
+            }
+        }
+    }
+
     TRAVinodes(node);
     return node;
 }
@@ -325,6 +367,7 @@ node_st *CPRchild(node_st *node) {
     } else {
         assert(NODE_TYPE(ref_node) == NT_INODESET);
         attributes = INODESET_IATTRIBUTES(ref_node);
+        check_additional_inherited(INODESET_EXPR(ref_node), ref_node);
     }
 
     for (node_st *attribute = attributes; attribute != NULL;
-- 
2.43.0


From 80f85aaa3a4784b2c438eb7cafab9d9d362487e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 30/67] fix: result of two visits of the same type in one node
 has the same name

---
 cocogen/dynamic_backend/gen_visit_source.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 198d02b..8535ebd 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -504,7 +504,8 @@ static void print_visit_call(node_st *node, node_st *outputs,
             }
         } else { // multiple output
             multiple_outputs = true;
-            OUT("struct %s_out %s_output", visit_name, visit_name);
+            OUT("struct %s_out %s_%s_output", visit_name,
+                ID_LWR(CHILD_NAME(child)), visit_name);
             print_unused();
             OUT_NO_INDENT(" = ");
         }
@@ -536,10 +537,10 @@ static void print_visit_call(node_st *node, node_st *outputs,
                 print_type(ATTRIBUTE_REFERENCE_REFERENCE(attribute));
                 OUT_NO_INDENT(" ");
             }
-            OUT_NO_INDENT("%s_%s = %s_output.%s_%s;\n",
+            OUT_NO_INDENT("%s_%s = %s_%s_output.%s_%s;\n",
                           ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
-                          visit_name, get_node_name_this(attribute),
+                          ID_LWR(CHILD_NAME(child)), visit_name, get_node_name_this(attribute),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
         }
     }
-- 
2.43.0


From 92ce2225a9e84235548e109674dae0dea306b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 31/67] fix: visits to members of a nodeset that need more
 visits than the nodeset are never made

---
 cocogen/dynamic_backend/gen_visit_source.c    |  10 ++
 .../attribute_scheduler/generate_visits.c     | 105 ++++++++++++++++--
 2 files changed, 106 insertions(+), 9 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 8535ebd..f5913e9 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -561,6 +561,12 @@ static inline node_st *get_alt(node_st *visit) {
     }
 }
 
+static inline bool is_same_member(node_st *visit, node_st *alt) {
+    return alt != NULL && NODE_TYPE(alt) == NT_VISIT_SEQUENCE_VISIT &&
+           VISIT_INODE(VISIT_SEQUENCE_VISIT_VISIT(visit)) ==
+               VISIT_INODE(VISIT_SEQUENCE_VISIT_VISIT(alt));
+}
+
 /**
  * @fn DGVSvisit_sequence_visit
  */
@@ -611,6 +617,10 @@ node_st *DGVSvisit_sequence_visit(node_st *node) {
                                   VISIT_SEQUENCE_VISIT_VISIT(alt_visit)))));
                 GNindentIncrease(ctx);
                 print_visit_call(alt_visit, outputs, false, true);
+                while (is_same_member(alt_visit, get_alt(alt_visit))) {
+                    alt_visit = get_alt(alt_visit);
+                    print_visit_call(alt_visit, outputs, false, true);
+                }
                 GNindentDecrease(ctx);
             } else {
                 OUT_NO_INDENT(
diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index e54a1d3..cb1d5f3 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -316,6 +316,78 @@ static inline void set_alt(node_st *sequence, node_st *alt) {
     }
 }
 
+static inline bool has_attribute(struct GRnode **nodes, size_t length,
+                                 node_st *attribute) {
+    for (size_t i = 0; i < length; ++i) {
+        if (STReq(ID_LWR(ATTRIBUTE_NAME(nodes[i]->attribute)),
+                  ID_LWR(ATTRIBUTE_NAME(attribute)))) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
+/* The inputs of a visit to a member node are all available at a certain visit
+   to the nodeset. */
+static bool has_inputs(struct visits *nodeset_visits, size_t index,
+                       struct visit *visit) {
+    for (size_t i = 0; i < visit->inputs_length; ++i) {
+        bool found = false;
+        for (size_t j = 0; j <= index && !found; ++j) {
+            found = has_attribute(nodeset_visits->visits[j]->inputs,
+                                  nodeset_visits->visits[j]->inputs_length,
+                                  visit->inputs[i]->attribute);
+        }
+        if (!found) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
+/* The visits to a member do not have to coincide with the visits to the
+   nodeset, since they may depend on more attributes. A visit to a member takes
+   place as part of the first visit to the nodeset that has its inputs, so visit
+   index of the nodeset consists of visits *first up to *last of the member. */
+static void find_member_visits(struct visits *nodeset_visits,
+                               struct visits *visits, size_t index,
+                               size_t *first, size_t *last) {
+    *last = 0;
+    for (size_t i = 0; i <= index; ++i) {
+        *first = *last;
+        while (*last < visits->length &&
+               has_inputs(nodeset_visits, i, visits->visits[*last])) {
+            *last += 1;
+        }
+    }
+}
+
+static void check_member_outputs(node_st *node, struct visit *nodeset_visit,
+                                 struct visits *visits, size_t last) {
+    for (size_t i = 0; i < nodeset_visit->outputs_length; ++i) {
+        node_st *attribute = nodeset_visit->outputs[i]->attribute;
+        bool found = false;
+        for (size_t j = 0; j < last && !found; ++j) {
+            found = has_attribute(visits->visits[j]->outputs,
+                                  visits->visits[j]->outputs_length, attribute);
+        }
+        if (!found) {
+            struct ctinfo info;
+            id_to_info(get_node_name(node), &info);
+            CTIobj(CTI_ERROR, false, info,
+                   "Unable to schedule attribute '%s' of node '%s' in visit "
+                   "%lu to nodeset '%s'.\n",
+                   ID_ORIG(ATTRIBUTE_NAME(attribute)),
+                   ID_ORIG(get_node_name(node)), nodeset_visit->index + 1,
+                   ID_ORIG(get_node_name(nodeset_visit->outputs[i]->node)));
+            fclose(log);
+            CTIabortCompilation();
+        }
+    }
+}
+
 static node_st *add_visit_sequence_visit_nodeset_rec(
     node_st **visit_tail, node_st *st, htable_st *visits_htable,
     htable_st *visit_stubs_htable, node_st *expr, node_st *child,
@@ -328,15 +400,29 @@ static node_st *add_visit_sequence_visit_nodeset_rec(
 
     node_st *node = STlookup(st, SETLITERAL_REFERENCE(expr));
     struct visits *visits = HTlookup(visits_htable, node);
+    struct visits *nodeset_visits =
+        HTlookup(visits_htable, get_node_type(child, st));
+    node_st *head = NULL;
     node_st *sequence = NULL;
-    if (original_visit->index < visits->length) {
-        struct visit *visit = visits->visits[original_visit->index];
+    size_t first = 0;
+    size_t last = 0;
+    find_member_visits(nodeset_visits, visits, original_visit->index, &first,
+                       &last);
+    check_member_outputs(node, original_visit, visits, last);
+    for (size_t i = first; i < last; ++i) {
+        node_st *visit = ASTvisit_sequence_visit(child, NULL);
+        add_visit_stub(visit_stubs_htable, visits->visits[i], visit);
+        if (sequence == NULL) {
+            head = visit;
+        } else {
+            set_alt(sequence, visit);
+        }
+        sequence = visit;
+    }
 
-        sequence = ASTvisit_sequence_visit(child, NULL);
-        add_visit_stub(visit_stubs_htable, visit, sequence);
-    } else {
+    if (sequence == NULL) {
         fprintf(log, "Do not add visit %s %lu for type %s\n", ID_LWR(get_node_name(child)), original_visit->index, ID_LWR(get_node_name(node)));
-        sequence = ASTvisit_sequence_dummy(node);
+        head = sequence = ASTvisit_sequence_dummy(node);
     }
 
     node_st *left_tail = NULL;
@@ -363,7 +449,7 @@ static node_st *add_visit_sequence_visit_nodeset_rec(
         *visit_tail = sequence;
     }
 
-    return sequence;
+    return head;
 }
 
 static inline node_st *get_alt(node_st *sequence) {
@@ -396,8 +482,9 @@ add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
     }
 
     if (prev != NULL) {
-        set_alt(prev, get_alt(first));
-        set_alt(first, head);
+        // The alternatives before it are dummies, which can go to the end
+        set_alt(prev, NULL);
+        set_alt(visit_tail, head);
     }
 
     return first;
-- 
2.43.0


From 593674e1f80f59543e0822a6525556decec759c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 32/67] fix: code to free a node with an inherited or
 synthesized string does not compile

---
 cocogen/dynamic_backend/gen_free_traversal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_free_traversal.c b/cocogen/dynamic_backend/gen_free_traversal.c
index ae3b5d8..ce60507 100644
--- a/cocogen/dynamic_backend/gen_free_traversal.c
+++ b/cocogen/dynamic_backend/gen_free_traversal.c
@@ -90,7 +90,10 @@ node_st *DGFTchild(node_st *node)
 node_st *DGFTattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    if (ATTRIBUTE_TYPE(node) == AT_string) {
+    // Nodes do not own the values of inherited and synthesized attributes, the
+    // result of an equation can be stored in several nodes.
+    if (ATTRIBUTE_TYPE(node) == AT_string && !ATTRIBUTE_IS_INHERITED(node) &&
+        !ATTRIBUTE_IS_SYNTHESIZED(node)) {
         OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
     }
     TRAVnext(node);
-- 
2.43.0


From b1f5b4bee8a1a00e6a5088d4ed252c7ea4bad88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 33/67] fix: outputs of several visits to a child are declared
 in one scope

---
 cocogen/dynamic_backend/gen_visit_source.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index f5913e9..3ff4daa 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -579,8 +579,13 @@ node_st *DGVSvisit_sequence_visit(node_st *node) {
     node_st *child = VISIT_SEQUENCE_VISIT_CHILD(node);
     char *child_access = NULL;
 
-    if (VISIT_SEQUENCE_VISIT_ALT(node) || !CHILD_IS_MANDATORY(child)) {
-        // Declare output arguments
+    bool has_block =
+        VISIT_SEQUENCE_VISIT_ALT(node) || !CHILD_IS_MANDATORY(child);
+    if (has_block) {
+        // Declare output arguments. These are local to this visit, as another
+        // visit to the child may have outputs with the same name.
+        OUT("{\n");
+        GNindentIncrease(ctx);
         for (node_st *out_arg = VISIT_OUTPUTS(visit); out_arg;
              out_arg = VISIT_ARG_LIST_NEXT(out_arg)) {
             node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(out_arg);
@@ -649,6 +654,11 @@ node_st *DGVSvisit_sequence_visit(node_st *node) {
         OUT_END_IF();
     }
 
+    if (has_block) {
+        GNindentDecrease(ctx);
+        OUT("}\n");
+    }
+
     MEMfree(child_access);
 
     TRAVnext(node);
-- 
2.43.0


From c0e6d6c110f3d65745a3259e78bf6da88ea356f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 34/67] fix: redeclaring a nodeset attribute wrongly in a node
 aborts the generator

---
 cocogen/frontend/nodesets/propagate_attributes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 959724c..eaee164 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -54,7 +54,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "redeclared in node '%s' without the constructor keyword\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)),
-               ID_ORIG(INODESET_NAME(node)));
+               ID_ORIG(INODE_NAME(node)));
         CCNerrorAction();
     } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||
                ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||
@@ -63,7 +63,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "Redeclaration of attribute '%s' in node '%s' has a different "
                "signature than the attribute in parent nodeset '%s'\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
-               ID_ORIG(INODESET_NAME(node)),
+               ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));
         CCNerrorAction();
     }
-- 
2.43.0


From 40e39394a325e5736da9e840f520cf7ccfcb74ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 35/67] fix: letter case of a type matters when a nodeset
 attribute is repeated

---
 cocogen/frontend/nodesets/propagate_attributes.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index eaee164..77c20d4 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -26,8 +26,13 @@ static inline bool compare_attribute_types(node_st *a, node_st *b) {
         return false;
     }
 
-    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||
-        ATTRIBUTE_TYPE(a) == AT_user) {
+    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum) {
+        // Names of nodes, nodesets and enums are not case sensitive
+        return STReq(ID_LWR(ATTRIBUTE_TYPE_REFERENCE(a)),
+                     ID_LWR(ATTRIBUTE_TYPE_REFERENCE(b)));
+    }
+
+    if (ATTRIBUTE_TYPE(a) == AT_user) {
         return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)),
                      ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)));
     }
-- 
2.43.0


From 0b2c5f6928586a162e27cbf38e93ac893c7345aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 36/67] fix: traversal over an empty set of nodes targets all
 nodes

---
 cocogen/frontend/unwrap_setexpr.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index 1cf3174..1deda3a 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -7,11 +7,13 @@
 
 #include <stddef.h>
 #include "assert.h"
+#include "palm/ctinfo.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
 #include "sets/set.h"
+#include "frontend/ctihelp.h"
 #include "frontend/symboltable.h"
 
 static node_st *ste;
@@ -19,6 +21,21 @@ static node_st *ste;
 node_st *USEast(node_st *node)
 {
     ste = AST_STABLE(node);
+    for (node_st *trav = AST_ITRAVERSALS(node); trav != NULL;
+         trav = ITRAVERSAL_NEXT(trav)) {
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            continue;
+        }
+        TRAVinodes(trav);
+        // No set at all means all nodes, an empty set does not.
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            struct ctinfo info;
+            id_to_info(ITRAVERSAL_NAME(trav), &info);
+            CTIobj(CTI_ERROR, true, info, "Traversal %s targets no nodes.",
+                   ID_ORIG(ITRAVERSAL_NAME(trav)));
+        }
+    }
+    CTIabortOnError();
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 4f5fb3d4f7b9a70dd9c6c2a41e19098bab5b3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 37/67] fix: generator crashes if a child has an empty nodeset
 as type

---
 cocogen/frontend/unwrap_setexpr.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index 1deda3a..b1ec224 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -18,6 +18,27 @@
 
 static node_st *ste;
 
+/* No node can ever be stored in a child with an empty nodeset as its type. */
+static void check_children(node_st *ast)
+{
+    for (node_st *node = AST_INODES(ast); node != NULL;
+         node = INODE_NEXT(node)) {
+        for (node_st *child = INODE_ICHILDREN(node); child != NULL;
+             child = CHILD_NEXT(child)) {
+            node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+            if (NODE_TYPE(type) == NT_INODESET && !INODESET_EXPR(type)) {
+                struct ctinfo info;
+                id_to_info(CHILD_TYPE_REFERENCE(child), &info);
+                CTIobj(CTI_ERROR, true, info,
+                       "Nodeset %s of child %s has no members.",
+                       ID_ORIG(CHILD_TYPE_REFERENCE(child)),
+                       ID_ORIG(CHILD_NAME(child)));
+            }
+        }
+    }
+    CTIabortOnError();
+}
+
 node_st *USEast(node_st *node)
 {
     ste = AST_STABLE(node);
@@ -37,6 +58,7 @@ node_st *USEast(node_st *node)
     }
     CTIabortOnError();
     TRAVchildren(node);
+    check_children(node);
     return node;
 }
 
-- 
2.43.0


From 5f08b396b58b9148f7882b15d94ab2a67da7e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 38/67] fix: comment that is never closed is accepted

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 587c13d..998c203 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -32,6 +32,7 @@ static inline void token_action();
 
 static inline void lexer_init();
 static inline void check_c_keyword(const char *);
+static inline void unterminated_comment(void);
 
 #define YY_USER_INIT lexer_init();
 #define YY_USER_ACTION token_action();
@@ -76,6 +77,14 @@ static inline void check_c_keyword(const char *);
 
         // Stay in the SAVELINE state, to save the next line
     }
+    <<EOF>> {
+        // There is no next line, so return to the real lexing state.
+        yy_pop_state();
+        if (YY_START == COMMENT) {
+            unterminated_comment();
+        }
+        yyterminate();
+    }
 }
 
 \/\/[^\n]*      {  }
@@ -84,6 +93,7 @@ static inline void check_c_keyword(const char *);
     "*/"        { yy_push_state(INITIAL); }
     \n          { yy_push_state(SAVELINE); }
     .           {  }
+    <<EOF>>     { unterminated_comment(); }
 }
 "(" {return '(';}
 ")" {return ')';}
@@ -227,6 +237,12 @@ static inline void check_c_keyword(const char *str) {
     }
 }
 
+static inline void unterminated_comment(void) {
+    struct ctinfo info = {yylineno, 0, 0, 0, globals.filename, NULL};
+    CTIobj(CTI_ERROR, true, info, "Comment is not closed.");
+    CTIabortOnError();
+}
+
 static inline void token_action() {
     if (YY_START != SAVELINE) {
         yylloc.first_line = yylloc.last_line = yylineno;
-- 
2.43.0


From c1e4e12f6928723b29af3a9652cb65a35afc429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 39/67] fix: generator crashes without a root node or start
 phase

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8e53ed2..84968d4 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -50,6 +50,12 @@ node_st *CEXast(node_st *node)
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    if (!seen_root_node) {
+        CTI(CTI_ERROR, true, "No root node is defined.");
+    }
+    if (!seen_start_phase) {
+        CTI(CTI_ERROR, true, "No start phase is defined.");
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From 0e1eeb02494a78e0e763a9d6cd56473e47e0591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 40/67] fix: names of other things are accepted as actions

---
 cocogen/frontend/check_existance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 84968d4..db3e8cb 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -68,6 +68,10 @@ node_st *CEXiactions(node_st *node)
     node_st *ref = STlookup(ste, IACTIONS_REFERENCE(node));
     if (ref == NULL) {
         CTI(CTI_ERROR, true, "Could not find action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
+    } else if (NODE_TYPE(ref) != NT_IPHASE && NODE_TYPE(ref) != NT_ITRAVERSAL && NODE_TYPE(ref) != NT_IPASS) {
+        struct ctinfo info;
+        id_to_info(IACTIONS_REFERENCE(node), &info);
+        CTIobj(CTI_ERROR, true, info, "Not a phase, traversal or pass: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     return node;
 }
-- 
2.43.0


From 754e19dce47470e8f921f534cff77afcab6ced38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 41/67] fix: generator does not terminate if a phase contains
 itself

---
 cocogen/frontend/check_existance.c | 36 ++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index db3e8cb..2c002b5 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -6,6 +6,7 @@
 #include <stddef.h>
 #include "globals.h"
 #include "palm/ctinfo.h"
+#include "palm/hash_table.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
@@ -45,11 +46,46 @@ void checkUID(node_st *id)
     }
 }
 
+static int IN_PHASE, CHECKED;
+
+/**
+ * Check that no phase contains itself, directly or in one of its sub-phases.
+ * @param state Table with IN_PHASE for the phases we are in and CHECKED for
+ *              those that were found to be correct.
+ */
+static void check_recursion(node_st *phase, htable_st *state)
+{
+    void *seen = HTlookup(state, phase);
+    if (seen == &CHECKED) {
+        return;
+    }
+    if (seen == &IN_PHASE) {
+        struct ctinfo info;
+        id_to_info(IPHASE_NAME(phase), &info);
+        CTIobj(CTI_ERROR, true, info, "Phase contains itself: %s\n", ID_ORIG(IPHASE_NAME(phase)));
+        return;
+    }
+
+    HTinsert(state, phase, &IN_PHASE);
+    for (node_st *action = IPHASE_IACTIONS(phase); action != NULL; action = IACTIONS_NEXT(action)) {
+        node_st *ref = STlookup(ste, IACTIONS_REFERENCE(action));
+        if (ref != NULL && NODE_TYPE(ref) == NT_IPHASE) {
+            check_recursion(ref, state);
+        }
+    }
+    HTinsert(state, phase, &CHECKED);
+}
+
 node_st *CEXast(node_st *node)
 {
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    htable_st *state = HTnew_Ptr(32);
+    for (node_st *phase = AST_IPHASES(node); phase != NULL; phase = IPHASE_NEXT(phase)) {
+        check_recursion(phase, state);
+    }
+    HTdelete(state);
     if (!seen_root_node) {
         CTI(CTI_ERROR, true, "No root node is defined.");
     }
-- 
2.43.0


From 4fd30f48d8096ef0c512ccffcc394ee16620fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 42/67] fix: enum with a repeated value is accepted

---
 cocogen/frontend/check_existance.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 2c002b5..3126f4d 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -362,6 +362,17 @@ node_st *CEXienum(node_st *node)
     } else {
         enum_prefix_ste = STadd(enum_prefix_ste, IENUM_IPREFIX(node), node);
     }
+    node_st *values = NULL;
+    for (node_st *value = IENUM_VALS(node); value != NULL; value = ID_NEXT(value)) {
+        if (STlookup(values, value)) {
+            struct ctinfo info;
+            id_to_info(value, &info);
+            CTIobj(CTI_ERROR, true, info, "Double declaration of enum value: %s\n", ID_ORIG(value));
+        } else {
+            values = STadd(values, value, value);
+        }
+    }
+    CCNfree(values);
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 7b3a6aaba1f790b886d0efc64662cbe0d0377fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:14 +0000
Subject: [PATCH 43/67] fix: enum value NULL is accepted although every enum
 has one

---
 cocogen/frontend/check_existance.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 3126f4d..7896583 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -364,7 +364,11 @@ node_st *CEXienum(node_st *node)
     }
     node_st *values = NULL;
     for (node_st *value = IENUM_VALS(node); value != NULL; value = ID_NEXT(value)) {
-        if (STlookup(values, value)) {
+        if (STReq(ID_UPR(value), "NULL")) {
+            struct ctinfo info;
+            id_to_info(value, &info);
+            CTIobj(CTI_ERROR, true, info, "Enum value NULL is reserved.");
+        } else if (STlookup(values, value)) {
             struct ctinfo info;
             id_to_info(value, &info);
             CTIobj(CTI_ERROR, true, info, "Double declaration of enum value: %s\n", ID_ORIG(value));
-- 
2.43.0


From cb3714133e8392507c29ad86744e86de3c138309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:20 +0000
Subject: [PATCH 44/67] fix: hash functions are called through pointers to
 another function type

---
 palm/src/hash_table.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 2e0ae5d..cc6c384 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -352,8 +352,10 @@ void *HTiterKey(htable_iter_st *iter) {
 
 /* String char * -> void * */
 static
-size_t StringHash(char *key)
+size_t StringHash(void *ptr)
 {
+    char *key = ptr;
+
     /* This is the djb2 algorithm as found for hashing strings.
      * Source: http://www.cse.yorku.ca/~oz/hash.html
      */
@@ -367,13 +369,19 @@ size_t StringHash(char *key)
     return hash;
 }
 
+static
+bool StringEqual(void *ptr1, void *ptr2)
+{
+    return STReq(ptr1, ptr2);
+}
+
 /**
  * Create a new hash table for strings.
  * @param size determines the number of buckets in the table.
  */
 struct htable *HTnew_String(size_t size)
 {
-    return HTnew(size, (hash_key_ft)StringHash, (is_equal_ft)STReq);
+    return HTnew(size, StringHash, StringEqual);
 }
 
 //Ptr htable: void * -> void *
@@ -397,23 +405,28 @@ bool PtrEqual(void *ptr1, void *ptr2)
  */
 struct htable *HTnew_Ptr(size_t size)
 {
-    return HTnew(size, (hash_key_ft)PtrHash, (is_equal_ft)PtrEqual);
+    return HTnew(size, PtrHash, PtrEqual);
 }
 
 // Int htable: int * -> void *;
 static
-size_t IntHash(int *val)
+size_t IntHash(void *ptr)
 {
+    int *val = ptr;
+
     return (size_t)(*val);
 }
 
 static
-bool IntEqual(int *ptr1, int *ptr2)
+bool IntEqual(void *ptr1, void *ptr2)
 {
-    return *ptr1 == *ptr2;
+    int *val1 = ptr1;
+    int *val2 = ptr2;
+
+    return *val1 == *val2;
 }
 
 struct htable *HTnew_Int(size_t size)
 {
-    return HTnew(size, (hash_key_ft)IntHash, (is_equal_ft)IntEqual);
+    return HTnew(size, IntHash, IntEqual);
 }
-- 
2.43.0


From 08f92780c0dc2c9f94887e996fe5a2a50f983905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 45/67] fix: --show-ast aborts on attributes that are evaluated

---
 cocogen/print/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index 8c77378..0441d86 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -478,7 +478,7 @@ node_st *PRTvisit_sequence_eval(node_st *node)
 {
     PrintIndent();
     printf("eval ");
-    TRAVattribute(node);
+    TRAVdo(VISIT_SEQUENCE_EVAL_ATTRIBUTE(node));
     printf("\n");
     TRAVnext(node);
     return node;
-- 
2.43.0


From 992e0eda130fe3fd6301493a0c15d6388c270a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 46/67] fix: exit status if the input cannot be read

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 998c203..154b467 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -1,6 +1,7 @@
 %{
 #include <stdio.h>
 #include <stdbool.h>
+#include <stdlib.h>
 #include <regex.h>
 
 #include "ccngen/ast.h"
@@ -13,6 +14,7 @@
 #include "palm/memory.h"
 
 #define YY_DECL int yylex()
+#define YY_EXIT_FAILURE EXIT_FAILURE
 #define LEX_KEYWORD(k) if (yy_lex_keywords) \
                                 return k;   \
                             else {          \
-- 
2.43.0


From 2d8fcbc320090208677db66699051b076022bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 47/67] fix: an empty output directory means the root directory

---
 cocogen/filesystem/utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cocogen/filesystem/utils.c b/cocogen/filesystem/utils.c
index 1202a1f..7041a60 100644
--- a/cocogen/filesystem/utils.c
+++ b/cocogen/filesystem/utils.c
@@ -3,5 +3,10 @@
 
 char *FSdirifyString(char *path)
 {
-    return path[STRlen(path) - 1] != '/' ? STRcat(path, "/") : STRcpy(path);
+    int len = STRlen(path);
+    if (len == 0) {
+        // An empty path names nothing, in particular not the root directory.
+        return STRcpy(path);
+    }
+    return path[len - 1] != '/' ? STRcat(path, "/") : STRcpy(path);
 }
-- 
2.43.0


From 6157227f1053cd6de41622ad51f20b8ee654929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 48/67] fix: option -b is documented but not accepted

---
 cocogen/commandline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 3242992..855099f 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -94,7 +94,7 @@ void CLprocessArgs(int argc, char *argv[]) {
     char *endptr;
 
     while (1) {
-        c = getopt_long(argc, argv, "v", long_options, &option_index);
+        c = getopt_long(argc, argv, "vb:", long_options, &option_index);
 
         // End of options
         if (c == -1)
@@ -135,6 +135,7 @@ void CLprocessArgs(int argc, char *argv[]) {
         case 32:
             global_command_line.show_ast = true;
             break;
+        case 'b':
         case 33:
             CCNsetBreakpoint(optarg);
             break;
-- 
2.43.0


From f1735001f5293e537f43a91270f7e79b90093d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 49/67] fix: message about a duplicate pass function prints a
 node as a string

---
 cocogen/frontend/buildsymboltable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/buildsymboltable.c b/cocogen/frontend/buildsymboltable.c
index 6ef2787..e123382 100644
--- a/cocogen/frontend/buildsymboltable.c
+++ b/cocogen/frontend/buildsymboltable.c
@@ -133,7 +133,7 @@ node_st *BSTipass(node_st *node)
         if (existing_func != NULL) {
             struct ctinfo info;
             id_to_info(IPASS_TARGET_FUNC(node), &info);
-            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", IPASS_TARGET_FUNC(node));
+            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", ID_ORIG(IPASS_TARGET_FUNC(node)));
             id_to_info(IPASS_TARGET_FUNC(existing_func), &info);
             CTIobj(CTI_NOTE, true, info, "Also defined here\n");
         } else {
-- 
2.43.0


From a332370a48bdf470594ad8a24d5d1de616f979b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:19 +0000
Subject: [PATCH 50/67] fix: attribute scheduler and its dot files depend on
 memory addresses

---
 .../schedule_attribute_visits.c               | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 46e859d..a043ffa 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -458,13 +458,27 @@ find_intravisit_dependencies(htable_st *graphs_htable,
     return dependencies;
 }
 
-static void dump_dotfile(htable_st *graphs, char *filename,
+// The nodes and nodesets in order of declaration: the order in which a table
+// with pointers as keys is iterated differs between runs.
+static inline node_st *first_production(node_st *ast) {
+    return AST_INODES(ast) ? AST_INODES(ast) : AST_INODESETS(ast);
+}
+
+static inline node_st *next_production(node_st *ast, node_st *production) {
+    if (NODE_TYPE(production) == NT_INODESET) {
+        return INODESET_NEXT(production);
+    }
+    return INODE_NEXT(production) ? INODE_NEXT(production)
+                                  : AST_INODESETS(ast);
+}
+
+static void dump_dotfile(node_st *ast, htable_st *graphs, char *filename,
                          htable_st *partition_tables) {
     GDag_st *dot = GDag_dot_init(filename);
-    for (htable_iter_st *iter = HTiterate(graphs); iter != NULL;
-         iter = HTiterateNext(iter)) {
-        node_st *dot_name = get_node_name(HTiterKey(iter));
-        struct graph_list *graph = HTiterValue(iter);
+    for (node_st *production = first_production(ast); production != NULL;
+         production = next_production(ast, production)) {
+        node_st *dot_name = get_node_name(production);
+        struct graph_list *graph = HTlookup(graphs, production);
         bool multiple = graph != NULL && graph->next != NULL;
         int i = 1;
         for (graph = graph; graph != NULL; graph = graph->next) {
@@ -523,7 +537,7 @@ node_st *SAVast(node_st *node) {
         combine_edgelists(&induced_edges, edges, induced_edges_map);
     }
 
-    dump_dotfile(graphs_htable, "pre_induce.dot", NULL);
+    dump_dotfile(node, graphs_htable, "pre_induce.dot", NULL);
 
     int counter = 1;
 
@@ -533,10 +547,11 @@ node_st *SAVast(node_st *node) {
         induced_edges = NULL;
         HTdelete(induced_edges_map);
         induced_edges_map = HTnew(htable_size, hash_edge, hash_edge_equal);
-        for (htable_iter_st *iter = HTiterate(graphs_htable); iter != NULL;
-             iter = HTiterateNext(iter)) {
-            for (struct graph_list *graph = HTiterValue(iter); graph != NULL;
-                 graph = graph->next) {
+        for (node_st *production = first_production(node); production != NULL;
+             production = next_production(node, production)) {
+            for (struct graph_list *graph =
+                     HTlookup(graphs_htable, production);
+                 graph != NULL; graph = graph->next) {
                 struct GRedge_list *edges = NULL;
                 add_induced_edges(graph->graph, current_edges, &edges);
                 combine_edgelists(&induced_edges, edges, induced_edges_map);
@@ -546,7 +561,7 @@ node_st *SAVast(node_st *node) {
 
         // Write intermediate results to dot file
         char *filename = STRfmt("induce_%d.dot", counter);
-        dump_dotfile(graphs_htable, filename, NULL);
+        dump_dotfile(node, graphs_htable, filename, NULL);
         MEMfree(filename);
         ++counter;
     }
@@ -577,7 +592,7 @@ node_st *SAVast(node_st *node) {
         HTinsert(partition_tables, nodeset, partition_table);
     }
 
-    dump_dotfile(graphs_htable, "partitioned.dot", partition_tables);
+    dump_dotfile(node, graphs_htable, "partitioned.dot", partition_tables);
 
 
     // struct GRedge_list *intra_visit_dependencies =
-- 
2.43.0


From 4e75d8a10bab2782e870913951f5d8db396efe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:19 +0000
Subject: [PATCH 51/67] fix: order of generated equation functions depends on
 memory addresses

---
 .../dynamic_backend/gen_equation_functions.c    |  7 +++----
 cocogen/dynamic_backend/gen_user_equations.c    |  7 +++----
 cocogen/dynamic_backend/gen_visit_source.c      | 17 +++++++++--------
 3 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 1eef61a..ab53e94 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -148,12 +148,11 @@ node_st *DGEFequation(node_st *node) {
     for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
         // Set bitmask in htable
         size_t i = 0;
-        for (htable_iter_st *iter = HTiterate(children_null); iter;
-             iter = HTiterateNext(iter)) {
+        for (struct child_list *entry = children; entry; entry = entry->next) {
             if (bitmask & (0x1UL << i)) {
-                HTiterSetValue(iter, (void *)CH_FALSE);
+                HTinsert(children_null, entry->child, (void *)CH_FALSE);
             } else {
-                HTiterSetValue(iter, (void *)CH_TRUE);
+                HTinsert(children_null, entry->child, (void *)CH_TRUE);
             }
             ++i;
         }
diff --git a/cocogen/dynamic_backend/gen_user_equations.c b/cocogen/dynamic_backend/gen_user_equations.c
index dcd5a95..6e6a089 100644
--- a/cocogen/dynamic_backend/gen_user_equations.c
+++ b/cocogen/dynamic_backend/gen_user_equations.c
@@ -148,12 +148,11 @@ node_st *DUGEequation(node_st *node) {
     for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
         // Set bitmask in htable
         size_t i = 0;
-        for (htable_iter_st *iter = HTiterate(children_null); iter;
-             iter = HTiterateNext(iter)) {
+        for (struct child_list *entry = children; entry; entry = entry->next) {
             if (bitmask & (0x1UL << i)) {
-                HTiterSetValue(iter, (void *)CH_FALSE);
+                HTinsert(children_null, entry->child, (void *)CH_FALSE);
             } else {
-                HTiterSetValue(iter, (void *)CH_TRUE);
+                HTinsert(children_null, entry->child, (void *)CH_TRUE);
             }
             ++i;
         }
diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 3ff4daa..ecf0033 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -367,12 +367,12 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
         for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
             // Set bitmask in htable
             size_t i = 0;
-            for (htable_iter_st *iter = HTiterate(children_null); iter;
-                 iter = HTiterateNext(iter)) {
+            for (struct child_list *entry = children; entry;
+                 entry = entry->next) {
                 if (bitmask & (0x1UL << i)) {
-                    HTiterSetValue(iter, (void *)CH_TRUE);
+                    HTinsert(children_null, entry->child, (void *)CH_TRUE);
                 } else {
-                    HTiterSetValue(iter, (void *)CH_FALSE);
+                    HTinsert(children_null, entry->child, (void *)CH_FALSE);
                 }
                 ++i;
             }
@@ -380,10 +380,11 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
             if (bitmask != combinations - 1) {
                 OUT_NO_INDENT("if (");
                 bool first = true;
-                for (htable_iter_st *iter = HTiterate(children_null); iter;
-                     iter = HTiterateNext(iter)) {
-                    node_st *child = HTiterKey(iter);
-                    if ((enum child_htable)HTiterValue(iter) == CH_FALSE) {
+                for (struct child_list *entry = children; entry;
+                     entry = entry->next) {
+                    node_st *child = entry->child;
+                    if ((enum child_htable)HTlookup(children_null, child) ==
+                        CH_FALSE) {
                         if (first) {
                             first = false;
                         } else {
-- 
2.43.0


From 379af92a7e479efa4e663296ae886f98fbc7ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:07 +0000
Subject: [PATCH 52/67] fix: incomplete output is reported as success

---
 .../attribute_scheduler/schedule_attribute_visits.c         | 6 +++++-
 cocogen/generator/generator.c                               | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index a043ffa..922a2e7 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -658,7 +658,11 @@ node_st *SAVast(node_st *node) {
         fprintf(log_file, "\n\n");
     }
 
-    fclose(log_file);
+    bool log_failed = ferror(log_file);
+    if (fclose(log_file) != 0 || log_failed) {
+        CTI(CTI_ERROR, false, "Could not write to file: ag_schedule.log\n");
+        CTIabortCompilation();
+    }
 
     // fill in visit stubs
     for (node_st *inode = AST_INODES(node); inode != NULL;
diff --git a/cocogen/generator/generator.c b/cocogen/generator/generator.c
index a538476..0384d5e 100644
--- a/cocogen/generator/generator.c
+++ b/cocogen/generator/generator.c
@@ -116,5 +116,8 @@ void GNprint(GeneratorContext *ctx, unsigned int style, const char *fmt, ...)
         GNindentDecrease(ctx);
     }
 
-    fflush(ctx->fp);
+    if (fflush(ctx->fp) != 0 || ferror(ctx->fp)) {
+        fprintf(stderr, "Could not write to generated file.\n");
+        exit(1);
+    }
 }
-- 
2.43.0


From 481687141b77e7c89cd9901aa90dc08b45001078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 53/67] fix: fields whose name is a C keyword in lower case

---
 cocogen/dynamic_backend/gen_free_traversal.c    |  2 +-
 cocogen/dynamic_backend/gen_node_access_funcs.c |  8 ++++----
 cocogen/dynamic_backend/gen_node_constructor.c  |  2 +-
 cocogen/dynamic_backend/gen_node_init_funcs.c   |  2 +-
 cocogen/dynamic_backend/gen_node_structs.c      | 14 ++++++++------
 cocogen/dynamic_backend/gen_visit_source.c      |  9 ++++-----
 6 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_free_traversal.c b/cocogen/dynamic_backend/gen_free_traversal.c
index ce60507..6b7e7bb 100644
--- a/cocogen/dynamic_backend/gen_free_traversal.c
+++ b/cocogen/dynamic_backend/gen_free_traversal.c
@@ -94,7 +94,7 @@ node_st *DGFTattribute(node_st *node)
     // result of an equation can be stored in several nodes.
     if (ATTRIBUTE_TYPE(node) == AT_string && !ATTRIBUTE_IS_INHERITED(node) &&
         !ATTRIBUTE_IS_SYNTHESIZED(node)) {
-        OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_ORIG(ATTRIBUTE_NAME(node)));
     }
     TRAVnext(node);
     return node;
diff --git a/cocogen/dynamic_backend/gen_node_access_funcs.c b/cocogen/dynamic_backend/gen_node_access_funcs.c
index 8922558..897e886 100644
--- a/cocogen/dynamic_backend/gen_node_access_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_access_funcs.c
@@ -85,7 +85,7 @@ node_st *DGNAFchild(node_st *node) {
 
     OUT("return &(node->data.N_%s->%s_children.%s_children_st.%s);\n",
         ID_LWR(INODE_NAME(curr_node)), ID_LWR(INODE_NAME(curr_node)),
-        ID_LWR(INODE_NAME(curr_node)), ID_LWR(CHILD_NAME(node)));
+        ID_LWR(INODE_NAME(curr_node)), ID_ORIG(CHILD_NAME(node)));
     OUT_END_FUNC();
 
     TRAVnext(node);
@@ -148,11 +148,11 @@ node_st *DGNAFattribute(node_st *node) {
         OUT_END_IF();
         OUT("#endif\n");
 
-        OUT("return node->data.N_%s->_%s.%s;\n", ID_LWR(INODE_NAME(curr_node)),
-            ID_LWR(ATTRIBUTE_NAME(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        OUT("return node->data.N_%s->_%s.ccn_val;\n", ID_LWR(INODE_NAME(curr_node)),
+            ID_LWR(ATTRIBUTE_NAME(node)));
     } else {
         OUT("return &(node->data.N_%s->%s);\n", ID_LWR(INODE_NAME(curr_node)),
-            ID_LWR(ATTRIBUTE_NAME(node)));
+            ID_ORIG(ATTRIBUTE_NAME(node)));
     }
     OUT_END_FUNC();
 
diff --git a/cocogen/dynamic_backend/gen_node_constructor.c b/cocogen/dynamic_backend/gen_node_constructor.c
index 0cbf708..03e697b 100644
--- a/cocogen/dynamic_backend/gen_node_constructor.c
+++ b/cocogen/dynamic_backend/gen_node_constructor.c
@@ -64,7 +64,7 @@ node_st *DGNCchild(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     num_children++;
     if (CHILD_IN_CONSTRUCTOR(node)) {
-        OUT_FIELD("%s_%s(node) = %s", node_name_upr, ID_UPR(CHILD_NAME(node)), ID_LWR(CHILD_NAME(node)));
+        OUT_FIELD("%s_%s(node) = %s", node_name_upr, ID_UPR(CHILD_NAME(node)), ID_ORIG(CHILD_NAME(node)));
     } else {
         OUT_FIELD("%s_%s(node) = NULL", node_name_upr, ID_UPR(CHILD_NAME(node)));
     }
diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 1411a43..453d803 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -57,7 +57,7 @@ node_st *DGIFchild(node_st *node)
             OUT(", ");
         }
         arg_num++;
-        OUT("%s *%s", basic_node_type, ID_LWR(CHILD_NAME(node)));
+        OUT("%s *%s", basic_node_type, ID_ORIG(CHILD_NAME(node)));
     }
     TRAVchildren(node);
     return node;
diff --git a/cocogen/dynamic_backend/gen_node_structs.c b/cocogen/dynamic_backend/gen_node_structs.c
index f940fe7..8aef96a 100644
--- a/cocogen/dynamic_backend/gen_node_structs.c
+++ b/cocogen/dynamic_backend/gen_node_structs.c
@@ -54,7 +54,7 @@ node_st *DGNSchild(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     child_num++;
-    OUT_FIELD("%s *%s", basic_node_type, ID_LWR(CHILD_NAME(node)));
+    OUT_FIELD("%s *%s", basic_node_type, ID_ORIG(CHILD_NAME(node)));
     TRAVchildren(node);
     return node;
 }
@@ -63,25 +63,27 @@ node_st *DGNSattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     assert(curr_node != NULL);
+    // The lower case form of a name can be a C keyword.
+    char *field = ID_ORIG(ATTRIBUTE_NAME(node));
     if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
         OUT_STRUCT("NODE_%s_%s_STRUCT", ID_UPR(INODE_NAME(curr_node)), ID_UPR(ATTRIBUTE_NAME(node)));
         OUT_FIELD("bool ccn_val_set");
-
+        field = "ccn_val";
     }
 
     if (ATTRIBUTE_TYPE(node) == AT_link) {
-        OUT_FIELD("%s *%s", basic_node_type, ID_LWR(ATTRIBUTE_NAME(node)));
+        OUT_FIELD("%s *%s", basic_node_type, field);
     } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
         node_st *ref = STlookup(ste, ATTRIBUTE_TYPE_REFERENCE(node));
         // Should be handled by check_existence.
         assert(ref);
         assert(NODE_TYPE(ref) == NT_IENUM);
-        OUT_FIELD("enum %s %s", ID_ORIG(IENUM_NAME(ref)), ID_LWR(ATTRIBUTE_NAME(node)));
+        OUT_FIELD("enum %s %s", ID_ORIG(IENUM_NAME(ref)), field);
     } else if (ATTRIBUTE_TYPE(node) == AT_user) {
-        OUT_FIELD("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        OUT_FIELD("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), field);
         AST_USES_UNSAFE(ast) = true;
     } else {
-        OUT_FIELD("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        OUT_FIELD("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), field);
     }
 
     if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index ecf0033..53e750d 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -34,9 +34,8 @@ static inline void print_set_value(node_st *attribute, char *value) {
     assert(curr_node != NULL);
     OUT("node->data.N_%s->_%s.ccn_val_set = true;\n",
         ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(attribute)));
-    OUT("node->data.N_%s->_%s.%s = %s;\n", ID_LWR(INODE_NAME(curr_node)),
-        ID_LWR(ATTRIBUTE_NAME(attribute)), ID_LWR(ATTRIBUTE_NAME(attribute)),
-        value);
+    OUT("node->data.N_%s->_%s.ccn_val = %s;\n", ID_LWR(INODE_NAME(curr_node)),
+        ID_LWR(ATTRIBUTE_NAME(attribute)), value);
 }
 
 static inline void print_unused() {
@@ -266,8 +265,8 @@ static void print_set_child_value(char *child_access, node_st *type_name,
     char *attr_name = ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute));
     OUT("%s->data.N_%s->_%s.ccn_val_set = true;\n", child_access, node_name,
         attr_name);
-    OUT("%s->data.N_%s->_%s.%s = %s_%s;\n", child_access, node_name, attr_name,
-        attr_name, get_node_name_this(attribute), attr_name);
+    OUT("%s->data.N_%s->_%s.ccn_val = %s_%s;\n", child_access, node_name, attr_name,
+        get_node_name_this(attribute), attr_name);
 }
 
 static void print_set_nodeset_child_value(char *child_access, node_st *expr,
-- 
2.43.0


From 9c8319d76c9651b765a20e64c22da43cbff3638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 54/67] fix: traversals whose name is a C keyword in lower case

---
 cocogen/dynamic_backend/gen_trav_data_ctors.c   | 6 +++---
 cocogen/dynamic_backend/gen_trav_data_getters.c | 2 +-
 cocogen/dynamic_backend/gen_trav_data_union.c   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_trav_data_ctors.c b/cocogen/dynamic_backend/gen_trav_data_ctors.c
index 9863366..1bc8b12 100644
--- a/cocogen/dynamic_backend/gen_trav_data_ctors.c
+++ b/cocogen/dynamic_backend/gen_trav_data_ctors.c
@@ -21,15 +21,15 @@ node_st *DGTDCitraversal(node_st *node)
 
         OUT_START_FUNC("void TRAVdataInit%s(ccn_trav_st *trav)", ID_ORIG(id));
         OUT_FIELD("trav->trav_data.%s = MEMmalloc(sizeof(struct data_%s))",
-                  ID_LWR(id), ID_LWR(ITRAVERSAL_IPREFIX(node)));
-        OUT_FIELD("struct data_%s *data = trav->trav_data.%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(id));
+                  ID_ORIG(id), ID_LWR(ITRAVERSAL_IPREFIX(node)));
+        OUT_FIELD("struct data_%s *data = trav->trav_data.%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_ORIG(id));
         TRAVdata(node);
         OUT_FIELD("%sinit()", ID_UPR(ITRAVERSAL_IPREFIX(node)));
         OUT_END_FUNC();
 
         OUT_START_FUNC("void TRAVdataFree%s(ccn_trav_st *trav)", ID_ORIG(id));
         OUT_FIELD("%sfini()", ID_UPR(ITRAVERSAL_IPREFIX(node)));
-        OUT_FIELD("MEMfree(trav->trav_data.%s)", ID_LWR(id));
+        OUT_FIELD("MEMfree(trav->trav_data.%s)", ID_ORIG(id));
         OUT_END_FUNC();
     }
     TRAVnext(node);
diff --git a/cocogen/dynamic_backend/gen_trav_data_getters.c b/cocogen/dynamic_backend/gen_trav_data_getters.c
index 00d9a6d..b3cc6a3 100644
--- a/cocogen/dynamic_backend/gen_trav_data_getters.c
+++ b/cocogen/dynamic_backend/gen_trav_data_getters.c
@@ -11,7 +11,7 @@ node_st *DGTDGitraversal(node_st *node)
         node_st *id =  ITRAVERSAL_IPREFIX(node);
 
         OUT("#define DATA_%s_GET() (TRAVgetCurrent()->trav_data.%s)\n",
-            ID_UPR(id), ID_LWR(ITRAVERSAL_NAME(node)));
+            ID_UPR(id), ID_ORIG(ITRAVERSAL_NAME(node)));
     }
 
     TRAVnext(node);
diff --git a/cocogen/dynamic_backend/gen_trav_data_union.c b/cocogen/dynamic_backend/gen_trav_data_union.c
index d1cc85a..56a97b0 100644
--- a/cocogen/dynamic_backend/gen_trav_data_union.c
+++ b/cocogen/dynamic_backend/gen_trav_data_union.c
@@ -35,7 +35,7 @@ node_st *DGTDUitraversal(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     node_st *id = ITRAVERSAL_NAME(node);
     if (ITRAVERSAL_DATA(node)) {
-        OUT_FIELD("struct data_%s *%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(id));
+        OUT_FIELD("struct data_%s *%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_ORIG(id));
     }
     TRAVnext(node);
     return node;
-- 
2.43.0


From 0acc19acf5ec529db3ac6437e809c63194834703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 55/67] fix: TRAV<child> functions use the lower case form of
 the child name

---
 cocogen/dynamic_backend/gen_traversal_functions.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_traversal_functions.c b/cocogen/dynamic_backend/gen_traversal_functions.c
index 0dae9be..8d47d5f 100644
--- a/cocogen/dynamic_backend/gen_traversal_functions.c
+++ b/cocogen/dynamic_backend/gen_traversal_functions.c
@@ -94,13 +94,13 @@ node_st *DGT_Finode(node_st *node)
 node_st *DGT_Fchild(node_st *node)
 {
     struct data_dgt_f *data = DATA_DGT_F_GET();
-    node_st *entry = HTlookup(lookup, ID_ORIG(CHILD_NAME(node)));
+    node_st *entry = HTlookup(lookup, ID_LWR(CHILD_NAME(node)));
     node_st *node_name = CCNcopy(INODE_NAME(data->curr_node));
     if (entry == NULL) {
-        HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);
+        HTinsert(lookup, ID_LWR(CHILD_NAME(node)), node_name);
     } else {
         ID_NEXT(node_name) = entry;
-        HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);
+        HTinsert(lookup, ID_LWR(CHILD_NAME(node)), node_name);
     }
 
     TRAVnext(node);
-- 
2.43.0


From e71e6a1737cd9e15ba860ecfdb94bea2634521f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:08 +0000
Subject: [PATCH 56/67] fix: info of a traversal ends the comment of its
 skeleton

---
 cocogen/dynamic_backend/gen_user_traversals.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_user_traversals.c b/cocogen/dynamic_backend/gen_user_traversals.c
index 1df9fb6..124fdd0 100644
--- a/cocogen/dynamic_backend/gen_user_traversals.c
+++ b/cocogen/dynamic_backend/gen_user_traversals.c
@@ -34,7 +34,10 @@ node_st *DUGTitraversal(node_st *node)
     OUT(" *\n");
     OUT(" *\n");
     if (ITRAVERSAL_IINFO(node)) {
-        OUT(" * @brief %s\n", ITRAVERSAL_IINFO(node));
+        // The text may not end the comment it is written in.
+        char *info = STRsubstToken(ITRAVERSAL_IINFO(node), "*/", "* /");
+        OUT(" * @brief %s\n", info);
+        MEMfree(info);
     }
     OUT(" */\n\n");
     OUT("#include \"ccn/ccn.h\"\n");
-- 
2.43.0


From dfe9d1667cb3e15d16eab02044433b62c436d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:08 +0000
Subject: [PATCH 57/67] fix: parentheses around a set literal or a reference

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 559139e..2f7cb2b 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -552,7 +552,7 @@ setexpr: setoperation
        {
             $$ = $1;
        }
-       | '(' setoperation ')'
+       | '(' setexpr ')'
        {
             $$ = $2;
        }
-- 
2.43.0


From 74746bd2d4007110cd8939cdcd957d187df04841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 58/67] fix: show the source line of an unexpected token

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 154b467..afbc27b 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -25,7 +25,6 @@
 bool yy_lex_keywords = true;
 bool in_enum = false;
 bool in_enum_values = false;
-static char yy_linebuf[1024];
 static regex_t regex;
 
 int yycolumn = 1;
@@ -201,7 +200,7 @@ static inline void unterminated_comment(void);
     yy_push_state(SAVELINE);
 }
 . {
-    struct ctinfo info = {yylineno, yycolumn - 1, 0, 0, globals.filename, yy_linebuf};
+    struct ctinfo info = {yylineno, yycolumn - 1, 0, 0, globals.filename, HTlookup(globals.line_map, &yylineno)};
     CTIobj(CTI_ERROR, true, info, "Unexpected token found, quit parsing", yytext);
     CTIabortOnError();
 }
-- 
2.43.0


From 8ea8bc7e759ff3880f976f6d01248e24205ba1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 59/67] fix: locations behind a string that spans several lines

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 65 ++++++++++++++++++++---
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index afbc27b..ba17570 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -29,7 +29,12 @@ static regex_t regex;
 
 int yycolumn = 1;
 
+// Start of a line of which the rest still has to be read, see STRINGEND.
+static char *line_start = NULL;
+
 static inline void token_action();
+static inline void save_line(char *line);
+static inline void continue_line();
 
 static inline void lexer_init();
 static inline void check_c_keyword(const char *);
@@ -49,6 +54,7 @@ static inline void unterminated_comment(void);
 
 %x COMMENT
 %x SAVELINE
+%x STRINGEND
 
 %%
 <SAVELINE>{
@@ -56,10 +62,7 @@ static inline void unterminated_comment(void);
     .* {
         // Save the whole line
         // TODO: this might not be memory crucial.
-        char *line = STRcpy(yytext);
-        uint64_t *line_num = MEMmalloc(sizeof(uint64_t));
-        *line_num = yylineno;
-        HTinsert(globals.line_map, line_num, line);
+        save_line(STRcpy(yytext));
 
         // yylineno is set automatically to 0,
         // however the column needs to be reset.
@@ -88,6 +91,29 @@ static inline void unterminated_comment(void);
     }
 }
 
+<STRINGEND>{
+    .+ {
+        // Save the line on which a string of several lines ends, and give back
+        // the part behind the string for the real lexing state.
+        save_line(STRcat(line_start, yytext));
+        line_start = MEMfree(line_start);
+        yyless(0);
+        yy_pop_state();
+    }
+    \n {
+        yyless(0);
+        save_line(line_start);
+        line_start = NULL;
+        yy_pop_state();
+    }
+    <<EOF>> {
+        save_line(line_start);
+        line_start = NULL;
+        yy_pop_state();
+        yyterminate();
+    }
+}
+
 \/\/[^\n]*      {  }
 "/*"            { yy_push_state(COMMENT); }
 <COMMENT>{
@@ -191,7 +217,9 @@ static inline void unterminated_comment(void);
 
 \"(\\.|[^\\"])*\"   {
     // Remove surrounding quotes
-    yylval.string = STRncpy(yytext + 1, yyleng - 2); return T_STRINGVAL;}
+    yylval.string = STRncpy(yytext + 1, yyleng - 2);
+    continue_line();
+    return T_STRINGVAL;}
 
 [ \t\r]   ; // ignore all whitespace
 
@@ -244,8 +272,31 @@ static inline void unterminated_comment(void) {
     CTIabortOnError();
 }
 
+static inline void save_line(char *line) {
+    uint64_t *line_num = MEMmalloc(sizeof(uint64_t));
+    *line_num = yylineno;
+    HTinsert(globals.line_map, line_num, line);
+}
+
+// The lines and columns of what follows a string depend on the newlines in it.
+static inline void continue_line() {
+    char *last_newline = strrchr(yytext, '\n');
+    if (last_newline == NULL) {
+        return;
+    }
+    for (char *c = yytext; *c != '\0'; c++) {
+        if (*c == '\n') {
+            yylloc.first_line--;
+        }
+    }
+    yylloc.last_column = yylloc.first_column;
+    yycolumn = yytext + yyleng - last_newline;
+    line_start = STRcpy(last_newline + 1);
+    yy_push_state(STRINGEND);
+}
+
 static inline void token_action() {
-    if (YY_START != SAVELINE) {
+    if (YY_START != SAVELINE && YY_START != STRINGEND) {
         yylloc.first_line = yylloc.last_line = yylineno;
         yylloc.first_column = yycolumn;
         yylloc.last_column = yycolumn + yyleng - 1;
@@ -258,7 +309,7 @@ int yywrap() {
 }
 
 void yyerror(const char* s) {
-    struct ctinfo info = {yylineno, yycolumn - yyleng, 0, yycolumn - 1, global_command_line.input_file, HTlookup(globals.line_map, &yylineno)};
+    struct ctinfo info = {yylloc.first_line, yylloc.first_column, 0, yylloc.last_column, global_command_line.input_file, HTlookup(globals.line_map, &yylloc.first_line)};
     CTIobj(CTI_ERROR, true, info, s);
     CTIabortOnError();
 }
-- 
2.43.0


From 2a2be137a9363466ecec2953cecece191d8d979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:44 +0000
Subject: [PATCH 60/67] fix: the reachability of a node set only follows its
 own members

---
 cocogen/frontend/reachability.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/reachability.c b/cocogen/frontend/reachability.c
index bbd8474..d37b2be 100644
--- a/cocogen/frontend/reachability.c
+++ b/cocogen/frontend/reachability.c
@@ -91,7 +91,7 @@ node_st *RCBinode(node_st *node)
 
 node_st *RCBinodeset(node_st *node)
 {
-    TRAVchildren(node);
+    TRAVexpr(node);
     return node;
 }
 
-- 
2.43.0


From 2ff347a246a959b74ac940b7e853fd1e461d91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:44 +0000
Subject: [PATCH 61/67] fix: a child named as the node of its production has
 its own place in the diagram

---
 cocogen/dot/gen_dot_ag.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/cocogen/dot/gen_dot_ag.c b/cocogen/dot/gen_dot_ag.c
index 8f7a438..da5e984 100644
--- a/cocogen/dot/gen_dot_ag.c
+++ b/cocogen/dot/gen_dot_ag.c
@@ -24,6 +24,11 @@ static inline node_st *get_node_name(node_st *node) {
     }
 }
 
+// A child can have the same name as the node of its production.
+static inline const char *get_id_prefix(node_st *node) {
+    return NODE_TYPE(node) == NT_CHILD ? "child_" : "";
+}
+
 GDag_st *GDag_dot_init(char *filename) {
     GDag_st *dot = MEMmalloc(sizeof(struct GDag));
     GeneratorContext *ctx = globals.gen_ctx;
@@ -66,7 +71,7 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                         htable_st *partition_table) {
     (void)dot;
     GeneratorContext *ctx = globals.gen_ctx;
-    htable_st *seen = HTnew_String(10);
+    htable_st *seen = HTnew_Ptr(10);
     OUT("subgraph cluster_%s {\n", name);
     OUT("style=\"filled\";\n");
     OUT("color=\"lightgrey\";\n");
@@ -74,9 +79,11 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
     for (struct GRnode *node = graph->nodes; node != NULL; node = node->next) {
         bool child = NODE_TYPE(node->node) == NT_CHILD;
         node_st *node_name = get_node_name(node->node);
-        if (HTlookup(seen, ID_LWR(node_name)) == NULL) {
-            HTinsert(seen, ID_LWR(node_name), node_name);
-            OUT("subgraph cluster_%s__%s {\n", name, ID_LWR(node_name));
+        const char *prefix = get_id_prefix(node->node);
+        if (HTlookup(seen, node->node) == NULL) {
+            HTinsert(seen, node->node, node_name);
+            OUT("subgraph cluster_%s__%s%s {\n", name, prefix,
+                ID_LWR(node_name));
             OUT("style=\"filled\";\n");
             OUT("color=\"ivory\";\n");
             if (child) {
@@ -92,8 +99,8 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                 if (attr->node != node->node) {
                     continue;
                 }
-                OUT("attr_%s__%s__%s [label=<%s", name, ID_LWR(node_name),
-                    ID_LWR(ATTRIBUTE_NAME(attr->attribute)),
+                OUT("attr_%s__%s%s__%s [label=<%s", name, prefix,
+                    ID_LWR(node_name), ID_LWR(ATTRIBUTE_NAME(attr->attribute)),
                     ID_ORIG(ATTRIBUTE_NAME(attr->attribute)));
 
                 if (partition_table != NULL) {
@@ -124,10 +131,10 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
             continue;
         }
 
-        OUT("attr_%s__%s__%s -> attr_%s__%s__%s", name,
-            ID_LWR(get_node_name(n1->node)),
+        OUT("attr_%s__%s%s__%s -> attr_%s__%s%s__%s", name,
+            get_id_prefix(n1->node), ID_LWR(get_node_name(n1->node)),
             ID_LWR(ATTRIBUTE_NAME(n1->attribute)), name,
-            ID_LWR(get_node_name(n2->node)),
+            get_id_prefix(n2->node), ID_LWR(get_node_name(n2->node)),
             ID_LWR(ATTRIBUTE_NAME(n2->attribute)));
         if (edge->type == GRinduced) {
             OUT(" [style=\"dotted\"]");
-- 
2.43.0


From eb58d5a4e66835716907b1ae3df69ea1a5d77c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:44 +0000
Subject: [PATCH 62/67] fix: names in the diagram of the AST are quoted, as
 they can be keywords of dot

---
 cocogen/dot/gen_dot.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cocogen/dot/gen_dot.c b/cocogen/dot/gen_dot.c
index 72897d6..a358b6d 100644
--- a/cocogen/dot/gen_dot.c
+++ b/cocogen/dot/gen_dot.c
@@ -33,7 +33,7 @@ node_st *GDinode(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     HTclear(seen);
     curr_node = node;
-    OUT("%s;\n", ID_ORIG(INODE_NAME(node)));
+    OUT("\"%s\";\n", ID_ORIG(INODE_NAME(node)));
     TRAVichildren(node);
     TRAViattributes(node);
     TRAVnext(node);
@@ -43,7 +43,7 @@ node_st *GDinode(node_st *node)
 node_st *GDinodeset(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    OUT("%s;\n", ID_ORIG(INODESET_NAME(node)));
+    OUT("\"%s\";\n", ID_ORIG(INODESET_NAME(node)));
     curr_nodeset = node;
     TRAVexpr(node);
     TRAVnext(node);
@@ -54,7 +54,7 @@ node_st *GDsetliteral(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (node && SETLITERAL_REFERENCE(node)) {
-        OUT("%s -> %s [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), ID_ORIG(SETLITERAL_REFERENCE(node)));
+        OUT("\"%s\" -> \"%s\" [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), ID_ORIG(SETLITERAL_REFERENCE(node)));
     }
     TRAVright(node);
     TRAVleft(node);
@@ -65,7 +65,7 @@ node_st *GDattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_link) {
-        OUT("%s -> %s[color=red, label=\"%s\"]\n",
+        OUT("\"%s\" -> \"%s\"[color=red, label=\"%s\"]\n",
             ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)),
             ID_ORIG(ATTRIBUTE_NAME(node)));
     }
@@ -78,7 +78,7 @@ node_st *GDchild(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (!HTlookup(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)))) {
-        OUT("%s -> %s[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
+        OUT("\"%s\" -> \"%s\"[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
         //HTinsert(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)), node);
     }
 
-- 
2.43.0


From 24cc4f7026e0d473154f9b45dd4f620cde89a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:44 +0000
Subject: [PATCH 63/67] fix: a reference in another letter case points at the
 declared node in the diagram

---
 cocogen/dot/gen_dot.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cocogen/dot/gen_dot.c b/cocogen/dot/gen_dot.c
index a358b6d..6c161a7 100644
--- a/cocogen/dot/gen_dot.c
+++ b/cocogen/dot/gen_dot.c
@@ -6,6 +6,7 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
+#include "frontend/symboltable.h"
 #include "palm/hash_table.h"
 #include <gen_helpers/out_macros.h>
 #include <globals.h>
@@ -14,11 +15,27 @@
 static node_st *curr_node;
 static node_st *curr_nodeset;
 static htable_st *seen;
+static node_st *symboltable;
+
+// References are not case sensitive, the nodes of a diagram are: use the name
+// as it is declared.
+static char *declared_name(node_st *reference)
+{
+    node_st *entry = STlookup(symboltable, reference);
+    if (entry && NODE_TYPE(entry) == NT_INODE) {
+        return ID_ORIG(INODE_NAME(entry));
+    }
+    if (entry && NODE_TYPE(entry) == NT_INODESET) {
+        return ID_ORIG(INODESET_NAME(entry));
+    }
+    return ID_ORIG(reference);
+}
 
 node_st *GDast(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     seen = HTnew_String(10);
+    symboltable = AST_STABLE(node);
     GNopenSourceFile(ctx, "ast.dot");
     OUT("digraph Ast {\n");
     TRAVinodes(node);
@@ -54,7 +71,7 @@ node_st *GDsetliteral(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (node && SETLITERAL_REFERENCE(node)) {
-        OUT("\"%s\" -> \"%s\" [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), ID_ORIG(SETLITERAL_REFERENCE(node)));
+        OUT("\"%s\" -> \"%s\" [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), declared_name(SETLITERAL_REFERENCE(node)));
     }
     TRAVright(node);
     TRAVleft(node);
@@ -66,7 +83,7 @@ node_st *GDattribute(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_link) {
         OUT("\"%s\" -> \"%s\"[color=red, label=\"%s\"]\n",
-            ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)),
+            ID_ORIG(INODE_NAME(curr_node)), declared_name(ATTRIBUTE_TYPE_REFERENCE(node)),
             ID_ORIG(ATTRIBUTE_NAME(node)));
     }
 
@@ -78,7 +95,7 @@ node_st *GDchild(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (!HTlookup(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)))) {
-        OUT("\"%s\" -> \"%s\"[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
+        OUT("\"%s\" -> \"%s\"[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), declared_name(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
         //HTinsert(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)), node);
     }
 
-- 
2.43.0


From 3feb6dd18686c70d6acbaf94a9d66f298878095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:11 +0000
Subject: [PATCH 64/67] fix: an attribute that is both inherited and
 synthesized crashed the generator

---
 cocogen/frontend/check_attributes.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index d53533c..bf0032a 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -72,6 +72,13 @@ node_st *CHAattribute(node_st *node) {
         return node;
     }
 
+    if (ATTRIBUTE_IS_INHERITED(node) && ATTRIBUTE_IS_SYNTHESIZED(node)) {
+        CTIobj(CTI_ERROR, true, info,
+               "Attribute '%s' cannot be both inherited and synthesized\n",
+               ID_ORIG(ATTRIBUTE_NAME(node)));
+        CCNerrorAction();
+    }
+
     if (ATTRIBUTE_IN_CONSTRUCTOR(node)) {
         if (DATA_CHA_GET()->in_nodeset) {
             CTIobj(CTI_ERROR, true, info,
-- 
2.43.0


From 0e119f491150f18fcf194d33fe4d5b5a7fd74ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:27 +0000
Subject: [PATCH 65/67] fix: --verbose enables verbose mode like -v

---
 cocogen/commandline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 855099f..228fee7 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -71,7 +71,7 @@ void CLprocessArgs(int argc, char *argv[]) {
 
     // TODO: remove the hardcoded identifiers.
     static struct option long_options[] = {
-        {"verbose", no_argument, &global_command_line.verbose, 1},
+        {"verbose", no_argument, 0, 'v'},
         {"help", no_argument, 0, 'h'},
         {"dot", required_argument, 0, 23},
         {"version", no_argument, 0, 20},
-- 
2.43.0


From 9e5337e7e2fb658e88224224cf4e7ef7e12dbe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:27 +0000
Subject: [PATCH 66/67] fix: refuse an iteration limit that is only partly a
 number

---
 cocogen/commandline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 228fee7..0bbabd3 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -148,7 +148,7 @@ void CLprocessArgs(int argc, char *argv[]) {
         case 36:
             global_command_line.ag_scheduler_max_iter = strtoul(optarg, &endptr,
                                                                 10);
-            if (endptr == optarg) {
+            if (endptr == optarg || *endptr != '\0') {
                 printf("CLI: Error parsing ag max iter. Could not convert '%s' "
                        "to an integer. Exiting.\n", optarg);
                 exit(EXIT_FAILURE);
-- 
2.43.0


From bad543dd9f16501e880b691928c8cf9a0e17a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:40 +0000
Subject: [PATCH 67/67] fix: refuse a backend that does not exist

---
 cocogen/commandline.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 0bbabd3..a868c3d 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include "filesystem/utils.h"
+#include "palm/str.h"
 #include "ccn/ccn.h"
 
 extern char *yy_filename;
@@ -56,7 +57,7 @@ void Usage(char *program) {
  //          "compiler, generates an API for this.\n");
     //printf("  --gen_user_files              Generates user traversal files.\n");
     printf("  --backend <backend name>      Selects generation backend, either "
-           "typed or dynamic(default=dynamic).\n");
+           "static or dynamic(default=dynamic).\n");
     printf("  --show-ast                    Pretty print the ast at end of compilation\n");
     printf("  --show-structure              Pretty print the structure of the compiler.\n");
     printf("  --ag-scheduler-max-iter <int> Maximum iterations to be used by the ag "
@@ -127,6 +128,11 @@ void CLprocessArgs(int argc, char *argv[]) {
             global_command_line.gen_user_files = true;
             break;
         case 30:
+            if (!STReqci(optarg, "dynamic") && !STReq(optarg, "static")) {
+                fprintf(stderr, "Unknown backend: %s\n", optarg);
+                Usage(argv[0]);
+                exit(EXIT_FAILURE);
+            }
             global_command_line.backend = optarg;
             break;
         case 31:
-- 
2.43.0

