From 371f9f20c00ea115dc7b891b163a667067934a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 01/49] fix: separate an unquoted value ending in / ; or = from
 the following name in compact output

---
 src/main/c/parts/xmq_printer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 5d86065..851ba71 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1238,6 +1238,8 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
     {
         // This is a key_node text value or an attribute text value, ie key = 123 or color=blue, ie no quoting needed.
         print_utf8(ps, level_to_quote_color(level), 1, start, stop);
+        // The text can end with a / ; or = which must not be mistaken for the end of a comment/entity or an equals token.
+        ps->last_char = 1;
         return;
     }
 
-- 
2.43.0


From 5f83feb4b7b69aea63640edf78e87b29ab778873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 02/49] fix: keep compact output on a single line when the
 content holds three or more quotes

---
 src/main/c/parts/xmq_printer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 851ba71..6c1e5fd 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1058,7 +1058,7 @@ void print_safe_leaf_quote(XMQPrintState *ps,
                     // |       gamma delta'
                     indent += numq;
                 }
-                else
+                else if (!ps->output_settings->compact)
                 {
                     // More than 3 quotes, then we add newlines.
                     // e.g. quote at 4 will have source at 4.
-- 
2.43.0


From e845498a866dd56218006f551a4b8337ee3f4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 03/49] fix: compound a value made of mixed spaces and tabs

---
 src/main/c/parts/xmq_printer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 6c1e5fd..7f3b51b 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1365,6 +1365,13 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (*start == '\t') return false;
     }
 
+    // Whitespace that is not only spaces, is printed as a sequence of quoted spaces and character entities.
+    bool all_space = false;
+    bool only_newlines = false;
+    if (start < stop &&
+        has_all_whitespace(start, stop, &all_space, &only_newlines) &&
+        !all_space && !only_newlines) return true;
+
     size_t only_leading_newlines = 0;
     const char *ls = has_leading_space_nl(start, stop, &only_leading_newlines);
     if (ls != NULL && only_leading_newlines == 0) return true;
-- 
2.43.0


From f4a9b11b13145a5f051bea19ae7fb8d653f8d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 04/49] fix: keep leading and ending spaces of content quoted
 with surrounding newlines

---
 src/main/c/parts/xmq_printer.c | 38 +++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 7f3b51b..0002afe 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -17,6 +17,7 @@
 bool xml_has_non_empty_namespace_defs(xmlNode *node);
 bool xml_non_empty_namespace(xmlNs *ns);
 const char *toHtmlEntity(int uc);
+bool quote_would_lose_outer_space(const char *start, const char *stop, bool compact);
 
 /**
     count_necessary_quotes:
@@ -107,6 +108,28 @@ size_t count_necessary_quotes(const char *start, const char *stop, bool compact,
     return max;
 }
 
+/**
+    quote_would_lose_outer_space:
+    @start: Points to first byte of memory buffer to be quoted.
+    @stop:  Points to byte after memory buffer.
+    @compact: Compact mode.
+
+    A quote that must be surrounded by newlines, because the content starts/ends with a quote or has more than two
+    quotes in a row, cannot express leading/ending spaces and tabs. The parser trims them together with the newlines.
+*/
+bool quote_would_lose_outer_space(const char *start, const char *stop, bool compact)
+{
+    if (compact || start >= stop) return false;
+    char f = *start;
+    char l = *(stop-1);
+    if (f != ' ' && f != '\t' && l != ' ' && l != '\t') return false;
+
+    bool add_nls = false;
+    bool add_compound = false;
+    size_t numq = count_necessary_quotes(start, stop, false, &add_nls, &add_compound);
+    return add_nls || numq > 3;
+}
+
 /**
     count_necessary_slashes:
     @start: Start of buffer in which to count the slashes.
@@ -1292,7 +1315,18 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
             bool add_compound = false;
             bool compact = ps->output_settings->compact;
             count_necessary_quotes(from, to, false, &add_nls, &add_compound);
-            if (!add_compound && (!add_nls || !compact))
+            if (!add_compound && quote_would_lose_outer_space(from, to, compact))
+            {
+                // Print the leading/ending spaces and tabs separately.
+                const char *inner_from = from;
+                const char *inner_to = to;
+                while (inner_from < to && (*inner_from == ' ' || *inner_from == '\t')) inner_from++;
+                while (inner_to > inner_from && (*(inner_to-1) == ' ' || *(inner_to-1) == '\t')) inner_to--;
+                if (from < inner_from) print_value_internal_text(ps, from, inner_from, level);
+                print_value_internal_text(ps, inner_from, inner_to, level);
+                if (inner_to < to) print_value_internal_text(ps, inner_to, to, level);
+            }
+            else if (!add_compound && (!add_nls || !compact))
             {
                 check_space_before_quote(ps, level);
                 print_safe_leaf_quote(ps, level_to_quote_color(level), from, to);
@@ -1391,6 +1425,8 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (has_leading_ending_quote(start, stop)) return true;
     }
 
+    if (quote_would_lose_outer_space(start, stop, compact)) return true;
+
     bool newlines = ps->output_settings->escape_newlines;
     bool non7bit = ps->output_settings->escape_non_7bit;
 
-- 
2.43.0


From 2e03badefa75f66566afde2153dcdf34fabc39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 05/49] fix: do not add a newline to content that has both an
 outer quote and an outer newline

---
 src/main/c/parts/xmq_printer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 0002afe..f9022bd 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1112,7 +1112,8 @@ void print_safe_leaf_quote(XMQPrintState *ps,
         ps->line_indent = ps->current_indent;
     }
 
-    if (add_nls)
+    // Leading/ending newlines in the content are already surrounded with newlines when printed below.
+    if (add_nls && *start != '\n')
     {
         print_nl_and_indent(ps, NULL, NULL);
     }
@@ -1127,7 +1128,7 @@ void print_safe_leaf_quote(XMQPrintState *ps,
         ps->line_indent = old_line_indent;
     }
 
-    if (add_nls)
+    if (add_nls && *(stop-1) != '\n')
     {
         print_nl_and_indent(ps, NULL, NULL);
     }
-- 
2.43.0


From f158ef5514e2df672d122eb9ce966c91d40f48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 06/49] fix: compound a value made of quotes only

---
 src/main/c/parts/xmq_printer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index f9022bd..823a3cb 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1400,6 +1400,9 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (*start == '\t') return false;
     }
 
+    // Only quotes, is printed as a sequence of &apos; entities.
+    if (start < stop && has_all_quotes(start, stop)) return true;
+
     // Whitespace that is not only spaces, is printed as a sequence of quoted spaces and character entities.
     bool all_space = false;
     bool only_newlines = false;
-- 
2.43.0


From 63cebf468d45da61c9bfc5a88e41ee2f30f43a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 07/49] fix: track the printed column so that multi line quotes
 keep their indentation

---
 src/main/c/parts/utf8.c        | 2 +-
 src/main/c/parts/xmq_printer.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/utf8.c b/src/main/c/parts/utf8.c
index 25da69f..c8528dd 100644
--- a/src/main/c/parts/utf8.c
+++ b/src/main/c/parts/utf8.c
@@ -79,7 +79,7 @@ size_t print_utf8_internal(XMQPrintState *ps, const char *start, const char *sto
     {
         // Find next utf8 char....
         const char *j = i+1;
-        while (j < stop && (*j & 0xc0) == 0x80) j++;
+        while ((!stop || j < stop) && (*j & 0xc0) == 0x80) j++;
 
         // Is the utf8 char a unicode whitespace and not space,tab,cr,nl?
         bool uw = is_unicode_whitespace(i, j);
diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 823a3cb..6c8a5b4 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -591,7 +591,8 @@ void print_quoted_spaces(XMQPrintState *ps, XMQColor color, int num)
     {
         write(writer_state, os->explicit_space, NULL);
     }
-    ps->current_indent += num;
+    // The spaces and the two surrounding quotes.
+    ps->current_indent += num+2;
     ps->last_char = '\'';
     write(writer_state, "'", NULL);
     if (c && c->quote.post) write(writer_state, c->quote.post, NULL);
@@ -683,7 +684,6 @@ size_t print_char_entity(XMQPrintState *ps, XMQColor color, const char *start, c
         if (post) write(writer_state, post, NULL);
 
         ps->last_char = ';';
-        ps->current_indent += strlen(buf);
     }
     else
     {
-- 
2.43.0


From 9a7b78bb79ba7989234b79aaa57331a3292b5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 08/49] fix: use enough slashes around a compact comment that
 holds */

---
 src/main/c/parts/xmq_printer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 6c8a5b4..9ae05e4 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -292,7 +292,15 @@ void print_comment_node(XMQPrintState *ps, xmlNode *node)
     {
         if (ps->output_settings->compact)
         {
-            print_utf8(ps, COLOR_comment, 3, "/*", NULL, start, stop, "*/", NULL);
+            if (count_necessary_slashes(start, stop) == 1)
+            {
+                print_utf8(ps, COLOR_comment, 3, "/*", NULL, start, stop, "*/", NULL);
+            }
+            else
+            {
+                // The content holds */ which requires more slashes.
+                print_comment_lines(ps, start, stop, true);
+            }
             ps->last_char = '/';
         }
         else
-- 
2.43.0


From 2ed32e4dfcba2c431d48eb86c64e10edb7b69f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 09/49] fix: do not read before the buffer when it starts with
 an equals sign or brace

---
 src/main/c/parts/xmq_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 3131a1a..072d906 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -976,8 +976,9 @@ bool possibly_lost_content_after_equals(XMQParseState *state)
     // Not {(= then not lost content, probably.
     if (!(c == '{' || c == '(' || c == '=')) return false;
 
-    const char *i = state->i-1;
     const char *start = state->buffer_start;
+    if (state->i == start) return false;
+    const char *i = state->i-1;
 
     // Scan backwards for newline accepting only texts and xml whitespace.
     while (i > start && *i != '\n' && (is_xmq_text_name(*i) || is_xml_whitespace(*i))) i--;
-- 
2.43.0


From 4ab93cad6b5d1b5ebe436e33cac1338658325682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 10/49] fix: report an error for unterminated json arrays and
 objects instead of aborting or looping

---
 src/main/c/parts/json.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index cf03fa3..8806ca9 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -820,15 +820,20 @@ void parse_json_array(XMQParseState *state, const char *key_start, const char *k
     while (state->i < stop && c == ',')
     {
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = state->i < stop ? *(state->i) : 0;
         if (c == ']') break;
 
         parse_json(state, NULL, NULL);
-        c = *state->i;
+        c = state->i < stop ? *(state->i) : 0;
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
     }
 
-    assert(c == ']');
+    if (state->i >= stop || c != ']')
+    {
+        // The array is not closed, or there is something unexpected after a value.
+        state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
     increment(c, 1, &state->i, &state->line, &state->col);
 
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
@@ -838,7 +843,7 @@ void parse_json(XMQParseState *state, const char *key_start, const char *key_sto
 {
     eat_xml_whitespace(state, NULL, NULL);
 
-    char c = *(state->i);
+    char c = state->i < state->buffer_stop ? *(state->i) : 0;
 
     if (is_json_quote_start(c)) parse_json_quote(state, key_start, key_stop);
     else if (is_json_boolean(state)) parse_json_boolean(state, key_start, key_stop);
@@ -1059,7 +1064,7 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
     while (state->i < stop && c == ',')
     {
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = state->i < stop ? *(state->i) : 0;
         if (c == '}') break;
 
         if (!is_json_quote_start(c))
@@ -1074,7 +1079,7 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         eat_json_quote(state, &new_key_start, &new_key_stop);
 
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = state->i < stop ? *(state->i) : 0;
 
         if (c == ':')
         {
@@ -1089,12 +1094,16 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         parse_json(state, new_key_start, new_key_stop);
         free(new_key_start);
 
-        c = *state->i;
+        c = state->i < stop ? *(state->i) : 0;
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
     }
-    while (c == ',');
 
-    assert(c == '}');
+    if (state->i >= stop || c != '}')
+    {
+        // The object is not closed, or there is something unexpected after a value.
+        state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
     increment(c, 1, &state->i, &state->line, &state->col);
 
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
-- 
2.43.0


From 4990509acc3c84e05fb82b184ad44b06989fad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 11/49] fix: report an error for an unterminated json string

---
 src/main/c/parts/json.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 8806ca9..3302efb 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -102,18 +102,20 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
 
     increment('"', 1, &i, &line, &col);
 
+    bool closed = false;
     while (i < stop)
     {
         char c = *i;
         if (c == '"')
         {
             increment(c, 1, &i, &line, &col);
+            closed = true;
             break;
         }
         if (c == '\\')
         {
             increment(c, 1, &i, &line, &col);
-            c = *i;
+            c = i < stop ? *i : 0;
             if (c == '"' || c == '\\' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
             {
                 increment(c, 1, &i, &line, &col);
@@ -164,6 +166,13 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
         membuffer_append_char(buf, c);
         increment(c, 1, &i, &line, &col);
     }
+    if (!closed)
+    {
+        // There was no ending quote.
+        free_membuffer_and_free_content(buf);
+        state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
     // Add a zero termination to the string which is not used except for
     // guaranteeing that there is at least one allocated byte for empty strings.
     membuffer_append_null(buf);
-- 
2.43.0


From 40a867700782078461edee086bf46ea4a2fc7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 12/49] fix: accept the json escape \/

---
 src/main/c/parts/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 3302efb..4da7823 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -116,7 +116,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
         {
             increment(c, 1, &i, &line, &col);
             c = i < stop ? *i : 0;
-            if (c == '"' || c == '\\' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
+            if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
             {
                 increment(c, 1, &i, &line, &col);
                 switch(c)
-- 
2.43.0


From 76eb6282734d1df7076017e98946ec2e370a2186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 13/49] fix: follow the json grammar for numbers

---
 src/main/c/parts/json.c | 93 ++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 58 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 4da7823..682a512 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -509,76 +509,53 @@ void parse_json_null(XMQParseState *state, const char *key_start, const char *ke
 
 bool has_number_ended(char c)
 {
-    return c == ' ' || c == '\n' || c == ',' || c == '}' || c == ']';
+    return is_json_whitespace(c) || c == ',' || c == '}' || c == ']';
 }
 
+/**
+    is_jnumber:
+    @start: Points to first byte of the potential number.
+    @stop: Points to byte after buffer, or NULL if zero terminated.
+
+    Check for a json number: an optional minus, an integer without leading zeros,
+    an optional fraction and an optional exponent.
+
+    Returns a pointer to the byte after the number or NULL if this is not a number.
+*/
 const char *is_jnumber(const char *start, const char *stop)
 {
     if (stop == NULL) stop = start+strlen(start);
-    if (start == stop) return NULL;
 
-    bool found_e = false;
-    bool found_e_sign = false;
-    bool leading_zero = false;
-    bool last_is_digit = false;
-    bool found_dot = false;
+    const char *i = start;
 
-    const char *i;
-    for (i = start; i < stop; ++i)
-    {
-        char c = *i;
+    if (i < stop && *i == '-') i++;
 
-        last_is_digit = false;
-        bool current_is_not_digit = (c < '0' || c > '9');
+    // At least one digit is required, a leading zero must be the only digit.
+    if (i >= stop || *i < '0' || *i > '9') return NULL;
+    if (*i == '0') i++;
+    else
+    {
+        while (i < stop && *i >= '0' && *i <= '9') i++;
+    }
 
-        if (i == start)
-        {
-            if (current_is_not_digit && c != '-' ) return NULL;
-            if (c == '0') leading_zero = true;
-            if (c != '-') last_is_digit = true;
-            continue;
-        }
+    // Optional fraction with at least one digit.
+    if (i < stop && *i == '.')
+    {
+        i++;
+        if (i >= stop || *i < '0' || *i > '9') return NULL;
+        while (i < stop && *i >= '0' && *i <= '9') i++;
+    }
 
-        if (leading_zero)
-        {
-            leading_zero = false;
-            if (has_number_ended(c)) return i;
-            if (c != '.') return NULL;
-            found_dot = true;
-        }
-        else if (c == '.')
-        {
-            if (found_dot) return NULL;
-            found_dot = true;
-        }
-        else if (c == 'e' || c == 'E')
-        {
-            if (found_e) return NULL;
-            found_e = true;
-        }
-        else if (found_e && !found_e_sign)
-        {
-            if (has_number_ended(c)) return i;
-            if (current_is_not_digit && c != '-' && c != '+') return NULL;
-            if (c == '+' || c == '-')
-            {
-                found_e_sign = true;
-            }
-            else
-            {
-                last_is_digit = true;
-            }
-        }
-        else
-        {
-            found_e_sign = false;
-            if (has_number_ended(c)) return i;
-            if (current_is_not_digit) return NULL;
-            last_is_digit = true;
-        }
+    // Optional exponent with at least one digit.
+    if (i < stop && (*i == 'e' || *i == 'E'))
+    {
+        i++;
+        if (i < stop && (*i == '+' || *i == '-')) i++;
+        if (i >= stop || *i < '0' || *i > '9') return NULL;
+        while (i < stop && *i >= '0' && *i <= '9') i++;
     }
 
-    if (last_is_digit == false) return NULL;
+    if (i < stop && !has_number_ended(*i)) return NULL;
 
     return i;
 }
-- 
2.43.0


From a91eefb5411955f3058486ebd59b21c2f0c825ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 14/49] fix: do not peek utf8 beyond the end of the buffer nor
 overflow the code point string

---
 src/main/c/parts/text.c          | 48 ++++++--------------------------
 src/main/c/parts/xmq_internals.c |  2 +-
 2 files changed, 10 insertions(+), 40 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 68ae86f..a530e2d 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -179,55 +179,25 @@ size_t num_utf8_bytes(char c)
 */
 size_t peek_utf8_char(const char *start, const char *stop, UTF8Char *uc)
 {
-    char a = *start;
-    size_t n = num_utf8_bytes(a);
+    memset(uc->bytes, 0, sizeof(uc->bytes));
+    if (stop && start >= stop) return 0;
 
-    if (n == 1)
-    {
-        uc->bytes[0] = a;
-        uc->bytes[1] = 0;
-        uc->bytes[2] = 0;
-        uc->bytes[3] = 0;
-        return 1;
-    }
-
-    char b = *(start+1);
-    if (n == 2)
-    {
-        uc->bytes[0] = a;
-        uc->bytes[1] = b;
-        uc->bytes[2] = 0;
-        uc->bytes[3] = 0;
-        return 2;
-    }
-
-    char c = *(start+2);
-    if (n == 3)
-    {
-        uc->bytes[0] = a;
-        uc->bytes[1] = b;
-        uc->bytes[2] = c;
-        uc->bytes[3] = 0;
-        return 3;
-    }
+    size_t n = num_utf8_bytes(*start);
 
-    char d = *(start+3);
-    if (n == 4)
+    for (size_t i = 0; i < n; ++i)
     {
-        uc->bytes[0] = a;
-        uc->bytes[1] = b;
-        uc->bytes[2] = c;
-        uc->bytes[3] = d;
-        return 4;
+        // Never peek beyond the end of the string.
+        if (stop ? start+i >= stop : (i > 0 && start[i] == 0)) return 0;
+        uc->bytes[i] = start[i];
     }
 
-    return 0;
+    return n;
 }
 
 /**
    utf8_char_to_codepoint_string: Decode an utf8 char and store as a string "U+123"
    @uc: The utf8 char to decode.
-   @buf: Store the codepoint string here must have space for 9 bytes, i.e. U+10FFFF and a NULL byte.
+   @buf: Store the codepoint string here must have space for 16 bytes.
 */
 bool utf8_char_to_codepoint_string(UTF8Char *uc, char *buf)
 {
diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index 2e7f78f..4bb4baa 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -92,7 +92,7 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
     {
         UTF8Char utf8_char;
         peek_utf8_char(statei, stop, &utf8_char);
-        char utf8_codepoint[8];
+        char utf8_codepoint[16];
         utf8_char_to_codepoint_string(&utf8_char, utf8_codepoint);
 
         snprintf(buf, 32, " \"%s\" %s", utf8_char.bytes, utf8_codepoint);
-- 
2.43.0


From 8480df3a478b4355c39dc4a7bda09000ab47c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 15/49] fix: do not look at chars beyond the end of the buffer
 when parsing xmq

---
 src/main/c/parts/xmq_parser.c | 43 +++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 072d906..86333b3 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -21,6 +21,12 @@ void eat_xmq_text_name(XMQParseState *state, const char **content_start, const c
 bool possibly_lost_content_after_equals(XMQParseState *state);
 bool possibly_need_more_quotes(XMQParseState *state);
 
+/** The next char to parse, or zero when the end of the buffer has been reached. */
+static char next_char(XMQParseState *state)
+{
+    return state->i < state->buffer_stop ? *state->i : 0;
+}
+
 size_t count_xmq_quotes(const char *i, const char *stop)
 {
     const char *start = i;
@@ -138,7 +144,6 @@ void eat_xmq_entity(XMQParseState *state)
     if (c == ';')
     {
         increment(c, 1, &i, &line, &col);
-        c = *i;
         expect_semicolon = false;
     }
     if (expect_semicolon)
@@ -419,7 +424,7 @@ size_t count_xmq_slashes(const char *i, const char *stop, bool *found_asterisk)
 
     while (i < stop && *i == '/') i++;
 
-    if (*i == '*') *found_asterisk = true;
+    if (i < stop && *i == '*') *found_asterisk = true;
     else *found_asterisk = false;
 
     return i-start;
@@ -427,8 +432,8 @@ size_t count_xmq_slashes(const char *i, const char *stop, bool *found_asterisk)
 
 bool is_xmq_text_value(const char *start, const char *stop)
 {
-    char c = *start;
-    char cc = *(start+1);
+    char c = start < stop ? *start : 0;
+    char cc = start+1 < stop ? *(start+1) : 0;
 
     if (unsafe_value_start(c, cc)) return false;
 
@@ -616,12 +621,12 @@ void parse_xmq_text_value(XMQParseState *state, Level level)
 
 void parse_xmq_value(XMQParseState *state, Level level)
 {
-    char c = *state->i;
+    char c = next_char(state);
 
     if (is_xml_whitespace(c))
     {
         parse_xmq_whitespace(state);
-        c = *state->i;
+        c = next_char(state);
     }
 
     if (is_xmq_quote_start(c))
@@ -638,7 +643,7 @@ void parse_xmq_value(XMQParseState *state, Level level)
     }
     else
     {
-        char cc = *(state->i+1);
+        char cc = state->i+1 < state->buffer_stop ? *(state->i+1) : 0;
         if (unsafe_value_start(c, cc))
         {
             state->error_nr = XMQ_ERROR_VALUE_CANNOT_START_WITH;
@@ -709,8 +714,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
     }
 
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = next_char(state);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = next_char(state); }
 
     if (c == '(')
     {
@@ -726,8 +731,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
 
         parse_xmq_attributes(state);
 
-        c = *state->i;
-        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+        c = next_char(state);
+        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = next_char(state); }
         if (c != ')')
         {
             state->error_nr = XMQ_ERROR_ATTRIBUTES_NOT_CLOSED;
@@ -745,8 +750,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
         DO_CALLBACK(apar_right, state, start_line, start_col, parentheses_right_start, parentheses_right_stop, stop);
     }
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = next_char(state);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = next_char(state); }
 
     if (c == '=')
     {
@@ -778,8 +783,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
         DO_CALLBACK(brace_left, state, start_line, start_col, start, stop, stop);
 
         parse_xmq(state);
-        c = *state->i;
-        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+        c = next_char(state);
+        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = next_char(state); }
         if (c != '}')
         {
             state->error_nr = XMQ_ERROR_BODY_NOT_CLOSED;
@@ -883,8 +888,8 @@ void parse_xmq_attribute(XMQParseState *state)
         }
     }
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = next_char(state);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = next_char(state); }
 
     if (c == '=')
     {
@@ -921,8 +926,8 @@ void parse_xmq_compound(XMQParseState *state, Level level)
 
     parse_xmq_compound_children(state, enter_compound_level(level));
 
-    char c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    char c = next_char(state);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = next_char(state); }
 
     if (c != ')')
     {
-- 
2.43.0


From 3cad158c7dd40f4119f93001793d1bef3214f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 16/49] fix: do not look at chars beyond the end of the buffer
 when skipping whitespace

---
 src/main/c/parts/json.c          | 2 +-
 src/main/c/parts/xmq_internals.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 682a512..57aea98 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -133,7 +133,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
             else if (c == 'u')
             {
                 increment(c, 1, &i, &line, &col);
-                c = *i;
+                c = i < stop ? *i : 0;
                 if (i+3 < stop)
                 {
                     // Woot? Json can only escape unicode up to 0xffff ? What about 10000 up to 10ffff?
diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index 4bb4baa..d6eecc5 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -134,6 +134,8 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
 
 size_t count_whitespace(const char *i, const char *stop)
 {
+    if (i >= stop) return 0;
+
     unsigned char c = *i;
     if (c == ' ' || c == '\n' || c == '\t' || c == '\r')
     {
-- 
2.43.0


From 7c7e2559d8f087803f5877dd2251ff0f53ae8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 17/49] fix: do not read around an empty value

---
 src/main/c/parts/text.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index a530e2d..3177cf7 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -570,8 +570,8 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
 char *potentially_add_leading_ending_space(const char *start, const char *stop)
 {
     char *content = NULL;
-    int prefix = *start == '\'' ? 1 : 0;
-    int postfix = *(stop-1) == '\'' ? 1 : 0;
+    int prefix = start < stop && *start == '\'' ? 1 : 0;
+    int postfix = start < stop && *(stop-1) == '\'' ? 1 : 0;
     if (prefix || postfix)
     {
         size_t len = stop-start;
-- 
2.43.0


From edb6bf726df9c4f352f9eaa401bce990bea25d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 18/49] fix: report an error for an invalid attribute name
 instead of looping forever

---
 src/main/c/parts/xmq_parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 86333b3..3583327 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -845,6 +845,13 @@ void parse_xmq_attribute(XMQParseState *state)
     eat_xmq_text_name(state, &name_start, &name_stop, &ns_start, &ns_stop);
     const char *stop = state->i;
 
+    if (!ns_start && name_start == name_stop)
+    {
+        // This cannot be the name of an attribute, nothing was eaten.
+        state->error_nr = XMQ_ERROR_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
+
     if (!ns_start)
     {
         // No colon found, we have either a normal: key=123
-- 
2.43.0


From 6dea0d506b680b6f4a108b1844876338f0659d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 19/49] fix: report an error for a tab inside attributes or
 compounds instead of looping forever

---
 src/main/c/parts/xmq_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 3583327..14c1c22 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -1080,6 +1080,12 @@ void parse_xmq_whitespace(XMQParseState *state)
     const char *start;
     const char *stop;
     eat_xmq_token_whitespace(state, &start, &stop);
+    if (start == stop)
+    {
+        // Nothing was eaten since a tab is not permitted as token whitespace.
+        state->error_nr = XMQ_ERROR_UNEXPECTED_TAB;
+        longjmp(state->error_handler, 1);
+    }
     DO_CALLBACK(whitespace, state, start_line, start_col, start, stop, stop);
 }
 
-- 
2.43.0


From 4e99a5bda46d366589ea436a7cc93f71f57a380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 20/49] fix: never skip more than the indentation of a line
 when removing incidental indentation

---
 src/main/c/xmq.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 8691d85..609aa5e 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1183,7 +1183,7 @@ bool find_line(const char *start, // Start scanning the line from here.
     {
         if (*i == '\n' || *i == '\r')
         {
-            if (*i == '\r' && *(i+1) == '\n') i++;
+            if (*i == '\r' && i+1 < stop && *(i+1) == '\n') i++;
             i++;
             has_nl = true;
             break;
@@ -1514,12 +1514,13 @@ char *xmq_trim_quote(size_t indent, char space, const char *start, const char *s
             // For all lines except the first. And for the first line if ignore_first_indent is true.
             // Skip the incidental indentation.
             size_t n = incidental;
-            while (n > 0)
+            while (n > 0 && i < eol)
             {
                 char c = *i;
+                if (c != ' ' && c != '\t') break; // The line has less indentation.
                 i++;
                 if (c == ' ') n--;
-                else if (c == '\t')
+                else
                 {
                     if (n >= 8) n -= 8;
                     else break; // safety check.
-- 
2.43.0


From b92ea11cb2649302537560504b65204b8d08bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 21/49] fix: do not report lost content after an equals char
 that is not an equals token

---
 src/main/c/parts/xmq_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 14c1c22..dc2d134 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -1004,7 +1004,8 @@ bool possibly_lost_content_after_equals(XMQParseState *state)
         i--;
     }
 
-    return *i == '=';
+    // It must be an actual equals token, not an equals char inside a comment or an attribute.
+    return i == state->last_equals_start;
 }
 
 bool possibly_need_more_quotes(XMQParseState *state)
-- 
2.43.0


From a393b76899f6620d396b58edc1f5e790258bf732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 22/49] fix: do not add unmerged text to a missing parent

---
 src/main/c/xmq.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 609aa5e..567dcbc 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1961,7 +1961,12 @@ xmlNodePtr create_quote(XMQParseState *state,
     size_t indent = col - 1;
     char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(indent, ' ', start, stop, true);
     xmlNodePtr n = xmlNewDocText(state->doq->docptr_.xml, (const xmlChar *)trimmed);
-    if (state->merge_text)
+    if (parent == NULL)
+    {
+        xmlFreeNode(n);
+        n = NULL;
+    }
+    else if (state->merge_text)
     {
         n = xmlAddChild(parent, n);
     }
-- 
2.43.0


From 870bb07ef63a416b1b6f5429c62aba707281d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 23/49] fix: skip a bom that is not followed by content and
 report an error for utf16

---
 src/main/c/xmq.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 567dcbc..22ee642 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1797,7 +1797,7 @@ void xmqFreeDoc(XMQDoc *doq)
 
 const char *skip_any_potential_bom(const char *start, const char *stop)
 {
-    if (start + 3 < stop)
+    if (start + 3 <= stop)
     {
         int a = (unsigned char)*(start+0);
         int b = (unsigned char)*(start+1);
@@ -1809,7 +1809,7 @@ const char *skip_any_potential_bom(const char *start, const char *stop)
         }
     }
 
-    if (start+2 < stop)
+    if (start+2 <= stop)
     {
         unsigned char a = *(start+0);
         unsigned char b = *(start+1);
@@ -4066,7 +4066,12 @@ bool xmqParseBufferWithType(XMQDoc *doq,
 
     // Unicode files might lead with a byte ordering mark.
     start = skip_any_potential_bom(start, stop);
-    if (!start) return false;
+    if (!start)
+    {
+        // UTF-16 cannot be handled.
+        doq->errno_ = XMQ_ERROR_NOT_XMQ;
+        return false;
+    }
 
     XMQContentType detected_ct = XMQ_CONTENT_UNKNOWN;
     if (ct != XMQ_CONTENT_IXML) detected_ct = xmqDetectContentType(start, stop);
-- 
2.43.0


From b6d21cf08a79d3de7f49a9b8f1980b058b40147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 24/49] fix: do not read beyond the buffer when detecting the
 content type

---
 src/main/c/xmq.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 22ee642..1e06e94 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1033,10 +1033,10 @@ const char *find_word_ignore_case(const char *start, const char *stop, const cha
     size_t len = strlen(word);
 
     while (i < stop && is_xml_whitespace(*i)) i++;
-    if (!strncasecmp(i, word, len))
+    if (i+len <= stop && !strncasecmp(i, word, len))
     {
         const char *next = i+len;
-        if (next <= stop && (is_xml_whitespace(*next) || *next == 0 || !isalnum(*next)))
+        if (next == stop || (is_xml_whitespace(*next) || *next == 0 || !isalnum(*next)))
         {
             // The word was properly terminated with a 0, or a whitespace or something not alpha numeric.
             return i+strlen(word);
-- 
2.43.0


From 426793dd78d06cf988feea867ba512c37fcdfbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 25/49] fix: report an error for attributes or children of a
 processing instruction or doctype

---
 src/main/c/parts/xmq_parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index dc2d134..8b710d9 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -717,6 +717,13 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
     c = next_char(state);
     if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = next_char(state); }
 
+    if ((doctype || pi) && (c == '(' || c == '{'))
+    {
+        // Neither a doctype nor a processing instruction can have attributes or children.
+        state->error_nr = XMQ_ERROR_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
+
     if (c == '(')
     {
         const char *start = state->i;
-- 
2.43.0


From 9e035aa93799cd85384042244e883214d74911d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 26/49] fix: do not read beyond the buffer for an empty
 namespace value

---
 src/main/c/xmq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 1e06e94..e1a1bdd 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2406,7 +2406,7 @@ void update_namespace_href(XMQParseState *state,
     ns->href = (const xmlChar*)href;
     debug("xmq=", "update namespace prefix=%s with href=%s", ns->prefix, href);
 
-    if (start[0] == 0 && ns == state->default_namespace)
+    if (href[0] == 0 && ns == state->default_namespace)
     {
         xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
         debug("xmq=", "remove default namespace in element %s", element->name);
-- 
2.43.0


From c848bc2baf6693a5087ad6903c7c22abf37db08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 27/49] fix: decode json surrogate pairs and report an error
 for a lone surrogate or an escaped zero

---
 src/main/c/parts/json.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 57aea98..0f4bdad 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -136,7 +136,6 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
                 c = i < stop ? *i : 0;
                 if (i+3 < stop)
                 {
-                    // Woot? Json can only escape unicode up to 0xffff ? What about 10000 up to 10ffff?
                     if (is_hex(*(i+0)) && is_hex(*(i+1)) && is_hex(*(i+2)) && is_hex(*(i+3)))
                     {
                         unsigned char c1 = hex_value(*(i+0));
@@ -149,17 +148,34 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
                         increment(c, 1, &i, &line, &col);
 
                         int uc = (c1<<12)|(c2<<8)|(c3<<4)|c4;
-                        UTF8Char utf8;
-                        size_t n = encode_utf8(uc, &utf8);
-
-                        for (size_t j = 0; j < n; ++j)
+                        if (uc >= 0xd800 && uc <= 0xdbff &&
+                            i+5 < stop && *(i+0) == '\\' && *(i+1) == 'u' &&
+                            is_hex(*(i+2)) && is_hex(*(i+3)) && is_hex(*(i+4)) && is_hex(*(i+5)))
+                        {
+                            // Unicode 10000 up to 10ffff is escaped using a surrogate pair.
+                            int low = (hex_value(*(i+2))<<12)|(hex_value(*(i+3))<<8)|(hex_value(*(i+4))<<4)|hex_value(*(i+5));
+                            if (low >= 0xdc00 && low <= 0xdfff)
+                            {
+                                uc = 0x10000+((uc-0xd800)<<10)+(low-0xdc00);
+                                for (int j = 0; j < 6; ++j) increment(*i, 1, &i, &line, &col);
+                            }
+                        }
+                        // A lone surrogate is not a character and a zero cannot be stored.
+                        if (uc != 0 && (uc < 0xd800 || uc > 0xdfff))
                         {
-                            membuffer_append_char(buf, utf8.bytes[j]);
+                            UTF8Char utf8;
+                            size_t n = encode_utf8(uc, &utf8);
+
+                            for (size_t j = 0; j < n; ++j)
+                            {
+                                membuffer_append_char(buf, utf8.bytes[j]);
+                            }
+                            continue;
                         }
-                        continue;
                     }
                 }
             }
+            free_membuffer_and_free_content(buf);
             state->error_nr = XMQ_ERROR_JSON_INVALID_ESCAPE;
             longjmp(state->error_handler, 1);
         }
-- 
2.43.0


From d0e98d3ea4a6848c107f7afedfb45c18bcd17312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 28/49] fix: escape control chars in json output using json
 escapes

---
 src/main/c/parts/json.c | 51 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 0f4bdad..44f1c2e 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -67,6 +67,7 @@ bool json_is_keyword(const char *start);
 void json_print_leaf_node(XMQPrintState *ps, xmlNode *container, xmlNode *node, size_t total, size_t used);
 
 void trim_index_suffix(const char *key_start, const char **stop);
+char *xmq_quote_as_json(const char *start, const char *stop, bool add_quotes);
 
 bool xmq_tokenize_buffer_json(XMQParseState *state, const char *start, const char *stop);
 
@@ -79,6 +80,44 @@ char rightbrace[] = "}";
 char array[] = "A";
 char string[] = "S";
 
+/**
+    xmq_quote_as_json:
+
+    Escape the in string using json quotes. Json has neither \a \v nor \x, such chars are escaped using \u.
+*/
+char *xmq_quote_as_json(const char *start, const char *stop, bool add_quotes)
+{
+    if (!stop) stop = start+strlen(start);
+
+    MemBuffer *mb = new_membuffer();
+
+    if (add_quotes) membuffer_append_char(mb, '"');
+
+    for (const char *i = start; i < stop && *i; ++i)
+    {
+        unsigned char c = *i;
+        if (c == '"' || c == '\\') { membuffer_append_char(mb, '\\'); membuffer_append_char(mb, c); }
+        else if (c == '\b') membuffer_append(mb, "\\b");
+        else if (c == '\t') membuffer_append(mb, "\\t");
+        else if (c == '\n') membuffer_append(mb, "\\n");
+        else if (c == '\f') membuffer_append(mb, "\\f");
+        else if (c == '\r') membuffer_append(mb, "\\r");
+        else if (c < ' ' || c == 127)
+        {
+            membuffer_append(mb, "\\u00");
+            membuffer_append_char(mb, to_hex(c>>4));
+            membuffer_append_char(mb, to_hex(c&0xf));
+        }
+        else membuffer_append_char(mb, c);
+    }
+
+    if (add_quotes) membuffer_append_char(mb, '"');
+
+    membuffer_append_null(mb);
+
+    return free_membuffer_but_return_trimmed_content(mb);
+}
+
 bool is_json_whitespace(char c)
 {
     return c == ' ' || c == '\t' || c == '\n' || c == '\r';
@@ -1158,7 +1197,7 @@ void json_print_value(XMQPrintState *ps, xmlNode *from, xmlNode *to, Level level
                     const char *value = xml_element_content(node);
                     if (value)
                     {
-                        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+                        char *quoted_value = xmq_quote_as_json(value, value+strlen(value), false);
                         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
                         free(quoted_value);
                     }
@@ -1227,7 +1266,7 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
 
     json_check_comma(ps);
 
-    char *quoted_key = xmq_quote_as_c(key, key+strlen(key), false);
+    char *quoted_key = xmq_quote_as_json(key, key+strlen(key), false);
     print_utf8(ps, COLOR_none, 1, "\"_", NULL);
     if (prefix)
     {
@@ -1240,7 +1279,7 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
     if (a->children != NULL)
     {
         char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
-        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
+        char *quoted_value = xmq_quote_as_json(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
         xmlFree(value);
@@ -1415,7 +1454,7 @@ void json_print_element_name(XMQPrintState *ps, xmlNode *container, xmlNode *nod
             // The key was stored inside the attribute because it could not
             // be used as the element name.
             char *value = (char*)xmlNodeListGetString(node->doc, a->children, 1);
-            char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+            char *quoted_value = xmq_quote_as_json(value, value+strlen(value), false);
             print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
             free(quoted_value);
             xmlFree(value);
@@ -1513,7 +1552,7 @@ void json_print_doctype_node(XMQPrintState *ps, xmlNodePtr node)
     xmlBuffer *buffer = xmlBufferCreate();
     xmlNodeDump(buffer, (xmlDocPtr)ps->doq->docptr_.xml, node, 0, 0);
     char *c = (char*)xmlBufferContent(buffer);
-    char *quoted_value = xmq_quote_as_c(c+10, c+strlen(c)-1, true);
+    char *quoted_value = xmq_quote_as_json(c+10, c+strlen(c)-1, true);
     print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
     free(quoted_value);
     xmlBufferFree(buffer);
@@ -1534,7 +1573,7 @@ void json_print_standalone_quote(XMQPrintState *ps, xmlNodePtr container, xmlNod
 {
     json_check_comma(ps);
     const char *value = xml_element_content(node);
-    char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+    char *quoted_value = xmq_quote_as_json(value, value+strlen(value), false);
     if (total == 1)
     {
         print_utf8(ps, COLOR_none, 3, "\"|\":\"", NULL, quoted_value, NULL, "\"", NULL);
-- 
2.43.0


From f7f77e619606b3fce6b55efe7f9d8541d1f4fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 29/49] fix: report an error for a character entity that is not
 a character

---
 src/main/c/parts/text.c | 6 ++++--
 src/main/c/xmq.c        | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 3177cf7..0c76186 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -219,7 +219,7 @@ bool utf8_char_to_codepoint_string(UTF8Char *uc, char *buf)
    @out_char: Store the unicode code point here.
    @out_len: How many bytes the utf8 char used.
 
-   Return true if valid utf8 char.
+   Return the number of bytes used, or zero if there is no such code point.
 */
 size_t encode_utf8(int uc, UTF8Char *utf8)
 {
@@ -228,6 +228,9 @@ size_t encode_utf8(int uc, UTF8Char *utf8)
     utf8->bytes[2] = 0;
     utf8->bytes[3] = 0;
 
+    // There is no such code point.
+    if (uc < 0 || uc > 0x10ffff) return 0;
+
     if (uc <= 0x7f)
     {
         utf8->bytes[0] = uc;
@@ -246,7 +249,6 @@ size_t encode_utf8(int uc, UTF8Char *utf8)
         utf8->bytes[2] = (0x80 | (uc & 0x3f));
         return 3;
     }
-    assert (uc <= 0x10ffff);
     utf8->bytes[0] = (0xf0 | ((uc >> 18) & 0x07));
     utf8->bytes[1] = (0x80 | ((uc >> 12) & 0x3f));
     utf8->bytes[2] = (0x80 | ((uc >> 6) & 0x3f));
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index e1a1bdd..3278e75 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2026,9 +2026,16 @@ xmlNodePtr create_entity(XMQParseState *state,
         {
             // Make inte text that will be merged.
             UTF8Char uni;
-            int uc = 0;
+            long uc = 0;
             if (tmp[2] == 'x') uc = strtol(tmp+3, NULL, 16);
             else uc = strtol(tmp+2, NULL, 10);
+            if (uc <= 0 || uc > 0x10ffff || (uc >= 0xd800 && uc <= 0xdfff))
+            {
+                // There is no such character.
+                free(tmp);
+                state->error_nr = XMQ_ERROR_INVALID_CHAR;
+                longjmp(state->error_handler, 1);
+            }
             size_t len = encode_utf8(uc, &uni);
             char buf[len+1];
             memcpy(buf, uni.bytes, len);
-- 
2.43.0


From c9a858eb335ee71981c38e8c0b1d140c70a83565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 30/49] fix: decode hex and amp entities and keep unknown
 entities when converting to json

---
 src/main/c/parts/xml.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 8a0be51..0da183b 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -256,6 +256,17 @@ char *xml_collapse_text(xmlNode *node)
         else
         {
             int uc = decode_entity_ref((const char *)i->name);
+            if (uc == 0)
+            {
+                // Not a known character, keep the entity as is.
+                size_t l = strlen((const char *)i->name);
+                *out++ = '&';
+                memcpy(out, i->name, l);
+                out += l;
+                *out++ = ';';
+                i = next;
+                continue;
+            }
             UTF8Char utf8;
             size_t n = encode_utf8(uc, &utf8);
             for (size_t j = 0; j < n; ++j)
@@ -273,17 +284,18 @@ char *xml_collapse_text(xmlNode *node)
 
 int decode_entity_ref(const char *name)
 {
+    if (!strcmp(name, "amp")) return '&';
     if (!strcmp(name, "apos")) return '\'';
     if (!strcmp(name, "gt")) return '>';
     if (!strcmp(name, "lt")) return '<';
     if (!strcmp(name, "quot")) return '"';
     if (!strcmp(name, "nbsp")) return 160;
     if (name[0] != '#') return 0;
-    if (name[1] == 'x') {
-        long v = strtol((const char*)name, NULL, 16);
-        return (int)v;
-    }
-    return atoi(name+1);
+    long v = 0;
+    if (name[1] == 'x') v = strtol(name+2, NULL, 16);
+    else v = strtol(name+1, NULL, 10);
+    if (v < 0 || v > 0x10ffff) return 0;
+    return (int)v;
 }
 
 void xml_add_root_child(xmlDoc *doc, xmlNode *node)
-- 
2.43.0


From 67836f33bdb02b15d1a5901c982935b545d004ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 31/49] fix: keep the key of an empty json array or object
 whose key is not an xml name

---
 src/main/c/parts/json.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 44f1c2e..44fca5d 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -1618,11 +1618,8 @@ void json_print_leaf_node(XMQPrintState *ps,
 
     if (name)
     {
-        if (!(name[0] == '_' && name[1] == 0))
-        {
-            json_print_element_name(ps, container, node, total, used);
-            write(writer_state, ":", NULL);
-        }
+        json_print_element_name(ps, container, node, total, used);
+        write(writer_state, ":", NULL);
     }
 
     if (xml_get_attribute(node, "A"))
-- 
2.43.0


From 0613783eecad932c32d0966889f1dc6f1e0a44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 32/49] fix: decode entities inside attributes when converting
 to json

---
 src/main/c/parts/json.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 44fca5d..e6ce054 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -1649,6 +1649,20 @@ void fixup_json(XMQDoc *doq, xmlNode *node)
 {
     if (is_element_node(node))
     {
+        // Character entities inside attribute values have to be decoded as well.
+        for (xmlAttr *a = xml_first_attribute(node); a; a = a->next)
+        {
+            char *new_value = xml_collapse_text((xmlNode*)a);
+            if (new_value)
+            {
+                xmlFreeNodeList(a->children);
+                a->children = xmlNewDocText(doq->docptr_.xml, (const xmlChar*)new_value);
+                a->children->parent = (xmlNode*)a;
+                a->last = a->children;
+                free(new_value);
+            }
+        }
+
         char *new_content = xml_collapse_text(node);
         if (new_content)
         {
-- 
2.43.0


From b7808e00919cab5fb4d8c647751076caaf12f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 33/49] fix: do not copy an empty region into a buffer that is
 not allocated

---
 src/main/c/parts/membuffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/c/parts/membuffer.c b/src/main/c/parts/membuffer.c
index 14ed440..115a823 100644
--- a/src/main/c/parts/membuffer.c
+++ b/src/main/c/parts/membuffer.c
@@ -86,6 +86,7 @@ void membuffer_append_region(MemBuffer *mb, const char *start, const char *stop)
     if (!start) return;
     if (!stop) stop = start + strlen(start);
     size_t add = stop-start;
+    if (add == 0) return;
     size_t max = pick_buffer_new_size(mb->max_, mb->used_, add);
     if (max > mb->max_)
     {
-- 
2.43.0


From 02c65907a56c8e04125bfd8bab95d91157f80017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 34/49] fix: escape a hyphen at the end of a comment when
 writing xml

---
 src/main/c/xmq.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 3278e75..55a3b31 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3171,6 +3171,7 @@ char *escape_xml_comment(const char *comment)
     for (; *i; ++i)
     {
         if (*i == '-' && ( *(i+1) == '-' ||
+                           *(i+1) == 0 ||
                            (*(const unsigned char*)(i+1) == 0xe2 &&
                             *(const unsigned char*)(i+2) == 0x90 &&
                             *(const unsigned char*)(i+3) == 0x90)))
@@ -3192,6 +3193,7 @@ char *escape_xml_comment(const char *comment)
     {
         *j++ = *i;
         if (*i == '-' && ( *(i+1) == '-' ||
+                           *(i+1) == 0 ||
                            (*(const unsigned char*)(i+1) == 0xe2 &&
                             *(const unsigned char*)(i+2) == 0x90 &&
                             *(const unsigned char*)(i+3) == 0x90)))
-- 
2.43.0


From 94b12a0247317157ade2591c641d28f6c91e9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 35/49] fix: do not read beyond the end of a color definition
 that ends with an underscore

---
 src/main/c/parts/colors.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/colors.c b/src/main/c/parts/colors.c
index 731a96e..3df84cc 100644
--- a/src/main/c/parts/colors.c
+++ b/src/main/c/parts/colors.c
@@ -110,13 +110,15 @@ bool string_to_color_def(const char *s, XMQColorDef *def)
     if (*s == '_')
     {
         if (*(s+1) == 'B') bold = true;
-        if (*(s+1) == 'U') underline = true;
+        else if (*(s+1) == 'U') underline = true;
+        else return false;
         s += 2;
     }
     if (*s == '_')
     {
         if (*(s+1) == 'B') bold = true;
-        if (*(s+1) == 'U') underline = true;
+        else if (*(s+1) == 'U') underline = true;
+        else return false;
         s += 2;
     }
     if (*s != 0) return false;
-- 
2.43.0


From a75f756b767b6c84606106558278f625bee6a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 36/49] fix: report success when an html color is generated and
 check for the buffer size it needs

---
 src/main/c/parts/colors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/colors.c b/src/main/c/parts/colors.c
index 3df84cc..d52af61 100644
--- a/src/main/c/parts/colors.c
+++ b/src/main/c/parts/colors.c
@@ -200,7 +200,7 @@ bool generate_html_color(char *buf, size_t buf_size, XMQColorDef *def, const cha
 {
     // xmqQ{color:#26a269;font-weight:600;}
 
-    if (buf_size < 64) return false;
+    if (buf_size < 128) return false;
 
     char *i = buf;
     i += snprintf(i, buf_size, "%s{color:#%02x%02x%02x", name, def->r, def->g, def->b);
@@ -222,7 +222,7 @@ bool generate_html_color(char *buf, size_t buf_size, XMQColorDef *def, const cha
 
     *i++ = '}';
     *i++ = 0;
-    return false;
+    return true;
 }
 
 bool generate_tex_color(char *buf, size_t buf_size, XMQColorDef *def, const char *name)
-- 
2.43.0


From 6b5f352c9d2d0d5b380385a6059320e4254d2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 37/49] fix: escape every special character when rendering tex

---
 src/main/c/parts/xmq_internals.c |  6 +++++-
 src/main/c/xmq.c                 | 19 +++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index d6eecc5..34df512 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -293,7 +293,11 @@ const char *needs_escape(XMQRenderFormat f, const char *start, const char *stop)
     else if (f == XMQ_RENDER_TEX)
     {
         char c = *start;
-        if (c == '\\') return "\\backslash;";
+        if (c == '\\') return "\\textbackslash{}";
+        if (c == '$') return "\\$";
+        if (c == '%') return "\\%";
+        if (c == '^') return "\\textasciicircum{}";
+        if (c == '~') return "\\textasciitilde{}";
         if (c == '&') return "\\&";
         if (c == '#') return "\\#";
         if (c == '{') return "\\{";
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 55a3b31..97235a2 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -837,12 +837,19 @@ void write_safe_tex(XMQWrite write, void *writer_state, const char *start, const
 {
     for (const char *i = start; i < stop; ++i)
     {
-        const char *amp = "\\&";
-        const char *bs = "\\\\";
-        const char *us = "\\_";
-        if (*i == '&') write(writer_state, amp, amp+2);
-        else if (*i == '\\') write(writer_state, bs, bs+2);
-        else if (*i == '_') write(writer_state, us, us+2);
+        const char *e = NULL;
+        if (*i == '&') e = "\\&";
+        else if (*i == '\\') e = "\\textbackslash{}";
+        else if (*i == '_') e = "\\_";
+        else if (*i == '#') e = "\\#";
+        else if (*i == '$') e = "\\$";
+        else if (*i == '%') e = "\\%";
+        else if (*i == '{') e = "\\{";
+        else if (*i == '}') e = "\\}";
+        else if (*i == '^') e = "\\textasciicircum{}";
+        else if (*i == '~') e = "\\textasciitilde{}";
+
+        if (e) write(writer_state, e, e+strlen(e));
         else write(writer_state, i, i+1);
     }
 }
-- 
2.43.0


From 57ed5c48a0ca2898147ca1a74697c6db1f378a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 38/49] fix: end the markup of the last line of a quote that
 holds newlines only

---
 src/main/c/parts/xmq_printer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 9ae05e4..6e57564 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1035,6 +1035,7 @@ void print_quote_lines_and_color_uwhitespace(XMQPrintState *ps,
         }
         else
         {
+            if (post) write(writer_state, post, NULL);
             ps->current_indent = 0;
             ps->last_char = 0;
             print_white_spaces(ps, ps->line_indent);
-- 
2.43.0


From 6a8a4c4e39b8ef43fe1fb87da1f6c4b975681403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 39/49] fix: a namespace selected by an xpath has no content

---
 src/main/c/xmq.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 97235a2..d66a20c 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3831,7 +3831,7 @@ const char *xmqGetName(XMQNode *node)
 const char *xmqGetContent(XMQNode *node)
 {
     xmlNodePtr p = node->node;
-    if (p && p->children)
+    if (p && p->type != XML_NAMESPACE_DECL && p->children)
     {
         return (const char*)p->children->content;
     }
@@ -3842,7 +3842,8 @@ XMQProceed catch_single_content(XMQDoc *doc, XMQNode *node, void *user_data)
 {
     const char **out = (const char **)user_data;
     xmlNodePtr n = node->node;
-    if (n && n->children)
+    // An xpath can also select a namespace declaration, which is not a node with children.
+    if (n && n->type != XML_NAMESPACE_DECL && n->children)
     {
         *out = (const char*)n->children->content;
     }
-- 
2.43.0


From 0197c6f8625277ddaa189b6c4cf3a4ca2cb597b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 40/49] fix: put the marker of an error message under the
 column of the error

---
 src/main/c/parts/xmq_internals.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index 34df512..84f3f37 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -66,14 +66,12 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
     // can position the ^ marker under the problematic character.
     // Give up on lines longer than 1024 characters.
     size_t line_length = 0;
-    size_t indent = 0;
 
     const char *line_start = statei;
     while (line_start > start && *(line_start-1) != '\n' && line_length < 1024)
     {
         line_length++;
         line_start--;
-        indent++;
     }
 
     // Now find the end of the line.
@@ -99,15 +97,23 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
         char_error = buf;
     }
 
-    char line_error[1024];
+    char line_error[2100];
     line_error[0] = 0;
     if (statei < stop)
     {
-        snprintf(line_error, 1024, "\n%.*s\n %*s",
+        // One column for each unicode character in front of the marker, a tab is kept as a tab.
+        char marker[1024+2];
+        size_t m = 0;
+        for (const char *i = line_start; i < statei; ++i)
+        {
+            if ((*i & 0xc0) != 0x80) marker[m++] = *i == '\t' ? '\t' : ' ';
+        }
+        marker[m++] = '^';
+        marker[m] = 0;
+        snprintf(line_error, sizeof(line_error), "\n%.*s\n%s",
                  (int)line_length,
                  line_start,
-                 (int)indent,
-                 "^");
+                 marker);
     }
 
     const char *e_or_w = "error";
@@ -115,9 +121,9 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
     {
         e_or_w = "warning";
     }
-    char error_msg[2048];
+    char error_msg[4096];
     memset(error_msg, 0, sizeof(error_msg));
-    snprintf(error_msg, 2048,
+    snprintf(error_msg, sizeof(error_msg),
              "%s:%zu:%zu: %s: %s%s%s%s",
              state->source_name,
              line, col,
@@ -127,7 +133,7 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
              char_error,
              line_error
         );
-    error_msg[2047] = 0;
+    error_msg[sizeof(error_msg)-1] = 0;
     membuffer_append(state->generating_error_msg, error_msg);
     membuffer_append_null(state->generating_error_msg);
 }
-- 
2.43.0


From 002b7d2a959cbe99330836cccd5b9e6b9b8e7024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 41/49] fix: count each char of a json number as a column

---
 src/main/c/parts/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index e6ce054..870bf4a 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -717,7 +717,7 @@ void eat_json_number(XMQParseState *state)
 
     const char *end = is_jnumber(i, stop);
     assert(end); // Must not call eat_json_number without check for a number before...
-    increment('?', end-start, &i, &line, &col);
+    while (i < end) increment(*i, 1, &i, &line, &col);
 
     state->i = i;
     state->line = line;
-- 
2.43.0


From 6c2f62a0348cb7fa432f6deb3947dba8084079d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 42/49] fix: report an entity that is not a character at the
 place of the entity

---
 src/main/c/xmq.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index d66a20c..f898c75 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2040,6 +2040,9 @@ xmlNodePtr create_entity(XMQParseState *state,
             {
                 // There is no such character.
                 free(tmp);
+                state->i = start;
+                state->line = l;
+                state->col = c;
                 state->error_nr = XMQ_ERROR_INVALID_CHAR;
                 longjmp(state->error_handler, 1);
             }
-- 
2.43.0


From cdc78f0a634492f50f07117764200e2d3173528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 43/49] fix: do not point in front of a json key that is just a
 bracket

---
 src/main/c/parts/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 870bf4a..0b69df0 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -247,7 +247,7 @@ void trim_index_suffix(const char *key_start, const char **stop)
 {
     const char *key_stop = *stop;
 
-    if (key_start && key_stop && key_start < key_stop && *(key_stop-1) == ']')
+    if (key_start && key_stop && key_start+1 < key_stop && *(key_stop-1) == ']')
     {
         // This is an indexed element name "path[32]":"123" ie the 32:nd xml element
         // which has been indexed because json objects must have unique keys.
-- 
2.43.0


From 19210c13425b7b267d99ff3a97c7e4024b0f4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 44/49] fix: detect html behind several comments or a newline
 behind a comment

---
 src/main/c/xmq.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index f898c75..74923e4 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1073,10 +1073,11 @@ XMQContentType xmqDetectContentType(const char *start, const char *stop)
                     return XMQ_CONTENT_XML;
                 }
 
-                if (i+3 < stop &&
-                    *(i+1) == '!' &&
-                    *(i+2) == '-' &&
-                    *(i+3) == '-')
+                while (i+3 < stop &&
+                       *(i+0) == '<' &&
+                       *(i+1) == '!' &&
+                       *(i+2) == '-' &&
+                       *(i+3) == '-')
                 {
                     // This is a comment, zip past it.
                     while (i+2 < stop &&
@@ -1086,15 +1087,20 @@ XMQContentType xmqDetectContentType(const char *start, const char *stop)
                     {
                         i++;
                     }
-                    i += 3;
                     // No closing comment, return as xml.
-                    if (i >= stop)
+                    if (i+2 >= stop)
                     {
                         debug("xmq=", "content detected as xml since comment start found");
                         return XMQ_CONTENT_XML;
                     }
-                    // Pick up after the comment.
-                    c = *i;
+                    // Pick up after the comment and any whitespace.
+                    i += 3;
+                    while (i < stop && is_xml_whitespace(*i)) i++;
+                }
+                if (i >= stop || *i != '<')
+                {
+                    debug("xmq=", "content detected as xml since only comments found");
+                    return XMQ_CONTENT_XML;
                 }
 
                 // Starts with <html or < html
-- 
2.43.0


From fae959e176b4d19fb8f448bee55f140c41751f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 45/49] fix: do not indent a continued comment by its slashes
 twice

---
 src/main/c/xmq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 74923e4..890e62b 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2126,7 +2126,7 @@ void do_comment_continuation(XMQParseState*state,
     while (i > start && *i == '/') { n++; i--; }
     // Since we know that we are invoked pointing into a buffer with /// before start, we
     // can safely do start-n.
-    size_t indent = col-1;
+    size_t indent = col-1-n;
     char *trimmed = xmq_un_comment(indent, ' ', start-n, stop);
     size_t l = strlen(trimmed);
     char *tmp = (char*)malloc(l+2);
-- 
2.43.0


From 2f4be2145bd11aafaa6c7b647bf48253fd887846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:54 +0000
Subject: [PATCH 46/49] fix: step through the args of a log line once for each
 value

---
 src/main/c/xmq.c | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 890e62b..1986d66 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4766,7 +4766,11 @@ char *buf_vsnprintf(const char *format, va_list ap)
 
     for (;;)
     {
-        size_t n = vsnprintf(buf, buf_size, format, ap);
+        // The args might be needed again, for a larger buffer.
+        va_list args;
+        va_copy(args, ap);
+        size_t n = vsnprintf(buf, buf_size, format, args);
+        va_end(args);
         if (n < buf_size) break;
         buf_size *= 2;
         free(buf);
@@ -4853,21 +4857,20 @@ char *xmq_line_vprintf_hr(XMQLineConfig *lc, const char *element_name, va_list a
         membuffer_append(mb, ":");
 
         const char *format = va_arg(ap, const char *);
-        for (;;)
-        {
-            size_t n = vsnprintf(buf, buf_size, format, ap);
+        // Find the needed buffer size first, since printing steps past the args.
+        va_list args;
+        va_copy(args, ap);
+        size_t n = vsnprintf(NULL, 0, format, args);
+        va_end(args);
 
-            if (n < buf_size)
-            {
-                // The generated output fitted in the allocated buffer.
-                break;
-            }
-
-            buf_size *= 2;
+        if (n >= buf_size)
+        {
+            buf_size = n+1;
             free(buf);
             buf = (char*)malloc(buf_size);
             memset(buf, 0, buf_size);
         }
+        vsnprintf(buf, buf_size, format, ap);
         membuffer_append(mb, buf);
     }
 
@@ -4945,21 +4948,20 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
         // The key has an = sign at the end. E.g. size=
         membuffer_append(mb, key);
         const char *format = va_arg(ap, const char *);
-        for (;;)
-        {
-            size_t n = vsnprintf(buf, buf_size, format, ap);
+        // Find the needed buffer size first, since printing steps past the args.
+        va_list args;
+        va_copy(args, ap);
+        size_t n = vsnprintf(NULL, 0, format, args);
+        va_end(args);
 
-            if (n < buf_size)
-            {
-                // The generated output fitted in the allocated buffer.
-                break;
-            }
-
-            buf_size *= 2;
+        if (n >= buf_size)
+        {
+            buf_size = n+1;
             free(buf);
             buf = (char*)malloc(buf_size);
             memset(buf, 0, buf_size);
         }
+        vsnprintf(buf, buf_size, format, ap);
 
         char *quote = xmqCompactQuote(buf);
         membuffer_append(mb, quote);
-- 
2.43.0


From 9ab2ccc39ba927fdc9b2f0aa3b38e9fa1f28966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:54 +0000
Subject: [PATCH 47/49] fix: separate the quotes of a compact quote with a
 space

---
 src/main/c/xmq.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 1986d66..d194d1d 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4718,8 +4718,11 @@ char *xmqCompactQuote(const char *content)
     os.content.write = (XMQWrite)(void*)membuffer_append_region;
     os.error.writer_state = os.output_buffer;
     os.error.write = (XMQWrite)(void*)membuffer_append_region;
+    os.indentation_space = " ";
     os.explicit_space = " ";
+    os.explicit_nl = "\n";
     os.explicit_tab = "\t";
+    os.explicit_cr = "\r";
 
     XMQPrintState ps;
     memset(&ps, 0, sizeof(ps));
-- 
2.43.0


From 66e7ac259aa5f355c5cfdfda0ef59269ff806f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 48/49] fix: do not accept a character entity with anything but
 digits in it

---
 src/main/c/xmq.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index d194d1d..d46078f 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2030,6 +2030,20 @@ xmlNodePtr create_entity(XMQParseState *state,
     if (tmp[1] == '#')
     {
         // Character entity.
+        bool hex = tmp[2] == 'x';
+        const char *digits = tmp+(hex?3:2);
+        size_t num = strspn(digits, hex?"0123456789abcdefABCDEF":"0123456789");
+        long uc = strtol(digits, NULL, hex?16:10);
+        if (digits[num] != ';' || uc <= 0 || uc > 0x10ffff || (uc >= 0xd800 && uc <= 0xdfff))
+        {
+            // There is no such character.
+            free(tmp);
+            state->i = start;
+            state->line = l;
+            state->col = c;
+            state->error_nr = XMQ_ERROR_INVALID_CHAR;
+            longjmp(state->error_handler, 1);
+        }
         if (!state->merge_text)
         {
             // Do not merge with surrounding text.
@@ -2039,19 +2053,6 @@ xmlNodePtr create_entity(XMQParseState *state,
         {
             // Make inte text that will be merged.
             UTF8Char uni;
-            long uc = 0;
-            if (tmp[2] == 'x') uc = strtol(tmp+3, NULL, 16);
-            else uc = strtol(tmp+2, NULL, 10);
-            if (uc <= 0 || uc > 0x10ffff || (uc >= 0xd800 && uc <= 0xdfff))
-            {
-                // There is no such character.
-                free(tmp);
-                state->i = start;
-                state->line = l;
-                state->col = c;
-                state->error_nr = XMQ_ERROR_INVALID_CHAR;
-                longjmp(state->error_handler, 1);
-            }
             size_t len = encode_utf8(uc, &uni);
             char buf[len+1];
             memcpy(buf, uni.bytes, len);
-- 
2.43.0


From ffc8b0a432eec5d33238d0c78c615fb575d27120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 49/49] fix: keep entities inside html scripts and styles when
 writing html

---
 src/main/c/xmq.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index d46078f..017e943 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3300,16 +3300,21 @@ void fixup_html(XMQDoc *doq, xmlNode *node, bool inside_cdata_declared)
     else if (is_entity_node(node) && inside_cdata_declared)
     {
         const char *new_content = (const char*)node->content;
-        char buf[2];
-        if (!node->content)
+        if (!new_content)
         {
-            if (node->name[0] == '#')
-            {
-                int v = atoi(((const char*)node->name)+1);
-                buf[0] = v;
-                buf[1] = 0;
-                new_content = buf;
-            }
+            int uc = decode_entity_ref((const char*)node->name);
+            // Not a known character, keep the entity as is.
+            if (uc == 0) return;
+
+            UTF8Char utf8;
+            size_t len = encode_utf8(uc, &utf8);
+            char buf[len+1];
+            memcpy(buf, utf8.bytes, len);
+            buf[len] = 0;
+            xmlNodePtr new_node = xmlNewDocText(doq->docptr_.xml, (const xmlChar*)buf);
+            xmlReplaceNode(node, new_node);
+            xmlFreeNode(node);
+            return;
         }
         xmlNodePtr new_node = xmlNewDocText(doq->docptr_.xml, (const xmlChar*)new_content);
         xmlReplaceNode(node, new_node);
-- 
2.43.0

