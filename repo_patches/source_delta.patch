From 9f9a24d501314cf8a4c22afbea2167dd165f0f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 01/23] fix: add the missing comma in the base64 decoding table

Without it byte 0x7f was taken for white space and byte 0xff decoded as 'A'.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index c93d3e2..eb07454 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -24,7 +24,7 @@ const int8_t base64_bitfield_decoding[256] = {
     -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
     15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
     -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
-    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-- 
2.43.0


From 0ea9ca5c66cf4a9fe3717231395a7e3d85cab528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 02/23] fix: classify LF, FF and CR correctly

The entries were off, so that BS counted as LF, LF as FF and VT as CR,
and FF and CR were not white space.
---
 src/charstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 8033007..748aac4 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -119,12 +119,12 @@ static const uint64_t char_class[256] = {
     CHARSTR_CONTROL,                                             /* '\005' */
     CHARSTR_CONTROL,                                             /* '\006' */
     CHARSTR_CONTROL,                                             /* '\007' */
-    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\010' */
     CHARSTR_CONTROL | CHARSTR_HT,                                /* '\t' */
+    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\013' */
     CHARSTR_CONTROL | CHARSTR_FF,                                /* '\f' */
     CHARSTR_CONTROL | CHARSTR_CR,                                /* '\r' */
-    CHARSTR_CONTROL,                                             /* '\014' */
-    CHARSTR_CONTROL,                                             /* '\015' */
     CHARSTR_CONTROL,                                             /* '\016' */
     CHARSTR_CONTROL,                                             /* '\017' */
     CHARSTR_CONTROL,                                             /* '\020' */
-- 
2.43.0


From edb82e902384c2e9129a09a5e1f19526215d56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 03/23] fix: reject overlong UTF-8 encodings

Sequences such as C0 80 or E0 80 AF are not valid UTF-8.
---
 src/charstr.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 748aac4..f462403 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -457,7 +457,7 @@ static bool valid_unicode(int codepoint)
 const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
                                           int *codepoint)
 {
-    int cp;
+    int cp, min;
     if (!s || s == end)
         return NULL;
     if (!(*s & 0x80))
@@ -465,12 +465,15 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
     else if (!(*s & 0x40))
         return NULL;
     else {
-        if (!(*s & 0x20))
+        if (!(*s & 0x20)) {
+            min = 0x80;
             cp = *s++ & 0x1f;
-        else {
-            if (!(*s & 0x10))
+        } else {
+            if (!(*s & 0x10)) {
+                min = 0x800;
                 cp = *s++ & 0x0f;
-            else {
+            } else {
+                min = 0x10000;
                 if (*s & 0x08)
                     return NULL;
                 cp = *s++ & 0x07;
@@ -485,7 +488,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (s == end || (*s & 0xc0) != 0x80)
             return NULL;
         cp = cp << 6 | *s++ & 0x3f;
-        if (!valid_unicode(cp))
+        if (cp < min || !valid_unicode(cp))
             return NULL;
     }
     if (codepoint)
-- 
2.43.0


From 2ecc93e658b3ab61d25062f3549c0afc7f59a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 04/23] fix: report overflow for a Hangul syllable that does
 not fit

A syllable whose decomposition did not fit in the output was emitted
undecomposed instead of failing with EOVERFLOW.
---
 src/charstr_decompose.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/charstr_decompose.c b/src/charstr_decompose.c
index bbd8e5b..14470f4 100644
--- a/src/charstr_decompose.c
+++ b/src/charstr_decompose.c
@@ -3,7 +3,7 @@
 #include "charstr.h"
 #include "fsdyn_version.h"
 
-static char *decompose_hangul(int codepoint, char *s, const char *end)
+static bool decompose_hangul(int codepoint, char **ps, const char *end)
 {
     enum {
         S_BASE = 0xAC00,
@@ -18,12 +18,14 @@ static char *decompose_hangul(int codepoint, char *s, const char *end)
     };
     int i = codepoint - S_BASE;
     if (i < 0 || i >= S_COUNT)
-        return NULL;
+        return false;
+    char *s = *ps;
     s = charstr_encode_utf8_codepoint(L_BASE + i / N_COUNT, s, end);
     s = charstr_encode_utf8_codepoint(V_BASE + i % N_COUNT / T_COUNT, s, end);
     if (i % T_COUNT)
         s = charstr_encode_utf8_codepoint(T_BASE + i % T_COUNT, s, end);
-    return s;
+    *ps = s;
+    return true;
 }
 
 static char *decompose_fully(int codepoint, char *s, const char *end)
@@ -31,9 +33,8 @@ static char *decompose_fully(int codepoint, char *s, const char *end)
     extern const int *_charstr_unicode_decomposition(int codepoint);
     const int *dp = _charstr_unicode_decomposition(codepoint);
     if (!dp) {
-        char *hangul_end = decompose_hangul(codepoint, s, end);
-        if (hangul_end)
-            return hangul_end;
+        if (decompose_hangul(codepoint, &s, end))
+            return s;
         return charstr_encode_utf8_codepoint(codepoint, s, end);
     }
     while (s && *dp)
-- 
2.43.0


From ab4dc9a9b0c161a6182912e782be4692c0245bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 05/23] fix: refuse an overlong ASCII label in a non-ASCII
 hostname

It escaped the length check and tripped an assertion in the caller.
---
 src/charstr_puny.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d73fee0..2c6536c 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -167,12 +167,12 @@ static const char *punycode_encode(const char *input, const char *end,
     }
     for (size_t i = 0; i < ascii_count; i++)
         o = emit(o, end_output, output_size, ascii[i]);
-    if (!nonascii_count)
-        return next;
-    if (ascii_count)
-        o = emit(o, end_output, output_size, '-');
-    o = punycode_encode_pass2(input, end, o, end_output, output_size,
-                              ascii_count, nonascii, nonascii_count);
+    if (nonascii_count) {
+        if (ascii_count)
+            o = emit(o, end_output, output_size, '-');
+        o = punycode_encode_pass2(input, end, o, end_output, output_size,
+                                  ascii_count, nonascii, nonascii_count);
+    }
     if (*output_size > MAX_DNS_LABEL_LENGTH)
         return fail("label too long");
     return next;
-- 
2.43.0


From 901e23ddd3d8cc2c7ef9bee29b3ce694e9b4624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 06/23] fix: use the whole decomposition buffer in IDNA
 encoding

The byte reserved for the terminator was left unused, so a hostname that
expands exactly threefold was refused.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 2c6536c..ccc6c0e 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -278,7 +278,7 @@ char *charstr_idna_encode(const char *hostname)
     size_t worklen = 3 * length; /* should be enough for decomposing */
     char *workarea = fsalloc(worklen + 1);
     char *workend = workarea + worklen;
-    workend = charstr_unicode_decompose(hostname, end, workarea, workend);
+    workend = charstr_unicode_decompose(hostname, end, workarea, workend + 1);
     if (!workend) {
         fsfree(workarea);
         return fail("failed to decompose");
-- 
2.43.0


From 838962b251392716a771b71619df0b94f0d83c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 07/23] fix: accept encoded hostnames of the maximum length

The size compared already includes the final dot, so a 253-character name
was refused.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index ccc6c0e..8b68b43 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -201,7 +201,7 @@ static char *encode_filtered(const char *hostname, const char *end)
             return NULL;
         assert(output_label_size <= MAX_DNS_LABEL_LENGTH);
         output_size += output_label_size + 1;
-        if (output_size > MAX_DNS_NAME_LENGTH - 1) /* -1 for the final '.' */
+        if (output_size > MAX_DNS_NAME_LENGTH) /* includes the final '.' */
             return fail("hostname encoding too long");
         q += output_label_size;
         *q++ = '.';
-- 
2.43.0


From 03d4790c81f8831ed1d48a2bcd865c38d3559361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 08/23] fix: do not limit the UTF-8 length of a hostname to the
 DNS limit

Punycode can be considerably shorter than UTF-8 (one byte for a repeated
four-byte codepoint), so valid hostnames were refused.
---
 src/charstr_puny.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 8b68b43..7ee62c0 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -7,6 +7,8 @@
 enum {
     MAX_DNS_NAME_LENGTH = 254,
     MAX_DNS_LABEL_LENGTH = 63,
+    /* every codepoint (up to four bytes) encodes into at least one byte */
+    MAX_UTF8_NAME_LENGTH = 4 * MAX_DNS_NAME_LENGTH,
     BASE = 36,
     TMIN = 1,
     TMAX = 26,
@@ -188,7 +190,7 @@ static bool is_all_ascii(const char *s)
 
 static char *encode_filtered(const char *hostname, const char *end)
 {
-    if (end - hostname > MAX_DNS_NAME_LENGTH) /* encoding won't shorten it */
+    if (end - hostname > MAX_UTF8_NAME_LENGTH)
         return fail("hostname too long");
     const char *p = hostname;
     size_t output_size = 0;
@@ -224,9 +226,9 @@ static char *safecopy(const char *src, char *dest, char *end)
 static char *encode_nfc(const char *hostname, const char *end)
 {
     const char *p = hostname;
-    char workarea[MAX_DNS_NAME_LENGTH + 1];
+    char workarea[MAX_UTF8_NAME_LENGTH + 1];
     char *q = workarea;
-    char *workend = workarea + MAX_DNS_NAME_LENGTH;
+    char *workend = workarea + MAX_UTF8_NAME_LENGTH;
     while (p != end) {
         int codepoint;
         p = charstr_decode_utf8_codepoint(p, end, &codepoint);
-- 
2.43.0


From c6fc26c3e7b66b12e6c8d2f19c8e71dd295fe857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 09/23] fix: normalize the hostname after applying the IDNA
 mappings

UTS #46 maps before normalizing; mapping last left e.g. a fullwidth A
followed by a combining acute uncomposed and yielded a wrong name.
---
 src/charstr_puny.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 7ee62c0..a64de1b 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -249,6 +249,19 @@ static char *encode_nfc(const char *hostname, const char *end)
     }
     /* TODO: https://unicode.org/reports/tr46/#Processing
      * CheckBidi & CheckJoiners */
+    if (charstr_unicode_canonically_composed(workarea, q))
+        return encode_filtered(workarea, q);
+    /* The mapping may have brought combining codepoints together. */
+    char decomposed[3 * MAX_UTF8_NAME_LENGTH + 1];
+    char *decomposed_end =
+        charstr_unicode_decompose(workarea, q, decomposed,
+                                  decomposed + sizeof decomposed);
+    if (!decomposed_end)
+        return fail("failed to decompose mapping");
+    q = charstr_unicode_recompose(decomposed, decomposed_end, workarea,
+                                  workarea + sizeof workarea);
+    if (!q)
+        return fail("failed to recompose mapping");
     return encode_filtered(workarea, q);
 }
 
-- 
2.43.0


From 6e86b98610b6f5dd7f7cfbed84e44a65e3dc33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 10/23] fix: make avl_tree_put() with an unchanged value a
 no-op

As documented, NULL is returned if the value is already stored at the
key.
---
 src/avltree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avltree.c b/src/avltree.c
index c2c4489..fc8af3d 100644
--- a/src/avltree.c
+++ b/src/avltree.c
@@ -316,8 +316,10 @@ static int put(avl_tree_t *tree, avl_elem_t **ploc, avl_elem_t *element,
         return put_left(tree, ploc, element, premoved_element);
     if (cmp > 0)
         return put_right(tree, ploc, element, premoved_element);
-    if (loc == element)
+    if (loc->value == element->value) {
+        destroy_avl_element(element);
         return 0;
+    }
     element->parent = loc->parent;
     element->left = loc->left;
     element->right = loc->right;
-- 
2.43.0


From 1d2a413141238b3a47e0b000cad941977424f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 11/23] fix: detect multiplication overflow in fscalloc()

An overflowing product used to yield a block smaller than requested.
---
 src/fsalloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fsalloc.c b/src/fsalloc.c
index 76bd6bf..50df740 100644
--- a/src/fsalloc.c
+++ b/src/fsalloc.c
@@ -1,3 +1,4 @@
+#include <stdint.h>
 #include <string.h>
 #include "fsalloc.h"
 #include "fsdyn_version.h"
@@ -69,7 +70,9 @@ void *fsrealloc(void *ptr, size_t size)
 
 void *fscalloc(size_t nmemb, size_t size)
 {
-    size *= nmemb;
+    if (size && nmemb > SIZE_MAX / size)
+        size = SIZE_MAX;        /* let the reallocator refuse */
+    else size *= nmemb;
     void *obj = fsalloc(size);
     if (obj != NULL)
         memset(obj, 0, size);
-- 
2.43.0


From 0c0bac09203515a197ab738940222f2324473019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 12/23] fix: categorize unassigned codepoints before
 single-codepoint ranges as Cn

A range of one codepoint also claimed the unassigned gap before it, e.g.
U+0378 was reported as Lm.
---
 src/categorize.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/categorize.py b/src/categorize.py
index dd3e684..017377a 100755
--- a/src/categorize.py
+++ b/src/categorize.py
@@ -53,14 +53,8 @@ def emit_binary(ranges, indentation):
     I = indentation * "    "
     if length < 5:
         for start, end, category in ranges:
-            if end == start + 1:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
-%s    return UNICODE_CATEGORY_%s;
-""" % (I, end, I, category))
-            else:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
+            sys.stdout.write(
+                r"""%sif (codepoint < %d)
 %s    return codepoint >= %d ? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 """ % (I, end, I, start, category))
         return
@@ -70,15 +64,9 @@ def emit_binary(ranges, indentation):
         r"""%sif (codepoint < %d) {
 """ % (I, end))
     emit_binary(ranges[0:middle], indentation + 1)
-    if end == start + 1:
-        sys.stdout.write(
-            r"""%s    return UNICODE_CATEGORY_%s;
-%s}
-""" % (I, category, I))
-    else:
-        sys.stdout.write(
-                    r"""%s    return codepoint >= %d """
-                    r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
+    sys.stdout.write(
+        r"""%s    return codepoint >= %d """
+        r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 %s}
 """ % (I, start, category, I))
     emit_binary(ranges[middle + 1:], indentation)
-- 
2.43.0


From 65be8723779f1901918cb42c7f8601f23af5f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 13/23] fix: include the last mapped and the last valid
 codepoint in the IDNA sets

U+2FA1D and U+3134A had no status.
---
 src/gen_idna_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 8793f92..0b6a36e 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -43,12 +43,12 @@ static void generate_set(const char *status)
     for (int cp = 0; cp < N_CP; cp++)
         if (!strcmp(table[cp].status, status))
             max_on = cp;
-    int set_size = (max_on + 63) / 64;
+    int set_size = max_on / 64 + 1;
     printf("\n"
            "static const uint64_t set_%s[%d] = {",
            status, set_size);
     uint64_t *set = fscalloc(set_size, sizeof set[0]);
-    for (int cp = 0; cp < max_on; cp++)
+    for (int cp = 0; cp <= max_on; cp++)
         if (!strcmp(table[cp].status, status))
             set[cp / 64] |= (uint64_t) 1 << cp % 64;
     for (int i = 0; i < set_size - 1; i++) {
-- 
2.43.0


From 151ceb5eef0fbbfcab428d418aac1b25babe382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 14/23] fix: emit the IDNA status range that extends to the
 last codepoint

U+E01F0..U+10FFFF were not reported as disallowed.
---
 src/gen_idna_table.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 0b6a36e..2327abe 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -33,6 +33,9 @@ static void generate_test(const char *status)
         } else if (prev_cp < 0)
             prev_cp = cp;
     }
+    if (prev_cp >= 0)
+        printf("    if (codepoint < %d) return codepoint >= %d;\n",
+               N_CP, prev_cp);
     printf("    return false;\n"
            "}\n");
 }
-- 
2.43.0


From 8ad989e202cbe9010232003cb679794fb0c0a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 15/23] fix: convert negative and very distant epochs correctly

Times before 1970 gave negative fields, and the number of days was
truncated to an int.
---
 src/date.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/date.c b/src/date.c
index 633b10b..fca7239 100644
--- a/src/date.c
+++ b/src/date.c
@@ -20,18 +20,27 @@ struct tm *epoch_to_utc(time_t epoch, struct tm *tm)
         _4_YEARS = 4 * YEAR + 1,
         FEBRUARY = 1            /* sic */
     };
+    time_t days = epoch / SECONDS_PER_DAY;
     tm->tm_sec = epoch % SECONDS_PER_DAY;
+    if (tm->tm_sec < 0) {
+        tm->tm_sec += SECONDS_PER_DAY;
+        days--;
+    }
     tm->tm_min = tm->tm_sec / 60;
     tm->tm_sec %= 60;
     tm->tm_hour = tm->tm_min / 60;
     tm->tm_min %= 60;
     tm->tm_yday = -1;           /* not supported */
     tm->tm_isdst = 0;
-    int days = epoch / SECONDS_PER_DAY;
-    tm->tm_wday = (days + 4) % 7;
+    tm->tm_wday = (days % 7 + 7 + 4) % 7;
     days += FROM_1600_03_01;
-    tm->tm_year = 1600 + days / _400_YEARS * 400 - 1900;
+    time_t cycles = days / _400_YEARS;
     days %= _400_YEARS;
+    if (days < 0) {
+        days += _400_YEARS;
+        cycles--;
+    }
+    tm->tm_year = 1600 + cycles * 400 - 1900;
     int centuries = days / CENTURY;
     tm->tm_year += centuries * 100;
     if (centuries == 4) {
-- 
2.43.0


From bac113109525affc06a3783d85f5d3bbd5f946ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 16/23] fix: keep the byte array NUL-terminated after a failed
 stream read

The callback may have used the buffer before reporting an error or end of
stream.
---
 src/bytearray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 8e2e34c..20bd6e8 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -127,10 +127,9 @@ ssize_t byte_array_append_stream(byte_array_t *array,
         return -1;
 
     ssize_t count = read_cb(obj, array->data + array->cursor, len);
-    if (count > 0) {
+    if (count > 0)
         array->cursor += count;
-        array->data[array->cursor] = 0;
-    }
+    array->data[array->cursor] = 0;
     return count;
 }
 
-- 
2.43.0


From c12cc55db653992c273c9d10a503cbf1eee39ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 17/23] fix: make room for the NUL byte of a byte array with
 zero maximum size

---
 src/bytearray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 20bd6e8..48a5cce 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -21,7 +21,7 @@ byte_array_t *make_byte_array(size_t max_size)
     array->size = 128;
     if (array->size > max_size)
         array->size = max_size;
-    array->data = fsalloc(array->size);
+    array->data = fsalloc(array->size ? array->size : 1);
     array->data[0] = 0;
     array->ref_count = 1;
     return array;
-- 
2.43.0


From 4a6e3e76c5f5df2420f89c73685dc60139c92ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 18/23] fix: ignore whitespace also between base64 padding
 characters

---
 src/base64.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index eb07454..0a527a2 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -162,11 +162,17 @@ static bool good_base64_tail(const char *tail, size_t tail_size,
         default:
             assert(false);
     }
-    size_t padding_len = strlen(padding);
-    return tail_size >= padding_len &&
-        !strncmp(tail, padding, padding_len) &&
-        good_termination(tail + padding_len, tail_size - padding_len,
-                         ignore_wsp);
+    for (; *padding; padding++, tail++, tail_size--) {
+        while (ignore_wsp && tail_size &&
+               base64_bitfield_decoding[*tail & 0xff] ==
+               BASE64_ILLEGAL_WHITESPACE) {
+            tail++;
+            tail_size--;
+        }
+        if (!tail_size || *tail != *padding)
+            return false;
+    }
+    return good_termination(tail, tail_size, ignore_wsp);
 }
 
 static int8_t get_bits(char c, char pos62, char pos63, bool ignore_wsp)
-- 
2.43.0


From 685f39c47ee044e005cf9a569d846924acffc60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 19/23] fix: list the unencoded URL characters correctly in the
 documentation

Closing brackets are encoded; closing braces and double quotes are not.
---
 include/charstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/charstr.h b/include/charstr.h
index 9b37a76..0ba8865 100644
--- a/include/charstr.h
+++ b/include/charstr.h
@@ -254,7 +254,7 @@ char *charstr_unicode_recompose(const char *s, const char *end,
  *  * ASCII 32 (SPC) yields "+"
  *  * digits and letters yield themselves as a one-character string
  *  * these punctuation characters yield themselves as a one-character string:
- *    '-', '.', '/', '<', '>', '\\', '^', '_', '`', '{', '|', ']', '~'
+ *    '"', '-', '.', '/', '<', '>', '\\', '^', '_', '`', '{', '|', '}', '~'
  *  * all other values yield the byte's percent encoding: "%XX" where X
  *    is an upper-case hexadecimal digit.
  */
-- 
2.43.0


From bd306bbcfa701ac2de954a29b8851f8234095479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:29 +0000
Subject: [PATCH 20/23] fix: apply the IDNA mappings before normalizing the
 hostname

---
 src/charstr_puny.c | 87 ++++++++++++++++++++--------------------------
 1 file changed, 37 insertions(+), 50 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index a64de1b..b2360dd 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -223,48 +223,6 @@ static char *safecopy(const char *src, char *dest, char *end)
     return dest + size;
 }
 
-static char *encode_nfc(const char *hostname, const char *end)
-{
-    const char *p = hostname;
-    char workarea[MAX_UTF8_NAME_LENGTH + 1];
-    char *q = workarea;
-    char *workend = workarea + MAX_UTF8_NAME_LENGTH;
-    while (p != end) {
-        int codepoint;
-        p = charstr_decode_utf8_codepoint(p, end, &codepoint);
-        if (!p)
-            return fail("bad UTF-8 in NFC");
-        if (charstr_idna_status_is_valid(codepoint) ||
-            charstr_idna_status_is_deviation(codepoint))
-            q = charstr_encode_utf8_codepoint(codepoint, q, workend);
-        else if (charstr_idna_status_is_ignored(codepoint))
-            ;
-        else if (charstr_idna_status_is_mapped(codepoint))
-            q = safecopy(charstr_idna_mapping(codepoint), q, workend);
-        else
-            /* UseSTD3ASCIIRules == true */
-            return fail("disallowed codepoint");
-        if (!q)
-            return fail("buffer overflow");
-    }
-    /* TODO: https://unicode.org/reports/tr46/#Processing
-     * CheckBidi & CheckJoiners */
-    if (charstr_unicode_canonically_composed(workarea, q))
-        return encode_filtered(workarea, q);
-    /* The mapping may have brought combining codepoints together. */
-    char decomposed[3 * MAX_UTF8_NAME_LENGTH + 1];
-    char *decomposed_end =
-        charstr_unicode_decompose(workarea, q, decomposed,
-                                  decomposed + sizeof decomposed);
-    if (!decomposed_end)
-        return fail("failed to decompose mapping");
-    q = charstr_unicode_recompose(decomposed, decomposed_end, workarea,
-                                  workarea + sizeof workarea);
-    if (!q)
-        return fail("failed to recompose mapping");
-    return encode_filtered(workarea, q);
-}
-
 static char *encode_nfd(const char *hostname, const char *end)
 {
     size_t worklen = end - hostname; /* recomposing won't grow it */
@@ -275,22 +233,20 @@ static char *encode_nfd(const char *hostname, const char *end)
         fsfree(workarea);
         return fail("failed to recompose");
     }
-    char *encoding = encode_nfc(workarea, workend);
+    /* TODO: https://unicode.org/reports/tr46/#Processing
+     * CheckBidi & CheckJoiners */
+    char *encoding = encode_filtered(workarea, workend);
     fsfree(workarea);
     return encoding;
 }
 
-char *charstr_idna_encode(const char *hostname)
+static char *encode_mapped(const char *hostname, const char *end)
 {
-    if (is_all_ascii(hostname))
-        return charstr_lcase_str(charstr_dupstr(hostname));
-    size_t length = strlen(hostname);
-    const char *end = hostname + length;
     if (charstr_unicode_canonically_composed(hostname, end))
-        return encode_nfc(hostname, end);
+        return encode_filtered(hostname, end);
     if (charstr_unicode_canonically_decomposed(hostname, end))
         return encode_nfd(hostname, end);
-    size_t worklen = 3 * length; /* should be enough for decomposing */
+    size_t worklen = 3 * (end - hostname); /* should be enough for decomposing */
     char *workarea = fsalloc(worklen + 1);
     char *workend = workarea + worklen;
     workend = charstr_unicode_decompose(hostname, end, workarea, workend + 1);
@@ -303,6 +259,37 @@ char *charstr_idna_encode(const char *hostname)
     return encoding;
 }
 
+char *charstr_idna_encode(const char *hostname)
+{
+    if (is_all_ascii(hostname))
+        return charstr_lcase_str(charstr_dupstr(hostname));
+    const char *p = hostname;
+    const char *end = hostname + strlen(hostname);
+    /* normalizing may shorten the name to a third */
+    char workarea[3 * MAX_UTF8_NAME_LENGTH + 1];
+    char *q = workarea;
+    char *workend = workarea + sizeof workarea - 1;
+    while (p != end) {
+        int codepoint;
+        p = charstr_decode_utf8_codepoint(p, end, &codepoint);
+        if (!p)
+            return fail("bad UTF-8");
+        if (charstr_idna_status_is_valid(codepoint) ||
+            charstr_idna_status_is_deviation(codepoint))
+            q = charstr_encode_utf8_codepoint(codepoint, q, workend);
+        else if (charstr_idna_status_is_ignored(codepoint))
+            ;
+        else if (charstr_idna_status_is_mapped(codepoint))
+            q = safecopy(charstr_idna_mapping(codepoint), q, workend);
+        else
+            /* UseSTD3ASCIIRules == true */
+            return fail("disallowed codepoint");
+        if (!q)
+            return fail("buffer overflow");
+    }
+    return encode_mapped(workarea, q);
+}
+
 const char *charstr_idna_status(int codepoint)
 {
     if (charstr_idna_status_is_valid(codepoint))
-- 
2.43.0


From 5b2566fb0f81ede04c618cfde8f643316c36296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:41 +0000
Subject: [PATCH 21/23] fix: check every label of an IDNA hostname for
 emptiness and a final hyphen

---
 src/charstr_puny.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index b2360dd..5a4064d 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -56,12 +56,10 @@ static const char *punycode_encode_pass1(const char *p, const char *end,
                                          int nonascii[],
                                          size_t *nonascii_count)
 {
-    if (p == end)
+    if (p == end || *p == '.')
         return fail("label is empty");
     if (p[0] == '-')
         return fail("label begins with hyphen");
-    if (end[-1] == '-')
-        return fail("label ends with hyphen");
     bool first = true;
     size_t n, h = 0;
     *nonascii_count = 0;
@@ -81,6 +79,8 @@ static const char *punycode_encode_pass1(const char *p, const char *end,
         else record_nonascii(codepoint, nonascii, nonascii_count);
         first = false;
     }
+    if (p[-1] == '-')
+        return fail("label ends with hyphen");
     *pc_count = n;
     *ascii_count = h;
     return p;
-- 
2.43.0


From 75436f309d8eb4d510a954c1e221697b6215eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:41 +0000
Subject: [PATCH 22/23] fix: refuse IDNA labels beginning with any kind of
 combining mark

---
 src/charstr_puny.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 5a4064d..e8f0826 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -50,6 +50,18 @@ static char *fail(const char *reason)
     return NULL;
 }
 
+static bool is_combining_mark(int codepoint)
+{
+    switch (charstr_unicode_category(codepoint)) {
+        case UNICODE_CATEGORY_Mc:
+        case UNICODE_CATEGORY_Me:
+        case UNICODE_CATEGORY_Mn:
+            return true;
+        default:
+            return false;
+    }
+}
+
 static const char *punycode_encode_pass1(const char *p, const char *end,
                                          size_t *pc_count,
                                          char ascii[], size_t *ascii_count,
@@ -73,8 +85,7 @@ static const char *punycode_encode_pass1(const char *p, const char *end,
                 !(charstr_char_class(codepoint) & CHARSTR_ALNUM))
                 return fail("disallowed ASCII");
             ascii[h++] = charstr_lcase_char(codepoint);
-        } else if (first &&
-                   charstr_unicode_category(codepoint) == UNICODE_CATEGORY_Mc)
+        } else if (first && is_combining_mark(codepoint))
             return fail("label begins with composing mark");
         else record_nonascii(codepoint, nonascii, nonascii_count);
         first = false;
-- 
2.43.0


From a0df87974a4b85816a5e5ed14eed9d2c585c9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:50 +0000
Subject: [PATCH 23/23] fix: keep the IDNA status tests of negative codepoints
 inside their tables

---
 src/gen_idna_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 2327abe..012dc0a 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -65,7 +65,7 @@ static void generate_set(const char *status)
            "\n"
            "bool charstr_idna_status_is_%s(int codepoint)\n"
            "{\n"
-           "    if (codepoint > %d)\n"
+           "    if (codepoint < 0 || codepoint > %d)\n"
            "         return false;\n"
            "    return (set_%s[codepoint / 64] &"
                 " (uint64_t) 1 << codepoint %% 64) != 0;\n"
-- 
2.43.0

