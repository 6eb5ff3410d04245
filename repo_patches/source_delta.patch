From f432ccb24d47192c23bf45ca8a5a90d5fd39e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 01/82] fix: cbuf with zero initial size had no room for the
 terminator and never grew

---
 cligen_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 4a1f0cd..d686483 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -122,7 +122,7 @@ cbuf_new_alloc(size_t sz)
     if ((cb = (cbuf*)malloc(sizeof(*cb))) == NULL)
         return NULL;
     memset(cb, 0, sizeof(*cb));
-    cb->cb_buflen = sz;
+    cb->cb_buflen = sz>0 ? sz : 1; /* room for terminating null, and growth by doubling */
     if ((cb->cb_buffer = malloc(cb->cb_buflen)) == NULL){
         free(cb);
         return NULL;
-- 
2.43.0


From 5fd175a875c639558e4f6c5218d1b25567cde90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 02/82] fix: cvec_del_i and cvec_i accepted an index outside
 the vector

---
 cligen_cvec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 9ade831..e6217ad 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -318,7 +318,7 @@ int
 cvec_del_i(cvec *cvv,
            int   i)
 {
-    if (cvec_len(cvv) == 0 || cvec_len(cvv) < i){
+    if (i < 0 || cvec_len(cvv) <= i){
         errno = EINVAL;
         return -1;
     }
@@ -355,7 +355,7 @@ cvec_i(cvec *cvv,
         if (!cvv) {
                 return NULL;
         }
-    if (i < cvv->vr_len)
+    if (i >= 0 && i < cvv->vr_len)
         return &cvv->vr_vec[i];
     return NULL;
 }
-- 
2.43.0


From 13d041e7b1e7ae229776bf65c89fc67b011e27fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 03/82] fix: cligen_escape_do wrote past its buffer for strings
 that need no escaping

---
 cligen_expand.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_expand.c b/cligen_expand.c
index 298f32a..8f7ee95 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -481,6 +481,8 @@ cligen_escape_do(const char *s0)
     }
     len = strlen(s0);
     nr = cligen_escape_nr(s0);
+    if (nr == 0)
+        nr = 2; /* quotes are added even if no character needs escaping */
     if ((s1 = (char*)malloc(len + 1 + nr)) == NULL){
         return NULL;
     }
-- 
2.43.0


From 56569fbe3aae32fed602cff41b4a6cd5073bdfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 04/82] fix: trimming a command line changed quoted and escaped
 words

---
 cligen_read.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index b139cb5..643124d 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -573,8 +573,12 @@ cli_trim(char **line,
 {
     size_t  point;
     int     whitespace = 0;
+    int     start = 1;  /* at start of a word */
+    int     quote = 0;  /* inside double quotes */
+    int     escape = 0; /* previous character is an unquoted backslash */
     char   *s = *line;
     char   *s1 = s;
+    char   *keep = s;   /* end of last escaped character */
     char    ch;
     size_t  len;
 
@@ -584,6 +588,19 @@ cli_trim(char **line,
     len = strlen(s);
     for (point = 0; point <= len ; point++) {
         ch = s[point];
+        if (quote || escape) { /* Quoted or escaped: keep as is */
+            start = quote && ch == '"';
+            quote = quote && ch != '"';
+            *s1++ = ch;
+            if (escape && isblank(ch))
+                keep = s1;
+            escape = 0;
+            whitespace = 0;
+            continue;
+        }
+        quote = start && ch == '"';
+        escape = ch == '\\';
+        start = isblank(ch);
         if (comment && ch == comment && (whitespace || point == 0 )){
             *s1++ = '\n';
             *s1++ = '\0';
@@ -606,7 +623,7 @@ cli_trim(char **line,
     while ((strlen(s) > 0) && isblank(*s))
         s++;
     /* strip trailing whites and newlines */
-    while ((strlen(s) > 0) && (isblank(*(s+strlen(s)-1)) || *(s+strlen(s)-1) == '\n'))
+    while ((s+strlen(s) > keep) && (strlen(s) > 0) && (isblank(*(s+strlen(s)-1)) || *(s+strlen(s)-1) == '\n'))
         *(s + strlen(s) - 1) = '\0';
     *line = s;
 }
-- 
2.43.0


From 7145bdea959751eb26509ca795f36a67077594b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 05/82] fix: cv_cmp truncated differences of wide numbers and
 did not order times

---
 cligen_cv.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8089e23..e8b9500 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3480,6 +3480,9 @@ cv_validate(cligen_handle h,
     return retval;
 }
 
+/* Compare numbers without the truncation and overflow of a subtraction */
+#define CV_NUMCMP(a, b) (((a) > (b)) - ((a) < (b)))
+
 /*! Compare two CLIgen variables as strcmp(3)
  *
  * @param[in]  cv1   CLIgen variable #1
@@ -3508,20 +3511,20 @@ cv_cmp(cg_var *cv1,
     case CGV_INT16:
         return (cv1->var_int16 - cv2->var_int16);
     case CGV_INT32:
-        return (cv1->var_int32 - cv2->var_int32);
+        return CV_NUMCMP(cv1->var_int32, cv2->var_int32);
     case CGV_INT64:
-        return (cv1->var_int64 - cv2->var_int64);
+        return CV_NUMCMP(cv1->var_int64, cv2->var_int64);
     case CGV_UINT8:
         return (cv1->var_uint8 - cv2->var_uint8);
     case CGV_UINT16:
         return (cv1->var_uint16 - cv2->var_uint16);
     case CGV_UINT32:
-        return (cv1->var_uint32 - cv2->var_uint32);
+        return CV_NUMCMP(cv1->var_uint32, cv2->var_uint32);
     case CGV_UINT64:
-        return (cv1->var_uint64 - cv2->var_uint64);
+        return CV_NUMCMP(cv1->var_uint64, cv2->var_uint64);
     case CGV_DEC64:
         /* XXX assume dec64_n are equal */
-        return (cv_dec64_i_get(cv1) - cv_dec64_i_get(cv2));
+        return CV_NUMCMP(cv_dec64_i_get(cv1), cv_dec64_i_get(cv2));
     case CGV_BOOL:
         return (cv1->var_bool - cv2->var_bool);
     case CGV_REST:
@@ -3560,9 +3563,11 @@ cv_cmp(cg_var *cv1,
     case CGV_UUID:
         return memcmp(cv1->var_uuid, cv2->var_uuid, 16);
     case CGV_TIME:
-        return memcmp(&cv1->var_time, &cv2->var_time, sizeof(struct timeval));
+        if ((n = CV_NUMCMP(cv1->var_time.tv_sec, cv2->var_time.tv_sec)))
+            return n;
+        return CV_NUMCMP(cv1->var_time.tv_usec, cv2->var_time.tv_usec);
     case CGV_VOID: /* compare pointers */
-        return (cv1->var_void == cv2->var_void);
+        return CV_NUMCMP((uintptr_t)cv1->var_void, (uintptr_t)cv2->var_void);
     case CGV_EMPTY: /* Always equal */
         return 0;
     }
-- 
2.43.0


From 5160f7cf1710e2f4c13b4c22e5aa5a96b445a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 06/82] fix: printing the smallest decimal64 negated it with
 signed overflow

---
 cligen_cv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index e8b9500..ebc78de 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2281,14 +2281,14 @@ cv_dec64_print(cg_var *cv,
     int      i;
     uint8_t  n = cv->var_dec64_n;;
     int      len;
-    int64_t di;
+    uint64_t di;
 
     assert(0<n && n<19);
     /* Convert negative numbers to positive and prepend a '-' at the end */
     di = cv_dec64_i_get(cv);
-    if (di<0)
-        di = -di;
-    len = snprintf(s0, *s0len, "%0*" PRId64, n+1, di);
+    if (cv_dec64_i_get(cv)<0)
+        di = -di; /* unsigned: INT64_MIN has no positive counterpart */
+    len = snprintf(s0, *s0len, "%0*" PRIu64, n+1, di);
     assert(len>=n);
     *s0len -= len;
     /* Shift fraction digits right, including null character.
-- 
2.43.0


From 78204eac117b585dd591fa8ee4d932f78f901f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 07/82] fix: parse_dec64 accepted text without digits or with a
 sign after the point

---
 cligen_cv.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index ebc78de..ae8bbd0 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1349,6 +1349,16 @@ parse_dec64(char    *str,
     }
     s2 = s0;
     s1 = strsep(&s2, ".");
+    if (strpbrk(str, "0123456789") == NULL ||
+        (s2 != NULL && strspn(s2, "0123456789") != strlen(s2))){
+        if (reason != NULL)
+            if ((*reason = cligen_reason("'%s' is not a number", str)) == NULL){
+                retval = -1; /* malloc */
+                goto done;
+            }
+        retval = 0;
+        goto done;
+    }
     len1 = strlen(s1);
     if ((ss = malloc(strlen(str)+n+2)) == NULL){
         retval = -1; /* malloc */
-- 
2.43.0


From a23cd5d83af240d32d58d4b7c5d92ffa3caae17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 08/82] fix: cv_flag_clr set a flag that was not set

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index ae8bbd0..e301843 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -201,7 +201,7 @@ cv_flag_clr(cg_var *cv,
 {
     if (cv == NULL)
         return 0;
-    return cv->var_flag ^= mask;
+    return cv->var_flag &= ~mask;
 }
 
 /*! Set application-specific cv flag
-- 
2.43.0


From 98e7dca009fbcd06e930a793c236faa9a1a5ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 09/82] fix: str2time accepted days that the month does not
 have

---
 cligen_cv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index e301843..6c7fd35 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1869,6 +1869,7 @@ str2time(const char     *in,
     struct tm *tm = NULL;
     time_t     t;
     char       frac[7];
+    const int  mdays[12] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
     if ((year = cligen_tonum(4, &in[i])) < 0)
         goto done;
@@ -1886,8 +1887,11 @@ str2time(const char     *in,
         goto done;
     if ((day = cligen_tonum(2, &in[i])) < 0)
         goto done;
-    if (day < 1 || day > 31)
+    if (day < 1 || day > mdays[month-1])
         goto done;
+    if (month == 2 && day == 29 &&
+        (year % 4 != 0 || (year % 100 == 0 && year % 400 != 0)))
+        goto done; /* not a leap year */
     i += 2;
     if (in[i] != 'T' && in[i] != ' ')
         goto done;
-- 
2.43.0


From 5b1af0e44b9be3e03af1a6d9c61db59db1469d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 10/82] fix: cv_parse leaked the reason of rejected text

---
 cligen_cv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 6c7fd35..48c807c 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3152,6 +3152,7 @@ cv_parse(const char *str,
     }
     if (retval == 0){
         fprintf(stderr, "cv parse error: %s\n", reason);
+        free(reason);
         return -1;
     }
     return 0;
-- 
2.43.0


From de7d9517e4e643316e5367f20946c5c76c334194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 11/82] fix: cv_print used the ipv4 mask for ipv6 prefixes and
 sign-extended mac octets

---
 cligen_cv.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 48c807c..dd462d6 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2684,16 +2684,16 @@ cv_print(FILE   *f,
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        fprintf(f, "%s/%d", straddr, cv->var_ipv4masklen);
+        fprintf(f, "%s/%d", straddr, cv->var_ipv6masklen);
         break;
     case CGV_MACADDR:
         fprintf(f, "%02x:%02x:%02x:%02x:%02x:%02x",
-                cv->var_macaddr[0],
-                cv->var_macaddr[1],
-                cv->var_macaddr[2],
-                cv->var_macaddr[3],
-                cv->var_macaddr[4],
-                cv->var_macaddr[5]);
+                cv->var_macaddr[0] & 0xff,
+                cv->var_macaddr[1] & 0xff,
+                cv->var_macaddr[2] & 0xff,
+                cv->var_macaddr[3] & 0xff,
+                cv->var_macaddr[4] & 0xff,
+                cv->var_macaddr[5] & 0xff);
 
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
-- 
2.43.0


From 880f08b3837db3860a68eb00c83094cd72941743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 12/82] fix: an empty quoted word for a typed variable was a
 fatal error instead of no match

---
 cligen_match.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index a41fcf3..80db079 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -155,7 +155,6 @@ match_object(cligen_handle h,
 {
   int          match = 0;
   size_t       len = 0;
-  enum cv_type t;
 
   if (str)
       len = strlen(str);
@@ -191,18 +190,11 @@ match_object(cligen_handle h,
       }
     break;
   case CO_VARIABLE:
-      t = co->co_vtype;
-      if (str == NULL || len==0){
-          if (best && cv_isint(t)){
-              if ((match = match_variable(h, co, str, reason)) < 0)
-                  return -1;
-          }
-          else
-              match++;
-      }
-      else
-          if ((match = match_variable(h, co, str, reason)) < 0)
-              return -1;
+      /* An empty word is only a wildcard when listing alternatives */
+      if (!best && (str == NULL || len==0))
+          match++;
+      else if ((match = match_variable(h, co, str, reason)) < 0)
+          return -1;
     break;
   case CO_REFERENCE: /* This should never match, it is an abstract object that is expanded */
       if (reason){
-- 
2.43.0


From 574b06bc86ceef8465631b3c1ad39ee640fc1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 13/82] fix: sorting an empty parse-tree passed a null pointer
 to qsort

---
 cligen_parsetree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index f614586..f55ad38 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -520,7 +520,8 @@ cligen_parsetree_sort(parse_tree *pt,
     int         i;
     parse_tree *pt1;
 
-    qsort(pt->pt_vec, pt_len_get(pt), sizeof(cg_obj*), co_cmp);
+    if (pt_len_get(pt) > 1)
+        qsort(pt->pt_vec, pt_len_get(pt), sizeof(cg_obj*), co_cmp);
     for (i=0; i<pt_len_get(pt); i++){
         if ((co = pt_vec_i_get(pt, i)) == NULL)
             continue;
-- 
2.43.0


From 9e791eca2aa442b646e8fd5c534933bf4ece6d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 14/82] fix: a variable and a command of the same name were
 merged, and siblings had no consistent order

---
 cligen_object.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 552c2ee..134ff43 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -902,9 +902,7 @@ co_eq(cg_obj *co1,
 
     /* eq == 0 means equal */
     eq = !(co1->co_type == co2->co_type);
-    if (eq){ /* Unequal type of command, variable and reference.
-                but need to check special case,
-                if the variable is a KEYWORD, then it can be eq to a command. */
+    if (eq){ /* Unequal type of command, variable and reference. */
         /* Let References be last (more than) everything else */
         if (co1->co_type == CO_REFERENCE){
             eq = 1;
@@ -923,8 +921,9 @@ co_eq(cg_obj *co1,
             eq = 1;
             goto done;
         }
-        /* Here one is command and one is variable */
-        eq = strcmp(co1->co_command, co2->co_command);
+        /* Here one is command and one is variable: they are never equal, and comparing
+         * their names would not give a total order together with the rules below */
+        eq = co1->co_type == CO_COMMAND ? -1 : 1;
         goto done;
     }
     switch (co1->co_type){
-- 
2.43.0


From 8f49e0426adfd1ebc08c1a3f0118f27d05b3db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 15/82] fix: decimal64 variables differing in range or
 fraction-digits were merged

---
 cligen_object.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 134ff43..5bb0af9 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -973,8 +973,12 @@ co_eq(cg_obj *co1,
             if (eq)
                 goto done;
         }
-        /* Examine int and range */
-        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype)) {
+        if (co1->co_vtype == CGV_DEC64 &&
+            (eq = co1->co_dec64_n - co2->co_dec64_n) != 0)
+            goto done;
+        /* Examine number and range */
+        if (cv_isint(co1->co_vtype) || co1->co_vtype == CGV_DEC64 ||
+            cv_isstring(co1->co_vtype)) {
             int i;
             cg_var *cv1, *cv2;
             if ((eq = co1->co_rangelen - co2->co_rangelen) != 0)
-- 
2.43.0


From 9ce7d0fac60c974c8871144fee975ff365627b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 16/82] fix: using a handle without an active parse-tree
 dereferenced a null pointer

---
 cligen_pt_head.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 8332552..4fc94ea 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -389,6 +389,8 @@ cligen_ph_i(cligen_handle h,
 /*! Get currently active parsetree.
  *
  * @param[in] h       CLIgen handle
+ * @retval    pt      Active parsetree
+ * @retval    NULL    No parsetree is active
  * @see cligen_ph_active_get  prefer to use that function instead
  */
 parse_tree *
@@ -396,7 +398,7 @@ cligen_pt_active_get(cligen_handle h)
 {
     pt_head *ph = cligen_pt_head_active_get(h);
 
-    return ph->ph_parsetree;
+    return ph ? ph->ph_parsetree : NULL;
 }
 
 /*! Get currently active parsetree head.
-- 
2.43.0


From c914af84bdd139f96633b2149d0a09cd70ae6d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 17/82] fix: a regular expression with an anchor or an escaped
 dollar matched only a part of the value

---
 cligen_regex.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/cligen_regex.c b/cligen_regex.c
index 3f6b68c..8bc32d5 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -65,12 +65,56 @@
 
 /*-------------------------- POSIX -------------------------*/
 
+/*! Check if the parentheses of a regexp are balanced, escapes and bracket expressions excepted
+ *
+ * @param[in]   regexp  Regular expression string
+ * @retval      1       Balanced
+ * @retval      0       Not balanced
+ */
+static int
+regex_posix_balanced(char *regexp)
+{
+    char *s;
+    int   depth = 0;
+
+    for (s = regexp; *s; s++){
+        if (*s == '\\'){
+            if (*++s == '\0')
+                break;
+        }
+        else if (*s == '['){
+            if (*++s == '^')
+                s++;
+            if (*s == ']') /* First in bracket: literal */
+                s++;
+            while (*s && *s != ']'){
+                if (*s == '[' && (s[1] == ':' || s[1] == '.' || s[1] == '=')){
+                    char c = s[1];
+                    for (s += 2; *s && (*s != c || s[1] != ']'); s++)
+                        ;
+                    if (*s)
+                        s++;
+                }
+                if (*s)
+                    s++;
+            }
+            if (*s == '\0')
+                break;
+        }
+        else if (*s == '(')
+            depth++;
+        else if (*s == ')' && --depth < 0)
+            return 0;
+    }
+    return depth == 0;
+}
+
 /*! Compile a regexp according to posix regexps
  *
  * It is implicitly assumed that the match should be done at the beginning and
  * the end,
  * therefore, the pattern is prefixed with a ^, and postfixed with a $.
- * So, a match is made if <pattern> matches the beginning of <string>.
+ * So, a match is made if <pattern> matches the whole of <string>.
  * For example <pattern> "foobar" will not match <string> "foo".
  *
  * @param[in]   regexp  Regular expression string in XSD regex format
@@ -92,8 +136,11 @@ cligen_regex_posix_compile(char  *regexp,
     len0 = strlen(regexp);
     if ((cb = cbuf_new()) == NULL)
         goto done;
+    /* A complete expression is anchored as a whole, also if it has (other) anchors of its own */
+    if (regex_posix_balanced(regexp))
+        cprintf(cb, "^(%s)$", regexp);
     /* Check if prepended by ^ */
-    if (len0 > 0 && regexp[0] == '^'){
+    else if (len0 > 0 && regexp[0] == '^'){
         if (regexp[len0-1] == '$')
             cprintf(cb, "%s", regexp);
         else if (len0 > 1 && regexp[1] == '(')
@@ -109,7 +156,7 @@ cligen_regex_posix_compile(char  *regexp,
             cprintf(cb, "^%s", regexp);
     }
     else /* Neither ^or $ */
-        cprintf(cb, "^(%s)$", regexp);
+        goto fail;
 
     if ((re = malloc(sizeof(regex_t))) == NULL)
         goto done;
-- 
2.43.0


From 86ae40a1c418bcc7fbbaad25ed85d80ff4bba050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 18/82] fix: a range with only an upper limit rejected negative
 numbers

---
 cligen_cv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index dd462d6..2b59d94 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3161,7 +3161,7 @@ cv_parse(const char *str,
 /*! Range interval check if a number is in an interval
  *
  * @param[in] i      The number to check if it is in an interval
- * @param[in] cvlow  cv containing lower bound
+ * @param[in] cvlow  cv containing lower bound, empty if there is only an upper limit
  * @param[in] cvupp  cv containing upper bound
  * @param[in] type   Numeric type string, eg "int32"
  * @retval    1      i is in [low,upper]
@@ -3169,7 +3169,7 @@ cv_parse(const char *str,
  * @note need to use macro trick ## to fix different types
 */
 #define range_check(i, cvlow, cvupp, type)       \
-    (((i) >= cv_##type##_get(cvlow)) && \
+    ((cv_type_get(cvlow) == CGV_EMPTY || (i) >= cv_##type##_get(cvlow)) && \
      ((i) <= cv_##type##_get(cvupp)))
 
 /*! Error messsage for int violating ranges */
-- 
2.43.0


From d90ddb8ccd8d2423bef0043ce7934ec39edcc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 19/82] fix: a word that is not UTF-8 was a fatal error for a
 variable with an XSD regexp

---
 cligen_regex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_regex.c b/cligen_regex.c
index 8bc32d5..94621bc 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -272,6 +272,8 @@ cligen_regex_libxml2_exec(void *recomp,
     xmlChar   *content = (xmlChar*)string0;
     xmlRegexp *xrp = (xmlRegexp *)recomp;
 
+    if (xmlCheckUTF8(content) == 0) /* Not a match rather than an error */
+        return 0;
     /* Returns 1 if matches, 0 if not and a negative value in case of error */
     if ((retval = xmlRegexpExec(xrp, content)) < 0)
         goto done;
-- 
2.43.0


From 5bd4cb8014b9579b08eafb7f9aef13b8ba3a8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 20/82] fix: help on two alternatives of the same name with
 empty help texts dereferenced NULL

---
 cligen_io.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index c6a2e6e..b0fa9b8 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -531,12 +531,11 @@ cligen_help_eq(struct cligen_help *ch0,
     /* Get first line only as equality check */
     cv0 = cvec_i(help0, 0);
     cv1 = cvec_i(help1, 0);
-#if 0 // help0/1 cannot be NULL
-    if (cv0 == NULL && help1 == NULL)
+    /* A help text without lines gives an empty vector */
+    if (cv0 == NULL && cv1 == NULL)
         return 1;
-    if (cv0 == NULL || help1 == NULL)
+    if (cv0 == NULL || cv1 == NULL)
         return 0;
-#endif
     return strcmp(cv_string_get(cv0), cv_string_get(cv1)) == 0;
 }
 
-- 
2.43.0


From 9d1d74acfbb9b5c6f8357c825a296f188df3238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 21/82] fix: the size of the line buffer of one handle was used
 for the buffer of another

---
 cligen_handle.c          | 45 +++++++++++++++++++++-------------------
 cligen_handle_internal.h |  2 ++
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index c83e41e..e786cf5 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -1019,9 +1019,6 @@ cligen_regex_xsd_set(cligen_handle h,
 }
 
 
-static int _getline_bufsize = GETLINE_BUFLEN_DEFAULT;
-static int _getline_killbufsize = GETLINE_BUFLEN_DEFAULT;
-
 /*!
  * @param[in] h       CLIgen handle
  */
@@ -1052,7 +1049,9 @@ cligen_killbuf(cligen_handle h)
 int
 cligen_buf_size(cligen_handle h)
 {
-    return _getline_bufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_bufsize;
 }
 
 /*! Return length cligen kill buffer
@@ -1062,7 +1061,9 @@ cligen_buf_size(cligen_handle h)
 int
 cligen_killbuf_size(cligen_handle h)
 {
-    return _getline_killbufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_killbufsize;
 }
 
 /*!
@@ -1073,16 +1074,18 @@ cligen_buf_init(cligen_handle h)
 {
     struct cligen_handle *ch = handle(h);
 
-    if ((ch->ch_buf = malloc(_getline_bufsize)) == NULL){
+    ch->ch_bufsize = GETLINE_BUFLEN_DEFAULT;
+    ch->ch_killbufsize = GETLINE_BUFLEN_DEFAULT;
+    if ((ch->ch_buf = malloc(ch->ch_bufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf, 0, _getline_bufsize);
-    if ((ch->ch_killbuf = malloc(_getline_killbufsize)) == NULL){
+    memset(ch->ch_buf, 0, ch->ch_bufsize);
+    if ((ch->ch_killbuf = malloc(ch->ch_killbufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf, 0, _getline_killbufsize);
+    memset(ch->ch_killbuf, 0, ch->ch_killbufsize);
     return 0;
 }
 
@@ -1100,17 +1103,17 @@ cligen_buf_increase(cligen_handle h,
                     size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    size_t                len0 = _getline_bufsize; /* orig length */
+    size_t                len0 = ch->ch_bufsize; /* orig length */
 
-    if (_getline_bufsize >= len1 + 1)
+    if (ch->ch_bufsize >= len1 + 1)
       return 0;
-    while (_getline_bufsize < len1 + 1)
-      _getline_bufsize *= 2;
-    if ((ch->ch_buf = realloc(ch->ch_buf, _getline_bufsize)) == NULL){
+    while (ch->ch_bufsize < len1 + 1)
+      ch->ch_bufsize *= 2;
+    if ((ch->ch_buf = realloc(ch->ch_buf, ch->ch_bufsize)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf+len0, 0, _getline_bufsize-len0);
+    memset(ch->ch_buf+len0, 0, ch->ch_bufsize-len0);
     return 0;
 }
 
@@ -1124,17 +1127,17 @@ cligen_killbuf_increase(cligen_handle h,
                         size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    int                   len0 = _getline_killbufsize;
+    int                   len0 = ch->ch_killbufsize;
 
-    if (_getline_killbufsize >= len1 + 1)
+    if (ch->ch_killbufsize >= len1 + 1)
       return 0;
-    while (_getline_killbufsize < len1 + 1)
-      _getline_killbufsize *= 2;
-    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, _getline_killbufsize)) == NULL){
+    while (ch->ch_killbufsize < len1 + 1)
+      ch->ch_killbufsize *= 2;
+    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, ch->ch_killbufsize)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf+len0, 0, _getline_killbufsize-len0);
+    memset(ch->ch_killbuf+len0, 0, ch->ch_killbufsize-len0);
     return 0;
 }
 
diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 6ffff14..ab8fc87 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -95,6 +95,8 @@ struct cligen_handle{
                                   */
     char       *ch_buf;          /* getline input buffer */
     char       *ch_killbuf;      /* getline killed text */
+    int         ch_bufsize;      /* size of ch_buf */
+    int         ch_killbufsize;  /* size of ch_killbuf */
 
     int         ch_logsyntax;    /* Debug syntax by printing dynamically on stderr */
     int         ch_hist_size;    /* Number of history lines MUST be >0 */
-- 
2.43.0


From 9f3be7833427eab3af7d3a2126cb6b538e5a8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 22/82] fix: more than eight exit characters wrote outside the
 table, and every key then looked for one outside it

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5ffbf1c..c79cb53 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -366,7 +366,7 @@ gl_exitchar_add(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++)
+    for (i=0;i<sizeof(exitchars)/sizeof(exitchars[0]);i++)
         if (!exitchars[i]){
             exitchars[i] = c;
             break;
@@ -379,7 +379,7 @@ gl_exitchar(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++){
+    for (i=0;i<sizeof(exitchars)/sizeof(exitchars[0]);i++){
         if (!exitchars[i])
             break;
         if (exitchars[i] == c)
-- 
2.43.0


From ccdd779f67b6f7a9415cd8ff2ea30f0110fcfa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 23/82] fix: killing a word or to the start of the line wrote
 the rest of a long line over following rows

After the redraw of the changed part, the rest of the line was written once more
without regard to its width, followed by a redraw on a new line: on lines longer
than the terminal this left rows of old text and moved the prompt.
---
 cligen_getline.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index c79cb53..08f5b49 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -996,7 +996,6 @@ static void
 gl_kill_begin(cligen_handle h,
               int           pos)
 {
-    int i;
     int len;
 
     if (pos != 0) {
@@ -1006,9 +1005,6 @@ gl_kill_begin(cligen_handle h,
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
         gl_fixup(h, cligen_prompt(h), 0, 0);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, 0);
     } else
         gl_putc('\007');
 }
@@ -1022,7 +1018,7 @@ static int
 gl_kill_word(cligen_handle h,
              int           pos)
 {
-    int i, wpos;
+    int wpos;
 
     if (pos == 0)
         gl_putc('\007');
@@ -1041,10 +1037,7 @@ gl_kill_word(cligen_handle h,
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
         cligen_killbuf(h)[wpos-pos] = '\0';
         memmove(cligen_buf(h)+pos, cligen_buf(h) + wpos, gl_cnt-wpos+1);
-        gl_fixup(h, cligen_prompt(h), wpos, pos);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, pos);
+        gl_fixup(h, cligen_prompt(h), pos, pos);
     }
     return 0;
 }
-- 
2.43.0


From 7cb7f9cc3e5e1b48d98a2fcf0d2ac9a443f2e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 24/82] fix: moving the cursor right past the last column did
 not go to the next row

Without scrolling, the cursor was left after the last column while later
movements assumed that it was at the start of the next row.
---
 cligen_getline.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 08f5b49..a60cb65 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1175,7 +1175,6 @@ gl_fixup_noscroll(cligen_handle h,
     int          left = 0, right = -1;          /* bounds for redraw */
     int          pad;           /* how much to erase at end of line */
     int          backup;        /* how far to backup before fixing */
-    int          i;
     int          p; /* pos */
     int          new_right = -1; /* alternate right bound, using gl_extent */
     int          l1, l2;
@@ -1262,8 +1261,11 @@ gl_fixup_noscroll(cligen_handle h,
         }
     }
     else {
-        for (i=gl_pos; i < cursor; i++)
-            gl_putc(cligen_buf(h)[i]);
+        for (p=gl_pos; p < cursor; p++){
+            gl_putc(cligen_buf(h)[p]);
+            if (wrap(p, plen))
+                wrap_line();
+        }
     }
     gl_pos = cursor;
 }
-- 
2.43.0


From d8f6b69209b6323421988381ac93d853bfc9baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 25/82] fix: search, help and completion on a line of several
 rows drew over its rows

Without scrolling, the search prompt was drawn on the row of the cursor instead of
the row of the prompt, and help and completion were written over the rows of the
line below the cursor.
---
 cligen_getline.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index a60cb65..5636d7c 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -609,9 +609,12 @@ gl_getline(cligen_handle h,
             else{
                 if (escape ==0 && c == '?' && gl_qmark_hook) {
                     escape = 0;
+                    tmp = gl_pos;
+                    if (!gl_scrolling_mode) /* output starts below the last row of the line */
+                        gl_fixup(h, gl_prompt, -1, gl_cnt);
                     if ((loc = gl_qmark_hook(h, cligen_buf(h))) < 0)
                         goto err;
-                    gl_fixup(h, gl_prompt, -2, gl_pos);
+                    gl_fixup(h, gl_prompt, -2, tmp);
                 }
                 else{
                     escape = 0;
@@ -666,6 +669,8 @@ gl_getline(cligen_handle h,
             case '\t':                                  /* TAB */
                 if (gl_tab_hook) {
                     tmp = gl_pos;
+                    if (!gl_scrolling_mode) /* output starts below the last row of the line */
+                        gl_fixup(h, gl_prompt, -1, gl_cnt);
                     if ((loc = gl_tab_hook(h, &tmp)) < 0)
                         goto err;
                     gl_fixup(h, gl_prompt, -2, tmp);
@@ -1192,6 +1197,8 @@ gl_fixup_noscroll(cligen_handle h,
         l2 = gl_strlen(prompt);
         gl_cnt = gl_cnt + l1 - l2;
         strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
+        for (p=(gl_pos+l1)/gl_termw; p > 0; p--) /* to the row of the prompt */
+            move_cursor_up(1);
         gl_putc('\r');
         gl_puts(prompt);
         gl_pos = fixup_gl_shift;
-- 
2.43.0


From 64dee96417566a7111d2a6c4daa366838720920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 26/82] fix: a prompt that fills the terminal read outside the
 line buffer

The width left for input became negative (or smaller than the scrolling region),
also with a long search string: text before the line buffer was written to the
terminal, and with little room left the line was not scrolled.
---
 cligen_getline.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5636d7c..43db32c 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -85,6 +85,7 @@ static int      gl_utf8 = 0;            /* UTF-8 experimental mode */
 static int      gl_scrolling_mode = 1;  /* Scrolling on / off */
 static int      gl_scrollw = 27;        /* width of EOL scrolling region */
 static int      gl_width = 0;           /* net size available for input */
+#define GL_MIN_INPUT_WIDTH 4            /* room for input with a long prompt */
 static int      gl_extent = 0;          /* how far to redraw, 0 means all */
 static int      gl_overwrite = 0;       /* overwrite mode */
 static int      gl_pos, gl_cnt = 0;     /* position and size of input */
@@ -1157,6 +1158,19 @@ gl_redraw(cligen_handle h)
     }
 }
 
+/*! Set the net width from the width of the prompt
+ *
+ * @param[in] plen    Printable width of prompt
+ * There is room for some input even if the prompt fills the terminal
+ */
+static void
+gl_width_set(int plen)
+{
+    gl_width = gl_termw - plen;
+    if (gl_width < GL_MIN_INPUT_WIDTH)
+        gl_width = GL_MIN_INPUT_WIDTH;
+}
+
 /*! Redrawing or moving within line
  *
  * This function is used both for redrawing when input changes or for
@@ -1191,7 +1205,7 @@ gl_fixup_noscroll(cligen_handle h,
         gl_puts(prompt);
         strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
         change = 0;
-        gl_width = gl_termw - gl_strlen(prompt);
+        gl_width_set(gl_strlen(prompt));
     } else if (strcmp(prompt, fixup_last_prompt) != 0) {
         l1 = gl_strlen(fixup_last_prompt);
         l2 = gl_strlen(prompt);
@@ -1202,7 +1216,7 @@ gl_fixup_noscroll(cligen_handle h,
         gl_putc('\r');
         gl_puts(prompt);
         gl_pos = fixup_gl_shift;
-        gl_width = gl_termw - l2;
+        gl_width_set(l2);
         change = 0;
     }
     pad = (fixup_off_right)? gl_width - 1 : gl_cnt - fixup_gl_shift;   /* old length */
@@ -1304,6 +1318,7 @@ gl_fixup_scroll(cligen_handle h,
     int          i;
     int          new_right = -1; /* alternate right bound, using gl_extent */
     int          l1, l2;
+    int          scrollw;       /* width of scrolling region */
 
     if (change == -2) {   /* reset */
         gl_pos = gl_cnt = fixup_gl_shift = fixup_off_right = fixup_off_left = 0;
@@ -1311,7 +1326,7 @@ gl_fixup_scroll(cligen_handle h,
         gl_puts(prompt);
         strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
         change = 0;
-        gl_width = gl_termw - gl_strlen(prompt);
+        gl_width_set(gl_strlen(prompt));
     } else if (strcmp(prompt, fixup_last_prompt) != 0) {
         l1 = gl_strlen(fixup_last_prompt);
         l2 = gl_strlen(prompt);
@@ -1320,9 +1335,10 @@ gl_fixup_scroll(cligen_handle h,
         gl_putc('\r');
         gl_puts(prompt);
         gl_pos = fixup_gl_shift;
-        gl_width = gl_termw - l2;
+        gl_width_set(l2);
         change = 0;
     }
+    scrollw = (gl_scrollw > gl_width/2)? gl_width/2 : gl_scrollw;
     pad = (fixup_off_right)? gl_width - 1 : gl_cnt - fixup_gl_shift;   /* old length */
     backup = gl_pos - fixup_gl_shift;
     if (change >= 0) {
@@ -1339,15 +1355,15 @@ gl_fixup_scroll(cligen_handle h,
         gl_putc('\007');
         cursor = 0;
     }
-    if (fixup_off_right || (fixup_off_left && cursor < fixup_gl_shift + gl_width - gl_scrollw / 2)){
+    if (fixup_off_right || (fixup_off_left && cursor < fixup_gl_shift + gl_width - scrollw / 2)){
         extra = 2;                      /* shift the scrolling boundary */
     }
     else
         extra = 0;
-    new_shift = cursor + extra + gl_scrollw - gl_width;
+    new_shift = cursor + extra + scrollw - gl_width;
     if (new_shift > 0) {
-        new_shift /= gl_scrollw;
-        new_shift *= gl_scrollw;
+        new_shift /= scrollw;
+        new_shift *= scrollw;
     } else
         new_shift = 0;
     if (new_shift != fixup_gl_shift) {  /* scroll occurs */
-- 
2.43.0


From 85abe5f6a59e6246f0c96192407ce4ff0b50bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 27/82] fix: prompts longer than 79 characters were taken for
 changed on every key

The last prompt was kept truncated, and old text was left on the screen after the
line became shorter.
---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 43db32c..742ee77 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -102,7 +102,7 @@ static int gl_iseof = 0;
 static int   fixup_gl_shift;    /* index of first on screen character */
 static int   fixup_off_right;   /* true if more text right of screen */
 static int   fixup_off_left;    /* true if more text left of screen */
-static char  fixup_last_prompt[80] = "";
+static char  fixup_last_prompt[1024] = "";
 
 #define SEARCH_LEN 100
 static char  search_prompt[SEARCH_LEN+2];  /* prompt includes search string */
-- 
2.43.0


From 9008c4fdd90af7b2c73245162161cf6ba074fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 28/82] fix: stepping forward after stepping back past the
 oldest line skipped that line

When the history was full, the line shown after stepping past the oldest entry was
empty but the position stayed on the oldest entry.
---
 cligen_history.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/cligen_history.c b/cligen_history.c
index 2adfe1a..9463a19 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -75,6 +75,9 @@
 #include "cligen_history_internal.h"
 #include "cligen_history.h"
 
+/* Position before the oldest entry, when stepping back past it */
+#define HIST_POS_BEFORE -1
+
 /*! Makes a copy of the string
  *
  * @param[in] p     String input
@@ -175,11 +178,16 @@ hist_prev(cligen_handle h)
 {
     struct cligen_handle *ch = handle(h);
     char *p = 0;
-    int   next = (ch->ch_hist_cur - 1 + ch->ch_hist_size) % ch->ch_hist_size;
+    int   next;
 
-    if (ch->ch_hist_buf[ch->ch_hist_cur] != 0 && next != ch->ch_hist_last) {
-        ch->ch_hist_cur = next;
-        p = ch->ch_hist_buf[ch->ch_hist_cur];
+    if (ch->ch_hist_cur != HIST_POS_BEFORE) {
+        next = (ch->ch_hist_cur - 1 + ch->ch_hist_size) % ch->ch_hist_size;
+        if (next != ch->ch_hist_last && ch->ch_hist_buf[next] != 0) {
+            ch->ch_hist_cur = next;
+            p = ch->ch_hist_buf[ch->ch_hist_cur];
+        }
+        else
+            ch->ch_hist_cur = HIST_POS_BEFORE;
     }
     if (p == 0) {
         p = "";
@@ -198,7 +206,13 @@ hist_next(cligen_handle h)
     struct cligen_handle *ch = handle(h);
     char *p = 0;
 
-    if (ch->ch_hist_cur != ch->ch_hist_last) {
+    if (ch->ch_hist_cur == HIST_POS_BEFORE) {
+        ch->ch_hist_cur = (ch->ch_hist_last+1) % ch->ch_hist_size;
+        while (ch->ch_hist_buf[ch->ch_hist_cur] == NULL)
+            ch->ch_hist_cur = (ch->ch_hist_cur+1) % ch->ch_hist_size;
+        p = ch->ch_hist_buf[ch->ch_hist_cur];
+    }
+    else if (ch->ch_hist_cur != ch->ch_hist_last) {
         ch->ch_hist_cur = (ch->ch_hist_cur+1) % ch->ch_hist_size;
         p = ch->ch_hist_buf[ch->ch_hist_cur];
     }
-- 
2.43.0


From 2278ebc8c6bf4c3beed4e85a811a787040161170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 29/82] fix: an escaped alternative given in full was ambiguous
 with one it is a prefix of

---
 cligen_match.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 80db079..1175f89 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -168,12 +168,16 @@ match_object(cligen_handle h,
           match++;
       else{
           if (best && *co->co_command == '\"'){ /* escaped */
+              size_t len1 = strlen(co->co_command+1);
+
+              if (len1 && co->co_command[len1] == '\"') /* closing quote is not part of the word */
+                  len1--;
               if (cligen_caseignore_get(h))
-                  match = (strncasecmp(co->co_command+1, str, len) == 0);
+                  match = len <= len1 && (strncasecmp(co->co_command+1, str, len) == 0);
               else
-                  match = (strncmp(co->co_command+1, str, len) == 0);
+                  match = len <= len1 && (strncmp(co->co_command+1, str, len) == 0);
               if (exact)
-                  *exact = strlen(co->co_command+1) == len;
+                  *exact = len1 == len;
           }
           else{
               if (cligen_caseignore_get(h))
-- 
2.43.0


From ab35bb7ee0b36091815534f377db1de42106fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 30/82] fix: an abbreviated choice or expanded alternative got
 the abbreviation as value

---
 cligen_match.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index 1175f89..6f1725d 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -492,6 +492,8 @@ match_bindvars(cligen_handle h,
     int     retval = -1;
     cg_var *cv = NULL;
     cg_obj *co_orig;
+    char   *value = NULL;
+    size_t  len;
 
     /* co_orig is original object in case of expansion */
     if ((co_orig = co->co_treeref_orig) == NULL)
@@ -502,7 +504,15 @@ match_bindvars(cligen_handle h,
             goto done;
     }
     else if (co->co_type == CO_COMMAND && co_orig->co_type == CO_VARIABLE){
-        if ((cv = add_cov_to_cvec(h, co_orig, token, cvv)) == NULL)
+        /* The value is the chosen alternative (less quotes), the token may be an abbreviation */
+        len = strlen(co->co_command);
+        if (len > 1 && co->co_command[0] == '\"' && co->co_command[len-1] == '\"')
+            value = strndup(co->co_command+1, len-2);
+        else
+            value = strdup(co->co_command);
+        if (value == NULL)
+            goto done;
+        if ((cv = add_cov_to_cvec(h, co_orig, value, cvv)) == NULL)
             goto done;
     }
     else{
@@ -515,6 +525,8 @@ match_bindvars(cligen_handle h,
     }
     retval = 0;
  done:
+    if (value)
+        free(value);
     return retval;
 }
 
-- 
2.43.0


From 2373280d7d1eb55cf93474b27b3f05452803ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 31/82] fix: completion read and wrote outside its strings

(case-insensitive common prefix, variables and rest variables as candidates,
no room for the delimiter) and extended closed quotes
---
 cligen_match.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 6f1725d..e83c4fa 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1303,6 +1303,7 @@ match_complete(cligen_handle h,
     match_result *mr = NULL;
     char    *command;
     char    *command1 = NULL; /* prev */
+    char    *token;           /* Last token of string */
 
     /* ignore any leading whitespace */
     string = *stringp;
@@ -1322,6 +1323,11 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done; /*  No matches */
     }
+    /* The token of the match may be the rest of the line if there are rest variables */
+    if ((token = cvec_i_str(cvt, cvec_len(cvt)-1)) == NULL){
+        retval = 0;
+        goto done;
+    }
     equal = 1;
     for (i=0; i<mr_pt_len_get(mr); i++){
         co = mr_pt_i_get(mr, i);
@@ -1329,13 +1335,15 @@ match_complete(cligen_handle h,
             retval = 0;
             goto done;
         }
-        if ((cligen_tabmode(h) & CLIGEN_TABMODE_VARS) == 0){
-            if (co->co_type != CO_COMMAND)
+        if (co->co_type != CO_COMMAND){
+            if ((cligen_tabmode(h) & CLIGEN_TABMODE_VARS) == 0)
                 continue;
+            retval = 0; /* Same preference for variables, which have no text to complete with */
+            goto done;
         }
         command = co->co_command;
         if (co1 == NULL){
-            slen = strlen(mr_token_get(mr));
+            slen = strlen(token);
             minmatch = strlen(command);
             co1 = co;
             command1 = command;
@@ -1350,7 +1358,8 @@ match_complete(cligen_handle h,
                 equal = 0;
                 len = MIN(strlen(command1), strlen(command));
                 for (j=0; j<len; j++)
-                    if (command1[j] != command[j])
+                    if (command1[j] != command[j] &&
+                        (!cligen_caseignore_get(h) || tolower((int)(unsigned char)command1[j]) != tolower((int)(unsigned char)command[j])))
                         break;
                 minmatch = MIN(minmatch, j);
             }
@@ -1360,7 +1369,14 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
-    while (strlen(*stringp) + minmatch - slen >= *slenp){
+    /* A word closed by a quote cannot be extended */
+    len = strlen(string);
+    if (len < slen || strcmp(string + len - slen, token) != 0){
+        retval = 0;
+        goto done;
+    }
+    /* Room for the completion, a delimiter and a terminating null */
+    while (strlen(*stringp) + minmatch - slen + 2 > *slenp){
         *slenp *= 2;
         if ((*stringp = realloc(*stringp, *slenp)) == NULL)
             goto done;
-- 
2.43.0


From 760fd5008fdc419861d6808ea69b47f5f95c9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 32/82] fix: completing several steps gave expansion callbacks
 earlier values twice

---
 cligen_read.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 643124d..e2b8e71 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -193,12 +193,11 @@ cli_tab_hook(cligen_handle h,
         prev_cursor = *cursorp;
         if (cli_complete(h, cursorp, ptn, cvv) < 0) /* XXX expand-cleanup must be done here before show commands */
             goto done;
-    } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp);
-    if (cvv){
+        /* Restart from the (possibly completed) line, otherwise values of this step remain */
         cvec_free(cvv);
         if ((cvv = cvec_start(cligen_buf(h))) == NULL)
             goto done;
-    }
+    } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp);
     fputs("\n", stdout);
     if (cligen_tabmode(h) & CLIGEN_TABMODE_COLUMNS){
         if (show_help_line(h, stdout, cligen_buf(h), ptn, cvv) <0)
-- 
2.43.0


From 4292c798b3022a427b5156b13125e2415661a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 33/82] fix: completing inside a line could write beyond the
 line buffer

---
 cligen_read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index e2b8e71..9a86895 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -545,7 +545,7 @@ cli_complete(cligen_handle h,
         cligen_buf_increase(h, strlen(s));
         string = cligen_buf(h);
         n = strlen(string) - cursor; /* Nr of chars right of cursor to copy */
-        cligen_buf_increase(h, strlen(string)+cursor+n);
+        cligen_buf_increase(h, strlen(string)+extra);
         string = cligen_buf(h);
         for (i=cursor+n; i>=cursor; i--)             /* Copy right of cursor */
             string[i + extra] = string[i];
-- 
2.43.0


From ea83c49e1580f3c59e70fd883a55aa2dc7674a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 34/82] fix: deciding on the end-of-command marker gave
 expansion callbacks earlier values twice

---
 cligen_read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cligen_read.c b/cligen_read.c
index 9a86895..fec4e19 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -427,6 +427,7 @@ show_help_line(cligen_handle h,
     cvec         *cvr = NULL;      /* Rest variant,  eg remaining string in each step */
     cg_var       *cvlastt;         /* Last element in cvt */
     cg_var       *cvlastr;         /* Last element in cvr */
+    int           cvvlen;          /* Length of cvv before matching */
     cligen_result result;
     match_result *mr = NULL;
 
@@ -437,6 +438,7 @@ show_help_line(cligen_handle h,
     /* Tokenize the string and transform it into two CLIgen vectors: tokens and rests */
     if (cligen_str2cvv(string, &cvt, &cvr) < 0) /* XXX cvr leaks memory */
         goto done;
+    cvvlen = cvec_len(cvv);
     if (match_pattern(h,
                       cvt, cvr, /* token string */
                       pt,       /* command vector */
@@ -471,6 +473,11 @@ show_help_line(cligen_handle h,
             cv_reset(cvlastr);
         cvec_del_i(cvr, cvec_len(cvr)-1);
 
+        /* Remove values of the first match, otherwise expansion callbacks get them twice */
+        while (cvec_len(cvv) > cvvlen){
+            cv_reset(cvec_i(cvv, cvec_len(cvv)-1));
+            cvec_del_i(cvv, cvec_len(cvv)-1);
+        }
         if (match_pattern_exact(h, cvt, cvr, pt,
                                 cvv,
                                 NULL,
-- 
2.43.0


From bf056afc2db7c965a43f1625a801e2d2322a4b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 35/82] fix: words after a rest variable in a set were also
 matched as members

---
 cligen_match.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_match.c b/cligen_match.c
index e83c4fa..47ae0c4 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -946,6 +946,8 @@ match_pattern_sets(cligen_handle  h,
                 mr_free(mrcprev);
             mrcprev = mrc;
             level = mr_level_get(mrc); /* XXX level always 0 */
+            if (mr_last_get(mrc)) /* eg rest variable: nothing left to match */
+                break;
         } /* while */
         if (mrc == NULL){
             *mrp = mr0;
-- 
2.43.0


From 533150d82c5b238cc8b28afad57eb814eff95392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 36/82] fix: a choice variable in a referenced tree was used
 after being freed

---
 cligen_expand.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 8f7ee95..33fe39c 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -610,6 +610,7 @@ pt_expand_fn(cligen_handle h,
  *
  * @param[in]  co         Original cligen object (to expand into ptn)
  * @param[in]  cvv_filter Add these to expanded nodes co_filter, eg remove them
+ * @param[in]  transient  co may be "transient" if so use co->co_ref as new co_ref
  * @param[out] ptn        New parse-tree initially an empty pointer, its value is returned.
  * @retval     0          OK
  * @retval    -1          Error
@@ -617,6 +618,7 @@ pt_expand_fn(cligen_handle h,
 static int
 pt_expand_choice(cg_obj       *co,
                  cvec         *cvv_filter,
+                 int           transient,
                  parse_tree   *ptn)
 {
     int     retval = -1;
@@ -631,6 +633,8 @@ pt_expand_choice(cg_obj       *co,
         while ((c = strsep(&ccmd, ",|")) != NULL){
             if (co_expand_sub(co, NULL, &con) < 0)
                 goto done;
+            if (transient && co->co_ref)
+                con->co_ref = co->co_ref;
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
             if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
@@ -720,7 +724,7 @@ pt_expand1_co(cligen_handle h,
      * of the variable
      */
     if (co->co_type == CO_VARIABLE && co->co_choice != NULL){
-        if (pt_expand_choice(co, cvv_filter, ptn) < 0) // XXX filter
+        if (pt_expand_choice(co, cvv_filter, transient, ptn) < 0) // XXX filter
             goto done;
     }
     /* Expand variable - call expand callback and insert expanded
-- 
2.43.0


From 8f077d282d80ca3506782467badb69da45bd1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 37/82] fix: arguments of a tree reference were dropped for
 callbacks without arguments

---
 cligen_match.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index 47ae0c4..2704f48 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -711,9 +711,13 @@ treeref_merge_co(cg_obj      *co,
                 goto done;
         }
         if (cc_ref->cc_cvec){
+            if (cc->cc_cvec == NULL &&
+                (cc->cc_cvec = cvec_new(0)) == NULL)
+                goto done;
             cv = NULL;
             while ((cv = cvec_each(cc_ref->cc_cvec, cv)) != NULL)
-                cvec_append_var(cc->cc_cvec, cv);
+                if (cvec_append_var(cc->cc_cvec, cv) == NULL)
+                    goto done;
         }
     }
     else { /* local is PIPE function, append regular function last */
-- 
2.43.0


From 8968b5027969bc95d185d9c92db77aabaa8267a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 38/82] fix: labels filtered by an inner tree reference came
 back below an outer filtered one

---
 cligen_expand.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 33fe39c..7084297 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -169,6 +169,30 @@ co_expand_sub(cg_obj  *co0,
     return retval;
 }
 
+/*! Add label filters to the ones an object already has
+ *
+ * @param[in]  co    Shadow object
+ * @param[in]  cvv   Filters
+ * @retval     0     OK
+ * @retval    -1     Error
+ */
+static int
+co_filter_merge(cg_obj *co,
+                cvec   *cvv)
+{
+    cg_var *cv = NULL;
+
+    if (co->co_filter == NULL)
+        return co_filter_set(co, cvv) == NULL ? -1 : 0;
+    while ((cv = cvec_each(cvv, cv)) != NULL) {
+        if (cv_name_get(cv) && cvec_find(co->co_filter, cv_name_get(cv)) != NULL)
+            continue;
+        if (cvec_append_var(co->co_filter, cv) == NULL)
+            return -1;
+    }
+    return 0;
+}
+
 /*! Transform string variables to commands
  *
  * Expansion of choice or expand takes a variable (<expand> <choice>)
@@ -395,7 +419,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
             co_flags_set(con, CO_FLAGS_TOPOFTREE); /* Mark expanded refd tree */
             con->co_treeref_orig = cot;
             if (cvec_len(cvv_filter) &&
-                co_filter_set(con, cvv_filter) == NULL)
+                co_filter_merge(con, cvv_filter) < 0)
                 goto done;
             if (co_insert(ptnew, con) == NULL)
                 goto done;
@@ -579,7 +603,7 @@ pt_expand_fn(cligen_handle h,
         if (pt_vec_append(ptn, con) < 0)
             goto done;
         if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
+            if (co_filter_merge(con, cvv_filter) < 0)
                 goto done;
         value = cv_string_get(cv);
         if ((cmd = strdup(value)) == NULL)
@@ -637,7 +661,7 @@ pt_expand_choice(cg_obj       *co,
                 con->co_ref = co->co_ref;
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
-            if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
+            if (cvv_filter && co_filter_merge(con, cvv_filter) < 0)
                 goto done;
             /* con may be deleted in the call and need to be replaced */
             if (co_insert1(ptn, con, 0) == NULL)
@@ -762,7 +786,7 @@ pt_expand1_co(cligen_handle h,
             con->co_ref = co->co_ref;
         }
         if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
+            if (co_filter_merge(con, cvv_filter) < 0)
                 goto done;
     }
  ok:
-- 
2.43.0


From 60d31b2d148e7f18ac151a1e2ec99b15286a23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 39/82] fix: a printed grammar did not load back as the same
 grammar

---
 cligen_callback.c | 28 +++++++++++++++++---
 cligen_callback.h |  1 +
 cligen_print.c    | 66 ++++++++++++++++++++++++++++++++++-------------
 3 files changed, 74 insertions(+), 21 deletions(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 2f1a814..87648a2 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -137,6 +137,30 @@ co_callbacks_free(cg_callback **ccp)
     return 0;
 }
 
+/*! Print an argument of a callback or expansion function as it is written in a clispec
+ */
+int
+co_callback_arg2cbuf(cbuf   *cb,
+                     cg_var *cv)
+{
+    char *str;
+
+    if (cv_type_get(cv) != CGV_STRING)
+        cprintf(cb, "(%s)", cv_type2str(cv_type_get(cv)));
+    cprintf(cb, "\"");
+    if (cv_type_get(cv) == CGV_STRING && (str = cv_string_get(cv)) != NULL){
+        for (; *str; str++){
+            if (*str == '"' || *str == '\\')
+                cbuf_append(cb, '\\');
+            cbuf_append(cb, *str);
+        }
+    }
+    else
+        cv2cbuf(cv, cb);
+    cprintf(cb, "\"");
+    return 0;
+}
+
 /*! Print a CLIgen object callback to a CLIgen buffer
  */
 int
@@ -154,9 +178,7 @@ co_callback2cbuf(cbuf        *cb,
             while ((cv = cvec_each(cc->cc_cvec, cv)) != NULL) {
                 if (i++)
                     cprintf(cb, ",");
-                cprintf(cb, "\"");
-                cv2cbuf(cv, cb);
-                cprintf(cb, "\"");
+                co_callback_arg2cbuf(cb, cv);
             }
         }
         cprintf(cb, ")");
diff --git a/cligen_callback.h b/cligen_callback.h
index 899a66b..c0bf671 100644
--- a/cligen_callback.h
+++ b/cligen_callback.h
@@ -70,6 +70,7 @@ int            co_callback_fn_set(cg_callback *cc, cgv_fnstype_t *fn);
 cg_callback   *co_callback_next(cg_callback *cc);
 int            co_callback_copy(cg_callback *cc0, cg_callback **ccn);
 int            co_callbacks_free(cg_callback **ccp);
+int co_callback_arg2cbuf(cbuf *cb, cg_var *cv);
 int            co_callback2cbuf(cbuf *cb, cg_callback *cc);
 size_t         co_callback_size(cg_callback *cc);
 
diff --git a/cligen_print.c b/cligen_print.c
index 629a4ab..87ddbeb 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -62,6 +62,19 @@
 /* Static prototypes */
 static int pt2cbuf(cbuf *cb, parse_tree *pt, int level, int brief);
 
+/*! Print a name in clispec format: characters special to the clispec parser are escaped
+ */
+static void
+name2cbuf(cbuf       *cb,
+          const char *name)
+{
+    for (; *name; name++){
+        if (strchr("@ \t,#\n\r=;\\<()[]|{}", *name) != NULL)
+            cbuf_append(cb, '\\');
+        cbuf_append(cb, *name);
+    }
+}
+
 /*! Print the syntax specification of a variable syntax spec to a cligen buf
  *
  * @param[out] cb    CLIgen buffer string to print to
@@ -89,7 +102,7 @@ cov2cbuf(cbuf   *cb,
     cg_var *cv1;
     cg_var *cv2;
 
-    if (co->co_choice){
+    if (co->co_choice && brief){
         if (strchr(co->co_choice, '|'))
             cprintf(cb, "(%s)", co->co_choice);
         else
@@ -103,9 +116,10 @@ cov2cbuf(cbuf   *cb,
         }
         else{
             cprintf(cb, "%c%s:%s", VARIABLE_PRE, co->co_command, cv_type2str(co->co_vtype));
-
+            if (co->co_vtype == CGV_DEC64) /* before range */
+                cprintf(cb, " fraction-digits:%d", co->co_dec64_n);
             for (i=0; i<co->co_rangelen; i++){
-                if (cv_isint(co->co_vtype))
+                if (cv_isint(co->co_vtype) || co->co_vtype == CGV_DEC64)
                     cprintf(cb, " range[");
                 else
                     cprintf(cb, " length[");
@@ -121,23 +135,27 @@ cov2cbuf(cbuf   *cb,
             if (co->co_show)
                 cprintf(cb, " show:\"%s\"", co->co_show);
             if (co->co_expand_fn_str){
-                cprintf(cb, " %s(\"", co->co_expand_fn_str);
+                cprintf(cb, " %s(", co->co_expand_fn_str);
                 if (co->co_expand_fn_vec){
                     cg_var *cv = NULL;
                     int   i = 0;
                     while ((cv = cvec_each(co->co_expand_fn_vec, cv)) != NULL) {
                         if (i++)
                             cprintf(cb, ",");
-                        cv2cbuf(cv, cb);
+                        co_callback_arg2cbuf(cb, cv);
                     }
                 }
-                cprintf(cb, "\")");
+                cprintf(cb, ")");
             }
             cv1 = NULL;
             while ((cv1 = cvec_each(co->co_regex, cv1)) != NULL)
-                cprintf(cb, " regexp:\"%s\"", cv_string_get(cv1));
+                cprintf(cb, " regexp:%s\"%s\"", cv_flag(cv1, V_INVERT)?"!":"", cv_string_get(cv1));
             if (co->co_translate_fn_str)
                 cprintf(cb, " translate:%s()", co->co_translate_fn_str);
+            if (co->co_preference > 0)
+                cprintf(cb, " preference:%u", co->co_preference);
+            if (co->co_choice) /* last */
+                cprintf(cb, " choice:%s", co->co_choice);
             cprintf(cb, "%c", VARIABLE_POST);
         }
     }
@@ -157,6 +175,7 @@ co2cbuf(cbuf   *cb,
     cg_callback *cc;
     parse_tree  *pt;
     cg_obj      *co1;
+    int          braces;
     cg_obj      *cot = NULL;
     cg_var      *cv;
 
@@ -164,16 +183,20 @@ co2cbuf(cbuf   *cb,
         errno = EINVAL;
         goto done;
     }
-    /* Add [] if optional. Note this is neither not complete/correct since it only notes
+    /* Add [] if optional (if brief). Note this is neither not complete/correct since it only notes
      * that the symbol was created within a [], not the exact composition.
      * Thus, for example, both "[a b]" and "[a[b]]" will be shown as "[a][b]".
      */
-    if (co_flags_get(co, CO_FLAGS_OPTION))
+    if (brief && co_flags_get(co, CO_FLAGS_OPTION))
         cprintf(cb, "[");
     switch (co->co_type){
     case CO_COMMAND:
-        if (co->co_command)
-            cprintf(cb, "%s", co->co_command);
+        if (co->co_command){
+            if (brief)
+                cprintf(cb, "%s", co->co_command);
+            else
+                name2cbuf(cb, co->co_command);
+        }
         break;
     case CO_REFERENCE:
         if (co->co_command)
@@ -186,7 +209,7 @@ co2cbuf(cbuf   *cb,
         cprintf(cb, ";");
         break;
     }
-    if (co_flags_get(co, CO_FLAGS_OPTION))
+    if (brief && co_flags_get(co, CO_FLAGS_OPTION))
         cprintf(cb, "]");
     if (brief == 0){
         if (co->co_helpstring){
@@ -198,14 +221,17 @@ co2cbuf(cbuf   *cb,
             cprintf(cb, ", hide");
         cv = NULL;
         while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
-            cprintf(cb, ", %s", cv_name_get(cv));
+            if (strcmp(cv_name_get(cv), "hide") != 0)
+                cprintf(cb, ", %s", cv_name_get(cv));
         for (cc = co->co_callbacks; cc; cc = co_callback_next(cc)){
             co_callback2cbuf(cb, cc);
         }
     }
-    cv = NULL;
-    while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
-        cprintf(cb, ", %s", cv_name_get(cv));
+    else {
+        cv = NULL;
+        while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
+            cprintf(cb, ", %s", cv_name_get(cv));
+    }
     if (co_terminal(co, &cot) &&
         cot != NULL){
         cg_var *cv = NULL;
@@ -214,7 +240,11 @@ co2cbuf(cbuf   *cb,
         cprintf(cb, ";");
     }
     pt = co_pt_get(co);
-    if (pt_len_get(pt) > 1){
+    braces = pt_len_get(pt) > 1;
+    if (!brief && pt_len_get(pt) == 1 && (co1 = pt_vec_i_get(pt, 0)) != NULL && co1->co_type != CO_EMPTY &&
+        (co_sets_get(co) || co_flags_get(co, CO_FLAGS_HIDE)))
+        braces = 1;
+    if (braces){
         if (co_sets_get(co))
             cprintf(cb, "@");
         cprintf(cb, "{\n");
@@ -226,7 +256,7 @@ co2cbuf(cbuf   *cb,
             cprintf(cb, "\n");
     if (pt2cbuf(cb, pt, marginal+3, brief) < 0)
         goto done;
-    if (pt_len_get(pt)>1){
+    if (braces){
         cprintf(cb, "%*s", marginal, "");
         cprintf(cb, "}\n");
     }
-- 
2.43.0


From 414ddca1b6c1e2a9a92c157f7150afe793f42720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 40/82] fix: hiding a command with a block also hid the first
 command in the block

---
 cligen_parse.y | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cligen_parse.y b/cligen_parse.y
index 2c531c7..8096ded 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -843,6 +843,7 @@ ctx_push(cligen_yacc *cy,
     struct cgy_list  *cl;
     struct cgy_stack *cs;
     cg_obj           *co;
+    cg_var           *cv;
 
     if (debug)
         fprintf(stderr, "%s\n", __FUNCTION__);
@@ -863,6 +864,15 @@ ctx_push(cligen_yacc *cy,
         if (cgy_list_push(co, &cs->cs_list) < 0)
             return -1;
     }
+    /* The option belongs to the commands above, not to the first command inside */
+    while ((cv = cvec_find(cy->cy_cvec, "hide")) != NULL){
+        cv_reset(cv);
+        cvec_del(cy->cy_cvec, cv);
+    }
+    if (cy->cy_cvec && cvec_len(cy->cy_cvec) == 0){
+        cvec_free(cy->cy_cvec);
+        cy->cy_cvec = NULL;
+    }
     return 0;
 }
 
-- 
2.43.0


From d6115981058bb03d22d308d5af1aee62fb393ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 41/82] fix: unquoted or typed arguments of expansion functions
 were lost

---
 cligen_parse.y | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 8096ded..febe11e 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -398,12 +398,13 @@ cgy_callback_arg(cligen_yacc *cy,
  */
 static int
 expand_arg(cligen_yacc *cy,
+           char        *type,
            char        *arg)
 {
    int      retval = -1;
     cg_var *cv = NULL;
 
-    if ((cv = create_cv(cy, "string", arg)) == NULL)
+    if ((cv = create_cv(cy, type?type:"string", arg)) == NULL)
         goto done;
     if (cy->cy_var->co_expand_fn_vec)
         cvec_append_var(cy->cy_var->co_expand_fn_vec, cv);
@@ -1509,11 +1510,11 @@ exparglist : exparglist ',' exparg
            ;
 
 exparg     : DQ DQ
-           | DQ charseq DQ { expand_arg(_cy, $2); free($2); }
+           | DQ charseq DQ { expand_arg(_cy, NULL, $2); free($2); }
            ;
 
 exparg     : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
+                    if ($2 && expand_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
                     if ($1) free($1);
                     if ($2) free($2);
               }
-- 
2.43.0


From 52447642bde23f8224412da67fd0357625818e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 42/82] fix: commands equal to those brought in by a tree
 reference or choice were merged into the grammar for good, with use of freed
 memory

---
 cligen_expand.c |  11 +++--
 cligen_object.c | 119 ++++++++++++++++++++++++++++++++++++++++++++++--
 cligen_object.h |   2 +
 3 files changed, 125 insertions(+), 7 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 7084297..17ab7a4 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -92,15 +92,20 @@ co_expand_sub(cg_obj  *co0,
     int     retval = -1;
     cg_obj *con;
     size_t  size;
+    parse_tree *pt;
 
     if ((con = co_new_only(co0->co_type)) == NULL)
         goto done;
     size = co_size(con->co_type);
     memcpy(con, co0, size);
-    /* Point to same underlying pt */
+    /* Point to same underlying pt, unless it goes away with co0 */
     con->co_ptvec = NULL;
     con->co_pt_len = 0;
-    if (co_pt_set(con, co_pt_get(co0)) < 0)
+    pt = co_pt_get(co0);
+    if (co_flags_get(co0, CO_FLAGS_OWNPT) &&
+        (pt = pt_shadow(pt, con, 0)) == NULL)
+        goto done;
+    if (co_pt_set(con, pt) < 0)
         goto done;
     /* Replace all pointers */
     co_up_set(con, coparent);
@@ -421,7 +426,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
             if (cvec_len(cvv_filter) &&
                 co_filter_merge(con, cvv_filter) < 0)
                 goto done;
-            if (co_insert(ptnew, con) == NULL)
+            if (co_insert1(ptnew, con, 0) == NULL)
                 goto done;
             con = NULL;
         }
diff --git a/cligen_object.c b/cligen_object.c
index 5bb0af9..1030182 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -667,7 +667,7 @@ co_copy(cg_obj  *co,
      */
     if (flags & CO_COPY_FLAGS_TREEREF)
         con->co_treeref_orig = co;
-    co_flags_reset(con, CO_FLAGS_MARK);
+    co_flags_reset(con, CO_FLAGS_MARK|CO_FLAGS_OWNPT);
     /* Replace all pointers */
     co_up_set(con, parent);
     if (co->co_command)
@@ -770,6 +770,8 @@ co_copy1(cg_obj  *co,
     if (flags & CO_COPY_FLAGS_TREEREF)
         con->co_treeref_orig = co;
     co_flags_reset(con, CO_FLAGS_MARK);
+    if (recursive)
+        co_flags_reset(con, CO_FLAGS_OWNPT);
     /* Replace all pointers */
     co_up_set(con, parent);
     if (co->co_command)
@@ -793,6 +795,9 @@ co_copy1(cg_obj  *co,
                 goto done;
         }
         else {
+            if (co_flags_get(co, CO_FLAGS_OWNPT) &&
+                (pt = pt_shadow(pt, con, 0)) == NULL)
+                goto done;
             if (co_pt_set(con, pt) < 0)
                 goto done;
         }
@@ -1051,8 +1056,11 @@ co_free(cg_obj *co,
         if (co->co_rangecvv_upp)
             cvec_free(co->co_rangecvv_upp);
     }
-    if (recursive && (pt = co_pt_get(co)) != NULL){
-        pt_free(pt, 1); /* recursive */
+    if ((pt = co_pt_get(co)) != NULL){
+        if (co_flags_get(co, CO_FLAGS_OWNPT))
+            pt_free(pt, 0);
+        else if (recursive)
+            pt_free(pt, 1); /* recursive */
     }
     if (co->co_ptvec != NULL)
         free(co->co_ptvec);
@@ -1136,6 +1144,106 @@ co_insert_pos(parse_tree *pt,
         return mid;
 }
 
+/*! Make a new parse-tree with shadows of the objects of a parse-tree
+ *
+ * The trees of the objects are not copied
+ * @param[in]  pt      Parse-tree
+ * @param[in]  parent  Parent of new objects
+ * @param[in]  orig    Set if pt is an original tree (not a shadow)
+ * @retval     ptn     New parse-tree, free with pt_free(ptn, 0)
+ * @retval     NULL    Error
+ */
+parse_tree *
+pt_shadow(parse_tree *pt,
+          cg_obj     *parent,
+          int         orig)
+{
+    parse_tree *ptn;
+    cg_obj     *co;
+    cg_obj     *con;
+    int         i;
+
+    if ((ptn = pt_new()) == NULL)
+        return NULL;
+    pt_sets_set(ptn, pt_sets_get(pt));
+    for (i=0; i<pt_len_get(pt); i++){
+        con = NULL;
+        if ((co = pt_vec_i_get(pt, i)) != NULL){
+            if (co_copy1(co, parent, 0, 0x0, &con) < 0)
+                goto err;
+            if (orig && con->co_treeref_orig == NULL)
+                con->co_treeref_orig = co;
+        }
+        if (pt_vec_append(ptn, con) < 0){
+            if (con)
+                co_free(con, 0);
+            goto err;
+        }
+    }
+    return ptn;
+ err:
+    pt_free(ptn, 0);
+    return NULL;
+}
+
+/*! Merge an expanded object into an equal expanded object
+ *
+ * Expanded objects share their trees with the original objects, which must not be changed.
+ * Therefore the object merged into gets a tree of its own.
+ * @param[in] co0   Expanded object to merge into
+ * @param[in] co1   Expanded object (not changed)
+ * @retval    0     OK
+ * @retval   -1     Error
+ */
+static int
+co_merge_shadow(cg_obj *co0,
+                cg_obj *co1)
+{
+    int         retval = -1;
+    parse_tree *pt0 = co_pt_get(co0);
+    parse_tree *pt1 = co_pt_get(co1);
+    parse_tree *ptn = NULL;
+    cg_obj     *co;
+    int         i;
+
+    if (co0->co_callbacks == NULL && co1->co_callbacks != NULL &&
+        co_callback_copy(co1->co_callbacks, &co0->co_callbacks) < 0)
+        goto done;
+    if (pt0 == pt1 || pt1 == NULL || pt_len_get(pt1) == 0)
+        goto ok;
+    if (!co_flags_get(co0, CO_FLAGS_OWNPT)){
+        if (pt0 == NULL){
+            if ((pt0 = pt_new()) == NULL)
+                goto done;
+        }
+        else if ((pt0 = pt_shadow(pt0, co0, 1)) == NULL)
+            goto done;
+        co_pt_clear(co0);
+        if (co_pt_set(co0, pt0) < 0){
+            pt_free(pt0, 0);
+            goto done;
+        }
+        co_flags_set(co0, CO_FLAGS_OWNPT);
+    }
+    if ((ptn = pt_shadow(pt1, co0, !co_flags_get(co1, CO_FLAGS_OWNPT))) == NULL)
+        goto done;
+    for (i=0; i<pt_len_get(ptn); i++){
+        if ((co = pt_vec_i_get(ptn, i)) == NULL)
+            continue;
+        pt_vec_i_clear(ptn, i);
+        if (co_insert1(pt0, co, 0) == NULL){
+            co_free(co, 0);
+            goto done;
+        }
+    }
+ ok:
+    retval = 0;
+ done:
+    if (ptn)
+        pt_free(ptn, 0);
+    return retval;
+}
+
 /*! Add a cligen object (co1) to a parsetree(pt) alphabetically.
  *
  * This involves searching in the parsetree for the position where it should be added,
@@ -1167,7 +1275,10 @@ co_insert1(parse_tree *pt,
         if (co1 == NULL && co2 == NULL)
             return NULL;
         if (co1 && co2 && co_eq(co1, co2)==0){
-            cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1));
+            if (recursive)
+                cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1));
+            else if (co_merge_shadow(co2, co1) < 0)
+                return NULL;
             co_free(co1, recursive);
             return co2;
         }
diff --git a/cligen_object.h b/cligen_object.h
index 3f0ef09..0ff1749 100644
--- a/cligen_object.h
+++ b/cligen_object.h
@@ -123,6 +123,7 @@ typedef struct cg_varspec cg_varspec;
 #define CO_FLAGS_OPTION    0x08  /* Generated from optional [] */
 #define CO_FLAGS_MATCH     0x10  /* For sets: avoid selecting same more than once */
 #define CO_FLAGS_ALIAS     0x20  /* Added as an alias (see cligen_alias_cb) */
+#define CO_FLAGS_OWNPT     0x40  /* Expanded object with a tree of its own, of expanded objects */
 
 /* Flags for pt_copy and co_copy
  */
@@ -253,6 +254,7 @@ int         co_copy(cg_obj *co, cg_obj *parent, uint32_t flags, cg_obj **conp);
 int         co_copy1(cg_obj *co, cg_obj *parent, int recursive, uint32_t flags, cg_obj **conp);
 int         co_eq(cg_obj *co1, cg_obj *co2);
 int         co_free(cg_obj *co, int recursive);
+parse_tree *pt_shadow(parse_tree *pt, cg_obj *parent, int orig);
 cg_obj     *co_insert1(parse_tree *pt, cg_obj *co, int recursive);
 cg_obj     *co_insert(parse_tree *pt, cg_obj *co);
 cg_obj     *co_find_one(parse_tree *pt, char *name);
-- 
2.43.0


From 276101a3cea0b840d3ce5aad83f299da343b6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 43/82] fix: merging parse-trees lost help texts, labels and
 hide of commands in both

---
 cligen_parsetree.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index f55ad38..5f2e4df 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -449,6 +449,15 @@ cligen_parsetree_merge(parse_tree *pt0,
                     if (co_callback_copy(co1->co_callbacks, &co0->co_callbacks) < 0)
                         goto done;
                 }
+                /* Same for help-text, labels and hide as when parsed in one grammar */
+                if (co0->co_helpstring == NULL && co1->co_helpstring != NULL &&
+                    (co0->co_helpstring = strdup(co1->co_helpstring)) == NULL)
+                    goto done;
+                if (co0->co_cvec == NULL && co1->co_cvec != NULL &&
+                    (co0->co_cvec = cvec_dup(co1->co_cvec)) == NULL)
+                    goto done;
+                if (co_flags_get(co1, CO_FLAGS_HIDE))
+                    co_flags_set(co0, CO_FLAGS_HIDE);
                 exist = 1;
                 break;
             }
-- 
2.43.0


From 86bc4b3a234cb0b5e6fe103341bf4a7516d521ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 44/82] fix: a malformed specification left memory and stale
 parents behind, could crash or be accepted after an error

---
 cligen_parse.y  | 96 ++++++++++++++++++++++++++++++++++++-------------
 cligen_syntax.c | 16 ++++++---
 2 files changed, 84 insertions(+), 28 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index febe11e..6def613 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -66,6 +66,10 @@
 %type <string> helpstring1
 %type <intval> preline
 
+/* Strings dropped on errors. HELPSTR points into the lex buffer, helpstring is consumed */
+%destructor { free($$); } NAME NUMBER DECIMAL CHARS
+%destructor { free($$); } charseq choices numdec arg1 typecast helpstring1
+
 %lex-param     {void *_cy} /* Add this argument to parse() and lex() function */
 %parse-param   {void *_cy}
 
@@ -424,6 +428,8 @@ static int
 expand_fn(cligen_yacc *cy,
           char        *fn)
 {
+    if (cy->cy_var->co_expand_fn_str)
+        free(cy->cy_var->co_expand_fn_str);
     cy->cy_var->co_expand_fn_str = fn;
     return 0;
 }
@@ -432,6 +438,8 @@ static int
 cg_translate(cligen_yacc *cy,
              char        *fn)
 {
+    if (cy->cy_var->co_translate_fn_str)
+        free(cy->cy_var->co_translate_fn_str);
     cy->cy_var->co_translate_fn_str = fn;
     return 0;
 }
@@ -449,6 +457,7 @@ cg_preference(cligen_yacc *cy,
     }
     if (parse_uint16(pref, &yv->co_preference, &reason) != 1){
         cligen_parseerror1(cy, reason);
+        free(reason);
         return -1;
     }
     return 0;
@@ -589,6 +598,7 @@ cgy_var_post(cligen_yacc *cy)
             return -1;
         cl->cl_obj = co;
     }
+    cy->cy_var = NULL; /* Now in the tree (or merged and freed) */
     return 0;
 }
 
@@ -740,11 +750,13 @@ cgy_var_choice_append(cligen_yacc *cy,
     int len;
     char *s;
 
-    len = strlen(str)+strlen(app) + 2;
+    len = (str?strlen(str):0)+strlen(app) + 2;
     if ((s = realloc(str, len)) == NULL) {
         fprintf(stderr, "%s: realloc: %s\n", __FUNCTION__, strerror(errno));
         return NULL;
     }
+    if (str == NULL) /* Empty first choice */
+        s[0] = '\0';
     strncat(s, "|", len-1);
     strncat(s, app, len-1);
     return s;
@@ -1210,8 +1222,9 @@ cg_dec64_n(cligen_yacc *cy,
         fprintf(stderr, "No var obj");
         return -1;
     }
-    if (parse_uint8(fraction_digits, &yv->co_dec64_n, NULL) != 1){
+    if (parse_uint8(fraction_digits, &yv->co_dec64_n, &reason) != 1){
         cligen_parseerror1(cy, reason);
+        free(reason);
         return -1;
     }
     return 0;
@@ -1245,9 +1258,19 @@ cgy_exit(cligen_yacc *cy)
     if (debug)
         fprintf(stderr, "%s\n", __FUNCTION__);
 
-    cy->cy_var = NULL;
+    if (cy->cy_var){  /* Error in variable */
+        co_free(cy->cy_var, 1);
+        cy->cy_var = NULL;
+    }
+    if (cy->cy_callbacks)
+        co_callbacks_free(&cy->cy_callbacks);
+    if (cy->cy_cvec){
+        cvec_free(cy->cy_cvec);
+        cy->cy_cvec = NULL;
+    }
     cgy_list_delete(&cy->cy_list);
-    if((cs = cy->cy_stack) != NULL){
+    while ((cs = cy->cy_stack) != NULL){
+        cy->cy_stack = cs->cs_next;
         delete_stack_element(cs);
 #if 0
         fprintf(stderr, "%s:%d: error: lacking () or [] at or before: '%s'\n",
@@ -1320,10 +1343,12 @@ option      : callback           { _PARSE_DEBUG("option->callback");}
 
 assignment  : NAME '=' DQ charseq DQ
                                  {_PARSE_DEBUG("assignment->\" charseq \"");
-                                  cgy_assignment(_cy, $1,$4);free($1); free($4);}
+                                  int r = cgy_assignment(_cy, $1,$4); free($1); free($4);
+                                  if (r < 0) _YYERROR("assignment");}
             | NAME '=' DQ DQ
                                  { _PARSE_DEBUG("assignment->\" \"");
-                                  cgy_assignment(_cy, $1,NULL);free($1);}
+                                  int r = cgy_assignment(_cy, $1,""); free($1);
+                                  if (r < 0) _YYERROR("assignment");}
             ;
 
 flag        : NAME               { _PARSE_DEBUG("flag->NAME");
@@ -1331,7 +1356,8 @@ flag        : NAME               { _PARSE_DEBUG("flag->NAME");
             ;
 
 callback    : NAME               { _PARSE_DEBUG("callback->NAME ( arglist )");
-                                   if (cgy_callback(_cy, $1) < 0) _YYERROR("callback");}
+                                   if (cgy_callback(_cy, $1) < 0) _YYERROR("callback");
+                                   $1 = NULL; /* consumed */}
               '(' arglist ')'
             ;
 
@@ -1344,9 +1370,10 @@ arglist1    : arglist1 ',' arg
             ;
 
 arg         : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("arg");
+                    int r = $2 ? cgy_callback_arg(_cy, $1, $2) : 0;
                     if ($1 != NULL) free($1);
                     if ($2 != NULL) free($2);
+                    if (r < 0) _YYERROR("arg");
               }
             ;
 
@@ -1414,20 +1441,27 @@ helpstring1 : helpstring1 HELPSTR
             ;
 
 cmd         : NAME           { _PARSE_DEBUG("cmd->NAME");
-                               if (cgy_cmd(_cy, $1) < 0) _YYERROR("cmd"); free($1); }
+                               int r = cgy_cmd(_cy, $1); free($1);
+                               if (r < 0) _YYERROR("cmd"); }
             | '@' NAME       { _PARSE_DEBUG("cmd->@NAME");
-                               if (cgy_reference(_cy, $2, 0) < 0) _YYERROR("cmd"); free($2); }
+                               int r = cgy_reference(_cy, $2, 0); free($2);
+                               if (r < 0) _YYERROR("cmd"); }
             | '@' '|' NAME   { _PARSE_DEBUG("cmd->@|NAME");
-                               if (cgy_reference(_cy, $3, 1) < 0) _YYERROR("cmd"); free($3); }
+                               int r = cgy_reference(_cy, $3, 1); free($3);
+                               if (r < 0) _YYERROR("cmd"); }
             | '<'            { if ((_CY->cy_var = cgy_var_create(_CY)) == NULL) _YYERROR("cmd"); }
                variable '>'  { if (cgy_var_post(_cy) < 0) _YYERROR("cmd"); }
             ;
 
 variable    : NAME          { if (cgy_var_name_type(_cy, $1, $1)<0) _YYERROR("variable"); }
-            | NAME ':' NAME { if (cgy_var_name_type(_cy, $1, $3)<0) _YYERROR("variable"); free($3); }
-            | NAME  { if (cgy_var_name_type(_cy, $1, $1) < 0) _YYERROR("variable"); }
+            | NAME ':' NAME { int r = cgy_var_name_type(_cy, $1, $3); free($3);
+                              if (r < 0) _YYERROR("variable"); }
+            | NAME  { int r = cgy_var_name_type(_cy, $1, $1); $1 = NULL; /* consumed */
+                      if (r < 0) _YYERROR("variable"); }
               keypairs
-            | NAME ':' NAME  { if (cgy_var_name_type(_cy, $1, $3) < 0) _YYERROR("variable"); free($3); }
+            | NAME ':' NAME  { int r = cgy_var_name_type(_cy, $1, $3); free($3);
+                               $1 = $3 = NULL; /* consumed */
+                               if (r < 0) _YYERROR("variable"); }
               keypairs
             ;
 
@@ -1452,48 +1486,59 @@ keypair     : NAME '(' ')' {
                  expand_fn(_cy, $1); }
             | V_SHOW ':' NAME {
                  _PARSE_DEBUG("keypair->show:name");
+                 free(_CY->cy_var->co_show);
                  _CY->cy_var->co_show = $3;
               }
             | V_SHOW ':' DQ charseq DQ {
                  _PARSE_DEBUG("keypair->show:DQ charseq DQ");
+                 free(_CY->cy_var->co_show);
                  _CY->cy_var->co_show = $4;
               }
             | V_RANGE '[' numdec ':' numdec ']' {
                  _PARSE_DEBUG("keypair->range [<nr>:<nr>]");
-                if (cg_range(_cy, $3, $5) < 0) _YYERROR("keypair"); free($3); free($5);
+                int r = cg_range(_cy, $3, $5); free($3); free($5);
+                 if (r < 0) _YYERROR("keypair");
               }
             | V_RANGE '[' numdec ']' {
                  _PARSE_DEBUG("keypair->range [<nr>]");
-                 if (cg_range(_cy, NULL, $3) < 0) _YYERROR("keypair"); free($3);
+                 int r = cg_range(_cy, NULL, $3); free($3);
+                 if (r < 0) _YYERROR("keypair");
               }
             | V_LENGTH '[' NUMBER ':' NUMBER ']' {
                  _PARSE_DEBUG("keypair->length[number:number]");
-                 if (cg_length(_cy, $3, $5) < 0) _YYERROR("keypair"); free($3); free($5);
+                 int r = cg_length(_cy, $3, $5); free($3); free($5);
+                 if (r < 0) _YYERROR("keypair");
               }
             | V_LENGTH '[' NUMBER ']' {
                  _PARSE_DEBUG("keypair->length[number]");
-                 if (cg_length(_cy, NULL, $3) < 0) _YYERROR("keypair"); free($3);
+                 int r = cg_length(_cy, NULL, $3); free($3);
+                 if (r < 0) _YYERROR("keypair");
               }
             | V_FRACTION_DIGITS ':' NUMBER {
                  _PARSE_DEBUG("keypair->fraction-digits:number");
-                if (cg_dec64_n(_cy, $3) < 0) _YYERROR("keypair"); free($3);
+                int r = cg_dec64_n(_cy, $3); free($3);
+                 if (r < 0) _YYERROR("keypair");
               }
             | V_CHOICE choices {
                  _PARSE_DEBUG("keypair->choice choices");
+                 free(_CY->cy_var->co_choice);
                  _CY->cy_var->co_choice = $2;
               }
             | V_KEYWORD ':' NAME {
                  _PARSE_DEBUG("keypair->keyword name");
+                free(_CY->cy_var->co_keyword);
                 _CY->cy_var->co_keyword = $3;
                 _CY->cy_var->co_vtype=CGV_STRING;
               }
             | V_REGEXP  ':' DQ charseq DQ {
                  _PARSE_DEBUG("keypair->regexp : DQ charseq DQ");
-                 if (cg_regexp(_cy, $4, 0) < 0) _YYERROR("keypair"); free($4);
+                 int r = cg_regexp(_cy, $4, 0); free($4);
+                 if (r < 0) _YYERROR("keypair");
               }
             | V_REGEXP  ':' '!'  DQ charseq DQ {
                  _PARSE_DEBUG("keypair->regexp : ! DQ charseq DQ");
-                 if (cg_regexp(_cy, $5, 1) < 0) _YYERROR("keypair"); free($5);
+                 int r = cg_regexp(_cy, $5, 1); free($5);
+                 if (r < 0) _YYERROR("keypair");
               }
             | V_TRANSLATE ':' NAME '(' ')' {
                  _PARSE_DEBUG("keypair->translate : name ()");
@@ -1501,7 +1546,8 @@ keypair     : NAME '(' ')' {
               }
             | V_PREFERENCE ':' NUMBER {
                  _PARSE_DEBUG("keypair->preference : number");
-                 cg_preference(_cy, $3); free($3);
+                 int r = cg_preference(_cy, $3); free($3);
+                 if (r < 0) _YYERROR("keypair");
               }
             ;
 
@@ -1510,13 +1556,15 @@ exparglist : exparglist ',' exparg
            ;
 
 exparg     : DQ DQ
-           | DQ charseq DQ { expand_arg(_cy, NULL, $2); free($2); }
+           | DQ charseq DQ { int r = expand_arg(_cy, NULL, $2); free($2);
+                           if (r < 0) _YYERROR("exparg"); }
            ;
 
 exparg     : typecast arg1 {
-                    if ($2 && expand_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
+                    int r = $2 ? expand_arg(_cy, $1, $2) : 0;
                     if ($1) free($1);
                     if ($2) free($2);
+                    if (r < 0) _YYERROR("exparg");
               }
            ;
 
diff --git a/cligen_syntax.c b/cligen_syntax.c
index d5c0464..41da7ee 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -122,6 +122,7 @@ clispec_parse_str(cligen_handle h,
         if (cligen_parseparse(&cy) != 0) { /* yacc returns 1 on error */
             cgy_exit(&cy);
             cgl_exit(&cy);
+            pt = co_pt_get(cot);
             goto done;
         }
         /* Note pt/ptp is stale after parsing due to treename that replaces cot->pt
@@ -132,6 +133,7 @@ clispec_parse_str(cligen_handle h,
                 goto done;
             if (cligen_ph_parsetree_set(ph, pt) < 0)
                 goto done;
+            co_pt_clear(cot); /* Owned by the tree list */
             if ((cv = cvec_find(cy.cy_globals, "pipetree")) != NULL){
                 char *str;
                 if ((str = cv_string_get(cv)) != NULL && strlen(str))
@@ -144,8 +146,6 @@ clispec_parse_str(cligen_handle h,
         if (cgl_exit(&cy) < 0)
             goto done;
     }
-    if (cvv == NULL) /* Not passed to caller function */
-        cvec_free(cy.cy_globals);
     /*
      * Remove the fake top level object and remove references to it.
      * This does not work for (other) trees
@@ -156,8 +156,16 @@ clispec_parse_str(cligen_handle h,
     }
     retval = 0;
   done:
-    if (cot)
-        co_free(cot, 0);
+    if (cvv == NULL && cy.cy_globals != NULL) /* Not passed to caller function */
+        cvec_free(cy.cy_globals);
+    if (cot){
+        if (retval < 0 && pt != NULL && pt == ptp) /* Remove references to the fake object also on error */
+            for (i=0; i<pt_len_get(pt); i++){
+                if ((co=pt_vec_i_get(pt, i)) != NULL)
+                    co_up_set(co, NULL);
+            }
+        co_free(cot, pt != ptp && (retval < 0 || strlen(str) == 0));
+    }
     if (cy.cy_treename)
         free (cy.cy_treename);
     return retval;
-- 
2.43.0


From 22caa2e9607c5ccdb047dbcefe9a03734d6b72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 45/82] fix: a comment between the options of a command made
 the rest of the options a syntax error

---
 cligen_parse.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parse.l b/cligen_parse.l
index 08808d3..70b7046 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -191,7 +191,7 @@ stripdup(char *s0)
 
 <OPTION>[ \t]+
 <OPTION>,                { return *yytext; }
-<OPTION>#                 { _CY->cy_lex_state =INITIAL; BEGIN(COMMENT); }
+<OPTION>#                 { _CY->cy_lex_state =OPTION; BEGIN(COMMENT); }
 <OPTION>\n                { _CY->cy_linenum++; }
 <OPTION>=                 { return *yytext; }
 <OPTION>;                 { BEGIN(INITIAL); return *yytext;}
-- 
2.43.0


From 8de39a519a259736fb8f84f6392ad49ff3be0633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 46/82] fix: a carriage return between the options of a command
 became part of an option or a syntax error

---
 cligen_parse.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_parse.l b/cligen_parse.l
index 70b7046..b5e33d8 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -189,7 +189,7 @@ stripdup(char *s0)
                                  cligen_parselval.string = strdup(yytext);
                                  return NAME; }
 
-<OPTION>[ \t]+
+<OPTION>[ \t\r]+
 <OPTION>,                { return *yytext; }
 <OPTION>#                 { _CY->cy_lex_state =OPTION; BEGIN(COMMENT); }
 <OPTION>\n                { _CY->cy_linenum++; }
@@ -200,7 +200,7 @@ stripdup(char *s0)
 <OPTION>\)                { return *yytext; }
 <OPTION>\{                { BEGIN(INITIAL); return *yytext;}
 <OPTION>\"                { _CY->cy_lex_string_state =INITIAL;BEGIN(STRING); return DQ; }
-<OPTION>([^ \t,#\n=;\(\)\{\}\"]|\\.)+   {
+<OPTION>([^ \t\r,#\n=;\(\)\{\}\"]|\\.)+   {
                                  cligen_parselval.string = strdup(yytext);
                                  return NAME; }
 <OPTION>.                 { return -1;}
-- 
2.43.0


From ff1a708966c89da3d11c744db3a56aefb485fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 47/82] fix: setting no prompt dereferenced NULL

---
 cligen_getline.c | 2 ++
 cligen_handle.c  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 742ee77..1084e2a 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1422,6 +1422,8 @@ gl_fixup(cligen_handle h,
          int           change,
          int           cursor)
 {
+    if (prompt == NULL) /* No prompt */
+        prompt = "";
     if (gl_scrolling_mode)
         return gl_fixup_scroll(h, prompt, change, cursor);
     else
diff --git a/cligen_handle.c b/cligen_handle.c
index e786cf5..79b5c6c 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -307,7 +307,7 @@ cligen_prompt_set(cligen_handle h,
     struct cligen_handle *ch = handle(h);
 
     if (ch->ch_prompt){
-        if (strcmp(prompt, ch->ch_prompt) == 0)
+        if (prompt && strcmp(prompt, ch->ch_prompt) == 0)
             return 0;
         free(ch->ch_prompt);
         ch->ch_prompt = NULL;
-- 
2.43.0


From 7124064c700866d18915df8c44a589f22c383257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 48/82] fix: objects expanded from merged trees pointed back to
 freed objects

---
 cligen_expand.c | 16 ++++++++++++++--
 cligen_object.c | 14 +++++++++-----
 cligen_object.h |  1 +
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 17ab7a4..c1effc4 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -74,6 +74,17 @@
 #include "cligen_expand.h"
 #include "cligen_syntax.h"
 
+/*! Get the object to point back to, which does not go away with a tree of expanded objects
+ *
+ * @param[in]  co   Object to expand
+ * @retval     co   Original object
+ */
+static cg_obj *
+co_original(cg_obj *co)
+{
+    return co_flags_get(co, CO_FLAGS_SHADOW) ? co->co_treeref_orig : co;
+}
+
 /*! Copy and expand a cligen object.
  *
  * This object could actually give rise to several if it is a variable
@@ -164,7 +175,8 @@ co_expand_sub(cg_obj  *co0,
                 goto done;
             }
     } /* CO_VARIABLE */
-    con->co_ref = co0; /* Backpointer to the original node */
+    con->co_ref = co_original(co0); /* Backpointer to the original node */
+    co_flags_reset(con, CO_FLAGS_SHADOW);
     *conp = con;
     con = NULL;
     retval = 0;
@@ -420,7 +432,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
             /* Backpointer to the "ref" node - overrides co_expand_sub
              * This actually seems to be to the treehead?
              */
-            con->co_ref = co0;
+            con->co_ref = co_original(co0);
             co_flags_set(con, CO_FLAGS_TOPOFTREE); /* Mark expanded refd tree */
             con->co_treeref_orig = cot;
             if (cvec_len(cvv_filter) &&
diff --git a/cligen_object.c b/cligen_object.c
index 1030182..75e133f 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -667,7 +667,7 @@ co_copy(cg_obj  *co,
      */
     if (flags & CO_COPY_FLAGS_TREEREF)
         con->co_treeref_orig = co;
-    co_flags_reset(con, CO_FLAGS_MARK|CO_FLAGS_OWNPT);
+    co_flags_reset(con, CO_FLAGS_MARK|CO_FLAGS_OWNPT|CO_FLAGS_SHADOW);
     /* Replace all pointers */
     co_up_set(con, parent);
     if (co->co_command)
@@ -771,7 +771,7 @@ co_copy1(cg_obj  *co,
         con->co_treeref_orig = co;
     co_flags_reset(con, CO_FLAGS_MARK);
     if (recursive)
-        co_flags_reset(con, CO_FLAGS_OWNPT);
+        co_flags_reset(con, CO_FLAGS_OWNPT|CO_FLAGS_SHADOW);
     /* Replace all pointers */
     co_up_set(con, parent);
     if (co->co_command)
@@ -1173,6 +1173,7 @@ pt_shadow(parse_tree *pt,
                 goto err;
             if (orig && con->co_treeref_orig == NULL)
                 con->co_treeref_orig = co;
+            co_flags_set(con, CO_FLAGS_SHADOW);
         }
         if (pt_vec_append(ptn, con) < 0){
             if (con)
@@ -1206,9 +1207,12 @@ co_merge_shadow(cg_obj *co0,
     cg_obj     *co;
     int         i;
 
-    if (co0->co_callbacks == NULL && co1->co_callbacks != NULL &&
-        co_callback_copy(co1->co_callbacks, &co0->co_callbacks) < 0)
-        goto done;
+    if (co0->co_callbacks == NULL && co1->co_callbacks != NULL){
+        if (co_callback_copy(co1->co_callbacks, &co0->co_callbacks) < 0)
+            goto done;
+        if (co_flags_get(co0, CO_FLAGS_SHADOW) && co_flags_get(co1, CO_FLAGS_SHADOW))
+            co0->co_treeref_orig = co1->co_treeref_orig;
+    }
     if (pt0 == pt1 || pt1 == NULL || pt_len_get(pt1) == 0)
         goto ok;
     if (!co_flags_get(co0, CO_FLAGS_OWNPT)){
diff --git a/cligen_object.h b/cligen_object.h
index 0ff1749..52812c0 100644
--- a/cligen_object.h
+++ b/cligen_object.h
@@ -124,6 +124,7 @@ typedef struct cg_varspec cg_varspec;
 #define CO_FLAGS_MATCH     0x10  /* For sets: avoid selecting same more than once */
 #define CO_FLAGS_ALIAS     0x20  /* Added as an alias (see cligen_alias_cb) */
 #define CO_FLAGS_OWNPT     0x40  /* Expanded object with a tree of its own, of expanded objects */
+#define CO_FLAGS_SHADOW    0x80  /* Object in such a tree, co_treeref_orig is the original */
 
 /* Flags for pt_copy and co_copy
  */
-- 
2.43.0


From ce5174d6f162d57508621db2f62a323fd482a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 49/82] fix: unregistering a descriptor damaged the others

---
 cligen_getline.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 1084e2a..2a93d49 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -321,9 +321,11 @@ gl_unregfd(int fd)
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) {
             if (i+1 < nextfds)
-                memcpy(&extfds[i], &extfds[i+1], nextfds-i);
-            extfds = realloc(extfds, (nextfds-1) * sizeof(*extfds));
-            nextfds--;
+                memmove(&extfds[i], &extfds[i+1], (nextfds-i-1) * sizeof(*extfds));
+            if (--nextfds == 0){
+                free(extfds);
+                extfds = NULL;
+            }
             return 0;
         }
     }
-- 
2.43.0


From bc80b30fdfdda2887de845d35972183842acad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 50/82] fix: registering a descriptor that cannot be selected
 on wrote outside the descriptor set

---
 cligen_getline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 2a93d49..4663bb0 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -294,6 +294,10 @@ gl_regfd(int             fd,
     int i;
     struct regfd *tmp;
 
+    if (fd < 0 || fd >= FD_SETSIZE) { /* Cannot be selected on */
+        errno = EINVAL;
+        return -1;
+    }
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) { /* Already registered. Update arg and cb */
             extfds[i].cb = cb;
-- 
2.43.0


From 13b26b0581cae606e76b7e977b5b993d7c4deb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 51/82] fix: a signal stopped the serving of registered
 descriptors until the next key, or crashed

---
 cligen_getline.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 4663bb0..6a5a929 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -338,7 +338,7 @@ gl_unregfd(int fd)
 }
 
 int
-gl_select()
+gl_select(cligen_handle h)
 {
     int i;
     fd_set fdset = {0,};
@@ -348,8 +348,13 @@ gl_select()
         FD_SET(0, &fdset);
         for(i = 0; i < nextfds; i++)
             FD_SET(extfds[i].fd, &fdset);
-        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0)
-            return -1;
+        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0){
+            if (errno != EINTR)
+                return -1;
+            if (gl_interrupt_hook && gl_interrupt_hook(h) < 0)
+                return -1;
+            continue;
+        }
         for(i = 0; i < nextfds; i++)
             if (FD_ISSET(extfds[i].fd, &fdset))
                 if (extfds[i].cb(extfds[i].fd, extfds[i].arg) < 0)
@@ -423,12 +428,12 @@ gl_getc(cligen_handle h)
 #endif
 
 #if CLIGEN_REGFD
-    gl_select(); /* block until something arrives on stdin */
+    gl_select(h); /* block until something arrives on stdin */
 #endif
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
         if (errno == EINTR){
-            if (gl_interrupt_hook(h) <0)
+            if (gl_interrupt_hook && gl_interrupt_hook(h) <0)
                 return -1;
             continue;
         }
-- 
2.43.0


From 8d7f9202c0fd1fa5f68a979f45b74838f88f992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 52/82] fix: a descriptor registered again in its callback was
 served without input

---
 cligen_getline.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 6a5a929..ae337fc 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -356,9 +356,11 @@ gl_select(cligen_handle h)
             continue;
         }
         for(i = 0; i < nextfds; i++)
-            if (FD_ISSET(extfds[i].fd, &fdset))
+            if (FD_ISSET(extfds[i].fd, &fdset)){
+                FD_CLR(extfds[i].fd, &fdset); /* The callback may register again */
                 if (extfds[i].cb(extfds[i].fd, extfds[i].arg) < 0)
                     return -1;
+            }
         if (FD_ISSET(0, &fdset))
             break;
     }
-- 
2.43.0


From 924725d52f84cbd4717362ed1fb5711e338fe54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 53/82] fix: objects were not found by name next to variables
 and references

---
 cligen_object.c | 50 +++++++++++--------------------------------------
 1 file changed, 11 insertions(+), 39 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 75e133f..5ab13ae 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1069,41 +1069,6 @@ co_free(cg_obj *co,
     return 0;
 }
 
-/*! Look for a CLIgen object in a (one-level) parse-tree in interval [low,high]
- *
- * @param[in]  pt      CLIgen parse-tree
- * @param[in]  name    Name of node
- * @param[in]  low     Lower bound
- * @param[in]  upper   Upper bound
- * @retval     co      Object found
- * @retval     NULL    Not found
- * @see co_insert Main function
- */
-static cg_obj *
-co_search1(parse_tree *pt,
-           char       *name,
-           int         low,
-           int         upper)
-{
-    int     mid;
-    int     cmp;
-    cg_obj *co;
-
-    if (upper < low)
-        return NULL; /* not found */
-    mid = (low + upper) / 2;
-    if (mid >= pt_len_get(pt))  /* beyond range */
-        return NULL;
-    co = pt_vec_i_get(pt, mid);
-    cmp = str_cmp(name, co ? co->co_command : NULL);
-    if (cmp < 0)
-        return co_search1(pt, name, low, mid-1);
-    else if (cmp > 0)
-        return co_search1(pt, name, mid+1, upper);
-    else
-        return co;
-}
-
 /*! Position where to insert cligen object into a parse-tree list alphabetically
  *
  * at what position to insert co1. Insert after this position
@@ -1307,16 +1272,23 @@ co_insert(parse_tree *pt,
  * @param[in]  name    Name of node
  * @retval     co      Object found
  * @retval     NULL    Not found
- * You can only use this if the child-list is alphabetically
- * sorted. You get this automatically with co_insert(), bit some code
- * may add children w/o co_insert.
+ * Commands are found before variables, and variables before references, given the order of
+ * co_insert(). A binary search on name is not possible since variables are not ordered by name.
  * No recursion
  */
 cg_obj *
 co_find_one(parse_tree *pt,
             char       *name)
 {
-    return co_search1(pt, name, 0, pt_len_get(pt));
+    cg_obj *co;
+    int     i;
+
+    for (i=0; i<pt_len_get(pt); i++){
+        if ((co = pt_vec_i_get(pt, i)) != NULL &&
+            str_cmp(name, co->co_command) == 0)
+            return co;
+    }
+    return NULL;
 }
 
 /*! co is a "terminal" command
-- 
2.43.0


From a1793356f33897932dd36f05d55b84e39c402be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 54/82] fix: an alias for a text with quotes or backslashes
 failed or ran another text, and adding one next to an optional command
 crashed

---
 cligen_syntax.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index 41da7ee..178a16f 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -449,9 +449,16 @@ cligen_alias_add(cligen_handle  h,
     pt_head     *ph;
     parse_tree  *pt;
     cg_obj      *co;
+    cg_obj      *co1;
     int          i;
     cg_callback *cc;
 
+    /* The name must be a single keyword */
+    if (name == NULL || command == NULL ||
+        *name == '\0' || strpbrk(name, " \t\r\n@,#=;\\<()[]|{}") != NULL){
+        errno = EINVAL;
+        goto done;
+    }
     if (phname == NULL) {
         if ((ph = cligen_ph_active_get(h)) == NULL){
             errno = ENOENT;
@@ -469,10 +476,10 @@ cligen_alias_add(cligen_handle  h,
         goto done;
     }
     /* Remove old alias, cant use search since need i for delete */
+    if ((co1 = co_find_one(pt, name)) != NULL && co1->co_type != CO_COMMAND)
+        co1 = NULL;
     for (i=0; i<pt_len_get(pt); i++){
-        if ((co = pt_vec_i_get(pt, i)) == NULL)
-            continue;
-        if (strcmp(co->co_command, name) != 0)
+        if ((co = pt_vec_i_get(pt, i)) == NULL || co != co1)
             continue;
         if (co_flags_get(co, CO_FLAGS_ALIAS) == 0){
             errno = EEXIST;
@@ -483,10 +490,8 @@ cligen_alias_add(cligen_handle  h,
     }
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    cprintf(cb, "%s", name);
-    if (helpstr)
-        cprintf(cb, "(\"%s\")", helpstr);
-    cprintf(cb, ", cligen_alias_fn(\"%s\");", command);
+    /* Help and command are added below, since they may contain characters special in a specification */
+    cprintf(cb, "%s, cligen_alias_fn(\"x\");", name);
     if (clispec_parse_str(h, cbuf_get(cb), "Parsing alias command", NULL, pt, NULL) < 0){
         goto done;
     }
@@ -496,15 +501,16 @@ cligen_alias_add(cligen_handle  h,
         goto done;
     }
     co_flags_set(co, CO_FLAGS_ALIAS);
-    {
-
-
-        if ((cc = co->co_callbacks) == NULL){
-            fprintf(stderr, "No callback found\n");
-            goto done;
-        }
-        co_callback_fn_set(cc, callback?callback:cligen_alias_call);
+    if (helpstr &&
+        (co->co_helpstring = strdup(helpstr)) == NULL)
+        goto done;
+    if ((cc = co->co_callbacks) == NULL){
+        fprintf(stderr, "No callback found\n");
+        goto done;
     }
+    if (cv_string_set(cvec_i(cc->cc_cvec, 0), command) == NULL)
+        goto done;
+    co_callback_fn_set(cc, callback?callback:cligen_alias_call);
     retval = 0;
  done:
     if (cb)
-- 
2.43.0


From 791c312232d88f86230e4e65a611da65e62c71c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 55/82] fix: an alias that does not resolve did nothing, and an
 alias of itself never ended

---
 cligen_syntax.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index 178a16f..2b2ef67 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -378,6 +378,9 @@ cligen_translate_str2fn(parse_tree         *pt,
     return retval;
 }
 
+/* Max number of aliases of aliases, avoids endless recursion of an alias of itself */
+#define ALIAS_DEPTH_MAX 32
+
 /*! Alias function
  *
  * @param[in]  h     CLIgen handle
@@ -398,22 +401,33 @@ cligen_alias_call(cligen_handle h,
     cvec         *cvv2 = NULL;
     cligen_result result;
     char         *reason = NULL;
+    static int    depth = 0;
 
+    depth++;
     if (argv == NULL || cvec_len(argv) != 1){
         errno = EINVAL;
         goto done;
     }
+    if (depth > ALIAS_DEPTH_MAX){
+        errno = ELOOP;
+        goto done;
+    }
     if ((pt = cligen_pt_active_get(h)) == NULL){
         errno = ENOENT;
         goto done;
     }
     if (cliread_parse(h, cvec_i_str(argv, 0), pt, &matchobj, &cvv2, &result, &reason) < 0)
         goto done;
-    if (result == CG_MATCH)
-        if (cligen_eval(h, matchobj, cvv2) < 0)
-            goto done;
+    if (result != CG_MATCH){
+        fprintf(stderr, "CLI syntax error in: \"%s\": %s\n", cvec_i_str(argv, 0), reason?reason:"");
+        errno = EINVAL;
+        goto done;
+    }
+    if (cligen_eval(h, matchobj, cvv2) < 0)
+        goto done;
     retval = 0;
  done:
+    depth--;
     if (matchobj)
         co_free(matchobj, 0);
     if (cvv2)
-- 
2.43.0


From 336843780e77871186913122f357e97c717f9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 56/82] fix: an alias crashed when the application had set a
 user handle

---
 cligen_read.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index fec4e19..b834a0c 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -76,6 +76,7 @@
 #include "cligen_match.h"
 #include "cligen_io.h"
 #include "cligen_expand.h"
+#include "cligen_syntax.h"
 #include "cligen_history_internal.h"
 #include "cligen_getline.h"
 
@@ -1064,7 +1065,8 @@ cligen_eval(cligen_handle h,
             /* Eval wrapper function so upper layers can make checks before and after callback */
             if (wrapfn)
                 (*wrapfn)(wraparg, &wh, cc->cc_fn_str, __FUNCTION__);
-            if ((*fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
+            /* Callbacks of the library itself need the cligen handle */
+            if ((*fn)(cligen_userhandle(h) && fn != cligen_alias_call ? cligen_userhandle(h) : h,
                                 cvv1,
                                 argv) < 0){
                 if (argv != NULL)
-- 
2.43.0


From 05f4b06bf63480b15c9ac9c7b2fc90e0289cb45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 57/82] fix: a pipe function with much output, or one not
 reading all its input, blocked or killed the program or lost output

Reading and writing of the pipe function's socket are interleaved, and what a terminated function has not read is dropped
---
 cligen_io.c   | 70 +++++++++++++++++++++++++++++++++++++++++++++++----
 cligen_read.c |  2 ++
 2 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index b0fa9b8..78f4090 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -39,6 +39,8 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <sys/types.h>
+#include <sys/socket.h>
+#include <poll.h>
 #include <string.h>
 #ifndef WIN32
 #include <unistd.h>
@@ -217,6 +219,68 @@ cligen_output_scroll(FILE   *f,
     return retval;
 }
 
+/*! Write to output pipe function, and meanwhile forward what it writes
+ *
+ * The pipe function reads and writes the same socket: if its output is not read, it may never
+ * read the rest of its input.
+ * A pipe function need not read all its input: what is left when it has terminated is dropped
+ * @param[in] s       Pipe output socket
+ * @param[in] inbuf   Input buffer
+ * @param[in] inbuflen Length of inbuf
+ * @retval    0       OK
+ * @retval   -1       Error
+ */
+static int
+cligen_output_pipe(int     s,
+                   char   *inbuf,
+                   ssize_t inbuflen)
+{
+    int           retval = -1;
+    struct pollfd pfd = {0,};
+    char          buf[4097];
+    ssize_t       len;
+
+    while (inbuflen > 0){
+        pfd.fd = s;
+        pfd.events = POLLIN | POLLOUT;
+        if (poll(&pfd, 1, -1) < 0){
+            if (errno == EINTR)
+                continue;
+            perror("cligen_output poll on pipe socket");
+            goto done;
+        }
+        if (pfd.revents & ~POLLOUT){
+            if ((len = recv(s, buf, 4096, MSG_DONTWAIT)) == 0)
+                break;
+            if (len > 0){
+                buf[len] = '\0';
+                cligen_output_basic(stdout, buf, len);
+            }
+            else if (errno == ECONNRESET)
+                break;
+            else if (errno != EAGAIN && errno != EINTR){
+                perror("cligen_output read on pipe socket");
+                goto done;
+            }
+        }
+        if (pfd.revents & POLLOUT){
+            if ((len = send(s, inbuf, inbuflen, MSG_DONTWAIT | MSG_NOSIGNAL)) > 0){
+                inbuf += len;
+                inbuflen -= len;
+            }
+            else if (errno == EPIPE || errno == ECONNRESET)
+                break;
+            else if (errno != EAGAIN && errno != EINTR){
+                perror("cligen_output write on pipe socket");
+                goto done;
+            }
+        }
+    }
+    retval = 0;
+ done:
+    return retval;
+}
+
 /*! CLIgen output function. All printf-style output should be made via this function.
  *
  * Note only scrolling for stdout
@@ -290,12 +354,8 @@ cligen_output(FILE       *f,
     if (cli_pipe_output_socket_get(&s) < 0)
         goto done;
     if (s != -1){
-        if (write(s, inbuf, inbuflen) < 0){
-            perror("cligen_output write on pipe socket");
-            close(s);
-            cli_pipe_output_socket_set(-1);
+        if (cligen_output_pipe(s, inbuf, inbuflen) < 0)
             goto done;
-        }
     }
     else{
         /* if writing to stdout, format output
diff --git a/cligen_read.c b/cligen_read.c
index b834a0c..72eddd8 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -964,6 +964,8 @@ cligen_eval_pipe_post(cligen_handle h,
         /* Read until EOF */
         while (ret != 0) {
             if ((len = read(s, buf, 4096)) < 0){
+                if (errno == ECONNRESET) /* Pipe function did not read all its input */
+                    break;
                 perror("cli_pipe_exec_cb, read");
                 goto done;
             }
-- 
2.43.0


From 5abd6d1a16201310b6be4d15376371e4ac487e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 58/82] fix: a failing or nested pipe function left a process
 and a descriptor, lost or misdirected output

The pipe function is always waited for and output restored; several pipe functions are connected after each other;
a pipe function that pauses is not cut off; buffered output is not printed by the child as well
---
 cligen_io.c   |  59 ++++++++++++++-----
 cligen_io.h   |   1 +
 cligen_read.c | 158 ++++++++++++++++++++++++++++----------------------
 3 files changed, 137 insertions(+), 81 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 78f4090..0adda8a 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -85,25 +85,41 @@
 static int D_LINES=0; /* XXX: global */
 static int D_COLUMNS=0; /* XXX: global */
 
-static int PIPE_OUTPUT_SOCKET = -1;
+/* Output pipe sockets, the last one is active: its output goes to the one before, etc.
+ * There are several if there are several pipe functions, or if the callback of a piped command
+ * evaluates a piped command, eg an alias
+ */
+#define PIPE_OUTPUT_MAX 64
+static int PIPE_OUTPUT_SOCKETS[PIPE_OUTPUT_MAX];
+static int PIPE_OUTPUT_LEN = 0;
 
-/*! Get output pipe socket
+/*! Get output pipe socket, or -1 if none
  */
 int
 cli_pipe_output_socket_get(int *s)
 {
     if (s){
-        *s = PIPE_OUTPUT_SOCKET;
+        *s = PIPE_OUTPUT_LEN ? PIPE_OUTPUT_SOCKETS[PIPE_OUTPUT_LEN-1] : -1;
     }
     return 0;
 }
 
-/*! Set output pipe socket
+/*! Set output pipe socket, or -1 to restore the one set before
  */
 int
 cli_pipe_output_socket_set(int s)
 {
-    PIPE_OUTPUT_SOCKET = s;
+    if (s == -1){
+        if (PIPE_OUTPUT_LEN)
+            PIPE_OUTPUT_LEN--;
+    }
+    else {
+        if (PIPE_OUTPUT_LEN == PIPE_OUTPUT_MAX){
+            errno = ENOSPC;
+            return -1;
+        }
+        PIPE_OUTPUT_SOCKETS[PIPE_OUTPUT_LEN++] = s;
+    }
     return 0;
 }
 
@@ -224,14 +240,14 @@ cligen_output_scroll(FILE   *f,
  * The pipe function reads and writes the same socket: if its output is not read, it may never
  * read the rest of its input.
  * A pipe function need not read all its input: what is left when it has terminated is dropped
- * @param[in] s       Pipe output socket
+ * @param[in] i       Index of pipe output socket
  * @param[in] inbuf   Input buffer
  * @param[in] inbuflen Length of inbuf
  * @retval    0       OK
  * @retval   -1       Error
  */
 static int
-cligen_output_pipe(int     s,
+cligen_output_pipe(int     i,
                    char   *inbuf,
                    ssize_t inbuflen)
 {
@@ -239,6 +255,7 @@ cligen_output_pipe(int     s,
     struct pollfd pfd = {0,};
     char          buf[4097];
     ssize_t       len;
+    int           s = PIPE_OUTPUT_SOCKETS[i];
 
     while (inbuflen > 0){
         pfd.fd = s;
@@ -254,7 +271,12 @@ cligen_output_pipe(int     s,
                 break;
             if (len > 0){
                 buf[len] = '\0';
-                cligen_output_basic(stdout, buf, len);
+                if (i > 0){
+                    if (cligen_output_pipe(i-1, buf, len) < 0)
+                        goto done;
+                }
+                else
+                    cligen_output_basic(stdout, buf, len);
             }
             else if (errno == ECONNRESET)
                 break;
@@ -328,7 +350,6 @@ cligen_output(FILE       *f,
     int     term_rows;
     int     term_width;
     ssize_t inbuflen;
-    int     s = -1;
     int     paging;
 
     /* Get terminal width and height, note discussion regarding NULL handle */
@@ -351,10 +372,8 @@ cligen_output(FILE       *f,
         linelen = term_width;
     else
         linelen = inbuflen;
-    if (cli_pipe_output_socket_get(&s) < 0)
-        goto done;
-    if (s != -1){
-        if (cligen_output_pipe(s, inbuf, inbuflen) < 0)
+    if (PIPE_OUTPUT_LEN){
+        if (cligen_output_pipe(PIPE_OUTPUT_LEN-1, inbuf, inbuflen) < 0)
             goto done;
     }
     else{
@@ -417,6 +436,20 @@ cligen_output_basic(FILE  *f,
     return retval;
 }
 
+/*! Output of a pipe function: write to the enclosing pipe function, if any, or to stdout
+ *
+ * @param[in] inbuf    Null-terminated buffer
+ * @param[in] inbuflen Length of inbuf
+ */
+int
+cligen_output_forward(char  *inbuf,
+                      size_t inbuflen)
+{
+    if (PIPE_OUTPUT_LEN)
+        return cligen_output_pipe(PIPE_OUTPUT_LEN-1, inbuf, inbuflen);
+    return cligen_output_basic(stdout, inbuf, inbuflen);
+}
+
 #ifdef notyet
 /*
  * Yes/No question. Returns 1 for yes and 0 for no.
diff --git a/cligen_io.h b/cligen_io.h
index a51a38a..8792c3a 100644
--- a/cligen_io.h
+++ b/cligen_io.h
@@ -64,6 +64,7 @@ int  cli_output_reset(void);
 int  cli_output_status(void);
 int  cligen_output(FILE *f, const char *templ, ... ) __attribute__ ((format (printf, 2, 3)));
 int  cligen_output_basic(FILE *f, char *inbuf, size_t inbuflen);
+int  cligen_output_forward(char *inbuf, size_t inbuflen);
 int  cligen_regfd(int fd, cligen_fd_cb_t *cb, void *arg);
 int  cligen_unregfd(int fd);
 void cligen_redraw(cligen_handle h);
diff --git a/cligen_read.c b/cligen_read.c
index 72eddd8..c808dc8 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -53,6 +53,7 @@
 #include <unistd.h>
 #include <termios.h>
 #include <fcntl.h>
+#include <poll.h>
 #endif /* WIN32 */
 #define __USE_GNU /* isblank() */
 #include <ctype.h>
@@ -846,15 +847,12 @@ static int
 cligen_eval_poll(int          s,
                  unsigned int usec)
 {
-    fd_set         fdset;
-    struct timeval tv = {0,};
-    int            ret;
+    struct pollfd pfd = {0,};
+    int           ret;
 
-    FD_ZERO(&fdset);
-    FD_SET(s, &fdset);
-    tv.tv_sec = usec/1000000;
-    tv.tv_usec = usec%1000000;
-    if ((ret = select(FD_SETSIZE, &fdset, NULL, NULL, &tv)) < 0)
+    pfd.fd = s;
+    pfd.events = POLLIN;
+    if ((ret = poll(&pfd, 1, usec/1000)) < 0)
         perror("cligen_eval_poll");
     return ret;
 }
@@ -892,38 +890,46 @@ cligen_eval_pipe_pre(cligen_handle h,
     int            spair[2] = {-1, -1};
     cgv_fnstype_t *fn;
 
+    if ((fn = co_callback_fn_get(cc)) == NULL){
+        errno = EINVAL;
+        goto done;
+    }
+    /* What is buffered is not output of the pipe function */
+    fflush(NULL);
     if (socketpair(AF_UNIX, SOCK_STREAM, 0, spair) < 0)
         goto done;
     if ((*pidp = fork()) < 0)
         goto done;
     if (*pidp == 0) {   /* Child */
         close(spair[0]);
-        close(0);
-        if (dup2(spair[1], STDIN_FILENO) < 0){
-            goto done;
-        }
-        close(1);
-        if (dup2(spair[1], STDOUT_FILENO) < 0){
-            goto done;
-        }
-        close(spair[1]);
-        fn = co_callback_fn_get(cc);
+        if (dup2(spair[1], STDIN_FILENO) < 0 ||
+            dup2(spair[1], STDOUT_FILENO) < 0)
+            _exit(1);
+        if (spair[1] != STDIN_FILENO && spair[1] != STDOUT_FILENO)
+            close(spair[1]);
         signal_unblock(SIGTERM);
         signal_unblock(SIGINT);
 
         if ((retval = (*fn)(cligen_userhandle(h)?cligen_userhandle(h):h, cvv, cc->cc_cvec)) != 0)
             fprintf(stderr, "%s child retval:%d\n", __FUNCTION__, retval);
-        exit(retval);
+        fflush(NULL);
+        _exit(retval); /* No exit handlers or streams of parent */
     }
     /* parent */
-    close(spair[1]);
     /* for cligen_output */
-    if (cli_pipe_output_socket_set(spair[0]) < 0)
+    if (cli_pipe_output_socket_set(spair[0]) < 0){
+        kill(*pidp, SIGTERM);
+        waitpid(*pidp, NULL, 0);
         goto done;
-    if (spipe)
-        *spipe = spair[0];
+    }
+    *spipe = spair[0];
+    spair[0] = -1;
     retval = 0;
  done:
+    if (spair[0] != -1)
+        close(spair[0]);
+    if (spair[1] != -1)
+        close(spair[1]);
     return retval;
 }
 
@@ -931,63 +937,62 @@ cligen_eval_pipe_pre(cligen_handle h,
  *
  * Given socket to pipe function, close write side, poll/read and redirect to
  * basic output function, then wait for child completion
+ * The pipe function is gone and output is reset afterwards, also on error
  * @param[in]  h        CLIgen handle
- * @param[in]  s0       Socket
+ * @param[in]  s        Socket
  * @param[in]  childpid Pid of child
  */
 static int
 cligen_eval_pipe_post(cligen_handle h,
-                      int           s0,
+                      int           s,
                       pid_t         childpid)
 {
     int     retval = -1;
+    int     err = 0;
     int     ret;
     int     status;
     char    buf[4097];
     ssize_t len;
-    int     s;
 
-    cli_pipe_output_socket_get(&s);
-    if (s != -1) {
-        /* Close write side of socket */
-        if (shutdown(s, SHUT_WR) < 0){
-            perror("shutdown");
-            goto done;
-        }
+    if (cli_pipe_output_socket_set(-1) < 0)
+        err++;
+    /* Close write side of socket */
+    if (shutdown(s, SHUT_WR) < 0){
+        perror("shutdown");
+        err++;
+    }
+    while (err == 0) {
         /* Block until input is available */
         do {
-            if ((ret = cligen_eval_poll(s, 1000*1000)) < 0){
-                goto done;
-            }
+            if ((ret = cligen_eval_poll(s, 1000*1000)) < 0)
+                err++;
         }
         while (ret == 0);
+        if (err)
+            break;
         /* Read until EOF */
-        while (ret != 0) {
-            if ((len = read(s, buf, 4096)) < 0){
-                if (errno == ECONNRESET) /* Pipe function did not read all its input */
-                    break;
-                perror("cli_pipe_exec_cb, read");
-                goto done;
-            }
-            if (len == 0)
+        if ((len = read(s, buf, 4096)) < 0){
+            if (errno == ECONNRESET) /* Pipe function did not read all its input */
                 break;
-            buf[len] = '\0';
-            cligen_output_basic(stdout, buf, len);
-            /* Immediate poll: possibility if writer is slow that input is dropped due
-             * to starving of child in (maybe) single process systems
-             */
-            if ((ret = cligen_eval_poll(s, CLI_PIPE_TIMEOUT_US)) < 0)
-                goto done;
+            perror("cli_pipe_exec_cb, read");
+            err++;
+            break;
         }
-        if (cli_pipe_output_socket_set(-1) < 0)
-            goto done;
+        if (len == 0)
+            break;
+        buf[len] = '\0';
+        if (cligen_output_forward(buf, len) < 0)
+            err++;
     }
     kill(childpid, SIGTERM);
     /* On success, returns the process ID of the terminated child */
-    if(waitpid(childpid, &status, 0) != childpid){
+    while ((ret = waitpid(childpid, &status, 0)) < 0 && errno == EINTR);
+    if (ret != childpid){
         perror("waitpid");
         goto done;
     }
+    if (err)
+        goto done;
     retval = 0;
     if (WIFEXITED(status)){
         ret = WEXITSTATUS(status);
@@ -1025,8 +1030,11 @@ cligen_eval(cligen_handle h,
     cligen_eval_wrap_fn *wrapfn = NULL;
     void          *wraparg = NULL;
     void          *wh = NULL; /* eval wrap handle */
-    int            spipe = -1;
-    pid_t          childpid = 0;
+    int            npipe = 0; /* Number of started pipe functions */
+    int            nr = 0;
+    int            i;
+    int           *spipe = NULL;
+    pid_t         *childpid = NULL;
 
     /* Save matched object for plugin use */
     if (h == NULL){
@@ -1049,12 +1057,24 @@ cligen_eval(cligen_handle h,
         cvec_exclude_keys(cvv1) < 0)
         goto done;
     cligen_eval_wrap_fn_get(h, &wrapfn, &wraparg);
-    /* First round: Start sub-processes for output pipe functions and redirect stdio */
-    for (cc = co->co_callbacks; cc; cc=co_callback_next(cc)){
-        if ((cc->cc_flags & CC_FLAGS_PIPE_FUNCTION) == 0x0)
-            continue;
-        if (cligen_eval_pipe_pre(h, cc, cvv1, &spipe, &childpid) < 0)
+    /* First round: Start sub-processes for output pipe functions and redirect stdio
+     * If there are several, the last one is started first: its input is the output of the others
+     */
+    for (cc = co->co_callbacks; cc; cc=co_callback_next(cc))
+        if (cc->cc_flags & CC_FLAGS_PIPE_FUNCTION)
+            nr++;
+    if (nr &&
+        ((spipe = calloc(nr, sizeof(*spipe))) == NULL ||
+         (childpid = calloc(nr, sizeof(*childpid))) == NULL))
+        goto done;
+    while (npipe < nr){
+        i = nr - npipe; /* From last to first */
+        for (cc = co->co_callbacks; cc; cc=co_callback_next(cc))
+            if ((cc->cc_flags & CC_FLAGS_PIPE_FUNCTION) && --i == 0)
+                break;
+        if (cligen_eval_pipe_pre(h, cc, cvv1, &spipe[npipe], &childpid[npipe]) < 0)
             goto done;
+        npipe++;
     }
     /* Second round, call regular callbacks */
     for (cc = co->co_callbacks; cc; cc=co_callback_next(cc)){
@@ -1083,15 +1103,17 @@ cligen_eval(cligen_handle h,
             cligen_fn_str_set(h, NULL);
         }
     }
-    if (childpid){
-        if (cligen_eval_pipe_post(h, spipe, childpid) < 0){
-            goto done;
-        }
-    }
     retval = 0;
  done:
-    if (spipe != -1)
-        close(spipe);
+    while (npipe-- > 0){
+        if (cligen_eval_pipe_post(h, spipe[npipe], childpid[npipe]) < 0)
+            retval = -1;
+        close(spipe[npipe]);
+    }
+    if (spipe)
+        free(spipe);
+    if (childpid)
+        free(childpid);
     if (wh)
         free(wh);
     if (cvv1)
-- 
2.43.0


From 334d966418a5c2a43f1bc5df1b44b6d789ec378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 59/82] fix: output was lost after a null byte, and when the
 terminal became narrower within a line the pager crashed or stopped

---
 cligen_io.c | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 0adda8a..ae433fa 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -145,6 +145,7 @@ cli_output_status(void)
  *
  * @param[in] f           Open stdio FILE pointer
  * @param[in] ibuf        Input buffer containing all chars to be printed including 0 or many \n
+ * @param[in] ibuflen     Length of ibuf
  * @param[in] linelen     Length of single printable line, less than or equal to width of
  *                        terminal window, unless the terminal window is 0
  * @param[in] term_rows   Height of terminal window
@@ -153,25 +154,23 @@ cli_output_status(void)
 static int
 cligen_output_scroll(FILE   *f,
                      char   *ibuf,
+                     size_t  ibuflen,
                      ssize_t linelen,
                      int     term_rows)
 {
-    int     retval = -1;
     char   *ibend;
     char   *ib0;  /* Moving window start */
     char   *ib1;  /* Moving window end */
     char   *ibcr;
     int     c;
-    char   *linebuf = NULL;
     ssize_t remain;
 
     ib0 = ibuf;
     ib1 = ibuf;
-    ibend = ibuf + strlen(ibuf);
-    /* A terminal line */
-    if ((linebuf = malloc(linelen+1)) == NULL)
-        goto done;
+    ibend = ibuf + ibuflen;
     remain = linelen - D_COLUMNS;
+    if (remain <= 0) /* Terminal has become narrower */
+        remain = linelen;
     while (ib1 < ibend && D_LINES >= 0){
         /* Four cases:
          * 1. There is a CR in [ib0,ibend]
@@ -181,7 +180,7 @@ cligen_output_scroll(FILE   *f,
          *   2a) greater than remain: (inc D_LINE)
          *   2b) less than or equal to remain:
          */
-        if ((ibcr = strstr(ib0, "\n")) != NULL){
+        if ((ibcr = memchr(ib0, '\n', ibend-ib0)) != NULL){
             if ((ibcr - ib0) >= remain){
                 ib1 = ib0 + remain; /* 1a */
                 D_LINES++;
@@ -204,9 +203,7 @@ cligen_output_scroll(FILE   *f,
         }
         if (ib0 == ib1)
             break;
-        memcpy(linebuf, ib0, (ib1-ib0));
-        linebuf[(ib1-ib0)] = '\0';
-        fprintf(f, "%s", linebuf);
+        fwrite(ib0, 1, ib1-ib0, f);
         ib0 = ib1;
         if (D_LINES >= (term_rows -1)){
             gl_char_init();
@@ -228,11 +225,7 @@ cligen_output_scroll(FILE   *f,
         }
     }
     D_COLUMNS = linelen-remain;
-    retval = 0;
- done:
-    if (linebuf)
-        free(linebuf);
-    return retval;
+    return 0;
 }
 
 /*! Write to output pipe function, and meanwhile forward what it writes
@@ -380,11 +373,11 @@ cligen_output(FILE       *f,
         /* if writing to stdout, format output
          */
         if (paging && term_rows && (f == stdout)){
-            if (cligen_output_scroll(f, inbuf, linelen, term_rows) < 0)
+            if (cligen_output_scroll(f, inbuf, inbuflen, linelen, term_rows) < 0)
                 goto done;
         }
         else{
-            fprintf(f, "%s", inbuf);
+            fwrite(inbuf, 1, inbuflen, f);
         }
         fflush(f);
     }
@@ -424,11 +417,11 @@ cligen_output_basic(FILE  *f,
     /* if writing to stdout, format output
      */
     if (paging && term_rows && (f == stdout)){
-        if (cligen_output_scroll(f, inbuf, linelen, term_rows) < 0)
+        if (cligen_output_scroll(f, inbuf, inbuflen, linelen, term_rows) < 0)
             goto done;
     }
     else{
-        fprintf(f, "%s", inbuf);
+        fwrite(inbuf, 1, inbuflen, f);
     }
     fflush(f);
     retval = 0;
-- 
2.43.0


From 995f042c05437094dc3c19b9771cde198c7a24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 60/82] fix: an error reading the terminal left an undefined
 key and the line editor never ended

---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index ae337fc..970b930 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -441,7 +441,7 @@ gl_getc(cligen_handle h)
         }
         break;
     }
-    if (c == 0){
+    if (c <= 0){ /* eof or error, such as a terminal that is gone */
         gl_iseof++;
         cligen_buf(h)[0] = 0; /* clean exit from gl? */
         gl_cleanup();
-- 
2.43.0


From 20b32044fcdec2ef870344a7115fafb566b1459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 61/82] fix: keys typed ahead at a page prompt were lost to the
 line editor

---
 cligen_io.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_io.c b/cligen_io.c
index ae433fa..5617e11 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -163,6 +163,8 @@ cligen_output_scroll(FILE   *f,
     char   *ib1;  /* Moving window end */
     char   *ibcr;
     int     c;
+    ssize_t i;
+    unsigned char ch;
     ssize_t remain;
 
     ib0 = ibuf;
@@ -209,7 +211,9 @@ cligen_output_scroll(FILE   *f,
             gl_char_init();
             fprintf(f, "--More--");
             fflush(f);
-            c = fgetc(stdin);
+            /* Read one key only, as the line editor: others may be part of next command line */
+            while ((i = read(STDIN_FILENO, &ch, 1)) < 0 && errno == EINTR);
+            c = i == 1 ? ch : EOF;
             if (c == '\n')
                 D_LINES--;
             else if (c == ' ')
-- 
2.43.0


From e5224f3859513cb67cd67ed625a6b798a132911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 62/82] fix: one more line on a terminal of one row was taken
 as quit

---
 cligen_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 5617e11..39fafeb 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -214,8 +214,10 @@ cligen_output_scroll(FILE   *f,
             /* Read one key only, as the line editor: others may be part of next command line */
             while ((i = read(STDIN_FILENO, &ch, 1)) < 0 && errno == EINTR);
             c = i == 1 ? ch : EOF;
-            if (c == '\n')
-                D_LINES--;
+            if (c == '\n'){
+                if (D_LINES > 0) /* Negative means quit */
+                    D_LINES--;
+            }
             else if (c == ' ')
                 D_LINES = 0;
             else if (c == 'q' || c == 3) /* ^c */
-- 
2.43.0


From 6d968f742d2eaf654914efe13677188c90f9f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 63/82] fix: treename= in a spec added to a parse-tree of the
 caller registers that tree twice

---
 cligen_parse.h  |  1 +
 cligen_parse.y  | 14 +++++++++-----
 cligen_syntax.c |  3 ++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cligen_parse.h b/cligen_parse.h
index cc84047..869abc1 100644
--- a/cligen_parse.h
+++ b/cligen_parse.h
@@ -66,6 +66,7 @@ struct cligen_parse_yacc{
     cligen_handle         cy_handle;       /* cligen_handle */
     char                 *cy_name;         /* Name of syntax (for error string) */
     char                 *cy_treename;     /* Name of syntax (for error string) */
+    parse_tree           *cy_pt;           /* Parse-tree of the caller, if any (owned by caller) */
     int                   cy_linenum;      /* Number of \n in parsed buffer */
     char                 *cy_parse_string; /* original (copy of) parse string */
     void                 *cy_lexbuf;       /* internal parse buffer from lex */
diff --git a/cligen_parse.y b/cligen_parse.y
index 6def613..cd764b5 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -246,16 +246,20 @@ cgy_treename(cligen_yacc *cy,
             if ((co=pt_vec_i_get(pt, i)) != NULL)
                 co_up_set(co, NULL);
         }
-        if ((ph = cligen_ph_add(cy->cy_handle, cy->cy_treename)) == NULL)
-            goto done;
-        if (cligen_ph_parsetree_set(ph, pt) < 0)
-            goto done;
+        ph = NULL;
+        if (pt != cy->cy_pt){ /* The parse-tree of the caller is already owned */
+            if ((ph = cligen_ph_add(cy->cy_handle, cy->cy_treename)) == NULL)
+                goto done;
+            if (cligen_ph_parsetree_set(ph, pt) < 0)
+                goto done;
+        }
         /* 3. Create new parse-tree XXX */
         if ((pt = pt_new()) == NULL)
             goto done;
         co_pt_clear(cot);
         co_pt_set(cot, pt);
-        if ((cv = cvec_find(cy->cy_globals, "pipetree")) != NULL){
+        if (ph != NULL &&
+            (cv = cvec_find(cy->cy_globals, "pipetree")) != NULL){
             char *str;
             if ((str = cv_string_get(cv)) != NULL && strlen(str))
                 if (cligen_ph_pipe_set(ph, str) < 0)
diff --git a/cligen_syntax.c b/cligen_syntax.c
index 2b2ef67..e6eb8e8 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -107,6 +107,7 @@ clispec_parse_str(cligen_handle h,
         if ((pt = pt_new()) == NULL)
             goto done;
     co_pt_set(cot, pt);
+    cy.cy_pt = ptp;
     if (cvv)
         cy.cy_globals  = cvv;
     else
@@ -128,7 +129,7 @@ clispec_parse_str(cligen_handle h,
         /* Note pt/ptp is stale after parsing due to treename that replaces cot->pt
          * Add final tree */
         pt = co_pt_get(cot);
-        if (ptp == NULL){
+        if (pt != ptp){
             if ((ph = cligen_ph_add(cy.cy_handle, cy.cy_treename)) == NULL)
                 goto done;
             if (cligen_ph_parsetree_set(ph, pt) < 0)
-- 
2.43.0


From bc1156d4cdb55d88964db99800e353d758a8932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:25 +0000
Subject: [PATCH 64/82] fix: unbounded recursion for a tree whose top-level
 references lead back to itself

---
 cligen_expand.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index c1effc4..6c582c4 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -362,6 +362,13 @@ co_find_label_filters(cligen_handle h,
     return retval;
 }
 
+/*! Chain of trees being expanded by tree references, innermost first
+ */
+struct ref_chain{
+    struct ref_chain *rc_up;   /* Tree containing the reference */
+    parse_tree       *rc_pt;   /* Referenced tree */
+};
+
 /*! Make a pt expand of single co using shallow copy
  *
  * @param[in]   h          Handle needed to resolve tree-references (\@tree)
@@ -369,6 +376,7 @@ co_find_label_filters(cligen_handle h,
  * @param[in]   cvv_filter Add these to expanded nodes co_filter, eg remove them
  * @param[in]   cvt        Tokenized string: vector of tokens
  * @param[in]   ptorig     Original parsetree
+ * @param[in]   up         Trees already being expanded, or NULL
  * @param[out]  ptnew      Expanded parse-tree to expand. In: original, out: expanded
  * @retval      0          OK
  * @retval     -1          Error
@@ -377,6 +385,9 @@ co_find_label_filters(cligen_handle h,
  * a:
  * @b
  * This is to handle cases of predefined trees, like @datamodel
+ * A reference to a tree that is already being expanded adds nothing new and is skipped, eg:
+ * a:
+ * @a
  */
 static int
 co_expand_treeref_copy_shallow(cligen_handle h,
@@ -384,9 +395,12 @@ co_expand_treeref_copy_shallow(cligen_handle h,
                                cvec         *cvv_filter,
                                cvec         *cvt,
                                parse_tree   *ptorig,
+                               struct ref_chain *up,
                                parse_tree   *ptnew)
 {
     int         retval = -1;
+    struct ref_chain  chain;
+    struct ref_chain *rc;
     cg_obj     *coparent;
     int         i;
     cg_obj     *cot;            /* treeref object */
@@ -399,6 +413,8 @@ co_expand_treeref_copy_shallow(cligen_handle h,
         errno = EINVAL;
         goto done;
     }
+    chain.rc_up = up;
+    chain.rc_pt = ptorig;
     coparent = co_up(co0);
     for (i=0; i<pt_len_get(ptorig); i++){
         if ((cot = pt_vec_i_get(ptorig, i)) == NULL)
@@ -409,6 +425,11 @@ co_expand_treeref_copy_shallow(cligen_handle h,
         if (cot->co_type == CO_REFERENCE){
             if (tree_resolve(h, cot, cvt, &ptref2) < 0)
                 goto done;
+            for (rc = &chain; rc != NULL; rc = rc->rc_up)
+                if (rc->rc_pt == ptref2)
+                    break;
+            if (rc != NULL) /* Already being expanded */
+                continue;
             if ((cvv = cvec_new(0)) == NULL)
                 goto done;
             if (co_find_label_filters(h, cot, cvv) < 0)
@@ -421,7 +442,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
                 if (cvec_append_var(cvv, cv) == NULL)
                     goto done;
             }
-            if (co_expand_treeref_copy_shallow(h, co0, cvv, cvt, ptref2, ptnew) < 0)
+            if (co_expand_treeref_copy_shallow(h, co0, cvv, cvt, ptref2, &chain, ptnew) < 0)
                 goto done;
             cvec_free(cvv);
             cvv = NULL;
@@ -873,7 +894,7 @@ pt_expand_reference(cligen_handle h,
     if (co_find_label_filters(h, coref, cvv2) < 0)
         goto done;
     /* Expand ptref to pttmp */
-    if (co_expand_treeref_copy_shallow(h, coref, cvv2, cvv_var, ptref, pttmp) < 0)
+    if (co_expand_treeref_copy_shallow(h, coref, cvv2, cvv_var, ptref, NULL, pttmp) < 0)
         goto done;
     /* Copy the expand tree to the final tree.
      */
-- 
2.43.0


From 61f27947cdace67f4f18e638fa4ad5fe0a119ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 65/82] fix: leak when a url variable is parsed a second time

---
 cligen_cv.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 2b59d94..c6d301d 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1630,7 +1630,8 @@ parse_url(char   *url,
     if (strncmp(tmp, "://", 3)) /* :// */
         goto warn;
     *tmp = '\0';
-    cv->var_urlproto = strdup(str);
+    if (cv_urlproto_set(cv, str) == NULL)
+        goto done;
     str = tmp+3;
     if ((tmp = strchr(str, '@')) != NULL){
         /* user field */
@@ -1638,26 +1639,34 @@ parse_url(char   *url,
         if ((tmp2 = strchr(str, ':')) != NULL){
             /* user:passwd field */
             *tmp2 = '\0';
-            cv->var_urlpasswd = strdup(tmp2+1);
+            if (cv_urlpasswd_set(cv, tmp2+1) == NULL)
+                goto done;
         }
         else
-            cv->var_urlpasswd = strdup("");
-        cv->var_urluser = strdup(str);
+            if (cv_urlpasswd_set(cv, "") == NULL)
+                goto done;
+        if (cv_urluser_set(cv, str) == NULL)
+            goto done;
         str = tmp+1;
     }
     else{
-        cv->var_urluser = strdup("");
-        cv->var_urlpasswd = strdup("");
+        if (cv_urluser_set(cv, "") == NULL)
+            goto done;
+        if (cv_urlpasswd_set(cv, "") == NULL)
+            goto done;
     }
     if ((tmp = strchr(str, '/')) != NULL)
         *tmp = '\0';
-    cv->var_urladdr = strdup(str);
+    if (cv_urladdr_set(cv, str) == NULL)
+        goto done;
     if (tmp){
         str = tmp+1;
-        cv->var_urlpath = strdup(str);
+        if (cv_urlpath_set(cv, str) == NULL)
+            goto done;
     }
     else
-        cv->var_urlpath = strdup("");
+        if (cv_urlpath_set(cv, "") == NULL)
+            goto done;
     retval = 1; /* OK */
   done:
     if (str0)
-- 
2.43.0


From e72e8a4eca44022614165626c67edb2c8c66e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 66/82] fix: null pointers of an url variable that has no value
 yet are printed and compared

---
 cligen_cv.c | 55 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index c6d301d..c6b20b4 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -66,6 +66,9 @@
 
 #include "cligen_cv_internal.h"
 
+/* Part of an url that may not be set */
+#define CV_URLSTR(s) ((s)?(s):"")
+
 /*
  * URL protocol strings
  */
@@ -2424,13 +2427,13 @@ cv2cbuf(cg_var *cv,
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
         cprintf(cb, "%s://%s%s%s%s%s/%s",
-                cv->var_urlproto,
-                cv->var_urluser,
-                strlen(cv->var_urlpasswd)?":":"",
-                cv->var_urlpasswd,
-                strlen(cv->var_urluser)||strlen(cv->var_urlpasswd)?"@":"",
-                cv->var_urladdr,
-                cv->var_urlpath
+                CV_URLSTR(cv->var_urlproto),
+                CV_URLSTR(cv->var_urluser),
+                strlen(CV_URLSTR(cv->var_urlpasswd))?":":"",
+                CV_URLSTR(cv->var_urlpasswd),
+                strlen(CV_URLSTR(cv->var_urluser))||strlen(CV_URLSTR(cv->var_urlpasswd))?"@":"",
+                CV_URLSTR(cv->var_urladdr),
+                CV_URLSTR(cv->var_urlpath)
             );
         break;
     case CGV_UUID:
@@ -2560,13 +2563,13 @@ cv2str(cg_var *cv,
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
         len = snprintf(str, size, "%s://%s%s%s%s%s/%s",
-                       cv->var_urlproto,
-                       cv->var_urluser,
-                       strlen(cv->var_urlpasswd)?":":"",
-                       cv->var_urlpasswd,
-                       strlen(cv->var_urluser)||strlen(cv->var_urlpasswd)?"@":"",
-                       cv->var_urladdr,
-                       cv->var_urlpath
+                       CV_URLSTR(cv->var_urlproto),
+                       CV_URLSTR(cv->var_urluser),
+                       strlen(CV_URLSTR(cv->var_urlpasswd))?":":"",
+                       CV_URLSTR(cv->var_urlpasswd),
+                       strlen(CV_URLSTR(cv->var_urluser))||strlen(CV_URLSTR(cv->var_urlpasswd))?"@":"",
+                       CV_URLSTR(cv->var_urladdr),
+                       CV_URLSTR(cv->var_urlpath)
             );
         break;
     case CGV_UUID:
@@ -2707,13 +2710,13 @@ cv_print(FILE   *f,
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
         fprintf(f, "%s://%s%s%s%s%s/%s",
-                cv->var_urlproto,
-                cv->var_urluser,
-                strlen(cv->var_urlpasswd)?":":"",
-                cv->var_urlpasswd,
-                strlen(cv->var_urluser)||strlen(cv->var_urlpasswd)?"@":"",
-                cv->var_urladdr,
-                cv->var_urlpath
+                CV_URLSTR(cv->var_urlproto),
+                CV_URLSTR(cv->var_urluser),
+                strlen(CV_URLSTR(cv->var_urlpasswd))?":":"",
+                CV_URLSTR(cv->var_urlpasswd),
+                strlen(CV_URLSTR(cv->var_urluser))||strlen(CV_URLSTR(cv->var_urlpasswd))?"@":"",
+                CV_URLSTR(cv->var_urladdr),
+                CV_URLSTR(cv->var_urlpath)
             );
         break;
     case CGV_UUID:
@@ -3575,15 +3578,15 @@ cv_cmp(cg_var *cv1,
         return memcmp(&cv1->var_macaddr, &cv2->var_macaddr,
                       sizeof(cv1->var_macaddr));
     case CGV_URL:
-        if ((n = strcmp(cv1->var_urlproto, cv2->var_urlproto)))
+        if ((n = strcmp(CV_URLSTR(cv1->var_urlproto), CV_URLSTR(cv2->var_urlproto))))
             return n;
-        if ((n = strcmp(cv1->var_urladdr, cv2->var_urladdr)))
+        if ((n = strcmp(CV_URLSTR(cv1->var_urladdr), CV_URLSTR(cv2->var_urladdr))))
             return n;
-        if ((n = strcmp(cv1->var_urlpath, cv2->var_urlpath)))
+        if ((n = strcmp(CV_URLSTR(cv1->var_urlpath), CV_URLSTR(cv2->var_urlpath))))
             return n;
-        if ((n = strcmp(cv1->var_urluser, cv2->var_urluser)))
+        if ((n = strcmp(CV_URLSTR(cv1->var_urluser), CV_URLSTR(cv2->var_urluser))))
             return n;
-        return  strcmp(cv1->var_urlpasswd, cv2->var_urlpasswd);
+        return  strcmp(CV_URLSTR(cv1->var_urlpasswd), CV_URLSTR(cv2->var_urlpasswd));
     case CGV_UUID:
         return memcmp(cv1->var_uuid, cv2->var_uuid, 16);
     case CGV_TIME:
-- 
2.43.0


From cff60d3c9f92ec557deeb131838a8690a14b4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 67/82] fix: line editor starts in search mode if input ended
 in the middle of a search

---
 cligen_getline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 970b930..df52fb9 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -612,6 +612,7 @@ gl_getline(cligen_handle h,
     gl_init1();
     gl_prompt = (cligen_prompt(h))? cligen_prompt(h) : "";
     cligen_buf(h)[0] = 0;
+    gl_search_mode = 0; /* may be left on if previous line ended with EOF */
     if (gl_in_hook)
         gl_in_hook(h, cligen_buf(h));
     gl_fixup(h, gl_prompt, -2, cligen_buf_size(h));
-- 
2.43.0


From 6f71ce910e0d82a6c1c71b16f5611c722c79a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 68/82] fix: endless loop compiling an XML schema regexp which
 is not valid UTF-8

---
 cligen_regex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_regex.c b/cligen_regex.c
index 94621bc..80b5140 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -242,6 +242,8 @@ cligen_regex_libxml2_compile(char  *regexp0,
     xmlChar   *regexp  = (xmlChar*)regexp0;
     xmlRegexp *xrp = NULL;
 
+    if (xmlCheckUTF8(regexp) == 0) /* libxml2 may loop on an invalid string */
+        goto fail;
     if ((xrp = xmlRegexpCompile(regexp)) == NULL)
         goto fail;
     *recomp = xrp;
-- 
2.43.0


From 2537ee2085e8e85e5a0d59ab9bf8ef788fe427f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:36 +0000
Subject: [PATCH 69/82] fix: pt_vec_i_get reads beyond the last object of a
 parse-tree

---
 cligen_parsetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index 5f2e4df..34a8a22 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -135,7 +135,7 @@ pt_vec_i_get(parse_tree *pt,
              int         i)
 {
     struct cg_obj **ptvec;
-    if (pt == NULL || i<0 || i>pt->pt_len){
+    if (pt == NULL || i<0 || i>=pt->pt_len){
        errno = EINVAL;
        return NULL;
     }
-- 
2.43.0


From 9302e4d14a3930fbce5c17165e2d5a489ee24b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:36 +0000
Subject: [PATCH 70/82] fix: null pointer when dumping statistics of an empty
 specification

---
 cligen_parsetree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index 34a8a22..c2bb82e 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -114,6 +114,10 @@ pt_stats(parse_tree *pt,
     size_t  sz = 0;
     int     i;
 
+    if (pt == NULL){
+        errno = EINVAL;
+        return -1;
+    }
     *nrp += 1;
     pt_stats_one(pt, &sz);
     if (szp)
-- 
2.43.0


From 0a0a93813fef6370fecab945f8bd924e08b9003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 71/82] fix: endless loop over the objects of an empty (NULL)
 parse-tree

---
 cligen_parsetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index c2bb82e..7511fd4 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -262,7 +262,7 @@ pt_len_get(parse_tree *pt)
 {
     if (pt == NULL){
        errno = EINVAL;
-       return -1;
+       return 0;
     }
     return pt->pt_len;
 }
-- 
2.43.0


From 2f4e681d5f09dce98a15bf72ea5ed757c6a1c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 72/82] fix: variables with a regular expression and with its
 inversion are merged into one

---
 cligen_object.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_object.c b/cligen_object.c
index 5ab13ae..570261a 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -967,6 +967,8 @@ co_eq(cg_obj *co1,
                     cv2 = cvec_i(co2->co_regex, i);
                     if ((eq = str_cmp(cv_string_get(cv1), cv_string_get(cv2))) != 0)
                         goto done;
+                    if ((eq = cv_flag(cv1, V_INVERT) - cv_flag(cv2, V_INVERT)) != 0)
+                        goto done;
                 }
                 if (cvec_len(co1->co_regex) < cvec_len(co2->co_regex))
                     eq = -1;
-- 
2.43.0


From ea944fc97f54e7361d73cef887d959c74734acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 73/82] fix: variables of an expansion function with different
 arguments are merged into one

---
 cligen_object.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index 570261a..d2656f4 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -943,7 +943,15 @@ co_eq(cg_obj *co1,
             goto done;
         /* Examine expand: at least one set, and then strcmp */
         if (co1->co_expand_fn_str!=NULL || co2->co_expand_fn_str!=NULL){
-            eq = str_cmp(co1->co_expand_fn_str, co2->co_expand_fn_str);
+            int i;
+
+            /* The same function with other arguments may give other alternatives */
+            if ((eq = str_cmp(co1->co_expand_fn_str, co2->co_expand_fn_str)) == 0 &&
+                (eq = cvec_len(co1->co_expand_fn_vec) - cvec_len(co2->co_expand_fn_vec)) == 0)
+                for (i=0; i<cvec_len(co1->co_expand_fn_vec); i++)
+                    if ((eq = cv_cmp(cvec_i(co1->co_expand_fn_vec, i),
+                                     cvec_i(co2->co_expand_fn_vec, i))) != 0)
+                        break;
             goto done;
         }
         /* Should we examine co_translate_fn_str? */
-- 
2.43.0


From 61ab2035d2ee33e320b830eb91cdb977386501ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:31 +0000
Subject: [PATCH 74/82] fix: tree resolve function of nested references got
 values instead of the words of the line

---
 cligen_expand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 6c582c4..235398b 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -894,7 +894,7 @@ pt_expand_reference(cligen_handle h,
     if (co_find_label_filters(h, coref, cvv2) < 0)
         goto done;
     /* Expand ptref to pttmp */
-    if (co_expand_treeref_copy_shallow(h, coref, cvv2, cvv_var, ptref, NULL, pttmp) < 0)
+    if (co_expand_treeref_copy_shallow(h, coref, cvv2, cvt, ptref, NULL, pttmp) < 0)
         goto done;
     /* Copy the expand tree to the final tree.
      */
-- 
2.43.0


From 665e6d6973e5580e260ce1d5cc3306d660ac3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:14 +0000
Subject: [PATCH 75/82] fix: appending more than 2 GiB to a cbuf overflowed an
 int and wrote outside the buffer

---
 cligen_buf.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index d686483..9046766 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -213,17 +213,16 @@ static int
 cbuf_realloc(cbuf  *cb,
              size_t sz)
 {
-    int retval = -1;
-    int diff;
+    int    retval = -1;
+    size_t len;
 
-    diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
-    if (diff <= 0){
-        while (diff <= 0){
+    len = cb->cb_strlen + sz + 1;
+    if (cb->cb_buflen <= len){
+        while (cb->cb_buflen <= len){
             if (cbuflen_threshold == 0 || cb->cb_buflen < cbuflen_threshold)
                 cb->cb_buflen *= 2; /* Double the space - exponential */
             else
                 cb->cb_buflen += cbuflen_threshold; /* Add - linear growth*/
-            diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
         }
         if ((cb->cb_buffer = realloc(cb->cb_buffer, cb->cb_buflen)) == NULL)
             goto done;
-- 
2.43.0


From 8591822ccd9397e042f194e75b2449566afb6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:59 +0000
Subject: [PATCH 76/82] fix: time values do not depend on local timezone

---
 cligen_cv.c | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index c6b20b4..2923b3c 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1984,28 +1984,9 @@ str2time(const char     *in,
     tm->tm_hour = hour;
     tm->tm_min = min;
     tm->tm_sec = sec;
-    if ((t = mktime(tm)) < 0)
+    /* The time is UTC, regardless of local timezone */
+    if ((t = timegm(tm)) < 0)
         goto done;
-#if 0 /* If I enable this, I get 1h extra when loading from file in summer.
-         When parsing a timestamp such as 2013-04-03T10:50:36 from file to cv
-         (and db). So that when it is printed again it is 2013-04-03T11:50:36
-         I dont know why I enabled it in the first place. That is why I make this
-         note.
-      */
-    if (tm->tm_isdst) /* Daylight savings time */
-        t += 3600; /* add hour */
-#endif
-    /* Must adjust with timezone, since mktime() assumes tm i local but it is UTC! */
-#ifdef linux
-    t = t - timezone;
-#else
-    {
-        struct timeval tv;
-        struct timezone tz;
-        gettimeofday(&tv, &tz);
-        t = t - tz.tz_minuteswest*60;
-    }
-#endif
     tv->tv_sec = t;
     tv->tv_usec = usec;
     retval = 0;
-- 
2.43.0


From 5b8522c9dcf1901567767757721f22475b24bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:59 +0000
Subject: [PATCH 77/82] fix: signals do not interrupt reading of filter output

---
 cligen_read.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index c808dc8..760f297 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -852,8 +852,11 @@ cligen_eval_poll(int          s,
 
     pfd.fd = s;
     pfd.events = POLLIN;
-    if ((ret = poll(&pfd, 1, usec/1000)) < 0)
+    if ((ret = poll(&pfd, 1, usec/1000)) < 0){
+        if (errno == EINTR)
+            return 0;
         perror("cligen_eval_poll");
+    }
     return ret;
 }
 
@@ -972,6 +975,8 @@ cligen_eval_pipe_post(cligen_handle h,
             break;
         /* Read until EOF */
         if ((len = read(s, buf, 4096)) < 0){
+            if (errno == EINTR)
+                continue;
             if (errno == ECONNRESET) /* Pipe function did not read all its input */
                 break;
             perror("cli_pipe_exec_cb, read");
-- 
2.43.0


From 87dc7e3f5ed998ab7f195cdfc1919a6173c41a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 78/82] fix: terminal settings are restored when output is
 paged while a line is edited

---
 cligen_getline.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index df52fb9..1e064f3 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -80,6 +80,7 @@ static void     search_forw(cligen_handle h, int new);  /* look forw for current
 
 /* begin global variables */
 static int      gl_init_done = -1;      /* terminal mode flag  */
+static int      gl_char_nest = 0;       /* number of gl_char_init not yet undone */
 static int      gl_termw = 80;          /* actual terminal width */
 static int      gl_utf8 = 0;            /* UTF-8 experimental mode */
 static int      gl_scrolling_mode = 1;  /* Scrolling on / off */
@@ -176,6 +177,9 @@ struct dsc$descriptor_s descrip;     /* VMS descriptor */
 void
 gl_char_init(void)                      /* turn off input echo */
 {
+    /* Already off, eg paged output while a line is edited: keep the original settings */
+    if (gl_char_nest++ > 0)
+        return;
 #ifdef __unix__
 #ifdef POSIX
     tcgetattr(0, &old_termios);
@@ -237,6 +241,8 @@ gl_char_init(void)                      /* turn off input echo */
 void
 gl_char_cleanup(void)           /* undo effects of gl_char_init */
 {
+    if (gl_char_nest > 0 && --gl_char_nest > 0)
+        return;
 #ifdef __unix__
 #ifdef POSIX
     tcsetattr(0, TCSADRAIN, &old_termios);
-- 
2.43.0


From 3c2f5cbeb13f8297950f06614dd1c8dc122a22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:19 +0000
Subject: [PATCH 79/82] fix: a set of another tree stays a set when trees are
 merged

---
 cligen_parsetree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index 7511fd4..e1da198 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -475,6 +475,9 @@ cligen_parsetree_merge(parse_tree *pt0,
             continue;
         }
         if (exist){
+            /* A set stays a set, as when parsed in one grammar */
+            if (pt_sets_get(co_pt_get(co1)) > 0)
+                pt_sets_set(co_pt_get(co0), 1);
             if (cligen_parsetree_merge(co_pt_get(co0), co0, co_pt_get(co1)) < 0)
                 goto done;
         }
-- 
2.43.0


From f162aa6af3d0c3052c42cd5a3e2f1f1629295f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:05 +0000
Subject: [PATCH 80/82] fix: help text and set of a command shared with a
 referenced tree are kept

---
 cligen_object.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cligen_object.c b/cligen_object.c
index d2656f4..6e1894e 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1188,6 +1188,10 @@ co_merge_shadow(cg_obj *co0,
         if (co_flags_get(co0, CO_FLAGS_SHADOW) && co_flags_get(co1, CO_FLAGS_SHADOW))
             co0->co_treeref_orig = co1->co_treeref_orig;
     }
+    /* Same for help-text as when parsed in one grammar */
+    if (co0->co_helpstring == NULL && co1->co_helpstring != NULL &&
+        (co0->co_helpstring = strdup(co1->co_helpstring)) == NULL)
+        goto done;
     if (pt0 == pt1 || pt1 == NULL || pt_len_get(pt1) == 0)
         goto ok;
     if (!co_flags_get(co0, CO_FLAGS_OWNPT)){
@@ -1206,6 +1210,8 @@ co_merge_shadow(cg_obj *co0,
     }
     if ((ptn = pt_shadow(pt1, co0, !co_flags_get(co1, CO_FLAGS_OWNPT))) == NULL)
         goto done;
+    if (pt_sets_get(pt1) > 0)
+        pt_sets_set(pt0, 1);
     for (i=0; i<pt_len_get(ptn); i++){
         if ((co = pt_vec_i_get(ptn, i)) == NULL)
             continue;
-- 
2.43.0


From f7f5447441dc527e76b6611e7a6fad397fc24cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:34 +0000
Subject: [PATCH 81/82] fix: redrawing shows the whole line, and the search
 prompt during a search

---
 cligen_getline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 1e064f3..3a350ab 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1174,7 +1174,8 @@ gl_redraw(cligen_handle h)
 {
     if (gl_init_done > 0) {
         gl_putc('\n');
-        gl_fixup(h, cligen_prompt(h), -2, gl_pos);
+        gl_extent = 0;          /* all of the line, whatever the last key changed */
+        gl_fixup(h, gl_search_mode ? search_prompt : cligen_prompt(h), -2, gl_pos);
     }
 }
 
-- 
2.43.0


From b2595b8cfb0c37dfcbec4071c8b40e1cc224c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:32 +0000
Subject: [PATCH 82/82] fix: no first element is returned of an emptied vector

---
 cligen_cvec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index e6217ad..a0af6c1 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -187,6 +187,7 @@ cvec_reset(cvec *cvv)
  * @param[in]  cvv  The cligen variable vector
  * @param[in]  cv0  Return element after this, or first element if this is NULL
  * @retval     cv   Next element
+ * @retval     NULL No more elements
  */
 cg_var *
 cvec_next(cvec   *cvv,
@@ -197,8 +198,10 @@ cvec_next(cvec   *cvv,
 
     if (cvv == NULL)
         return NULL;
-    if (cv0 == NULL)
-        cv = cvv->vr_vec;
+    if (cv0 == NULL) {
+        if (cvv->vr_len > 0)
+            cv = cvv->vr_vec;
+    }
     else {
         i = cv0 - cvv->vr_vec;
         if (i < cvv->vr_len-1)
-- 
2.43.0

