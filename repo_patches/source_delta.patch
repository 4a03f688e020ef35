From ddc36f31e3f30dc0aff028c320b64b14008298c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 1/8] fix: edit: untabbing a line overran the result (buffer
 too small, length over-counted)

---
 src/mmvstr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index c0d6836..3da5a61 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -387,7 +387,9 @@ temp_vstring edit(const char *sin, long control) {
 
   // Copy string
   i = (long)strlen(sin) + 1;
-  if (untab_flag) i = i * 7; // Allow for max possible length
+  // Allow for max possible length (a tab may become 8 spaces; tabbing a line
+  // untabs it first)
+  if (untab_flag || tab_flag) i = i * 8;
   temp_vstring sout = tempAlloc(i);
   strcpy(sout, sin);
 
@@ -560,7 +562,7 @@ temp_vstring edit(const char *sin, long control) {
       for (j = i; j < i + 8 - ((m - 1) & 7); j++) {
         sout[j - 1] = ' ';
       }
-      k = k + 8 - ((m - 1) & 7);
+      k = k + 8 - ((m - 1) & 7) - 1; // One tab became 8 - ((m - 1) & 7) spaces
     }
   }
 
-- 
2.43.0


From 0c811bbce12785b1340a896d2e7c5b2e364ee57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 2/8] fix: edit: tabbing a line that starts with 8 spaces read
 before the buffer

---
 src/mmvstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 3da5a61..f8252e0 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -596,7 +596,7 @@ temp_vstring edit(const char *sin, long control) {
       // error message returns.
       m = i - 2;
 
-      while (sout[j - 1] == ' ' && j > i - 8) j--;
+      while (j > i - 8 && sout[j - 1] == ' ') j--;
       if (j <= m) {
         sout[j] = '\t';
         j = i;
-- 
2.43.0


From 7b3bf9932f416b7b1964edddc33768c91be2183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 3/8] fix: verifyProof returned 0 when the result of a proof is
 not the statement being proved

---
 src/mmveri.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmveri.c b/src/mmveri.c
index 792740f..60767d4 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -195,6 +195,7 @@ char verifyProof(long statemNum) {
             "\" to see the proof attempt.",NULL));
       }
       g_WrkProof.errorCount++;
+      returnFlag = 2; // The result is not the statement being proved
     }
   }
 
-- 
2.43.0


From 0ba7be214b0758238067578a81083b238aa17d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 4/8] fix: parseCompressedProof: a long run of digits
 overflowed the label index

---
 src/mmpars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 12c4043..9bde50c 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -7,6 +7,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <limits.h>
 #include "mmvstr.h"
 #include "mmdata.h"
 #include "mminou.h"
@@ -3183,7 +3184,8 @@ char parseCompressedProof(long statemNum)
         if (!labelMapIndex) {
           labelMapIndex = chrWeight[(long)(fbPtr[0])] + 1;
           labelStart = fbPtr; // Save label start for error msg
-        } else {
+        } else if (labelMapIndex < LONG_MAX / 200) {
+          // (A larger index is out of range anyway; it must not overflow.)
           labelMapIndex = labelMapIndex * digitsLen +
               chrWeight[(long)(fbPtr[0])] + 1;
           if (bggyAlgo) labelMapIndex--; // Adjust for buggy algorithm
-- 
2.43.0


From 3113a987a49b78a0e62eebe368a7b67f52b7b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 5/8] fix: whiteSpaceLen read past the end of a text ending in
 an unterminated comment whose last character is '$'

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 9bde50c..8171fd6 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3685,7 +3685,7 @@ long whiteSpaceLen(char *ptr) {
             }
           }
           // end in-line strchr code
-          if (!ptr1) {
+          if (!ptr1 || !ptr1[1]) {
             return i + (long)strlen(&ptr[i]); // Unterminated comment - goto EOF
           }
           if (ptr1[1] == ')') break;
-- 
2.43.0


From bc4a682c43b9beec45dbdd1e9369af576520d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 6/8] fix: whiteSpaceLen stopped with bug(1716) on a $! comment
 in a text without a newline

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 8171fd6..bef863f 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3696,7 +3696,7 @@ long whiteSpaceLen(char *ptr) {
       } else {
         if (ptr[i + 1] == '!') {
           ptr1 = strchr(ptr + i + 2, '\n');
-          if (!ptr1) bug(1716);
+          if (!ptr1) return i + (long)strlen(&ptr[i]); // Last line - goto EOF
           i = ptr1 - ptr + 1;
           continue;
         }
-- 
2.43.0


From f1aba3302443246908f5a3239badd9fb3f797f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 7/8] fix: texDefWhiteSpaceLen missed the end of a comment
 ending in **/ and could read past an unterminated comment ending in *

---
 src/mmwtex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 484acf0..f17139e 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -849,7 +849,7 @@ long texDefWhiteSpaceLen(char *ptr)
             return i + (long)strlen(&ptr[i]); // Unterminated comment - goto EOF
           }
           if (ptr1[1] == '/') break;
-          i = ptr1 - ptr;
+          i = ptr1 - ptr - 1; // Resume the search after this '*'
         }
         i = ptr1 - ptr + 2;
         continue;
-- 
2.43.0


From 6e1db2d36a3247a3396ab09b03a5289dd506ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:42 +0000
Subject: [PATCH 8/8] fix: no bug(2110) when unknown hypotheses leave a
 variable at the end of the instance

---
 src/mmveri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmveri.c b/src/mmveri.c
index 60767d4..88f1a92 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -768,7 +768,7 @@ ambiguityCheck: // Re-entry point to see if unification is unique
       p = substSchemeFrstVarOcc[v] + 1;
       q = substInstFrstVarOcc[v] + varAssLen[v];
       if (bigSubstInstAss[q - 1] != g_mathTokens) break;
-      if (q >= bigSubstInstLen) bug(2110);
+      // (q may be bigSubstInstLen here when hypotheses are unknown)
     }
     ambiguityCheckFlag = 1;
     goto ambiguityCheck;
-- 
2.43.0

