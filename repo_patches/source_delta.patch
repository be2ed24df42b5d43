From e0549e8cefd177fcd15c99bcf2097a590a054f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 01/19] fix: lower-casing changed the multiplication sign and
 U+1E96..U+1E9C

toLower mapped U+00D7 to U+00F7 and U+1E96, U+1E98, U+1E9A, U+1E9C to their
successors; none of these characters has a lower case mapping.
---
 source/bits10/char_to_lower.cxx | 8 ++++----
 source/bits11/char_to_lower.cxx | 8 ++++----
 source/bits12/char_to_lower.cxx | 8 ++++----
 source/bits13/char_to_lower.cxx | 8 ++++----
 source/bits14/char_to_lower.cxx | 8 ++++----
 source/bits15/char_to_lower.cxx | 8 ++++----
 source/bits16/char_to_lower.cxx | 8 ++++----
 source/bits7/char_to_lower.cxx  | 8 ++++----
 source/bits8/char_to_lower.cxx  | 8 ++++----
 source/bits9/char_to_lower.cxx  | 8 ++++----
 10 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index bc5e614..695857c 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index bc5e614..695857c 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 68a1ef1..2007beb 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 9a582fa..20b53b3 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 050b5c3..18112e1 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 050b5c3..18112e1 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 7d6ad65..2b4a0a5 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -283,7 +283,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index b1b6a32..e735e3d 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -264,7 +264,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index d411f80..f56bbac 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 5efc45b..112d955 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
-- 
2.43.0


From 325b3625eb34c675fdbf1d6d7f0d23cdf1b5e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 02/19] fix: lower-case Georgian Mtavruli and Medefaidrin from
 Unicode 11 on

The Unicode 11 to 16 tables left these upper-case letters, added in
Unicode 11, unchanged.
---
 source/bits11/char_to_lower.cxx | 12 ++++++++++++
 source/bits12/char_to_lower.cxx | 12 ++++++++++++
 source/bits13/char_to_lower.cxx | 12 ++++++++++++
 source/bits14/char_to_lower.cxx | 12 ++++++++++++
 source/bits15/char_to_lower.cxx | 12 ++++++++++++
 source/bits16/char_to_lower.cxx |  9 +++++++++
 6 files changed, 69 insertions(+)

diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 695857c..3ef1a26 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -538,6 +546,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 2007beb..15904c3 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -543,6 +551,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 20b53b3..039c47f 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -546,6 +554,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 18112e1..af9acaa 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +558,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 18112e1..af9acaa 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +558,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 2b4a0a5..9e21737 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -276,6 +276,11 @@ char16_t toLower1000(char16_t c)
         {
             return 0x1C8A;
         }
+        else if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
         break;
 
     case 0x1E:
@@ -569,6 +574,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
-- 
2.43.0


From e7ee77a65656cfb0564cfc50befcafeb3c490a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:32 +0000
Subject: [PATCH 03/19] fix: lower-casing changed three unassigned code points
 in Unicode 16

U+1057B, U+1058B and U+10593, gaps between the Vithkuqi capitals, were
mapped to other unassigned code points.
---
 source/bits16/char_to_lower.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 9e21737..7893780 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -557,7 +557,8 @@ char32_t toLower(char32_t c)
         {
             return c + 0x28;
         }
-        else if (c >= 0x10570 && c <= 0x10595)
+        else if (c >= 0x10570 && c <= 0x10595 &&
+                 c != 0x1057B && c != 0x1058B && c != 0x10593)
         {
             return c + 0x27;
         }
-- 
2.43.0


From e65c471505e52e9ce294e7dfa16e700dd9557979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:51 +0000
Subject: [PATCH 04/19] fix: converting UTF-16 with a lone trailing surrogate
 to UTF-8 must fail

It produced the three-byte encoding of a surrogate, which this library's own
decoder rejects; the conversion to UCS-4 already failed.
---
 source/string.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 97a658f..e093c65 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -503,6 +503,10 @@ string toUtf8(const char16_t* src)
                 char32_t c32 = rawDecodeUtf16(c, c1);
                 encodeUtf8(c32, adder);
             }
+            else if (isSecondHalfUtf16(c))
+            {
+                return string();
+            }
             else
             {
                 encodeUtf8(c, adder);
-- 
2.43.0


From f3391be5a42f47113941968edd667b5b6a1d39a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:58 +0000
Subject: [PATCH 05/19] fix: isUtf16 applied its predicate to half of a
 surrogate pair

The predicate was given the leading surrogate in place of the character, so
no string with a character beyond U+FFFF could be valid-if-assigned.
---
 source/string.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/string.cxx b/source/string.cxx
index e093c65..c75d17b 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -378,7 +378,7 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
         {
             return false;
         }
-        auto c = *p;
+        char32_t c = *p;
         RangeTypeFlags charFlag;
         /* Never hit, 2nd half UTF16 is invalid range
         if (isSecondHalfUtf16(c))
@@ -395,6 +395,7 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
             // Could make this function call but it is unnecessary
             // charFlag = getCharEncodableRangeFlags(rawDecodeUtf16(c, c1));
             charFlag = k21BitUnicodeFlags;
+            c = rawDecodeUtf16(static_cast<char16_t>(c), c1);
         }
         else
         {
-- 
2.43.0


From c5412489f1528b990d7f370158e7f4181937ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:07 +0000
Subject: [PATCH 06/19] fix: isUcs4 and isUtf8 called 0x110000..0x1fffff
 encodable in UTF-16

toUtf16 fails for them, contrary to the documented guarantee that a string
that passes re-encodes in the target encoding.
---
 source/string_internal.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 0409b51..5beb710 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -68,9 +68,9 @@ enum RangeTypeFlags : int {
 
     k7BitFlags  = kAsciiFlag | kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3f
     k16BitFlags =              kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3e
-    k21BitFlags =              kUtf8Flag |             kUtf16Flag | kUcs4Flag,                  // 0x1a
+    k21BitFlags =              kUtf8Flag |                          kUcs4Flag,                  // 0x12
 
-    k21BitUnicodeFlags = k21BitFlags | kUnicodeFlag,                             // 0x3a,
+    k21BitUnicodeFlags = k21BitFlags | kUtf16Flag | kUnicodeFlag,                // 0x3a,
     k31BitFlags =              kUtf8Flag |                          kUcs4Flag,   // 0x12
     k32BitFlags =                                                   kUcs4Flag    // 0x10
 };
@@ -173,7 +173,7 @@ RangeTypeFlags getCharEncodableRangeFlags(C c)
     }
     else if (c < 0x200000)
     {
-        return static_cast<RangeTypeFlags>(k21BitFlags | getUnicodeEncodableRangeFlag(c));
+        return getUnicodeEncodableRangeFlag(c) == kUnicodeFlag ? k21BitUnicodeFlags : k21BitFlags;
     }
     else
     {
-- 
2.43.0


From a66a905076315d9bd84c7d6e475688d128deafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 07/19] fix: unicodeLength of nothing but an incomplete
 sequence wrapped around

It returned 0xffffffff; there are no characters, so it returns 0.
---
 source/string.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index c75d17b..62b0813 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -809,7 +809,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0) ? (r - 1) : 0;
+            return (*p == 0 && r != 0) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -882,7 +882,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         auto c1 = p[1];
         if (isFirstHalf && c1 == 0)
         {
-            return r - 1;
+            return r != 0 ? (r - 1) : 0;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From 1740691fdc96c5eb8f5ea001e6a5ecdd9f1223bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:23 +0000
Subject: [PATCH 08/19] fix: unicodeLength of a null UTF-16 or UCS-4 pointer
 crashed

The other scans, the UTF-8 unicodeLength among them, accept a null pointer.
---
 source/string.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 62b0813..4c87318 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -851,6 +851,11 @@ unsigned int unicodeLength(const utf16String& src)
 
 unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
 {
+    if (!src || !*src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
@@ -930,6 +935,11 @@ unsigned int unicodeLength(const ucs4String& src)
 
 unsigned int unicodeLength(const char32_t* src, unsigned int testLength)
 {
+    if (!src || !*src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
-- 
2.43.0


From db16d52adc4b2ee3b3d37d72efaa659762742375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 09/19] fix: length-terminated scans read one unit beyond the
 buffer

The UTF-8 scans looked at the third byte of a sequence with two bytes left, and
the UTF-16 unicodeLength at the unit after the last one.
---
 source/string.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 4c87318..50bc237 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -181,8 +181,9 @@ inline bool isFirstHalfUtf16AsUtf8
 // Utility function to decide if a to-be-decoded character must be teh second
 // half of a UTF-16 character in two UTF-8 values.
 //
-// Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+// Note: Call only if p points to 3-character sequence start AND there is
+//       at least one more byte available in the character stream: the first
+//       two bytes decide, whatever the third one is
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isSecondHalfUtf16
 
@@ -194,7 +195,7 @@ inline bool isSecondHalfUtf16AsUtf8
     return isSecondHalfUtf16(rawDecodeUtf8(
                 static_cast<unsigned char>(p[0]),
                 static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+                0));
 }
 
 //=========================================================================
@@ -884,7 +885,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         }
 
         // or if null terminated, is there another piece?
-        auto c1 = p[1];
+        auto c1 = isFirstHalf ? p[1] : char16_t(0);
         if (isFirstHalf && c1 == 0)
         {
             return r != 0 ? (r - 1) : 0;
-- 
2.43.0


From 2c9511749baadaf3b3e62ebca201169654756399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:38 +0000
Subject: [PATCH 10/19] fix: length-terminated UTF-8 scans accepted malformed
 sequences

Bytes that cannot continue the last sequence, invalid first bytes and nulls
inside a sequence ended the scan with success instead of failure.
---
 source/string.cxx | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 50bc237..c4d599c 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -198,6 +198,31 @@ inline bool isSecondHalfUtf16AsUtf8
                 0));
 }
 
+//=========================================================================
+// Utility function to decide if the bytes left in a length-terminated buffer,
+// too few for the sequence they start, could be the beginning of that sequence
+//
+// Returns true if every byte after the first one can continue the sequence
+
+bool isUtf8CutShort
+(
+    const char*         p,          // I - points to start of the last sequence
+    unsigned int        lengthLeft  // I - bytes available there, at least 1
+)
+{
+    for (unsigned int i = 1; i < lengthLeft; ++i)
+    {
+        auto uc = static_cast<unsigned char>(p[i]);
+        // the fourth byte of a UTF-16 pair in UTF-8 starts its second half
+        bool startsSecondHalf = i == 3 && sequenceSizeCharStarts(p) == 3;
+        if (startsSecondHalf ? (uc < 0xe0 || uc > 0xef) : (uc < 0x80 || uc > 0xbf))
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 //=========================================================================
 // Utility function to check the UTF-8 encoding of a length- or null-
 // terminated string of bytes.
@@ -266,7 +291,7 @@ bool isUtf8
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return true;
+                return isUtf8CutShort(p, lengthLeft);
             }
         }
 
@@ -281,7 +306,8 @@ bool isUtf8
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return *p == 0;
+            // and so is a null inside a length-terminated scan
+            return *p == 0 && !lengthTerminated;
         }
 
         // decoded -- how much was used?
@@ -774,8 +800,12 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         // sequence, quit, now
         if (lengthTerminated)
         {
-            // result will always be positive, p is never nullptr
-            unsigned int seqStarts = sequenceSizeCharStarts(p);
+            int seqSize = sequenceSizeCharStarts(p);
+            if (seqSize < 0)
+            {
+                return 0;
+            }
+            unsigned int seqStarts = seqSize;
             // "3" long sequences might be UTF-16 parts
             if (seqStarts == 3)
             {
@@ -793,7 +823,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return r;
+                return isUtf8CutShort(p, lengthLeft) ? r : 0;
             }
         }
         // GUARANTEE: if lengthTerminated, lengthLeft >= to-be-usedThisTime
@@ -810,7 +840,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0 && r != 0) ? (r - 1) : 0;
+            return (*p == 0 && r != 0 && !lengthTerminated) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -888,7 +918,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         auto c1 = isFirstHalf ? p[1] : char16_t(0);
         if (isFirstHalf && c1 == 0)
         {
-            return r != 0 ? (r - 1) : 0;
+            return (r != 0 && !lengthTerminated) ? (r - 1) : 0;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From 47ad74d792dd99b5b04e16a89441c45117dc30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:48 +0000
Subject: [PATCH 11/19] fix: join dropped delimiters that are the null
 character

---
 interface/string_splitjoin.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interface/string_splitjoin.hxx b/interface/string_splitjoin.hxx
index 6121fe5..b9cfbcb 100644
--- a/interface/string_splitjoin.hxx
+++ b/interface/string_splitjoin.hxx
@@ -126,15 +126,13 @@ std::basic_string<C> join(const std::vector< std::basic_string<C> >& src, C deli
     }
     else
     {
-        C delimStr[2] = {0};
-        delimStr[0] = delim;
         return_type r;
         bool first = true;
         for (auto s : src)
         {
             if (!first)
             {
-                r.append(delimStr);
+                r.push_back(delim);
             }
             first = false;
             r.append(s);
-- 
2.43.0


From 9af6b5d6e08712fec8089f2bd326da330ee8297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:54 +0000
Subject: [PATCH 12/19] fix: a predicate with contradictory conditions accepted
 characters

validIf(x).andIfNot(x) behaved like validIf(x).
---
 source/encoding_check_predicate.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/encoding_check_predicate.cxx b/source/encoding_check_predicate.cxx
index 1200c8b..2b53e3c 100644
--- a/source/encoding_check_predicate.cxx
+++ b/source/encoding_check_predicate.cxx
@@ -55,6 +55,10 @@ namespace {
 EncodingTypeFlags encodingTypeToEncodingFlag[kFirstInvalidEncoding] =
     { kNoneFlag, kIsAssignedFlag, kIsPrivateFlag, kIsControlFlag, kIsWhiteSpaceFlag };
 
+// in a predicate's value and never in a character's encoding mask: marks a
+// predicate that asks for a property to be both present and absent
+const uint32_t kContradictionFlag = 0x80000000;
+
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -89,6 +93,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIf
 )
 {
     EncodingCheckPredicate other(toCheckFor);
+    if ((m_mask & other.m_mask & (m_value ^ other.m_value)) != 0)
+    {
+        m_value |= kContradictionFlag;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
@@ -103,6 +111,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIfNot
 )
 {
     EncodingCheckPredicate other(toCheckFor, false);
+    if ((m_mask & other.m_mask & (m_value ^ other.m_value)) != 0)
+    {
+        m_value |= kContradictionFlag;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
-- 
2.43.0


From 849fe2c5e279864d3ca742ce1f6215b6cfbbb5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:01 +0000
Subject: [PATCH 13/19] fix: trimWhiteSpace left OGHAM SPACE MARK U+1680 in
 place

It is the one blank (Zs) missing from the lists.
---
 interface/string_trim.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 9965047..6b8672f 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -87,7 +87,7 @@ inline void trimAscii7WhiteSpace(std::string& victim)
 inline void trimWhiteSpace(ucs4String& victim)
 {
     trim(victim, std::u32string(
-            U"\U00000009\U0000000a\U0000000d \U000000a0\U00002000\U00002001\U00002002\U00002003"
+            U"\U00000009\U0000000a\U0000000d \U000000a0\U00001680\U00002000\U00002001\U00002002\U00002003"
             U"\U00002004\U00002005\U00002006\U00002007\U00002008\U00002009\U0000200a\U0000202f"
             U"\U0000205f\U00003000"));
 }
@@ -95,7 +95,7 @@ inline void trimWhiteSpace(ucs4String& victim)
 inline void trimWhiteSpace(utf16String& victim)
 {
     trim(victim, std::u16string(
-            u"\u0009\u000a\u000d \u00a0\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
+            u"\u0009\u000a\u000d \u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
             u"\u2009\u200a\u202f\u205f\u3000"));
 }
 
-- 
2.43.0


From f049896a48f7585fde7b3acbb21065f7daa1f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:16 +0000
Subject: [PATCH 14/19] fix: toTstring of a basic_string recursed for ever in
 _MBCS builds

The overloads for strings came before the ones for pointers they delegate to,
so they converted the pointer back to a string and called themselves.
---
 interface/string.hxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b3dc096..49bbdd7 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -760,11 +760,6 @@ inline utf8String toUtf8(const std::string& src) { return toUtf8(src.c_str()); }
 
 #if defined(_MBCS)
 
-inline std::string toTstring(const utf8String& test)
-{
-    return toTstring(test.c_str());
-}
-
 inline std::string toTstring(const char* test)
 {
     if (isUtf8(test, kAscii))
@@ -777,7 +772,7 @@ inline std::string toTstring(const char* test)
     }
 }
 
-inline std::string toTstring(const utf16String& test)
+inline std::string toTstring(const utf8String& test)
 {
     return toTstring(test.c_str());
 }
@@ -801,7 +796,7 @@ inline std::string toTstring(const char16_t* test)
     }
 }
 
-inline std::string toTstring(const ucs4String& test)
+inline std::string toTstring(const utf16String& test)
 {
     return toTstring(test.c_str());
 }
@@ -818,6 +813,11 @@ inline std::string toTstring(const char32_t* test)
     }
 }
 
+inline std::string toTstring(const ucs4String& test)
+{
+    return toTstring(test.c_str());
+}
+
 #elif defined(_UNICODE)
 
 inline std::wstring toTstring(const utf8String& test)
-- 
2.43.0


From 5e921b3bc06afb7de008c35e7496c63a217e3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:19 +0000
Subject: [PATCH 15/19] fix: wchar_t and TCHAR conversions crashed on a null
 pointer

They validated it as an empty string and then constructed a string from it; the
other conversions return an empty string.
---
 interface/string.hxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 49bbdd7..399c1f3 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -665,7 +665,7 @@ inline utf8String toUtf8(const std::wstring& src)
 inline utf16String toUtf16(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUtf16(redirect))
+    if (redirect && isUtf16(redirect))
     {
         return utf16String(redirect);
     }
@@ -681,7 +681,7 @@ inline utf16String toUtf16(const std::wstring& src)
 inline ucs2String toUcs2(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUcs2(redirect))
+    if (redirect && isUcs2(redirect))
     {
         return ucs2String(redirect);
     }
@@ -711,7 +711,7 @@ inline std::wstring toWstring(const utf8String& src)
 
 inline std::wstring toWstring(const char16_t* src)
 {
-    if (isUtf16(src))
+    if (src && isUtf16(src))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
@@ -746,7 +746,7 @@ inline std::wstring toWstring(const ucs4String& src)
 
 inline utf8String toUtf8(const char* src)
 {
-  if (isUtf8(src))
+  if (src && isUtf8(src))
   {
     return utf8String(src);
   }
@@ -762,7 +762,7 @@ inline utf8String toUtf8(const std::string& src) { return toUtf8(src.c_str()); }
 
 inline std::string toTstring(const char* test)
 {
-    if (isUtf8(test, kAscii))
+    if (test && isUtf8(test, kAscii))
     {
         return std::string(test);
     }
@@ -958,7 +958,7 @@ inline ucs2String toUcs2(const std::wstring& src)
 
 inline ucs4String toUcs4(const wchar_t* src)
 {
-    if (isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
+    if (src && isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
     {
         return ucs4String(reinterpret_cast<const char32_t*>(src));
     }
@@ -997,7 +997,7 @@ inline std::wstring toWstring(const ucs2String& src)
 
 inline std::wstring toWstring(const char32_t* src)
 {
-    if (isUcs4(src, kUtf16))
+    if (src && isUcs4(src, kUtf16))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
-- 
2.43.0


From c11b736f654ca1b05fa31206c75bdefa5dfecf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:41 +0000
Subject: [PATCH 16/19] fix: toTstring of UTF-16 in _UNICODE builds did not
 validate its input

Like every other conversion it must return an empty string for malformed input
and for a null pointer.
---
 interface/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 399c1f3..55b6617 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -832,7 +832,7 @@ inline std::wstring toTstring(const char* test)
 
 inline std::wstring toTstring(const utf16String& test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test.c_str()));
+    return toWstring(test);
 }
 
 /* ucs2String and utf16String are the same type under the hood
@@ -844,7 +844,7 @@ inline std::wstring toTstring(const ucs2String& test)
 
 inline std::wstring toTstring(const char16_t* test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test));
+    return toWstring(test);
 }
 
 inline std::wstring toTstring(const ucs4String& test)
-- 
2.43.0


From 928dd8244952acf8656abcd05749793f2ea51547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:50 +0000
Subject: [PATCH 17/19] fix: isTstring in _MBCS builds accepted what toTstring
 cannot convert

toTstring converts ASCII only there; a string that passes the test must convert.
---
 interface/string.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 55b6617..1918982 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -575,17 +575,17 @@ inline bool isUcs4(const std::string& test) { return isUcs4(test.c_str()); }
 
 inline bool isTstring(const utf8String& test)
 {
-    return isUtf8(test, kUtf16);
+    return isUtf8(test, kAscii);
 }
 
 inline bool isTstring(const char* test)
 {
-    return isUtf8(test, kUtf16);
+    return isUtf8(test, kAscii);
 }
 
 inline bool isTstring(const utf16String& test)
 {
-    return isUtf16(test);
+    return isUtf16(test, kAscii);
 }
 
 /* ucs2String and utf16String are the same type under the hood
@@ -597,17 +597,17 @@ inline bool isTstring(const ucs2String& test)
 
 inline bool isTstring(const char16_t* test)
 {
-    return isUtf16(test);
+    return isUtf16(test, kAscii);
 }
 
 inline bool isTstring(const ucs4String& test)
 {
-    return isUcs4(test, kUtf16);
+    return isUcs4(test, kAscii);
 }
 
 inline bool isTstring(const char32_t* test)
 {
-    return isUcs4(test, kUtf16);
+    return isUcs4(test, kAscii);
 }
 
 #elif defined(_UNICODE)
-- 
2.43.0


From e2058e00e64f75426f7bfe08c96545ac06f0b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:21 +0000
Subject: [PATCH 18/19] fix: getUnicodeVersionSupported was empty when called
 during static initialisation

The version text was a utf8String that is constructed dynamically, so a
caller whose static initialiser ran first got an empty string.
---
 source/bits10/char_is_unicode.cxx | 2 +-
 source/bits11/char_is_unicode.cxx | 2 +-
 source/bits12/char_is_unicode.cxx | 2 +-
 source/bits13/char_is_unicode.cxx | 2 +-
 source/bits14/char_is_unicode.cxx | 2 +-
 source/bits15/char_is_unicode.cxx | 2 +-
 source/bits16/char_is_unicode.cxx | 2 +-
 source/bits7/char_is_unicode.cxx  | 2 +-
 source/bits8/char_is_unicode.cxx  | 2 +-
 source/bits9/char_is_unicode.cxx  | 2 +-
 source/string_internal.hxx        | 2 +-
 11 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/source/bits10/char_is_unicode.cxx b/source/bits10/char_is_unicode.cxx
index 0725933..7449c4d 100644
--- a/source/bits10/char_is_unicode.cxx
+++ b/source/bits10/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "10.0.0";
+const char* const supportedUnicodeVersion = "10.0.0";
 
 namespace
 {
diff --git a/source/bits11/char_is_unicode.cxx b/source/bits11/char_is_unicode.cxx
index a17178f..34cc6e3 100644
--- a/source/bits11/char_is_unicode.cxx
+++ b/source/bits11/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "11.0.0";
+const char* const supportedUnicodeVersion = "11.0.0";
 
 namespace
 {
diff --git a/source/bits12/char_is_unicode.cxx b/source/bits12/char_is_unicode.cxx
index d50de0a..1091f92 100644
--- a/source/bits12/char_is_unicode.cxx
+++ b/source/bits12/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "12.0.0";
+const char* const supportedUnicodeVersion = "12.0.0";
 
 namespace
 {
diff --git a/source/bits13/char_is_unicode.cxx b/source/bits13/char_is_unicode.cxx
index 6824dac..90ae042 100644
--- a/source/bits13/char_is_unicode.cxx
+++ b/source/bits13/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "13.0.0";
+const char* const supportedUnicodeVersion = "13.0.0";
 
 namespace
 {
diff --git a/source/bits14/char_is_unicode.cxx b/source/bits14/char_is_unicode.cxx
index 1520b5a..5e8c7f2 100644
--- a/source/bits14/char_is_unicode.cxx
+++ b/source/bits14/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "14.0.0";
+const char* const supportedUnicodeVersion = "14.0.0";
 
 namespace
 {
diff --git a/source/bits15/char_is_unicode.cxx b/source/bits15/char_is_unicode.cxx
index 00c01b3..da77287 100644
--- a/source/bits15/char_is_unicode.cxx
+++ b/source/bits15/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "15.0.0";
+const char* const supportedUnicodeVersion = "15.0.0";
 
 namespace
 {
diff --git a/source/bits16/char_is_unicode.cxx b/source/bits16/char_is_unicode.cxx
index 175ab79..251b379 100644
--- a/source/bits16/char_is_unicode.cxx
+++ b/source/bits16/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "16.0.0";
+const char* const supportedUnicodeVersion = "16.0.0";
 
 namespace
 {
diff --git a/source/bits7/char_is_unicode.cxx b/source/bits7/char_is_unicode.cxx
index 3f6a0b2..79f1943 100644
--- a/source/bits7/char_is_unicode.cxx
+++ b/source/bits7/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "7.0.0";
+const char* const supportedUnicodeVersion = "7.0.0";
 
 namespace
 {
diff --git a/source/bits8/char_is_unicode.cxx b/source/bits8/char_is_unicode.cxx
index c9dd870..e9637c1 100644
--- a/source/bits8/char_is_unicode.cxx
+++ b/source/bits8/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "8.0.0";
+const char* const supportedUnicodeVersion = "8.0.0";
 
 namespace
 {
diff --git a/source/bits9/char_is_unicode.cxx b/source/bits9/char_is_unicode.cxx
index f5f6f3d..3de6348 100644
--- a/source/bits9/char_is_unicode.cxx
+++ b/source/bits9/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "9.0.0";
+const char* const supportedUnicodeVersion = "9.0.0";
 
 namespace
 {
diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 5beb710..7528dfb 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -108,7 +108,7 @@ private:
 //=========================================================================
 // Get current implementation's supported Unicode version string.
 
-extern const utf8String supportedUnicodeVersion;
+extern const char* const supportedUnicodeVersion;
 
 //=========================================================================
 // Returns true if the character is in the selected Unicode 8 standard, false
-- 
2.43.0


From 68c5a4a9ec4dc4a045eefbd18ac3ff645ccc29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 19/19] fix: trimming leading characters took time quadratic in
 their number

---
 interface/string_trim.hxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 6b8672f..d85fec9 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -57,10 +57,12 @@ void trim(std::basic_string<C>& victim)
     {
         victim.erase(victim.size() - 1);
     }
-    while (!victim.empty() && victim[0] == static_cast<C>(' '))
+    typename std::basic_string<C>::size_type leading = 0;
+    while (leading < victim.size() && victim[leading] == static_cast<C>(' '))
     {
-        victim.erase(0, 1);
+        ++leading;
     }
+    victim.erase(0, leading);
 }
 
 template<typename C>
@@ -73,10 +75,13 @@ void trim(std::basic_string<C>& victim, const std::basic_string<C>& spaces)
     {
         victim.erase(victim.size() - 1);
     }
-    while (!victim.empty() && spaces.find_first_of(victim[0]) != std::basic_string<C>::npos)
+    typename std::basic_string<C>::size_type leading = 0;
+    while (leading < victim.size() &&
+           spaces.find_first_of(victim[leading]) != std::basic_string<C>::npos)
     {
-        victim.erase(0, 1);
+        ++leading;
     }
+    victim.erase(0, leading);
 }
 
 inline void trimAscii7WhiteSpace(std::string& victim)
-- 
2.43.0

