From 4510c94e5dfce2c46530a3930f469098bd73cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 1/7] fix: support input strings of length 1 and 2

extract_LMS_strings returned a container without a hashtable for n <= 2 and
create_shortened_string underflowed its index for n == 1, so bwt_string and
bwt_file crashed on one and two byte inputs.
---
 src/flbwt.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 487446d..cfc050f 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -320,8 +320,8 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
     // Initialize the result data structure
     flbwt::Container *container = new Container(n);
 
-    // If T is trivial, then return the result immediately
-    if (n <= 2)
+    // If T is empty, then return the result immediately
+    if (n == 0)
         return container;
 
     // Initialize hash table where unique substrings are stored
@@ -526,7 +526,7 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
     j--;
 
     // scan the input string from right to left and save the S* substrings
-    for (uint64_t i = n - 2; i >= 0; i--)
+    for (int64_t i = n - 2; i >= 0; i--)
     {
         // check if character is TYPE_S
         if (T[i] < T[i + 1])
@@ -553,9 +553,6 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
 
             previous_type = TYPE_L;
         }
-
-        if (i == 0)
-            break; // to prevent integer underflow
     }
 
     T1->set_value(0, max_name);
-- 
2.43.0


From 94439c74827410a4ed32c67c379ce87b24a7e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 2/7] fix: write the trailing zero bytes of a substring length

HashTable::set_length stopped at the last non-zero byte, so a length that is a
multiple of 256 was completed with whatever the uninitialised buffer held and
was read back as another length.
---
 src/hashtable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 3f54d45..43b3430 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -175,7 +175,7 @@ void flbwt::HashTable::set_length(uint8_t *p, uint64_t length)
         (*r)--;
     }
 
-    while (length != 0)
+    for (uint8_t i = 0; i < *r; i++)
     {
         value = (length & 0xff00000000000000) >> 56;
         *p++ = value;
-- 
2.43.0


From 7055c1141ecf1f980f0216e5254139ff7061b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 3/7] fix: avoid undefined shift by 64 bits in BIT_MASK

BIT_MASK(uint64_t, 0) shifted a 64-bit value by 64 every time a packed value
ended exactly at a word boundary.
---
 include/packed_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/packed_array.hpp b/include/packed_array.hpp
index 8f21537..8f04d36 100644
--- a/include/packed_array.hpp
+++ b/include/packed_array.hpp
@@ -6,8 +6,8 @@
 
 // https://stackoverflow.com/questions/22899466/this-declaration-has-no-storage-class-or-type-specifier-in-c
 #define BIT_MASK(__TYPE__, __ONE_COUNT__) \
-    ((__TYPE__) (-((__ONE_COUNT__) != 0))) \
-    & (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__)))
+    (((__ONE_COUNT__) == 0) ? (__TYPE__) 0 \
+    : (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__))))
 
 namespace flbwt {
 
-- 
2.43.0


From c7c230756465c5ece5822daac78eba96c34acc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 4/7] fix: reject input that bwt_file cannot size or read
 completely

An unseekable input (ftell -1) overflowed a zero sized buffer, a short read was
transformed as if the uninitialised rest of the buffer was file content, and
the error path leaked the file handle and the buffer.
---
 src/flbwt.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index cfc050f..fa5644d 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -34,9 +34,18 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     if (fp == NULL)
         throw std::invalid_argument("fopen failed(): Could not open input file");
 
-    fseek(fp, 0L, SEEK_END);
-    n = ftell(fp);
-    rewind(fp);
+    // The length must be known in advance (pipes for example are not seekable)
+    long size = -1;
+    if (fseek(fp, 0L, SEEK_END) == 0)
+        size = ftell(fp);
+
+    if (size < 0 || fseek(fp, 0L, SEEK_SET) != 0)
+    {
+        fclose(fp);
+        throw std::runtime_error("fseek failed(): Could not determine input file size");
+    }
+
+    n = size;
 
     T = (uint8_t *)malloc((n + 1) * sizeof(uint8_t));
 
@@ -46,8 +55,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::runtime_error("T* malloc failed(): Could not allocate memory");
     }
 
-    if (fread(T, 1, n, fp) <= 0)
+    if (n == 0 || fread(T, 1, n, fp) != n)
+    {
+        fclose(fp);
+        free(T);
         throw std::runtime_error("fread failed(): Could not read input file");
+    }
     fclose(fp);
 
     // Input string should end with '\0' --> so the following assignment is ok.
-- 
2.43.0


From 1fde2f7cbd59305f1568233743fd2bd629b0cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 5/7] fix: release the result when bwt_file cannot open the
 output file

---
 src/flbwt.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index fa5644d..9dd1a96 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -76,7 +76,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
+    {
+        if (B != NULL)
+            delete[] B->BWT;
+        free(B);
         throw std::invalid_argument("fopen failed(): Could not open output file");
+    }
 
     if (B != NULL && B->BWT != NULL)
     {
-- 
2.43.0


From 180b42bfc8593509a64889c3e61652470f2c3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 6/7] fix: report failed writes of the output file

bwt_file ignored the results of fwrite and fclose, so a full disk left a
truncated output file without any error.
---
 src/flbwt.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 9dd1a96..97ff796 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -83,6 +83,8 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::invalid_argument("fopen failed(): Could not open output file");
     }
 
+    bool written = true; // was everything written successfully
+
     if (B != NULL && B->BWT != NULL)
     {
         // Write rank of the last character to the first 64 bits
@@ -95,26 +97,28 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         rank[5] = (0x0000000000ff0000 & B->last) >> 16;
         rank[6] = (0x000000000000ff00 & B->last) >> 8;
         rank[7] = 0x00000000000000ff & B->last;
-        fwrite(rank, sizeof(uint8_t), 8, fp);
+        written = fwrite(rank, sizeof(uint8_t), 8, fp) == 8;
         delete[] rank;
 
         // Write other content (BWT)
         if (B->last == 0)
         {
-            fwrite(B->BWT + 1, sizeof(uint8_t), n, fp);
+            written = written && fwrite(B->BWT + 1, sizeof(uint8_t), n, fp) == n;
         }
         else if (B->last == n)
         {
-            fwrite(B->BWT, sizeof(uint8_t), n, fp);
+            written = written && fwrite(B->BWT, sizeof(uint8_t), n, fp) == n;
         }
         else
         {
-            fwrite(B->BWT, sizeof(uint8_t), B->last, fp);
-            fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp);
+            written = written && fwrite(B->BWT, sizeof(uint8_t), B->last, fp) == B->last;
+            written = written && fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp) == n - B->last;
         }
     }
 
-    fclose(fp);
+    // Buffered data may fail to reach the file only when the file is closed
+    if (fclose(fp) != 0)
+        written = false;
 
     // Release result resources
     if (B != NULL)
@@ -123,6 +127,9 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
             delete[] B->BWT;
         free(B);
     }
+
+    if (!written)
+        throw std::runtime_error("fwrite failed(): Could not write output file");
 }
 
 flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
-- 
2.43.0


From 55aa84385376b687023718c05b40826d431603d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 7/7] fix: avoid left shift of negative values in split arrays

---
 include/sais40bit.hpp | 2 +-
 include/sais48bit.hpp | 2 +-
 include/sais56bit.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sais40bit.hpp b/include/sais40bit.hpp
index 2ff72c3..0609803 100644
--- a/include/sais40bit.hpp
+++ b/include/sais40bit.hpp
@@ -19,7 +19,7 @@ namespace flbwt
 
     inline int64_t get_40bit_value(uint32_t *L, int8_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 32 | L[index]);
     }
 
     /**
diff --git a/include/sais48bit.hpp b/include/sais48bit.hpp
index edb2c19..e9c0d40 100644
--- a/include/sais48bit.hpp
+++ b/include/sais48bit.hpp
@@ -19,7 +19,7 @@ namespace flbwt
 
     inline int64_t get_48bit_value(uint32_t *L, int16_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 32 | L[index]);
     }
 
     /**
diff --git a/include/sais56bit.hpp b/include/sais56bit.hpp
index 2616b8f..943d1b1 100644
--- a/include/sais56bit.hpp
+++ b/include/sais56bit.hpp
@@ -20,7 +20,7 @@ namespace flbwt
 
     inline int64_t get_56bit_value(uint32_t *L, uint16_t *M, int8_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 48 | (int64_t)M[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 48 | (uint64_t)M[index] << 32 | L[index]);
     }
 
     /**
-- 
2.43.0

