From d3b8165dd12cbbf3bbfacfa6430d24e24e9b3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 01/34] fix: mpack_finish_type() must close a nested compound
 within a build

---
 src/mpack/mpack-writer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d842a3f..d365583 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1081,6 +1081,8 @@ MPACK_INLINE void mpack_finish_ext(mpack_writer_t* writer) {
  */
 MPACK_INLINE void mpack_finish_type(mpack_writer_t* writer, mpack_type_t type) {
     mpack_writer_track_pop(writer, type);
+    if (type == mpack_type_array || type == mpack_type_map)
+        mpack_builder_compound_pop(writer);
 }
 
 /**
-- 
2.43.0


From a63fa17ee4571fa7591ae036ae6543b631fa7bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 02/34] fix: do not pop a build compound when the writer is in
 an error state

---
 src/mpack/mpack-writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d365583..ce4cd7f 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -721,7 +721,8 @@ MPACK_INLINE void mpack_builder_compound_pop(mpack_writer_t* writer) {
 
     #if MPACK_BUILDER
     mpack_build_t* build = writer->builder.current_build;
-    if (build != NULL) {
+    // a mismatched close may have just been flagged by tracking
+    if (build != NULL && writer->error == mpack_ok) {
         mpack_assert(build->nested_compound_elements > 0);
         --build->nested_compound_elements;
     }
-- 
2.43.0


From 144f0b7b39c945afe0c64b06b0272401f78e9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 03/34] fix: do not start a build when tracking has flagged an
 error

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 029b065..6271f5a 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1574,6 +1574,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
 
     mpack_writer_track_element(writer);
     mpack_writer_track_push_builder(writer, type);
+    if (mpack_writer_error(writer) != mpack_ok)
+        return;
 
     mpack_builder_t* builder = &writer->builder;
 
-- 
2.43.0


From 2e9f19008b9b840cf932e2dcff9762715454f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 04/34] fix: do not place a build outside its page when a page
 allocation fails

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 6271f5a..9f1e5b3 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1595,6 +1595,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("not enough space for a build. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
+        if (mpack_writer_error(writer) != mpack_ok)
+            return;
         // there is always enough space in a fresh page.
         offset = mpack_builder_align_build(builder->current_page->bytes_used);
     }
-- 
2.43.0


From 06b97ed86dfffc0bcb08b79334a50481de84a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 05/34] fix: keep writes out of the build header after a failed
 page allocation

---
 src/mpack/mpack-writer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 9f1e5b3..d14c439 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1631,8 +1631,11 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("less than minimum buffer size in current page. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
-        if (mpack_writer_error(writer) != mpack_ok)
+        if (mpack_writer_error(writer) != mpack_ok) {
+            // don't leave the writer's buffer overlapping the new build
+            mpack_builder_configure_buffer(writer);
             return;
+        }
     }
     mpack_assert(mpack_builder_page_remaining(writer, builder->current_page) >= MPACK_WRITER_MINIMUM_BUFFER_SIZE);
     mpack_builder_configure_buffer(writer);
-- 
2.43.0


From 4fa7bd0384fd0234f4378c91ce48a48b85818064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 06/34] fix: flag a bug when a writer is destroyed with
 unclosed elements

---
 src/mpack/mpack-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index d14c439..99f397b 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -532,7 +532,7 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
 
     // clean up tracking, asserting if we're not already in an error state
     #if MPACK_WRITE_TRACKING
-    mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    mpack_writer_flag_if_error(writer, mpack_track_destroy(&writer->track, writer->error != mpack_ok));
     #endif
 
     #if MPACK_BUILDER
-- 
2.43.0


From 97d35b1afb36e2ab40322f607c7e29fb2f186d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 07/34] fix: do not free the growable buffer twice if the error
 handler jumps out of destroy

---
 src/mpack/mpack-writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 99f397b..b913081 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -254,6 +254,7 @@ static void mpack_growable_writer_teardown(mpack_writer_t* writer) {
             char* buffer = (char*)mpack_realloc(writer->buffer, used, size);
             if (!buffer) {
                 MPACK_FREE(writer->buffer);
+                writer->buffer = NULL;
                 mpack_writer_flag_error(writer, mpack_error_memory);
                 return;
             }
-- 
2.43.0


From 631aee9180c6ce00ac666454cbddd61cbdab866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 08/34] fix: close a written file only once if the error
 handler jumps out of destroy

---
 src/mpack/mpack-writer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index b913081..2baf894 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -318,13 +318,14 @@ static void mpack_file_writer_teardown(mpack_writer_t* writer) {
 static void mpack_file_writer_teardown_close(mpack_writer_t* writer) {
     FILE* file = (FILE*)writer->context;
 
+    // this comes first since the error handler may jump out
+    mpack_file_writer_teardown(writer);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_writer_flag_error(writer, mpack_error_io);
     }
-
-    mpack_file_writer_teardown(writer);
 }
 
 void mpack_writer_init_stdfile(mpack_writer_t* writer, FILE* file, bool close_when_done) {
-- 
2.43.0


From 931b94751c88a1ca3b7cdf0b46aea0791ae068a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 09/34] fix: close a read file only once if the error handler
 jumps out of destroy

---
 src/mpack/mpack-reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index dfac4c2..0a9a7bc 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -138,13 +138,14 @@ static void mpack_file_reader_teardown(mpack_reader_t* reader) {
 static void mpack_file_reader_teardown_close(mpack_reader_t* reader) {
     FILE* file = (FILE*)reader->context;
 
+    // this comes first since the error handler may jump out
+    mpack_file_reader_teardown(reader);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_reader_flag_error(reader, mpack_error_io);
     }
-
-    mpack_file_reader_teardown(reader);
 }
 
 void mpack_reader_init_stdfile(mpack_reader_t* reader, FILE* file, bool close_when_done) {
-- 
2.43.0


From 08cf9e59c6fe50c20a68e37942f8b89696fe9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 10/34] fix: report an error when skipping past the end of a
 seekable file

---
 src/mpack/mpack-reader.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 0a9a7bc..51a39d1 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -110,10 +110,16 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
 
     // We call ftell() to test whether the stream is seekable
     // without causing a file error.
-    if (ftell(file) >= 0) {
+    if (count > 0 && count - 1 <= (size_t)LONG_MAX && ftell(file) >= 0) {
         mpack_log("seeking forward %i bytes\n", (int)count);
-        if (fseek(file, (long int)count, SEEK_CUR) == 0)
+
+        // fseek() happily seeks past the end of a file, so we seek only to the
+        // last byte and read it to make sure the skipped data actually exists.
+        if (fseek(file, (long int)(count - 1), SEEK_CUR) == 0) {
+            if (fgetc(file) == EOF)
+                mpack_reader_flag_error(reader, mpack_error_io);
             return;
+        }
         mpack_log("fseek() didn't return zero!\n");
         if (ferror(file)) {
             mpack_reader_flag_error(reader, mpack_error_io);
-- 
2.43.0


From f3a5aac14ec474e160227ca670d61dfb2fa50b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 11/34] fix: leave an empty string in the buffer when reading a
 cstr fails

---
 src/mpack/mpack-reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 51a39d1..9ea4030 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -478,6 +478,10 @@ static void mpack_read_cstr_unchecked(mpack_reader_t* reader, char* buf, size_t
     mpack_reader_track_str_bytes_all(reader, byte_count);
     mpack_read_native(reader, buf, byte_count);
     buf[byte_count] = 0;
+
+    // a failed read may have left part of the string in the buffer
+    if (mpack_reader_error(reader) != mpack_ok)
+        buf[0] = 0;
 }
 
 void mpack_read_cstr(mpack_reader_t* reader, char* buf, size_t buffer_size, size_t byte_count) {
-- 
2.43.0


From 72ecfc3a5468b1236d776f220b634e77075c047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 12/34] fix: stop skipping bytes once read tracking has flagged
 an error

---
 src/mpack/mpack-reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 9ea4030..6a44ff9 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -404,7 +404,8 @@ void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
         return;
     mpack_log("skip requested for %i bytes\n", (int)count);
 
-    mpack_reader_track_bytes(reader, count);
+    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
+        return;
 
     // check if we have enough in the buffer already
     size_t left = (size_t)(reader->end - reader->data);
-- 
2.43.0


From eee31ee799ced6c09451c5e0928ac6a64497561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 13/34] fix: return false from mpack_expect_bool() on error

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 81576d1..3739d1a 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -326,8 +326,10 @@ void mpack_expect_nil(mpack_reader_t* reader) {
 
 bool mpack_expect_bool(mpack_reader_t* reader) {
     uint8_t type = mpack_expect_type_byte(reader);
-    if ((type & ~1) != 0xc2)
+    if ((type & ~1) != 0xc2) {
         mpack_reader_flag_error(reader, mpack_error_type);
+        return false;
+    }
     return (bool)(type & 1);
 }
 
-- 
2.43.0


From 5cf927efd028fda9bd7f83084e24c0a3048b6256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 14/34] fix: reject NaN in ranged float and double reads

---
 src/mpack/mpack-expect.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 3739d1a..6f13868 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -275,8 +275,8 @@ uint64_t mpack_expect_raw_double(mpack_reader_t* reader) {
     if (mpack_reader_error(reader) != mpack_ok)                         \
         return min_value;                                               \
                                                                         \
-    /* make sure it fits */                                             \
-    if (val < min_value || val > max_value) {                           \
+    /* make sure it fits (this is false for any comparison with NaN) */ \
+    if (!(val >= min_value && val <= max_value)) {                      \
         mpack_reader_flag_error(reader, mpack_error_type);              \
         return min_value;                                               \
     }                                                                   \
-- 
2.43.0


From d3a398d86ec6b13e5548b99a3a3caaadec662172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 15/34] fix: compare bytes as unsigned in
 mpack_expect_str_match()

---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 6f13868..941285d 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -700,7 +700,7 @@ void mpack_expect_str_match(mpack_reader_t* reader, const char* str, size_t len)
 
     // check each byte one by one (matched strings are likely to be very small)
     for (; len > 0; --len) {
-        if (mpack_expect_native_u8(reader) != *str++) {
+        if (mpack_expect_native_u8(reader) != (uint8_t)*str++) {
             mpack_reader_flag_error(reader, mpack_error_type);
             return;
         }
-- 
2.43.0


From 4db2092978d4e14bfe03e06b71da151ed20497a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 16/34] fix: zero the ext type when mpack_expect_ext_max()
 fails

---
 src/mpack/mpack-expect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-expect.h b/src/mpack/mpack-expect.h
index 02a1abc..4de568c 100644
--- a/src/mpack/mpack-expect.h
+++ b/src/mpack/mpack-expect.h
@@ -1228,6 +1228,7 @@ uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type);
 MPACK_INLINE uint32_t mpack_expect_ext_max(mpack_reader_t* reader, int8_t* type, uint32_t maxsize) {
     uint32_t length = mpack_expect_ext(reader, type);
     if (length > maxsize) {
+        *type = 0;
         mpack_reader_flag_error(reader, mpack_error_type);
         return 0;
     }
-- 
2.43.0


From 0c7650e152452416eb66a0458c3997e2781f66a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 17/34] fix: keep the type of an empty ext in
 mpack_expect_ext_alloc()

---
 src/mpack/mpack-expect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 941285d..edf2ec1 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -761,9 +761,10 @@ char* mpack_expect_ext_alloc(mpack_reader_t* reader, int8_t* type, size_t maxsiz
     char* data = mpack_read_bytes_alloc(reader, length);
     mpack_done_ext(reader);
 
+    // the data is NULL without error if the ext is empty
     if (data) {
         *size = length;
-    } else {
+    } else if (mpack_reader_error(reader) != mpack_ok) {
         *type = 0;
     }
     return data;
-- 
2.43.0


From 17789b9c4eabe7f57ee86ca5d85c9974f124c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 18/34] fix: accept non-negative signed keys in
 mpack_expect_key_uint()

---
 src/mpack/mpack-expect.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index edf2ec1..ec63443 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -838,8 +838,9 @@ size_t mpack_expect_key_uint(mpack_reader_t* reader, bool found[], size_t count)
     }
     mpack_assert(found != NULL, "found cannot be NULL");
 
-    // the key is only recognized if it is an unsigned int
-    if (mpack_peek_tag(reader).type != mpack_type_uint) {
+    // the key is only recognized if it is a non-negative integer
+    mpack_tag_t tag = mpack_peek_tag(reader);
+    if (tag.type != mpack_type_uint && !(tag.type == mpack_type_int && tag.v.i >= 0)) {
         mpack_discard(reader);
         return count;
     }
-- 
2.43.0


From 69521567d881158135c1342c9f9f7fd2764c8315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 19/34] fix: do not turn doubles just beyond the float range
 into NaN

---
 src/mpack/mpack-common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-common.h b/src/mpack/mpack-common.h
index 3e77e07..308c53d 100644
--- a/src/mpack/mpack-common.h
+++ b/src/mpack/mpack-common.h
@@ -1035,7 +1035,7 @@ MPACK_INLINE float mpack_shorten_raw_double_to_float(uint64_t d) {
             // we don't currently handle subnormal numbers. just set it to zero.
             f_exponent = 0;
             f_significand = 0;
-        } else if (MPACK_UNLIKELY(fix_bias > 0xff)) {
+        } else if (MPACK_UNLIKELY(fix_bias >= 0xff)) {
             // exponent is too large; saturate to infinity
             f_exponent = 0xff;
             f_significand = 0;
-- 
2.43.0


From 0727193af20ba623748759e21768b0bd7d17e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 20/34] fix: tree: report a failed first page allocation
 through the error callback

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8af1562..a957255 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -907,7 +907,7 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
         mpack_log("allocated initial page %p of size %i count %i\n",
                 (void*)page, (int)MPACK_PAGE_ALLOC_SIZE, (int)MPACK_NODES_PER_PAGE);
         if (page == NULL) {
-            tree->error = mpack_error_memory;
+            mpack_tree_flag_error(tree, mpack_error_memory);
             return false;
         }
         page->next = NULL;
-- 
2.43.0


From b2da02bd610a1336176b3c55958256c8d001243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 21/34] fix: tree: count the children of a node once, however
 often its parsing is resumed

---
 src/mpack/mpack-node.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index a957255..dc94aef 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -283,8 +283,8 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     }
 
     // Make sure we are under our total node limit (TODO can this overflow?)
-    tree->node_count += total;
-    if (tree->node_count > tree->max_nodes) {
+    size_t node_count = tree->node_count + total;
+    if (node_count > tree->max_nodes) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -294,6 +294,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     if (!mpack_tree_reserve_bytes(tree, total))
         return false;
 
+    // If the above fails for lack of data, this node will be parsed again when
+    // more arrives. Its children are only counted once it succeeds.
+    tree->node_count = node_count;
+
     // If there are enough nodes left in the current page, no need to grow
     if (total <= parser->nodes_left) {
         node->value.children = parser->nodes;
-- 
2.43.0


From 6910382291e4707c254129701ddc8418721934cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 22/34] fix: tree: apply the message size limit to the message,
 not to the data buffered

---
 src/mpack/mpack-node.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index dc94aef..36d55d8 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -77,6 +77,20 @@ MPACK_STATIC_INLINE int8_t mpack_node_exttype_unchecked(mpack_node_t node) {
 
 #endif
 
+/*
+ * Ensures the bytes reserved for the current node don't put the message over
+ * the maximum message size. (All bytes before possible_nodes_left are part of
+ * the message or are reserved for it.)
+ */
+MPACK_STATIC_INLINE bool mpack_tree_check_size(mpack_tree_t* tree) {
+    if ((uint64_t)(tree->data_length - tree->parser.possible_nodes_left) +
+            (uint64_t)tree->parser.current_node_reserved > (uint64_t)tree->max_size) {
+        mpack_tree_flag_error(tree, mpack_error_too_big);
+        return false;
+    }
+    return true;
+}
+
 #ifdef MPACK_MALLOC
 /*
  * Fills the tree until we have at least enough bytes for the current node.
@@ -89,14 +103,6 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
             "there are already enough bytes! call mpack_tree_ensure() instead.");
     mpack_log("filling to reserve %i bytes\n", (int)bytes);
 
-    // if the necessary bytes would put us over the maximum tree
-    // size, fail right away.
-    // TODO: check for overflow?
-    if (tree->data_length + bytes > tree->max_size) {
-        mpack_tree_flag_error(tree, mpack_error_too_big);
-        return false;
-    }
-
     // we'll need a read function to fetch more data. if there's
     // no read function, the data should contain an entire message
     // (or messages), so we flag it as invalid.
@@ -106,12 +112,19 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
         return false;
     }
 
-    // expand the buffer if needed
-    if (tree->data_length + bytes > tree->buffer_capacity) {
+    // if the necessary bytes would put us over the maximum message size,
+    // fail right away.
+    if (!mpack_tree_check_size(tree))
+        return false;
+
+    // expand the buffer if needed. (some of the necessary bytes may already be
+    // in it, and in total they don't exceed the maximum message size.)
+    size_t needed = tree->data_length + (bytes - tree->parser.possible_nodes_left);
+    if (needed > tree->buffer_capacity) {
 
         // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + bytes)
+        while (new_capacity < needed)
             new_capacity *= 2;
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
@@ -200,7 +213,7 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
     // children of previous compound nodes. So even if there are hundreds of
     // bytes left in the buffer, we might need to read anyway.
     if (tree->parser.current_node_reserved <= tree->parser.possible_nodes_left)
-        return true;
+        return mpack_tree_check_size(tree);
 
     #ifdef MPACK_MALLOC
     return mpack_tree_reserve_fill(tree);
-- 
2.43.0


From 8d7df23f9c4dce7a281af192b7577db4b13e7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 23/34] fix: tree: flag truncated data as invalid without an
 allocator too

---
 src/mpack/mpack-node.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 36d55d8..aaac706 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -218,6 +218,7 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
     #ifdef MPACK_MALLOC
     return mpack_tree_reserve_fill(tree);
     #else
+    mpack_tree_flag_error(tree, mpack_error_invalid);
     return false;
     #endif
 }
-- 
2.43.0


From e9054cd985eef2dc4c8b3e9005d4a8c7b8c5e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 24/34] fix: tree: report a size of zero when parsing fails, as
 documented

---
 src/mpack/mpack-node.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index aaac706..7cddcf6 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1252,6 +1252,11 @@ void mpack_tree_flag_error(mpack_tree_t* tree, mpack_error_t error) {
     if (tree->error == mpack_ok) {
         mpack_log("tree %p setting error %i: %s\n", (void*)tree, (int)error, mpack_error_to_string(error));
         tree->error = error;
+
+        // the size of a message that could not be fully parsed is unknown
+        if (tree->parser.state == mpack_tree_parse_state_in_progress)
+            tree->size = 0;
+
         if (tree->error_fn)
             tree->error_fn(tree, error);
     }
-- 
2.43.0


From c5ff1d3d43b62a1cf5fb20adae81a4349d3117c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 25/34] fix: discard nested objects without recursion

---
 src/mpack/mpack-reader.c | 92 ++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 45 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 6a44ff9..885568e 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -399,14 +399,7 @@ MPACK_NOINLINE static void mpack_skip_bytes_straddle(mpack_reader_t* reader, siz
     mpack_reader_skip_using_fill(reader, count);
 }
 
-void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
-    if (mpack_reader_error(reader) != mpack_ok)
-        return;
-    mpack_log("skip requested for %i bytes\n", (int)count);
-
-    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
-        return;
-
+static void mpack_skip_bytes_notrack(mpack_reader_t* reader, size_t count) {
     // check if we have enough in the buffer already
     size_t left = (size_t)(reader->end - reader->data);
     if (left >= count) {
@@ -418,6 +411,17 @@ void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
     mpack_skip_bytes_straddle(reader, count);
 }
 
+void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
+    if (mpack_reader_error(reader) != mpack_ok)
+        return;
+    mpack_log("skip requested for %i bytes\n", (int)count);
+
+    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
+        return;
+
+    mpack_skip_bytes_notrack(reader, count);
+}
+
 MPACK_NOINLINE static void mpack_reader_skip_using_fill(mpack_reader_t* reader, size_t count) {
     mpack_assert(reader->fill != NULL, "missing fill function!");
     mpack_assert(reader->data == reader->end, "there are bytes left in the buffer!");
@@ -1001,45 +1005,43 @@ mpack_tag_t mpack_peek_tag(mpack_reader_t* reader) {
 }
 
 void mpack_discard(mpack_reader_t* reader) {
-    mpack_tag_t var = mpack_read_tag(reader);
-    if (mpack_reader_error(reader))
+    if (mpack_reader_error(reader) != mpack_ok)
         return;
-    switch (var.type) {
-        case mpack_type_str:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_str(reader);
-            break;
-        case mpack_type_bin:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_bin(reader);
-            break;
-        #if MPACK_EXTENSIONS
-        case mpack_type_ext:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_ext(reader);
-            break;
-        #endif
-        case mpack_type_array: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_array(reader);
-            break;
-        }
-        case mpack_type_map: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_map(reader);
-            break;
+    if (mpack_reader_track_element(reader) != mpack_ok)
+        return;
+
+    // Discarding is not recursive so that deeply nested data can't overflow the
+    // stack. The whole object is a single element to the enclosing map or array,
+    // so its contents don't need to be tracked.
+    uint64_t remaining = 1;
+
+    while (remaining > 0) {
+        mpack_tag_t var = MPACK_TAG_ZERO;
+        size_t count = mpack_parse_tag(reader, &var);
+        if (count == 0)
+            return;
+        reader->data += count;
+        --remaining;
+
+        switch (var.type) {
+            case mpack_type_str:
+            case mpack_type_bin:
+            #if MPACK_EXTENSIONS
+            case mpack_type_ext:
+            #endif
+                mpack_skip_bytes_notrack(reader, var.v.l);
+                if (mpack_reader_error(reader) != mpack_ok)
+                    return;
+                break;
+            case mpack_type_array:
+                remaining += var.v.n;
+                break;
+            case mpack_type_map:
+                remaining += (uint64_t)var.v.n * 2;
+                break;
+            default:
+                break;
         }
-        default:
-            break;
     }
 }
 
-- 
2.43.0


From 08da2b65ebe2d896281d645901b1e4aca0340128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 26/34] fix: tree: close the file when its maximum size is
 invalid

---
 src/mpack/mpack-node.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 7cddcf6..6449e05 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1209,10 +1209,8 @@ static void mpack_tree_init_stdfile_noclose(mpack_tree_t* tree, FILE* stdfile, s
 }
 
 void mpack_tree_init_stdfile(mpack_tree_t* tree, FILE* stdfile, size_t max_bytes, bool close_when_done) {
-    if (!mpack_tree_file_check_max_bytes(tree, max_bytes))
-        return;
-
-    mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
+    if (mpack_tree_file_check_max_bytes(tree, max_bytes))
+        mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
 
     if (close_when_done)
         fclose(stdfile);
-- 
2.43.0


From be8fadad7e4dc895fea5e37fbacdfa294f52ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 27/34] fix: print large doubles in full in debug text

---
 src/mpack/mpack-node.c   | 2 +-
 src/mpack/mpack-reader.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 6449e05..5a33e28 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1379,7 +1379,7 @@ static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, si
                     prefix_length = mpack_node_data_len(node);
                 }
 
-                char buf[256];
+                char buf[384]; // a double can have over 300 digits
                 mpack_tag_t tag = mpack_node_tag(node);
                 mpack_tag_debug_pseudo_json(tag, buf, sizeof(buf), prefix, prefix_length);
                 mpack_print_append_cstr(print, buf);
diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 885568e..2e20881 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -1201,7 +1201,7 @@ static void mpack_print_element(mpack_reader_t* reader, mpack_print_t* print, si
             break;
     }
 
-    char buf[256];
+    char buf[384]; // a double can have over 300 digits
     mpack_tag_debug_pseudo_json(val, buf, sizeof(buf), buffer, count);
     mpack_print_append_cstr(print, buf);
 }
-- 
2.43.0


From af7bb0de91b355c28c5dda4a5a5c6900102a2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 28/34] fix: expect: return zero from mpack_expect_str() when
 tracking fails to grow

---
 src/mpack/mpack-expect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index ec63443..7d56eec 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -515,7 +515,8 @@ uint32_t mpack_expect_str(mpack_reader_t* reader) {
     }
 
     #if MPACK_READ_TRACKING
-    mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count));
+    if (mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count)) != mpack_ok)
+        return 0;
     #endif
     return count;
     #endif
-- 
2.43.0


From f7d662bf8abf5e3732252db8693ed01ebbde014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:12 +0000
Subject: [PATCH 29/34] fix: writer: find builds after a page that was too
 small for a buffer

When the build structure is smaller than the minimum buffer size (as on
32-bit platforms), the builder may add a page although another build would
have fit in the current page. Resolving then stopped at the end of the
current page, silently dropping all remaining builds and leaking their pages.
---
 src/mpack/mpack-writer.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 2baf894..f4b3518 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1743,10 +1743,13 @@ static void mpack_builder_resolve(mpack_writer_t* writer) {
             offset = sizeof(mpack_builder_page_t);
         }
 
-        // now see if we can find another build.
+        // now see if we can find another build. if there is none in this page
+        // it will be at the start of the next page. (it may be there even if it
+        // would have fit here, since a page is also added whenever less than
+        // the minimum buffer size remains.)
         offset = mpack_builder_align_build(offset);
-        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page)) {
-            mpack_log("not enough room in this page for another build\n");
+        if (offset + sizeof(mpack_build_t) > page->bytes_used) {
+            mpack_log("no other build in this page\n");
             mpack_builder_page_t* next_page = page->next;
             mpack_builder_free_page(writer, page);
             page = next_page;
-- 
2.43.0


From a163cfeccbfd3c53a8c676595aabab3bf88a1d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 30/34] fix: node: don't wrap the size of a copied string

The length of a string is 32 bits, so adding room for the null-terminator
wrapped around to zero for a string of UINT32_MAX bytes. The string was then
copied over an empty allocation.
---
 src/mpack/mpack-node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 5a33e28..99d31f9 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1698,7 +1698,7 @@ char* mpack_node_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
@@ -1735,7 +1735,7 @@ char* mpack_node_utf8_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From dd48a027714544332cd20a7dbd35c7c83ae86d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 31/34] fix: expect: check for overflow of the size of an
 allocated array

On 32-bit platforms the size of the array could wrap around. A small
allocation was then returned for a large number of elements.
---
 src/mpack/mpack-expect.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 7d56eec..19ec8c5 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -476,7 +476,10 @@ void* mpack_expect_array_alloc_impl(mpack_reader_t* reader, size_t element_size,
         return NULL;
     }
 
-    void* p = MPACK_MALLOC(element_size * count);
+    // the total size can overflow on platforms with a small size_t
+    void* p = NULL;
+    if (element_size == 0 || count <= SIZE_MAX / element_size)
+        p = MPACK_MALLOC(element_size * count);
     if (p == NULL) {
         mpack_reader_flag_error(reader, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 76713a6ee1efd62e23a3059a864bd4bb193ce958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 32/34] fix: tree: check for overflow when growing the stream
 buffer

On 32-bit platforms the capacity could wrap around to zero, in which case
the tree looped forever.
---
 src/mpack/mpack-node.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 99d31f9..d4fdece 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -122,10 +122,9 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
     size_t needed = tree->data_length + (bytes - tree->parser.possible_nodes_left);
     if (needed > tree->buffer_capacity) {
 
-        // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
         while (new_capacity < needed)
-            new_capacity *= 2;
+            new_capacity = (new_capacity > SIZE_MAX / 2) ? SIZE_MAX : new_capacity * 2;
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
 
-- 
2.43.0


From b3d705365414603b82f2a6a6fca0e7d2477021a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 33/34] fix: tree: check for overflow of the size of a node
 page

On 32-bit platforms the size of the page could wrap around, in which case
the nodes of a very large array or map were written past its end.
---
 src/mpack/mpack-node.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index d4fdece..9e2884d 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -339,9 +339,12 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         mpack_tree_page_t* page;
 
         if (total > MPACK_NODES_PER_PAGE || parser->nodes_left > MPACK_NODES_PER_PAGE / 8) {
-            // TODO: this should check for overflow
-            page = (mpack_tree_page_t*)MPACK_MALLOC(
-                    sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
+            // the size of the page can overflow on platforms with a small size_t
+            page = NULL;
+            if (total - 1 <= (SIZE_MAX - sizeof(mpack_tree_page_t)) / sizeof(mpack_node_data_t)) {
+                page = (mpack_tree_page_t*)MPACK_MALLOC(
+                        sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
+            }
             if (page == NULL) {
                 mpack_tree_flag_error(tree, mpack_error_memory);
                 return false;
-- 
2.43.0


From 758ee5387bda66baa7cfd6005b3574a6c59fbaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 34/34] fix: writer: check for overflow when growing the buffer

On 32-bit platforms the new size of a growable writer's buffer could wrap
around to zero, in which case the writer looped forever.
---
 src/mpack/mpack-writer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index f4b3518..3acdcaa 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -210,10 +210,14 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
             (int)count, (int)mpack_writer_buffer_left(writer), (int)used, (int)size);
 
     // grow to fit the data
-    // TODO: this really needs to correctly test for overflow
-    size_t new_size = size * 2;
-    while (new_size < used + count)
+    size_t new_size = size;
+    while (new_size - used < count || new_size == size) {
+        if (new_size > SIZE_MAX / 2) {
+            mpack_writer_flag_error(writer, mpack_error_memory);
+            return;
+        }
         new_size *= 2;
+    }
 
     mpack_log("flush growing buffer size from %i to %i\n", (int)size, (int)new_size);
 
-- 
2.43.0

