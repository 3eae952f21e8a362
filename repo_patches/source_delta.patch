From 9fb818ced5fb8f901113055c22dc24a23f413ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 01/84] fix: bpak_add_meta must not leave an entry behind when
 the data does not fit

---
 lib/bpak.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index ddf7625..77aa1ad 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -56,12 +56,13 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
+            if ((new_offset + size) > BPAK_METADATA_BYTES)
+                return -BPAK_NO_SPACE_LEFT;
+
             m->id = id;
             m->offset = new_offset;
             m->size = size;
             m->part_id_ref = part_ref_id;
-            if ((m->offset + m->size) > BPAK_METADATA_BYTES)
-                return -BPAK_NO_SPACE_LEFT;
 
             *meta = m;
             return BPAK_OK;
-- 
2.43.0


From a84e44b76b94cc1ddab3715baa582b6bee4232d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 02/84] fix: bpak_del_meta must keep all other entries intact
 and stay inside the table

---
 lib/bpak.c | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 77aa1ad..66b8a46 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -81,30 +81,30 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
                                struct bpak_meta_header *meta)
 {
-    struct bpak_meta_header *next_meta = meta + 1;
-    uint16_t offset_adjust = meta->size;
-
-    offset_adjust = BPAK_META_ALIGN_SIZE(offset_adjust);
-
-    while(meta != &(hdr->meta[BPAK_MAX_META - 1])) {
-        if (next_meta->id != 0) {
-            memmove(&(hdr->metadata[next_meta->offset - offset_adjust]),
-                    &(hdr->metadata[next_meta->offset]),
-                    next_meta->size);
-            memset(&(hdr->metadata[next_meta->offset]), 0, next_meta->size);
-
-            next_meta->offset -= offset_adjust;
-        }
-
-        memcpy(meta, next_meta, sizeof(*meta));
+    struct bpak_meta_header *last_meta = &(hdr->meta[BPAK_MAX_META - 1]);
+    size_t start = BPAK_MIN(meta->offset, BPAK_METADATA_BYTES);
+    size_t length = BPAK_META_ALIGN_SIZE(meta->size);
+
+    length = BPAK_MIN(length, BPAK_METADATA_BYTES - start);
+    size_t end = start + length;
+
+    /* Close the gap and clear the bytes that are no longer in use */
+    memmove(&(hdr->metadata[start]),
+            &(hdr->metadata[end]),
+            BPAK_METADATA_BYTES - end);
+    memset(&(hdr->metadata[BPAK_METADATA_BYTES - length]), 0, length);
+
+    while (meta != last_meta && (meta + 1)->id != 0) {
+        memcpy(meta, meta + 1, sizeof(*meta));
+        meta++;
+    }
 
-        if (!meta->id)
-            break;
+    memset(meta, 0, sizeof(*meta));
 
-        meta = next_meta++;
+    bpak_foreach_meta (hdr, m) {
+        if (m->id && m->offset >= end)
+            m->offset -= length;
     }
-
-    memset(next_meta, 0, sizeof(*next_meta));
 }
 
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
-- 
2.43.0


From 598fe3bcf0aa3997d3b4c6a1f81c406afc530779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 03/84] fix: bpak_pkg_open must not leave a dangling stream
 when it fails

---
 lib/pkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 2f11cc2..cf88000 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -86,6 +86,7 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
 err_close_io:
     fclose(pkg->fp);
+    pkg->fp = NULL;
     return rc;
 }
 
-- 
2.43.0


From e46cd10beb43b05a5ca90223598057b127888acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 04/84] fix: bpak_pkg_open must refuse and not modify files
 shorter than a header

---
 lib/pkg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index cf88000..cc4dcba 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,8 +46,14 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    /* A file that holds data but not even a header is not a BPAK archive */
+    if (read_bytes != 0 && read_bytes != sizeof(pkg->header)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_io;
+    }
+
     /* Initialize and write BPAK header when new files are created */
-    if (read_bytes != sizeof(pkg->header)) {
+    if (read_bytes == 0) {
         rc = bpak_init_header(&pkg->header);
         if (rc != BPAK_OK) {
             goto err_close_io;
-- 
2.43.0


From 171296bd658b73e10b6c1a4094b634359369fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 05/84] fix: bpak_pkg_write_raw_signature must refuse
 signatures larger than the header field

---
 lib/pkg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index cc4dcba..aac015c 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -200,6 +200,9 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    if (size > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-- 
2.43.0


From a71c78c210abd38bc1ce740ac0107ae683dcc9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 06/84] fix: bpak_pkg_add_key must pad with zeros instead of
 stack contents

---
 lib/pkg_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 38f132e..dce8686 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -341,8 +341,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     }
 
     /* Write zero padding */
-    uint8_t zero = 0;
-    if (fwrite(&zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
+    uint8_t zero[BPAK_PART_ALIGN] = {0};
+    if (fwrite(zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
         rc = -BPAK_WRITE_ERROR;
         goto err_free_key_out;
     }
@@ -360,6 +360,6 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         goto err_free_key_out;
 
 err_free_key_out:
-    free(key);
+    bpak_free(key);
     return rc;
 }
-- 
2.43.0


From 169e6d563dd061676d2f6985b41b285d675d3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 07/84] fix: position of parts in archives that hold transport
 encoded parts

Parts are stored back to back using the transport size of encoded parts,
but new parts were written at, and deletions adjusted offsets by, the
wrong one of the two sizes, leaving gaps or overwriting data.
---
 lib/pkg.c        | 4 +++-
 lib/pkg_create.c | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index aac015c..75c0e1c 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -495,6 +495,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     int rc = BPAK_OK;
     uint64_t p_offset;
     size_t p_size;
+    size_t p_decoded_size;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *part = NULL;
 
@@ -508,6 +509,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
     p_offset = bpak_part_offset(h, part);
     p_size = bpak_part_size(part);
+    p_decoded_size = part->size + part->pad_bytes;
 
     bpak_del_part(h, part);
     uint64_t bytes_to_process = 0;
@@ -517,7 +519,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         if (!part->id)
             break;
 
-        part->offset -= p_size;
+        part->offset -= p_decoded_size;
         bytes_to_process += bpak_part_size(part);
     }
 
diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index dce8686..ca4d02b 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -168,7 +168,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     p->pad_bytes =
         0; /* Merkle tree is multiples of 4kByte, no padding needed */
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Could not seek to new pos\n");
@@ -238,7 +238,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     else
         p->pad_bytes = 0;
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != 0) {
         bpak_printf(0, "Error: Could not seek to new pos\n");
@@ -326,7 +326,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     else
         p->pad_bytes = 0;
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != 0) {
         bpak_printf(0, "Could not seek to new pos\n");
-- 
2.43.0


From 388eff1deae18c31a8fa72d569deee413e72de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 08/84] fix: a failed add operation must leave the package as
 it was

Failing to read the input, to build the hash tree or to store meta data
left a half added part in the header and the file, reading a directory
or a file that shrinks never ended.
---
 lib/pkg_create.c | 109 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 95 insertions(+), 14 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index ca4d02b..610aec1 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -21,6 +21,33 @@
 #include <bpak/crc.h>
 #include <bpak/crypto.h>
 
+/* Undo a partially completed add operation, 'saved_size' is the size of the
+ *  package file and 'saved' the header before the operation started */
+static void rollback_add(struct bpak_package *pkg,
+                         const struct bpak_header *saved, off_t saved_size)
+{
+    struct stat statbuf;
+
+    memcpy(&pkg->header, saved, sizeof(*saved));
+    fflush(pkg->fp);
+
+    if ((fstat(fileno(pkg->fp), &statbuf) == 0) &&
+        (statbuf.st_size > saved_size)) {
+        if (ftruncate(fileno(pkg->fp), saved_size) != 0)
+            bpak_printf(0, "Error: Could not truncate package\n");
+    }
+}
+
+static off_t package_file_size(struct bpak_package *pkg)
+{
+    struct stat statbuf;
+
+    if (fflush(pkg->fp) != 0 || fstat(fileno(pkg->fp), &statbuf) != 0)
+        return -BPAK_WRITE_ERROR;
+
+    return statbuf.st_size;
+}
+
 #if BPAK_CONFIG_MERKLE == 1
 static ssize_t merkle_wr(off_t offset, uint8_t *buf, size_t size, void *priv)
 {
@@ -48,24 +75,38 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     uint8_t block_buf[BPAK_CHUNK_BUFFER_LENGTH];
     size_t chunk_sz;
     uint64_t new_offset = sizeof(*h);
+    struct bpak_header saved_header;
+    off_t saved_size;
 
     if (stat(filename, &statbuf) != 0) {
         bpak_printf(0, "Error: Can't open file '%s'\n", filename);
         return -BPAK_FILE_NOT_FOUND;
     }
 
-    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
-
-    if (rc != 0)
-        return rc;
-
     ssize_t merkle_sz = bpak_merkle_compute_size(statbuf.st_size);
 
     if (merkle_sz < 0)
         return merkle_sz;
 
+    saved_size = package_file_size(pkg);
+
+    if (saved_size < 0)
+        return saved_size;
+
+    memcpy(&saved_header, h, sizeof(saved_header));
+
+    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
+
+    if (rc != 0)
+        return rc;
+
     char *merkle_buf = bpak_calloc(merkle_sz, 1);
 
+    if (merkle_buf == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_rollback_out;
+    }
+
     memset(merkle_buf, 0, merkle_sz);
 
     bpak_printf(1, "Allocated %li bytes for merkle tree\n", merkle_sz);
@@ -90,6 +131,9 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                           true,
                           merkle_buf);
 
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
+
     FILE *fp = fopen(filename, "rb");
 
     if (fp == NULL) {
@@ -192,6 +236,11 @@ err_close_fp_out:
     fclose(fp);
 err_free_buf_out:
     bpak_free(merkle_buf);
+err_rollback_out:
+    if (rc != BPAK_OK) {
+        rollback_add(pkg, &saved_header, saved_size);
+        bpak_pkg_write_header(pkg);
+    }
     return rc;
 }
 
@@ -207,6 +256,8 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     struct stat statbuf;
     uint64_t new_offset = sizeof(struct bpak_header);
     char chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
+    struct bpak_header saved_header;
+    off_t saved_size;
 
     if (stat(filename, &statbuf) != 0) {
         bpak_printf(0, "Error: can't open file '%s'\n", filename);
@@ -221,11 +272,25 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
         new_offset += (p->size + p->pad_bytes);
     }
 
+    saved_size = package_file_size(pkg);
+
+    if (saved_size < 0)
+        return saved_size;
+
+    in_fp = fopen(filename, "r");
+
+    if (!in_fp) {
+        bpak_printf(0, "Could not open input file: %s\n", filename);
+        return -BPAK_FILE_NOT_FOUND;
+    }
+
+    memcpy(&saved_header, h, sizeof(saved_header));
+
     rc = bpak_add_part(h, bpak_id(part_name), &p);
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Error: Could not add part\n");
-        return rc;
+        goto err_close_fp;
     }
 
     p->id = bpak_id(part_name);
@@ -242,20 +307,21 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     if (rc != 0) {
         bpak_printf(0, "Error: Could not seek to new pos\n");
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_close_fp;
     }
 
     uint64_t bytes_to_write = p->size;
 
-    in_fp = fopen(filename, "r");
+    while (bytes_to_write) {
+        size_t chunk_length = BPAK_MIN(bytes_to_write, sizeof(chunk_buffer));
+        size_t read_bytes = fread(chunk_buffer, 1, chunk_length, in_fp);
 
-    if (!in_fp) {
-        bpak_printf(0, "Could not open input file: %s\n", filename);
-        return -BPAK_FILE_NOT_FOUND;
-    }
+        if (read_bytes != chunk_length) {
+            rc = -BPAK_READ_ERROR;
+            break;
+        }
 
-    while (bytes_to_write) {
-        size_t read_bytes = fread(chunk_buffer, 1, sizeof(chunk_buffer), in_fp);
         if (fwrite(chunk_buffer, 1, read_bytes, pkg->fp) != read_bytes) {
             rc = -BPAK_WRITE_ERROR;
             break;
@@ -287,6 +353,8 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
 err_close_fp:
     fclose(in_fp);
+    if (rc != BPAK_OK)
+        rollback_add(pkg, &saved_header, saved_size);
     return rc;
 }
 
@@ -298,12 +366,23 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *p = NULL;
     uint64_t new_offset = sizeof(struct bpak_header);
+    struct bpak_header saved_header;
+    off_t saved_size;
 
     rc = bpak_crypto_load_public_key(filename, &key);
 
     if (rc != BPAK_OK)
         return rc;
 
+    saved_size = package_file_size(pkg);
+
+    if (saved_size < 0) {
+        bpak_free(key);
+        return saved_size;
+    }
+
+    memcpy(&saved_header, h, sizeof(saved_header));
+
     /* Write header */
     bpak_foreach_part (h, p) {
         new_offset += (p->size + p->pad_bytes);
@@ -360,6 +439,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         goto err_free_key_out;
 
 err_free_key_out:
+    if (rc != BPAK_OK)
+        rollback_add(pkg, &saved_header, saved_size);
     bpak_free(key);
     return rc;
 }
-- 
2.43.0


From 58fc0f78cb687b6aed1bc424e172e2d8b486cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 09/84] fix: deleting a part from a truncated package must not
 loop forever

---
 lib/pkg.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 75c0e1c..bc238a7 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -550,15 +550,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         size_t chunk_length =
             BPAK_MIN(bytes_to_process, sizeof(copy_buffer));
-        size_t chunk_read = fread(copy_buffer, 1, BPAK_CHUNK_BUFFER_LENGTH, pkg->fp);
+        size_t chunk_read = fread(copy_buffer, 1, chunk_length, pkg->fp);
 
         if (chunk_read != chunk_length) {
-            rc = ferror(pkg->fp);
-            if (rc != 0) {
-                bpak_printf(0, "%s: Error: Couldn't read file: %d\n",
-                            __func__, rc);
-                return -BPAK_READ_ERROR;
-            }
+            bpak_printf(0, "%s: Error: Couldn't read file\n", __func__);
+            return -BPAK_READ_ERROR;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
-- 
2.43.0


From bad5c44fb6cb73f4b36ac4ec5fe9342e24ed180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 10/84] fix: extract all bytes of transport encoded parts

Encoded parts are stored without padding.
---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index bc238a7..eda9e65 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -455,7 +455,7 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     }
 
     char copy_buffer[BPAK_CHUNK_BUFFER_LENGTH];
-    size_t bytes_to_copy = bpak_part_size(part) - part->pad_bytes;
+    size_t bytes_to_copy = bpak_part_size_wo_pad(part);
     size_t chunk_to_write = 0;
     size_t chunk_read = 0;
 
-- 
2.43.0


From 618f5886ecf6a25bf54275893fb03718164da9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 11/84] fix: bpak_verify_compute_header_hash must report hash
 errors

---
 lib/verify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/verify.c b/lib/verify.c
index 8be98db..f20f60f 100644
--- a/lib/verify.c
+++ b/lib/verify.c
@@ -55,7 +55,7 @@ BPAK_EXPORT int bpak_verify_compute_header_hash(struct bpak_header *header,
 
 err_free_hash_ctx_out:
     bpak_hash_free(&hash_ctx);
-    return BPAK_OK;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_verify_compute_payload_hash(struct bpak_header *header,
-- 
2.43.0


From 059ad71f3c8b2e4116d3dadc27eb07bd0e10900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 12/84] fix: bpak_pkg_verify must not read beyond the signature
 area

The stored signature size was passed to the signature check unchecked.
---
 lib/pkg_verify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg_verify.c b/lib/pkg_verify.c
index 944040c..f8e143f 100644
--- a/lib/pkg_verify.c
+++ b/lib/pkg_verify.c
@@ -41,6 +41,9 @@ BPAK_EXPORT int bpak_pkg_verify(struct bpak_package *pkg,
     size_t hash_size = sizeof(hash_output);
     bool header_verified = false;
 
+    if (pkg->header.signature_sz > sizeof(pkg->header.signature))
+        return -BPAK_VERIFY_FAIL;
+
     rc = bpak_verify_compute_header_hash(&pkg->header, hash_output, &hash_size);
 
     if (rc != BPAK_OK)
-- 
2.43.0


From c5950f859576c5917d436ebd3c873dacfa782b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 13/84] fix: release key contexts and report key parse errors

---
 lib/mbedtls_wrapper.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 905dc94..6a4c504 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -175,6 +175,7 @@ int bpak_mbed_verify(const uint8_t *signature, size_t signature_length,
     rc = mbedtls_pk_parse_public_key(&ctx, key->data, key->size);
 
     if (rc != 0) {
+        mbedtls_pk_free(&ctx);
         return -BPAK_KEY_DECODE;
     }
 
@@ -279,7 +280,12 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     unsigned char tmp[1024];
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-    mbedtls_pk_parse_public_keyfile(&ctx, filename);
+    rc = mbedtls_pk_parse_public_keyfile(&ctx, filename);
+
+    if (rc != 0) {
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx;
+    }
 
     int len = mbedtls_pk_write_pubkey_der(&ctx, tmp, sizeof(tmp));
 
@@ -320,6 +326,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
+    mbedtls_pk_free(&ctx);
     return BPAK_OK;
 
 err_free_key_out:
@@ -364,6 +371,12 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     rc = mbedtls_pk_parse_keyfile(&ctx, filename, NULL);
 #endif
 
+    if (rc != 0) {
+        bpak_printf(0, "Error: Could not load private key (%i)\n", rc);
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx_out;
+    }
+
     int len = mbedtls_pk_write_key_der(&ctx, tmp, sizeof(tmp));
 
     if (len < 0) {
-- 
2.43.0


From 93a4e09c3f48e8beb9de0e8d0b2b879560936767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 14/84] fix: bpak_crypto_parse_public_key must accept RSA 4096
 keys

The encoded key does not fit in 512 bytes.
---
 lib/mbedtls_wrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 6a4c504..89819b1 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -448,7 +448,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
 {
     int rc = BPAK_OK;
     struct bpak_key *key = NULL;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     enum bpak_key_kind kind;
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-- 
2.43.0


From d284d9b1aa533bdcd0dc189b3b2352733f57d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 15/84] fix: refuse keys on unsupported curves of the same size
 as supported ones

Brainpool and secp256k1 keys were taken for NIST keys as only the bit
length was compared.
---
 lib/mbedtls_wrapper.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 89819b1..38e3428 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -5,12 +5,17 @@
 #include <mbedtls/platform.h>
 #include <mbedtls/sha256.h>
 #include <mbedtls/sha512.h>
+#include <mbedtls/ecp.h>
 #include <mbedtls/pk.h>
 #include <mbedtls/entropy.h>
 #include <mbedtls/ctr_drbg.h>
 
 #include "mbedtls_wrapper.h"
 
+#ifndef MBEDTLS_PRIVATE
+#define MBEDTLS_PRIVATE(member) member
+#endif
+
 int bpak_mbed_hash_init(struct bpak_hash_context *ctx)
 {
     switch (ctx->kind) {
@@ -160,6 +165,15 @@ static int hash_kind(int bpak_hash_kind)
     return hash_kind;
 }
 
+/* Keys on other curves of the same size are not supported, therefore
+ * the bit length is not enough to identify the kind of key */
+static mbedtls_ecp_group_id ec_group_id(const mbedtls_pk_context *ctx)
+{
+    const mbedtls_ecp_keypair *ec = mbedtls_pk_ec(*ctx);
+
+    return ec->MBEDTLS_PRIVATE(grp).id;
+}
+
 int bpak_mbed_verify(const uint8_t *signature, size_t signature_length,
                      const uint8_t *hash, size_t hash_length,
                      enum bpak_hash_kind kind, struct bpak_key *key,
@@ -298,14 +312,14 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
-        case 256:
+        switch (ec_group_id(&ctx)) {
+        case MBEDTLS_ECP_DP_SECP256R1:
             key->kind = BPAK_KEY_PUB_PRIME256v1;
             break;
-        case 384:
+        case MBEDTLS_ECP_DP_SECP384R1:
             key->kind = BPAK_KEY_PUB_SECP384r1;
             break;
-        case 521:
+        case MBEDTLS_ECP_DP_SECP521R1:
             key->kind = BPAK_KEY_PUB_SECP521r1;
             break;
         default:
@@ -397,14 +411,14 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
-        case 256:
+        switch (ec_group_id(&ctx)) {
+        case MBEDTLS_ECP_DP_SECP256R1:
             key->kind = BPAK_KEY_PRI_PRIME256v1;
             break;
-        case 384:
+        case MBEDTLS_ECP_DP_SECP384R1:
             key->kind = BPAK_KEY_PRI_SECP384r1;
             break;
-        case 521:
+        case MBEDTLS_ECP_DP_SECP521R1:
             key->kind = BPAK_KEY_PRI_SECP521r1;
             break;
         default:
@@ -461,14 +475,14 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
     }
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
-        case 256:
+        switch (ec_group_id(&ctx)) {
+        case MBEDTLS_ECP_DP_SECP256R1:
             kind = BPAK_KEY_PUB_PRIME256v1;
             break;
-        case 384:
+        case MBEDTLS_ECP_DP_SECP384R1:
             kind = BPAK_KEY_PUB_SECP384r1;
             break;
-        case 521:
+        case MBEDTLS_ECP_DP_SECP521R1:
             kind = BPAK_KEY_PUB_SECP521r1;
             break;
         default:
-- 
2.43.0


From 374aae638b1b3212eb852cc288c9b7eef2b893e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 16/84] fix: bsdiff must not read beyond the suffix array

---
 lib/bsdiff.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index e1b9fa8..34cdba5 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -669,14 +669,20 @@ BPAK_EXPORT ssize_t bpak_bsdiff(struct bpak_bsdiff_context *ctx)
         for (int64_t scsc = ctx->scan; ctx->scan < (int64_t)ctx->new_length;
              ctx->scan++) {
 
-            ctx->len = search(ctx->suffix_array,
-                              ctx->origin_data,
-                              ctx->origin_length,
-                              ctx->new_data + ctx->scan,
-                              ctx->new_length - ctx->scan,
-                              0,
-                              ctx->origin_length,
-                              &(ctx->pos));
+            if (ctx->origin_length > 0) {
+                ctx->len = search(ctx->suffix_array,
+                                  ctx->origin_data,
+                                  ctx->origin_length,
+                                  ctx->new_data + ctx->scan,
+                                  ctx->new_length - ctx->scan,
+                                  0,
+                                  ctx->origin_length - 1,
+                                  &(ctx->pos));
+            } else {
+                /* There is nothing to match in an empty origin */
+                ctx->len = 0;
+                ctx->pos = 0;
+            }
 
             for (; scsc < ctx->scan + ctx->len; scsc++) {
                 if ((scsc + ctx->last_offset < (int64_t)ctx->origin_length) &&
-- 
2.43.0


From ae4b5cb56459e358bfbef24287dc76cf2f210c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 17/84] fix: an empty chunk must not end a bspatch stream

---
 lib/bspatch.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6389961..d048637 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -416,6 +416,11 @@ BPAK_EXPORT int bpak_bspatch_write(struct bpak_bspatch_context *ctx,
                                    uint8_t *buffer, size_t length)
 {
     int rc;
+
+    /* An empty chunk holds no data, it does not end the stream */
+    if (length == 0)
+        return BPAK_OK;
+
     switch (ctx->compression) {
     case BPAK_COMPRESSION_NONE:
         rc = bspatch_write(ctx, buffer, length);
-- 
2.43.0


From ffc3263c3ec233d942fd7c51e70c0e925a9df1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 18/84] fix: bspatch must refuse negative lengths, origin
 positions and empty buffers

---
 lib/bspatch.c | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index d048637..06e1737 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -51,6 +51,23 @@ static int64_t offtin(uint8_t *buf)
     return y;
 }
 
+/* Move to the next position in the origin data */
+static int adjust_origin(struct bpak_bspatch_context *ctx)
+{
+    if ((ctx->adjust < -ctx->origin_position) ||
+        (ctx->adjust >
+         INT64_MAX - ctx->origin_offset - ctx->origin_position)) {
+        bpak_printf(0, "Error: origin position out of range\n");
+        ctx->state = BPAK_PATCH_STATE_ERROR;
+        return -BPAK_PATCH_READ_ORIGIN_ERROR;
+    }
+
+    ctx->origin_position += ctx->adjust;
+    ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
+    ctx->ctrl_buf_count = 0;
+    return BPAK_OK;
+}
+
 static int bspatch_write(struct bpak_bspatch_context *ctx, uint8_t *buffer,
                          size_t length)
 {
@@ -89,6 +106,13 @@ process_more:
                     ctx->adjust,
                     bytes_available);
 
+        if (ctx->diff_count < 0 || ctx->extra_count < 0) {
+            bpak_printf(0, "Error: negative length in control block\n");
+            ctx->state = BPAK_PATCH_STATE_ERROR;
+            rc = -BPAK_SIZE_ERROR;
+            break;
+        }
+
         ctx->state = BPAK_PATCH_STATE_APPLY_DIFF;
 
         if (bytes_available)
@@ -152,9 +176,10 @@ process_more:
             if (ctx->extra_count > 0) {
                 ctx->state = BPAK_PATCH_STATE_APPLY_EXTRA;
             } else {
-                ctx->origin_position += ctx->adjust;
-                ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
-                ctx->ctrl_buf_count = 0;
+                rc = adjust_origin(ctx);
+
+                if (rc != BPAK_OK)
+                    break;
             }
         }
 
@@ -188,9 +213,10 @@ process_more:
         pp += data_to_process;
 
         if (ctx->extra_count == 0) {
-            ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
-            ctx->ctrl_buf_count = 0;
-            ctx->origin_position += ctx->adjust;
+            rc = adjust_origin(ctx);
+
+            if (rc != BPAK_OK)
+                break;
 
             if (bytes_available > 0) {
                 goto process_more;
@@ -387,7 +413,7 @@ BPAK_EXPORT int bpak_bspatch_init(struct bpak_bspatch_context *ctx,
 
     memset(ctx, 0, sizeof(*ctx));
 
-    if (buffer_length % 2 != 0)
+    if (buffer_length == 0 || buffer_length % 2 != 0)
         return -BPAK_SIZE_ERROR;
 
     ctx->patch_buffer = &buffer[0];
-- 
2.43.0


From 49d74b943bc2c1e67a9341949e7e9f95d84b8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 19/84] fix: transport encoding must not use a missing package
 id

---
 lib/transport_encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index b7dfbb4..cc9c4fa 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -368,21 +368,21 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
                            0,
                            &meta);
 
-        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+
         rc = bpak_get_meta(input_header,
                            BPAK_ID_BPAK_PACKAGE,
                            0,
                            &meta);
 
-        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
+
         if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
             return -BPAK_PACKAGE_UUID_MISMATCH;
     }
-- 
2.43.0


From e726923f631139376c1d8ef067cf55e828f47306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 20/84] fix: only delta coded parts need a counterpart in the
 origin

---
 lib/pkg.c              | 13 -------------
 lib/transport_decode.c | 10 +++++++++-
 lib/transport_encode.c | 31 +++++++++----------------------
 3 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index eda9e65..b8fe437 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -273,7 +273,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
     int rc;
 
     struct bpak_header *patch_header = bpak_pkg_header(input);
-    struct bpak_part_header *origin_part = NULL;
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
@@ -331,18 +330,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         if (part->id == 0)
             break;
 
-        /* Compute origin and output offsets */
-        if (origin != NULL) {
-            rc = bpak_get_part(&origin->header, part->id, &origin_part);
-
-            if (rc != BPAK_OK) {
-                bpak_printf(0,
-                            "Error could not get part with ref %x\n",
-                            part->id);
-                goto err_out;
-            }
-        }
-
         rc = bpak_transport_decode_start(&decode_ctx, part);
 
         if (rc != BPAK_OK) {
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 935cf40..ba528a4 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -197,6 +197,7 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
 {
     int rc;
     struct bpak_meta_header *meta = NULL;
+    struct bpak_part_header *origin_part = NULL;
     ssize_t bytes_written;
 
     bytes_written = ctx->write_output_header(0,
@@ -233,6 +234,13 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
             return -BPAK_PATCH_READ_ORIGIN_ERROR;
         }
 
+        rc = bpak_get_part(ctx->origin_header, part->id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0, "Error: Part 0x%x not in origin\n", part->id);
+            return rc;
+        }
+
         size_t patch_input_length = bpak_part_size(part);
         bpak_printf(2, "Patch input length: %zu\n", patch_input_length);
 
@@ -251,7 +259,7 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
         off_t output_offset = bpak_part_offset(ctx->patch_header, part) -
                               sizeof(struct bpak_header) + ctx->output_offset;
 
-        off_t origin_offset = bpak_part_offset(ctx->origin_header, part) -
+        off_t origin_offset = bpak_part_offset(ctx->origin_header, origin_part) -
                               sizeof(struct bpak_header) + ctx->origin_offset;
 
         rc = bpak_bspatch_init(&ctx->decoders.bspatch,
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index cc9c4fa..66a6808 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -241,17 +241,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
         return rc;
     }
 
-    if (origin_header != NULL) {
-        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
-
-        if (rc != BPAK_OK) {
-            bpak_printf(0,
-                        "Error could not get part with ref %x\n",
-                        part_ref_id);
-            return rc;
-        }
-    }
-
     alg_id = tm->alg_id_encode;
     bpak_printf(2,
                 "Encoding part 0x%x using encoder 0x%x\n",
@@ -266,17 +255,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
                 "Initializing alg, input size %li bytes\n",
                 bpak_part_size(input_part));
 
-    if (origin_header != NULL && origin_fp != NULL) {
-        rc = fseek(origin_fp,
-                   bpak_part_offset(origin_header, origin_part),
-                   SEEK_SET);
-
-        if (rc != 0) {
-            bpak_printf(0, "%s: Error, could not seek origin stream", __func__);
-            return rc;
-        }
-    }
-
     rc = fseek(input_fp, bpak_part_offset(input_header, input_part), SEEK_SET);
 
     if (rc != BPAK_OK) {
@@ -303,6 +281,15 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
             goto err_out;
         }
 
+        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part_ref_id);
+            goto err_out;
+        }
+
         enum bpak_compression compression = BPAK_COMPRESSION_NONE;
 
         if (alg_id == BPAK_ID_BSDIFF)
-- 
2.43.0


From 559c1ba17e7fab4bc857f86cf616825d14341bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 21/84] fix: transport encoding must keep the data of encoded
 parts

---
 lib/transport_encode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 66a6808..cedad91 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -249,7 +249,11 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
 
     /* Already processed for transport ?*/
     if ((output_part->flags & BPAK_FLAG_TRANSPORT))
-        return BPAK_OK;
+        return transport_copy(input_header,
+                              output_header,
+                              part_ref_id,
+                              input_fp,
+                              output_fp);
 
     bpak_printf(1,
                 "Initializing alg, input size %li bytes\n",
-- 
2.43.0


From 8633af0a8c62b36eb06039dfc8b00febf87fa4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 22/84] fix: transport encoding must not map beyond truncated
 archives

---
 lib/transport_encode.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index cedad91..fd2408d 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -152,6 +152,13 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         return -BPAK_FAILED;
     }
 
+    if ((target_offset > target_file_sz) ||
+        (target_length > (size_t)(target_file_sz - target_offset))) {
+        bpak_printf(0, "Error: Part data is missing in the input\n");
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_target;
+    }
+
     /* Calculate pointer to where the needed data starts */
     target_data = target_data_mmap + target_offset;
 
@@ -167,6 +174,13 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         goto err_munmap_target;
     }
 
+    if ((origin_offset > origin_file_sz) ||
+        (origin_length > (size_t)(origin_file_sz - origin_offset))) {
+        bpak_printf(0, "Error: Part data is missing in the origin\n");
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_target;
+    }
+
     origin_data_mmap =
         mmap(NULL, origin_file_sz, PROT_READ, MAP_SHARED, origin_fd, 0);
 
-- 
2.43.0


From eec234f3273273b12d9b36320f6daef5da03ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 23/84] fix: transport decoding must compare the package ids of
 patch and origin

---
 lib/transport_decode.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index ba528a4..2276a17 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -161,10 +161,6 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     uint8_t *origin_package_uuid;
     uint8_t *patch_package_uuid;
 
-    ctx->origin_header = origin_header;
-    ctx->read_origin = read_origin;
-    ctx->origin_offset = origin_offset;
-
     /* Origin and input package should have the same package-uuid */
     rc = bpak_get_meta(origin_header,
                        BPAK_ID_BPAK_PACKAGE,
@@ -184,11 +180,15 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    patch_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+    patch_package_uuid = bpak_get_meta_ptr(ctx->patch_header, meta, uint8_t);
 
     if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
         return -BPAK_PACKAGE_UUID_MISMATCH;
 
+    ctx->origin_header = origin_header;
+    ctx->read_origin = read_origin;
+    ctx->origin_offset = origin_offset;
+
     return BPAK_OK;
 }
 
-- 
2.43.0


From a8b08802d13407d24ce5cce59fd31371822c40e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 24/84] fix: transport decoding must not change the loaded
 input header

---
 lib/pkg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index b8fe437..c3fae5f 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -272,7 +272,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 {
     int rc;
 
-    struct bpak_header *patch_header = bpak_pkg_header(input);
+    /* The decoder updates the header, the input package stays as it is */
+    struct bpak_header patch_header = *bpak_pkg_header(input);
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
@@ -288,7 +289,7 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
     rc = bpak_transport_decode_init(&decode_ctx,
                                     decode_buffer,
                                     BPAK_CHUNK_BUFFER_LENGTH,
-                                    patch_header,
+                                    &patch_header,
                                     decode_write_output,
                                     decode_read_output,
                                     sizeof(struct bpak_header),
@@ -326,7 +327,7 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         return -BPAK_SEEK_ERROR;
     }
 
-    bpak_foreach_part (patch_header, part) {
+    bpak_foreach_part (&patch_header, part) {
         if (part->id == 0)
             break;
 
-- 
2.43.0


From 58b9b09ab90fc576bf3ae5f6bcd3c1ef4cc9414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 25/84] fix: transport decoding must write the header of an
 archive without parts

---
 lib/pkg.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index c3fae5f..11ce4e0 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -327,6 +327,17 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         return -BPAK_SEEK_ERROR;
     }
 
+    /* There is nothing to decode when there are no parts, only the header */
+    if (patch_header.parts[0].id == 0 &&
+        decode_write_output_header(0,
+                                   (uint8_t *)&patch_header,
+                                   sizeof(patch_header),
+                                   &decode_private) !=
+            sizeof(patch_header)) {
+        rc = -BPAK_WRITE_ERROR;
+        goto err_out;
+    }
+
     bpak_foreach_part (&patch_header, part) {
         if (part->id == 0)
             break;
-- 
2.43.0


From d59b38c2c93abdd4b3a0350f94b133fcdb36728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 26/84] fix: the transport decoder must write exactly the
 announced part

---
 lib/transport_decode.c | 67 ++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 2276a17..39e0329 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -16,7 +16,47 @@
 #include <bpak/id.h>
 #include <bpak/utils.h>
 
+/* Output offset of the part that is being decoded */
+static off_t part_output_offset(struct bpak_transport_decode *ctx)
+{
+    return bpak_part_offset(ctx->patch_header, ctx->part) -
+           sizeof(struct bpak_header) + ctx->output_offset;
+}
+
+/* IO calls of the decoders, output is only written inside the current part */
+static ssize_t write_part(off_t offset, uint8_t *buffer, size_t length,
+                          void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+    uint64_t part_size = ctx->part->size + ctx->part->pad_bytes;
+    off_t start = part_output_offset(ctx);
+
+    if ((offset < start) || ((uint64_t)(offset - start) > part_size) ||
+        (length > part_size - (offset - start))) {
+        bpak_printf(0, "Error: Decoded data exceeds the size of the part\n");
+        return -BPAK_SIZE_ERROR;
+    }
+
+    return ctx->write_output(offset, buffer, length, ctx->user);
+}
+
+static ssize_t read_origin(off_t offset, uint8_t *buffer, size_t length,
+                           void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+
+    return ctx->read_origin(offset, buffer, length, ctx->user);
+}
+
 #if BPAK_CONFIG_MERKLE == 1
+static ssize_t read_output(off_t offset, uint8_t *buffer, size_t length,
+                           void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+
+    return ctx->read_output(offset, buffer, length, ctx->user);
+}
+
 static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
 {
     int rc;
@@ -60,8 +100,7 @@ static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
         return rc;
     }
 
-    off_t output_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
-                          sizeof(struct bpak_header) + ctx->output_offset;
+    off_t output_offset = part_output_offset(ctx);
 
     bpak_printf(0, "Merkle tree at offset: %i\n", output_offset);
 
@@ -69,11 +108,11 @@ static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
                           bpak_part_size(fs_part),
                           salt,
                           32,
-                          ctx->write_output,
-                          ctx->read_output,
+                          write_part,
+                          read_output,
                           output_offset,
                           true,
-                          ctx->user);
+                          ctx);
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Error: Could not init bpak merkle\n");
@@ -256,8 +295,7 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
             return -BPAK_UNSUPPORTED_COMPRESSION;
 
         /* Compute output and origin offsets */
-        off_t output_offset = bpak_part_offset(ctx->patch_header, part) -
-                              sizeof(struct bpak_header) + ctx->output_offset;
+        off_t output_offset = part_output_offset(ctx);
 
         off_t origin_offset = bpak_part_offset(ctx->origin_header, origin_part) -
                               sizeof(struct bpak_header) + ctx->origin_offset;
@@ -266,12 +304,12 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
                                ctx->buffer,
                                ctx->buffer_length,
                                patch_input_length,
-                               ctx->read_origin,
+                               read_origin,
                                origin_offset,
-                               ctx->write_output,
+                               write_part,
                                output_offset,
                                compression,
-                               ctx->user);
+                               ctx);
 
     } break;
 #if BPAK_CONFIG_MERKLE == 1
@@ -307,12 +345,9 @@ bpak_transport_decode_write_chunk(struct bpak_transport_decode *ctx,
     } break;
     case 0: /* Copy data */
     {
-        off_t write_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
-                             sizeof(struct bpak_header) + ctx->output_offset +
-                             ctx->copy_offset;
+        off_t write_offset = part_output_offset(ctx) + ctx->copy_offset;
 
-        ssize_t bytes_written =
-            ctx->write_output(write_offset, buffer, length, ctx->user);
+        ssize_t bytes_written = write_part(write_offset, buffer, length, ctx);
         if (bytes_written < 0)
             return bytes_written;
         if (bytes_written != (ssize_t)length)
@@ -347,7 +382,7 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
         break;
 #endif
     case 0: /* Copy data */
-        output_length = bpak_part_size(ctx->part);
+        output_length = ctx->copy_offset;
         break;
     default:
         return -BPAK_NOT_SUPPORTED;
-- 
2.43.0


From 6ed3206ee64a08453d6b18bbde89a17a9cf3b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 27/84] fix: bspatch must handle control blocks without data
 when they are complete

---
 lib/bspatch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 06e1737..4208648 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -115,7 +115,8 @@ process_more:
 
         ctx->state = BPAK_PATCH_STATE_APPLY_DIFF;
 
-        if (bytes_available)
+        /* A block without diff data is complete without any more input */
+        if (bytes_available || (ctx->diff_count == 0))
             goto process_more;
     } break;
     case BPAK_PATCH_STATE_APPLY_DIFF: {
-- 
2.43.0


From 38160eb3911940f8788b1e1f8e005ef005a6142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 28/84] fix: hash trees may have four levels

---
 lib/merkle.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index 6fe9efe..aea48d6 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -69,16 +69,15 @@ BPAK_EXPORT int bpak_merkle_init(struct bpak_merkle_context *ctx,
     /* Compute the length of each level and the total length of the hash tree */
     level_length = input_data_length;
     do {
+        if (level >= BPAK_MERKLE_MAX_LEVELS)
+            return -BPAK_NO_SPACE_LEFT;
+
         level_length = (level_length >> BPAK_MERKLE_BLOCK_BITS) * 32;
         pad_bytes = (~level_length + 1) & (BPAK_MERKLE_BLOCK_SZ - 1);
         level_length += pad_bytes;
         ctx->level_length[level] = level_length;
         ctx->hash_tree_length += level_length;
         level = level + 1;
-
-        if (level >= BPAK_MERKLE_MAX_LEVELS)
-            return -BPAK_NO_SPACE_LEFT;
-
     } while (level_length != BPAK_MERKLE_BLOCK_SZ);
 
     ctx->no_of_levels = level;
-- 
2.43.0


From a25f91cfcc42c824081a6bd48353621bc984f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 29/84] fix: hash trees must cover exactly the announced data

---
 lib/merkle.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index aea48d6..d7a7041 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -133,6 +133,12 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
 
     while (data_to_process > 0) {
         if (ctx->block_byte_counter == BPAK_MERKLE_BLOCK_SZ) {
+            if (ctx->input_chunk_counter / BPAK_MERKLE_HASH_BYTES >=
+                ctx->input_data_length / BPAK_MERKLE_BLOCK_SZ) {
+                bpak_printf(0, "Error: More data than announced\n");
+                return -BPAK_SIZE_ERROR;
+            }
+
             rc = bpak_hash_init(&ctx->running_hash, BPAK_HASH_SHA256);
             if (rc != BPAK_OK)
                 return rc;
@@ -184,7 +190,6 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
                  * case the root hash will be the hash of the first and only
                  * input block. */
                 ctx->finished = true;
-                return BPAK_OK;
             }
         }
     }
@@ -206,6 +211,12 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
     ssize_t n_read;
     ssize_t n_written;
 
+    if (ctx->input_chunk_counter / BPAK_MERKLE_HASH_BYTES !=
+        ctx->input_data_length / BPAK_MERKLE_BLOCK_SZ) {
+        bpak_printf(0, "Error: Less data than announced\n");
+        return -BPAK_SIZE_ERROR;
+    }
+
     if (ctx->finished) {
         memcpy(roothash, ctx->buffer, 32);
         return BPAK_OK;
-- 
2.43.0


From 09c69c469010310d0b29ec6ca7f0f6ffd8d7f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 30/84] fix: cli: only complete 32 bit hexadecimal numbers are
 id references

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index e2ebaab..18b916c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -26,14 +26,14 @@ int bpak_printf(int verbosity, const char *fmt, ...)
 
 bpak_id_t bpak_get_id_for_name_or_ref(char *arg)
 {
-    uint32_t id;
+    unsigned long id;
     char *endptr = NULL;
 
     if (strncmp(arg, "0x", 2) == 0) {
         errno = 0;
 
         id = strtoul(arg, &endptr, 16);
-        if (endptr != arg && errno == 0) {
+        if (*endptr == 0 && errno == 0 && id <= UINT32_MAX) {
             return id;
         }
     }
-- 
2.43.0


From 5ae2fa961a3f0a212310ca2e8adfb5d136dccd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 31/84] fix: cli: integers followed by other characters are not
 integers

---
 src/add.c       |  9 +++------
 src/bpak_tool.h |  1 +
 src/main.c      | 18 ++++++++++++++++++
 src/set.c       |  9 +++------
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/add.c b/src/add.c
index f920938..5cd344e 100644
--- a/src/add.c
+++ b/src/add.c
@@ -198,14 +198,11 @@ int action_add(int argc, char **argv)
                     printf("Adding %s <%s>\n", meta_name, from_string);
                 }
             } else if (strcmp(encoder, "integer") == 0) {
-                char *endptr = NULL;
+                uint64_t value;
 
-                errno = 0;
-                uint64_t value = strtol(metadata_input, &endptr, 0);
+                rc = bpak_parse_integer(metadata_input, &value);
 
-                if (endptr == metadata_input ||
-                    errno != 0) {
-                    rc = -BPAK_FAILED;
+                if (rc != BPAK_OK) {
                     fprintf(stderr, "Error: Could not parse input as a number");
                     goto err_close_pkg_out;
                 }
diff --git a/src/bpak_tool.h b/src/bpak_tool.h
index 9f7e294..3f57d87 100644
--- a/src/bpak_tool.h
+++ b/src/bpak_tool.h
@@ -39,5 +39,6 @@ int bpak_get_verbosity(void);
 void bpak_inc_verbosity(void);
 
 bpak_id_t bpak_get_id_for_name_or_ref(char *arg);
+int bpak_parse_integer(const char *arg, uint64_t *value);
 
 #endif
diff --git a/src/main.c b/src/main.c
index 18b916c..6f7aabd 100644
--- a/src/main.c
+++ b/src/main.c
@@ -6,6 +6,7 @@
 #include <getopt.h>
 #include <stdbool.h>
 #include <errno.h>
+#include <ctype.h>
 
 #include "bpak_tool.h"
 
@@ -41,6 +42,23 @@ bpak_id_t bpak_get_id_for_name_or_ref(char *arg)
     return bpak_id(arg);
 }
 
+int bpak_parse_integer(const char *arg, uint64_t *value)
+{
+    char *endptr = NULL;
+
+    errno = 0;
+    *value = strtol(arg, &endptr, 0);
+
+    if (endptr == arg || errno != 0)
+        return -BPAK_FAILED;
+
+    /* Input from files often ends with a line feed */
+    while (isspace((unsigned char)*endptr))
+        endptr++;
+
+    return (*endptr == 0) ? BPAK_OK : -BPAK_FAILED;
+}
+
 int main(int argc, char **argv)
 {
     int rc;
diff --git a/src/set.c b/src/set.c
index b6adc80..1042852 100644
--- a/src/set.c
+++ b/src/set.c
@@ -203,14 +203,11 @@ int action_set(int argc, char **argv)
                 goto err_close_fp_out;
             }
 
-            char *endptr = NULL;
+            uint64_t value;
 
-            errno = 0;
-            uint64_t value = strtol(from_string, &endptr, 0);
+            rc = bpak_parse_integer(from_string, &value);
 
-            if (endptr == from_string ||
-                errno != 0) {
-                rc = -BPAK_FAILED;
+            if (rc != BPAK_OK) {
                 fprintf(stderr, "Error: Could not parse input as a number");
                 goto err_close_fp_out;
             }
-- 
2.43.0


From d33160c024c185bf9ff2b2a28726ec840eeb0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 32/84] fix: cli: metadata from big files was cut off

---
 src/add.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/add.c b/src/add.c
index 5cd344e..0610877 100644
--- a/src/add.c
+++ b/src/add.c
@@ -28,7 +28,7 @@ int action_add(int argc, char **argv)
     int opt;
     int long_index = 0;
     uint32_t flags = 0;
-    char metadata_input[BPAK_METADATA_BYTES] = { 0 };
+    char metadata_input[BPAK_METADATA_BYTES + 1] = { 0 };
     size_t metadata_input_length = 0;
     const char *filename = NULL;
     const char *part_name = NULL;
@@ -143,7 +143,7 @@ int action_add(int argc, char **argv)
 
         if (from_string) {
             metadata_input_length = strlen(from_string) + 1;
-            if (metadata_input_length > sizeof(metadata_input)) {
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
                 rc = -BPAK_NO_SPACE_LEFT;
                 goto err_close_pkg_out;
             }
@@ -166,6 +166,14 @@ int action_add(int argc, char **argv)
                 rc = -BPAK_FAILED;
                 goto err_close_pkg_out;
             }
+
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
+                fprintf(stderr, "Error: '%s' is too big\n", from_file);
+                rc = -BPAK_NO_SPACE_LEFT;
+                goto err_close_pkg_out;
+            }
+
+            metadata_input[metadata_input_length] = 0;
         }
 
         if (encoder) {
-- 
2.43.0


From 57b27620cc0d0b49e9674f1511a1347749e9c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 33/84] fix: cli: adding a part requires a file

---
 src/add.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/add.c b/src/add.c
index 0610877..62b9bed 100644
--- a/src/add.c
+++ b/src/add.c
@@ -122,6 +122,11 @@ int action_add(int argc, char **argv)
         return -1;
     }
 
+    if (!meta_name && !from_file) {
+        fprintf(stderr, "Error: Parts must be added with --from-file\n");
+        return -1;
+    }
+
     struct bpak_package pkg;
 
     rc = bpak_pkg_open(&pkg, filename, "r+");
-- 
2.43.0


From 5fb089de2c65613974f9b1f816dd70b997e7dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 34/84] fix: cli: extract and verify must not write to the
 package

---
 src/extract.c | 2 +-
 src/sign.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 12923f8..c85ba91 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -95,7 +95,7 @@ int action_extract(int argc, char **argv)
 
     struct bpak_package pkg;
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
diff --git a/src/sign.c b/src/sign.c
index e09c8c9..dcae3ca 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -170,7 +170,7 @@ int action_verify(int argc, char **argv)
         return -1;
     }
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
-- 
2.43.0


From 7e47336c89058b2413994b7513e65678d6ded552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 35/84] fix: cli: extract must report when metadata could not
 be written

---
 src/extract.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index c85ba91..6a33092 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -149,7 +149,10 @@ int action_extract(int argc, char **argv)
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK) {
+            fprintf(stderr, "Error: write error\n");
+            rc = -BPAK_WRITE_ERROR;
+        }
     }
 err_close_pkg_out:
     bpak_pkg_close(&pkg);
-- 
2.43.0


From f8cd16fca0e22fc1cb8cc10405873003a32253fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 36/84] fix: cli: set ignored the key ids when metadata was set
 too

---
 src/set.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/set.c b/src/set.c
index 1042852..a8c5514 100644
--- a/src/set.c
+++ b/src/set.c
@@ -224,27 +224,24 @@ int action_set(int argc, char **argv)
         } else {
             rc = -BPAK_FAILED;
             fprintf(stderr, "Error: Unknown encoder\n");
+            goto err_close_fp_out;
         }
-    } else if (key_id_flag || keystore_id_flag) {
+    }
 
-        if (key_id_flag) {
-            h->key_id = key_id;
+    if (key_id_flag) {
+        h->key_id = key_id;
 
-            if (bpak_get_verbosity()) {
-                printf("Setting key-id to       0x%08x\n", key_id);
-            }
+        if (bpak_get_verbosity()) {
+            printf("Setting key-id to       0x%08x\n", key_id);
         }
+    }
 
-        if (keystore_id_flag) {
-            h->keystore_id = keystore_id;
+    if (keystore_id_flag) {
+        h->keystore_id = keystore_id;
 
-            if (bpak_get_verbosity()) {
-                printf("Setting keystore-id to  0x%08x\n", keystore_id);
-            }
+        if (bpak_get_verbosity()) {
+            printf("Setting keystore-id to  0x%08x\n", keystore_id);
         }
-    } else {
-        rc = -BPAK_FAILED;
-        fprintf(stderr, "Error: Don't know what to do\n");
     }
 
     if (fseek(fp, 0, SEEK_SET) != 0) {
-- 
2.43.0


From a585ce4e963dbb5916bc45ab18653b6ed547b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 37/84] fix: cli: set must report failing writes and
 allocations

---
 src/set.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/set.c b/src/set.c
index a8c5514..2747909 100644
--- a/src/set.c
+++ b/src/set.c
@@ -110,6 +110,9 @@ int action_set(int argc, char **argv)
     FILE *fp = NULL;
     struct bpak_header *h = malloc(sizeof(struct bpak_header));
 
+    if (h == NULL)
+        return -BPAK_FAILED;
+
     fp = fopen(filename, "r+");
 
     if (fp == NULL) {
@@ -159,6 +162,12 @@ int action_set(int argc, char **argv)
                 }
 
                 struct bpak_header *tmp_header = malloc(sizeof(struct bpak_header));
+
+                if (tmp_header == NULL) {
+                    rc = -BPAK_FAILED;
+                    goto err_close_fp_out;
+                }
+
                 memcpy(tmp_header, h, sizeof(struct bpak_header));
 
                 struct bpak_meta_header *meta_tmp = NULL;
@@ -169,6 +178,7 @@ int action_set(int argc, char **argv)
                      * internal bugs
                      */
                     fprintf(stderr, "FATAL ERROR");
+                    free(tmp_header);
                     goto err_close_fp_out;
                 }
 
@@ -255,7 +265,8 @@ int action_set(int argc, char **argv)
     }
 
 err_close_fp_out:
-    fclose(fp);
+    if (fclose(fp) != 0 && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
 err_free_header_out:
     free(h);
     return rc;
-- 
2.43.0


From 888518660d0b20b4270b233055aab278c9ffe5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 38/84] fix: cli: sign requires a key or a signature

---
 src/sign.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sign.c b/src/sign.c
index dcae3ca..41a0030 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -75,6 +75,12 @@ int action_sign(int argc, char **argv)
         return -1;
     }
 
+    if (!signature_file && !key_source) {
+        fprintf(stderr,
+                "Error: Required argument --key or --signature is missing\n");
+        return -1;
+    }
+
     rc = bpak_pkg_open(&pkg, filename, "r+");
 
     if (rc != BPAK_OK) {
-- 
2.43.0


From 57a7cdff4e6c230b0ee56f3765ec0b0390f8797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 39/84] fix: cli: show --hash must fail when the hash can not
 be computed

---
 src/show.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/show.c b/src/show.c
index 4a6b859..ca3482e 100644
--- a/src/show.c
+++ b/src/show.c
@@ -189,7 +189,10 @@ int action_show(int argc, char **argv)
         goto err_pkg_close;
     } else if (text_hash_output) {
         hash_size = sizeof(hash_output);
-        bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+        rc = bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+
+        if (rc != BPAK_OK)
+            goto err_pkg_close;
 
         for (unsigned int i = 0; i < hash_size; i++)
             printf("%2.2x", hash_output[i] & 0xFF);
-- 
2.43.0


From dde260aafa83493ecfd6114fba5fe19dd4db8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 40/84] fix: cli: transport -D was not recognised

---
 src/show.c      | 2 +-
 src/transport.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/show.c b/src/show.c
index ca3482e..9304fb2 100644
--- a/src/show.c
+++ b/src/show.c
@@ -113,7 +113,7 @@ int action_show(int argc, char **argv)
     rc = bpak_valid_header(h);
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Invalid BPAK header\n");
-        return rc;
+        goto err_pkg_close;
     }
 
     memset(string_output, 0, sizeof(string_output));
diff --git a/src/transport.c b/src/transport.c
index 8b1a6c2..82252cc 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -51,7 +51,7 @@ int action_transport(int argc, char **argv)
 
     while ((opt = getopt_long(argc,
                               argv,
-                              "hvao:s:O:e:d:EGr:",
+                              "hvao:O:e:d:EDr:",
                               long_options,
                               &long_index)) != -1) {
         switch (opt) {
-- 
2.43.0


From 7d6a8815b65f40ceb393651c95a8848342fcafbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 41/84] fix: cli: transport used an uninitialised origin

---
 src/transport.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 82252cc..53be808 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -112,10 +112,11 @@ int action_transport(int argc, char **argv)
     }
 
     struct bpak_package input;
-    struct bpak_package output;
-    struct bpak_package origin;
+    struct bpak_package output = { 0 };
+    struct bpak_package origin = { 0 };
 
-    rc = bpak_pkg_open(&input, filename, "rb+");
+    /* Only --add modifies the input, the origin is never modified */
+    rc = bpak_pkg_open(&input, filename, add_flag ? "rb+" : "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package %s\n", filename);
@@ -123,11 +124,11 @@ int action_transport(int argc, char **argv)
     }
 
     if (origin_file) {
-        rc = bpak_pkg_open(&origin, origin_file, "rb+");
+        rc = bpak_pkg_open(&origin, origin_file, "rb");
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
-            return rc;
+            goto err_out;
         }
     }
 
@@ -149,12 +150,14 @@ int action_transport(int argc, char **argv)
     }
 
     if (encode_flag) {
-        rc = bpak_pkg_transport_encode(&input, &output, &origin);
+        rc = bpak_pkg_transport_encode(&input,
+                                       &output,
+                                       origin_file ? &origin : NULL);
     } else if (decode_flag) {
         rc = bpak_pkg_transport_decode(
             &input, /* Input package or 'patch' */
             &output,
-            &origin); /* Origin data to use for patch operation*/
+            origin_file ? &origin : NULL); /* Origin data to use for patch operation*/
     } else if (add_flag && encoder_alg && decoder_alg) {
         rc = bpak_add_transport_meta(&input.header,
                                      part_ref,
@@ -178,10 +181,8 @@ int action_transport(int argc, char **argv)
 
 err_out:
     bpak_pkg_close(&input);
-
-    if (origin_file) {
-        bpak_pkg_close(&origin);
-    }
+    bpak_pkg_close(&origin);
+    bpak_pkg_close(&output);
 
     return rc;
 }
-- 
2.43.0


From cced1b5a565edf21636c1ec2804fdc180d947d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 42/84] fix: close errors were ignored

---
 lib/pkg.c       | 11 ++++++++---
 src/add.c       |  3 ++-
 src/create.c    |  3 ++-
 src/delete.c    |  3 ++-
 src/sign.c      |  3 ++-
 src/transport.c |  6 ++++--
 6 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 11ce4e0..4d0f9a3 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -98,11 +98,15 @@ err_close_io:
 
 BPAK_EXPORT int bpak_pkg_close(struct bpak_package *pkg)
 {
+    int rc = BPAK_OK;
+
     if (pkg->fp != NULL) {
-        fclose(pkg->fp);
+        /* Buffered data is written here */
+        if (fclose(pkg->fp) != 0)
+            rc = -BPAK_WRITE_ERROR;
         pkg->fp = NULL;
     }
-    return BPAK_OK;
+    return rc;
 }
 
 static ssize_t pkg_read_payload(off_t offset, uint8_t *buf, size_t length,
@@ -482,7 +486,8 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
     }
 
     return rc;
diff --git a/src/add.c b/src/add.c
index 62b9bed..a3ca2a2 100644
--- a/src/add.c
+++ b/src/add.c
@@ -312,6 +312,7 @@ int action_add(int argc, char **argv)
     }
 
 err_close_pkg_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
     return rc;
 }
diff --git a/src/create.c b/src/create.c
index 32ead64..42a1151 100644
--- a/src/create.c
+++ b/src/create.c
@@ -148,6 +148,7 @@ int action_create(int argc, char **argv)
     }
 
 err_close_pkg_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
     return rc;
 }
diff --git a/src/delete.c b/src/delete.c
index 88d917e..5b384da 100644
--- a/src/delete.c
+++ b/src/delete.c
@@ -100,7 +100,8 @@ int action_delete(int argc, char **argv)
         rc = bpak_pkg_delete_part(&pkg, part_id, !keep_metadata);
     }
 
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
     return rc;
 
 }
diff --git a/src/sign.c b/src/sign.c
index 41a0030..af58d9d 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -117,7 +117,8 @@ int action_sign(int argc, char **argv)
     }
 
 err_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
     return rc;
 }
 
diff --git a/src/transport.c b/src/transport.c
index 53be808..2e896b7 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -180,9 +180,11 @@ int action_transport(int argc, char **argv)
     }
 
 err_out:
-    bpak_pkg_close(&input);
+    if (bpak_pkg_close(&input) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
+    if (bpak_pkg_close(&output) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
     bpak_pkg_close(&origin);
-    bpak_pkg_close(&output);
 
     return rc;
 }
-- 
2.43.0


From aa2040168f5322b2abf07831855c6f44b42bb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 43/84] fix: generate: keystore keys must match their data

---
 src/generate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 44da58f..5b00901 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -182,9 +182,8 @@ int action_generate(int argc, char **argv)
 
             printf("{\n");
             printf("    .id = 0x%x,\n", p->id);
-            printf("    .size = %"PRIu64",\n", p->size);
 
-            if (fseek(fp, p->offset, SEEK_SET) != 0) {
+            if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) != 0) {
                 rc = -BPAK_SEEK_ERROR;
                 goto err_free_keystore_name;
             }
@@ -212,6 +211,8 @@ int action_generate(int argc, char **argv)
                 goto err_free_keystore_name;
             }
 
+            printf("    .size = %i,\n", key->size);
+
             switch (key->kind) {
             case BPAK_KEY_PUB_PRIME256v1:
                 printf("    .kind = BPAK_KEY_PUB_PRIME256v1,\n");
-- 
2.43.0


From 46f595a29a2e0bd61b7759ab7e9c7a8c18050dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 44/84] fix: generate: only accept keystore packages

---
 src/generate.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index 5b00901..07fc75c 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -14,6 +14,9 @@
 #include "uuid.h"
 #include "bpak_tool.h"
 
+/* All keystores use this 'bpak-package' id */
+#define KEYSTORE_PACKAGE_UUID "5df103ef-e774-450b-95c5-1fef51ceec28"
+
 int action_generate(int argc, char **argv)
 {
     int opt;
@@ -134,7 +137,20 @@ int action_generate(int argc, char **argv)
         }
 
         package_id = bpak_get_meta_ptr(h, meta, unsigned char);
-        (void)package_id;
+
+        uuid_t keystore_uuid;
+
+        if (uuid_parse(KEYSTORE_PACKAGE_UUID, keystore_uuid) != 0) {
+            rc = -BPAK_FAILED;
+            goto err_free_io_out;
+        }
+
+        if (meta->size != sizeof(keystore_uuid) ||
+            memcmp(package_id, keystore_uuid, sizeof(keystore_uuid)) != 0) {
+            fprintf(stderr, "Error: Not a keystore package\n");
+            rc = -BPAK_PACKAGE_UUID_MISMATCH;
+            goto err_free_io_out;
+        }
 
         uint32_t *keystore_provider_id = NULL;
 
@@ -149,6 +165,12 @@ int action_generate(int argc, char **argv)
             goto err_free_io_out;
         }
 
+        if (meta->size < sizeof(*keystore_provider_id)) {
+            fprintf(stderr, "Error: Invalid keystore-provider-id meta\n");
+            rc = -BPAK_SIZE_ERROR;
+            goto err_free_io_out;
+        }
+
         keystore_provider_id = bpak_get_meta_ptr(h, meta, uint32_t);
 
         int key_index = 0;
-- 
2.43.0


From ad4edc6cd03266600e3a2e956fc0cb2d32c72db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 45/84] fix: generate: check allocation

---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index 07fc75c..fb0dc1c 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -185,6 +185,11 @@ int action_generate(int argc, char **argv)
 
         char *keystore_name_copy = strdup(keystore_name);
 
+        if (keystore_name_copy == NULL) {
+            rc = -BPAK_FAILED;
+            goto err_free_io_out;
+        }
+
         for (unsigned int i = 0; i < strlen(keystore_name); i++) {
             if (keystore_name[i] == '-')
                 keystore_name_copy[i] = '_';
-- 
2.43.0


From 0721a9f0c1ae79940655ed0a127db399409ea801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 46/84] fix: bin2hex wrote past the end of small buffers

---
 lib/utils.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index d32597e..e5af77b 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -25,20 +25,18 @@ BPAK_EXPORT int bpak_bin2hex(uint8_t *data, size_t data_sz, char *buf,
     size_t i = data_sz;
     size_t n = 0;
 
+    /* Two characters per byte and the terminating zero */
+    if (buf_sz == 0 || data_sz > (buf_sz - 1) / 2)
+        return -1;
+
     for (i = 0; i < data_sz; i++) {
         b = data[i];
         b = (b >> 4) & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
 
-        if (n > buf_sz)
-            return -1;
-
         b = data[i];
         b = b & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
-
-        if (n > buf_sz)
-            return -1;
     }
 
     buf[n] = 0;
-- 
2.43.0


From 9266587a73a8179ec1f4466719baa3d37ba43fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 47/84] fix: show: sha512 hashes need one more byte

---
 src/show.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/show.c b/src/show.c
index 9304fb2..1387dc7 100644
--- a/src/show.c
+++ b/src/show.c
@@ -37,7 +37,7 @@ int action_show(int argc, char **argv)
     bpak_id_t part_id = 0;
     bpak_id_t part_hash_id = 0;
     bpak_id_t meta_id = 0;
-    char hash_str[128];
+    char hash_str[BPAK_HASH_MAX_LENGTH * 2 + 1];
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
-- 
2.43.0


From 9d5c1c3656cfb0b1a43389c684f2e673a6146947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 48/84] fix: metadata was displayed beyond its end

---
 lib/utils.c   | 47 +++++++++++++++++++++++++++++++++++++++--------
 src/compare.c |  2 +-
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index e5af77b..a53536e 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -54,6 +54,27 @@ BPAK_EXPORT int bpak_uuid_to_string(const uint8_t *data, char *buf, size_t size)
     return BPAK_OK;
 }
 
+static size_t meta_display_size(bpak_id_t id)
+{
+    switch (id) {
+    case BPAK_ID_BPAK_KEY_ID:
+    case BPAK_ID_BPAK_KEY_STORE:
+    case BPAK_ID_KEYSTORE_PROVIDER_ID:
+        return sizeof(bpak_id_t);
+    case BPAK_ID_BPAK_PACKAGE:
+        return 16;
+    case BPAK_ID_BPAK_TRANSPORT:
+        return sizeof(struct bpak_transport_meta);
+    case BPAK_ID_MERKLE_SALT:
+    case BPAK_ID_MERKLE_ROOT_HASH:
+        return 32;
+    case BPAK_ID_PB_LOAD_ADDR:
+        return sizeof(uint64_t);
+    default:
+        return 0;
+    }
+}
+
 BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
                                     struct bpak_meta_header *m, char *buf,
                                     size_t size)
@@ -61,6 +82,15 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
     bpak_id_t *id_ptr = NULL;
     uint8_t *byte_ptr = NULL;
 
+    if (size == 0)
+        return -BPAK_SIZE_ERROR;
+
+    *buf = 0;
+
+    /* The stored data must be big enough for what it is displayed as */
+    if (m->size < meta_display_size(m->id))
+        return -BPAK_SIZE_ERROR;
+
     if (m->id == BPAK_ID_BPAK_KEY_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "%" PRIx32, *id_ptr);
@@ -69,7 +99,7 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
         snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_PACKAGE) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_uuid_to_string(byte_ptr, buf, size);
+        return bpak_uuid_to_string(byte_ptr, buf, size);
     } else if (m->id == BPAK_ID_BPAK_TRANSPORT) {
         struct bpak_transport_meta *transport_meta =
             bpak_get_meta_ptr(h, m, struct bpak_transport_meta);
@@ -81,26 +111,27 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
                  transport_meta->alg_id_decode);
     } else if (m->id == BPAK_ID_MERKLE_SALT) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        return bpak_bin2hex(byte_ptr, 32, buf, size);
     } else if (m->id == BPAK_ID_MERKLE_ROOT_HASH) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        return bpak_bin2hex(byte_ptr, 32, buf, size);
     } else if (m->id == BPAK_ID_PB_LOAD_ADDR) {
         uint64_t *entry_addr = bpak_get_meta_ptr(h, m, uint64_t);
         snprintf(buf, size, "Entry: 0x%08" PRIX64, *entry_addr);
     } else if (m->id == BPAK_ID_BPAK_VERSION) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
 
-        if (m->size > size)
+        /* The stored string is not necessarily terminated */
+        size_t length = strnlen((char *)byte_ptr, m->size);
+
+        if (length >= size)
             return -BPAK_SIZE_ERROR;
 
-        memcpy(buf, byte_ptr, m->size);
+        memcpy(buf, byte_ptr, length);
+        buf[length] = 0;
     } else if (m->id == BPAK_ID_KEYSTORE_PROVIDER_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "0x%" PRIx32, *id_ptr);
-    } else {
-        if (size)
-            *buf = 0;
     }
 
     return BPAK_OK;
diff --git a/src/compare.c b/src/compare.c
index b550cd3..dfcacfa 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -120,7 +120,7 @@ int action_compare(int argc, char **argv)
     printf("-   : Exists in file 1 but not in file 2\n");
     printf("*   : Exists in both but data differs\n\n");
 
-    char string_output[64];
+    char string_output[65];
     struct bpak_header *h1p = &h1;
     struct bpak_header *h2p = &h2;
     struct bpak_meta_header *meta = NULL;
-- 
2.43.0


From 5dbfee32bf114b841d5eca58fb4ab87d3b5b4009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 49/84] fix: compare: metadata of different size differs

---
 src/compare.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index dfcacfa..aeaaf07 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -151,15 +151,12 @@ int action_compare(int argc, char **argv)
         rc = bpak_get_meta(h2p, m->id, m->part_id_ref, &meta);
 
         /* Missing in file 2? */
-        if (rc != BPAK_OK)
+        if (rc != BPAK_OK) {
             removed = true;
+        } else {
+            data2 = bpak_get_meta_ptr(h2p, meta, char);
 
-        data2 = bpak_get_meta_ptr(h2p, meta, char);
-
-        if (!data1 || !data2) {
-            removed = true;
-        } else if (rc == BPAK_OK) {
-            if (memcmp(data1, data2, m->size) != 0)
+            if (m->size != meta->size || memcmp(data1, data2, m->size) != 0)
                 change = true;
         }
 
@@ -187,13 +184,6 @@ int action_compare(int argc, char **argv)
         if (!m->id)
             continue;
 
-        data1 = NULL;
-        data2 = NULL;
-        change = false;
-        removed = false;
-
-        data1 = bpak_get_meta_ptr(h2p, m, char);
-
         rc = bpak_get_meta(h1p, m->id, m->part_id_ref, &meta);
 
         /* Missing in file 1? */
-- 
2.43.0


From 705266809b0cc1a67317b53fe8a92a1ce8d9ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 50/84] fix: compare: parts can be stored in different places

---
 src/compare.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index aeaaf07..d28feca 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -219,8 +219,11 @@ int action_compare(int argc, char **argv)
             if (rc != BPAK_OK) {
                 removed = true;
             } else {
-                /* Check if metadata is the same */
-                if (memcmp(p2, p, sizeof(*p)) != 0)
+                /* Check if metadata is the same, where in the archives the
+                 * parts are stored makes no difference */
+                if (p->size != p2->size ||
+                    p->transport_size != p2->transport_size ||
+                    p->pad_bytes != p2->pad_bytes || p->flags != p2->flags)
                     change = true;
 
                 /* Compare the data */
@@ -242,6 +245,12 @@ int action_compare(int argc, char **argv)
 
                 size_t data_to_compare = bpak_part_size(p);
 
+                /* Already known to differ if there is not as much data */
+                if (data_to_compare != bpak_part_size(p2)) {
+                    change = true;
+                    data_to_compare = 0;
+                }
+
                 while (data_to_compare) {
                     size_t chunk = (data_to_compare > sizeof(chunk1))
                                        ? sizeof(chunk1)
-- 
2.43.0


From d823894f5ca7e8fdcd0d64e01a995535d5d9d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 51/84] fix: compare: new parts are marked with '+' and are no
 error

---
 src/compare.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index d28feca..b689029 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -232,7 +232,7 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 rc = fseek(fp2, bpak_part_offset(h2p, p2), SEEK_SET);
@@ -240,7 +240,7 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 size_t data_to_compare = bpak_part_size(p);
@@ -317,7 +317,7 @@ int action_compare(int argc, char **argv)
 
             if (rc != BPAK_OK) {
                 printf(RED_YL);
-                printf("-");
+                printf("+");
 
                 if (p->flags & BPAK_FLAG_EXCLUDE_FROM_HASH)
                     flags_str[0] = 'h';
@@ -346,6 +346,9 @@ int action_compare(int argc, char **argv)
         }
     }
 
+    /* Whatever the differences are, the comparison is complete */
+    rc = BPAK_OK;
+
 err_close_fp2_out:
     fclose(fp2);
 err_close_fp1_out:
-- 
2.43.0


From 0920bcdd52567a7cee06c24005b98e368e1efc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 52/84] fix: keystore: rsa4096 keys did not fit in the key
 buffer

---
 lib/keystore_load_from_file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 87e07db..3a00582 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -22,7 +22,7 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
                                                  struct bpak_key **output)
 {
     int rc;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     struct bpak_package pkg;
     struct bpak_part_header *key_part = NULL;
     struct bpak_meta_header *meta = NULL;
@@ -61,6 +61,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
 
     key_length = bpak_part_size_wo_pad(key_part);
 
+    if (key_length > sizeof(key_buffer)) {
+        rc = -BPAK_BUFFER_TOO_SMALL;
+        goto err_close_pkg_out;
+    }
+
     if (fseek(pkg.fp, bpak_part_offset(&pkg.header, key_part), SEEK_SET) != 0) {
         rc = -BPAK_SEEK_ERROR;
         goto err_close_pkg_out;
-- 
2.43.0


From 9f6c9f56b85c5dacd55385dbd5d11fd82c8de540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 53/84] fix: keystore: check the size of the provider id

---
 lib/keystore_load_from_file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 3a00582..dabb2de 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -47,6 +47,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
     if (rc != BPAK_OK)
         goto err_close_pkg_out;
 
+    if (meta->size < sizeof(*keystore_provider_id)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_pkg_out;
+    }
+
     keystore_provider_id = bpak_get_meta_ptr(&pkg.header, meta, bpak_id_t);
 
     if (*keystore_provider_id != keystore_id) {
-- 
2.43.0


From 53b1002cda2f42e46cd0420aab892427d23ce6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 54/84] fix: headers with overflowing part sizes are refused

---
 lib/bpak.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/bpak.c b/lib/bpak.c
index 66b8a46..705dcf2 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -231,11 +231,24 @@ BPAK_EXPORT const char *bpak_error_string(int code)
     }
 }
 
+/* Advances a file position, fails if the result can't be represented */
+static bool advance(uint64_t *position, uint64_t size)
+{
+    if (size > INT64_MAX - *position)
+        return false;
+
+    *position += size;
+    return true;
+}
+
 BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
 {
     if (hdr->magic != BPAK_HEADER_MAGIC)
         return -BPAK_BAD_MAGIC;
 
+    uint64_t decoded_end = sizeof(*hdr);
+    uint64_t stored_end = sizeof(*hdr);
+
     /* Check alignment of part data blocks */
     bpak_foreach_part (hdr, p) {
         if (!p->id)
@@ -243,6 +256,12 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
 
         if (((p->size + p->pad_bytes) % BPAK_PART_ALIGN) != 0)
             return -BPAK_BAD_ALIGNMENT;
+
+        /* Sizes and positions of parts must not overflow */
+        if (!advance(&decoded_end, p->size) ||
+            !advance(&decoded_end, p->pad_bytes) ||
+            !advance(&stored_end, bpak_part_size(p)))
+            return -BPAK_SIZE_ERROR;
     }
 
     /* Check for out-of-bounds metadata */
-- 
2.43.0


From 5d8ec451d777f62bd8981c68ce21d25eb77334ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 55/84] fix: header entries behind an unused one are validated
 and counted

---
 lib/bpak.c             | 6 +++---
 lib/pkg.c              | 2 +-
 lib/transport_encode.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 705dcf2..110ad73 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -252,7 +252,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check alignment of part data blocks */
     bpak_foreach_part (hdr, p) {
         if (!p->id)
-            break;
+            continue;
 
         if (((p->size + p->pad_bytes) % BPAK_PART_ALIGN) != 0)
             return -BPAK_BAD_ALIGNMENT;
@@ -267,7 +267,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check for out-of-bounds metadata */
     bpak_foreach_meta (hdr, m) {
         if (!m->id)
-            break;
+            continue;
 
         if ((m->size + m->offset) > BPAK_METADATA_BYTES) {
             return -BPAK_SIZE_ERROR;
@@ -287,7 +287,7 @@ BPAK_EXPORT off_t bpak_part_offset(struct bpak_header *h,
 
     bpak_foreach_part (h, p) {
         if (!p->id)
-            break;
+            continue;
         if (p->id == part->id)
             break;
 
diff --git a/lib/pkg.c b/lib/pkg.c
index 4d0f9a3..ac43d74 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -344,7 +344,7 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
     bpak_foreach_part (&patch_header, part) {
         if (part->id == 0)
-            break;
+            continue;
 
         rc = bpak_transport_decode_start(&decode_ctx, part);
 
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index fd2408d..8587e44 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -397,7 +397,7 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
 
     bpak_foreach_part (input_header, ph) {
         if (ph->id == 0)
-            break;
+            continue;
 
         if (bpak_get_meta(input_header,
                           BPAK_ID_BPAK_TRANSPORT,
-- 
2.43.0


From 44cd62d765db7cbfb7d424881492b012e40cf2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 56/84] fix: hash tree: release every hash context exactly
 once, and stay failed after an error

---
 include/bpak/merkle.h |  1 +
 lib/merkle.c          | 42 ++++++++++++++++++++++++++++--------------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/include/bpak/merkle.h b/include/bpak/merkle.h
index ab8e004..a1e626b 100644
--- a/include/bpak/merkle.h
+++ b/include/bpak/merkle.h
@@ -47,6 +47,7 @@ struct bpak_merkle_context {
     size_t hash_tree_length; /*!< Hash tree output size */
     size_t salt_length;
     bool finished;
+    bool failed; /*!< A write failed, the tree can not be completed */
     uint8_t salt[32]; /*!< Input salt for hashing */
     bpak_io_t wr;     /*!< Function to write to the hash tree */
     bpak_io_t rd;     /*!< Function to read from the hash tree */
diff --git a/lib/merkle.c b/lib/merkle.c
index d7a7041..b8c42be 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -131,6 +131,10 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
     size_t chunk_length;
     uint8_t *chunk_buffer = buffer;
 
+    /* Nothing can be added after an error, there would be a gap in the tree */
+    if (ctx->failed)
+        return -BPAK_FAILED;
+
     while (data_to_process > 0) {
         if (ctx->block_byte_counter == BPAK_MERKLE_BLOCK_SZ) {
             if (ctx->input_chunk_counter / BPAK_MERKLE_HASH_BYTES >=
@@ -140,8 +144,10 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
             }
 
             rc = bpak_hash_init(&ctx->running_hash, BPAK_HASH_SHA256);
-            if (rc != BPAK_OK)
+            if (rc != BPAK_OK) {
+                ctx->failed = true;
                 return rc;
+            }
             rc = bpak_hash_update(&ctx->running_hash,
                                   ctx->salt,
                                   ctx->salt_length);
@@ -177,10 +183,10 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
                                             sizeof(ctx->buffer),
                                             ctx->priv);
 
-            if (bytes_written < 0)
-                return bytes_written;
-            if (bytes_written != sizeof(ctx->buffer))
-                return -BPAK_WRITE_ERROR;
+            if (bytes_written != sizeof(ctx->buffer)) {
+                ctx->failed = true;
+                return (bytes_written < 0) ? bytes_written : -BPAK_WRITE_ERROR;
+            }
 
             ctx->input_chunk_counter += bytes_written;
 
@@ -197,6 +203,7 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
     return BPAK_OK;
 err_free_hash_ctx_out:
     bpak_hash_free(&ctx->running_hash);
+    ctx->failed = true;
     return rc;
 }
 
@@ -211,6 +218,16 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
     ssize_t n_read;
     ssize_t n_written;
 
+    if (ctx->failed)
+        return -BPAK_FAILED;
+
+    /* Release the hash context of a block that was never completed */
+    if (ctx->block_byte_counter != BPAK_MERKLE_BLOCK_SZ) {
+        bpak_hash_free(&ctx->running_hash);
+        ctx->block_byte_counter = BPAK_MERKLE_BLOCK_SZ;
+        ctx->failed = true;
+    }
+
     if (ctx->input_chunk_counter / BPAK_MERKLE_HASH_BYTES !=
         ctx->input_data_length / BPAK_MERKLE_BLOCK_SZ) {
         bpak_printf(0, "Error: Less data than announced\n");
@@ -270,26 +287,23 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
             if (rc != BPAK_OK)
                 goto err_free_hash_ctx_out;
 
+            bpak_hash_free(&ctx->running_hash);
+
             n_written = ctx->wr(ctx->offset + output_offset,
                                 ctx->buffer,
                                 sizeof(ctx->buffer),
                                 ctx->priv);
 
-            if (n_written < 0) {
-                rc = n_written;
-                goto err_free_hash_ctx_out;
-            }
-            if (n_written != sizeof(ctx->buffer)) {
-                rc = -BPAK_WRITE_ERROR;
-                goto err_free_hash_ctx_out;
-            }
+            if (n_written < 0)
+                return n_written;
+            if (n_written != sizeof(ctx->buffer))
+                return -BPAK_WRITE_ERROR;
 
             output_offset += n_written;
             input_offset += BPAK_MERKLE_BLOCK_SZ;
         }
     }
 
-    bpak_hash_free(&ctx->running_hash);
     /* Compute the root hash, which is the hash of the top level */
     bpak_printf(2, "Computing root hash\n");
     rc = bpak_hash_init(&ctx->running_hash, BPAK_HASH_SHA256);
-- 
2.43.0


From 2c82c330bcc21bc32738e4174e606ebf03dfbaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 57/84] fix: lzma: use the bpak allocator from the start,
 release the stream when the encoder can not be set up

---
 lib/bsdiff.c  | 17 +++++++++++------
 lib/bspatch.c |  5 +++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index 34cdba5..5854aec 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -343,7 +343,12 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *stream;
         stream = bpak_calloc(sizeof(lzma_stream), 1);
-        ctx->compressor_priv = stream;
+
+        if (stream == NULL)
+            return -BPAK_FAILED;
+
+        /* Must be set before the encoder allocates anything */
+        stream->allocator = &lzma_alloc;
 
         lzma_options_lzma opt_lzma2;
         if (lzma_lzma_preset(&opt_lzma2, LZMA_PRESET_DEFAULT)) {
@@ -359,13 +364,13 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
 
         lzma_ret ret = lzma_stream_encoder(stream, filters, LZMA_CHECK_CRC64);
 
-        if (ret != LZMA_OK)
+        if (ret != LZMA_OK) {
+            lzma_end(stream);
+            bpak_free(stream);
             return -BPAK_COMPRESSOR_ERROR;
+        }
 
-        if (stream == NULL)
-            return -BPAK_FAILED;
-
-        stream->allocator = &lzma_alloc;
+        ctx->compressor_priv = stream;
     } break;
 #endif
     default:
diff --git a/lib/bspatch.c b/lib/bspatch.c
index 4208648..8fbc6dd 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -247,14 +247,15 @@ static int decompressor_init(struct bpak_bspatch_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *strm = &ctx->decompressor.lzma_stream;
 
+        /* Must be set before the decoder allocates anything */
+        strm->allocator = &lzma_alloc;
+
         lzma_ret ret = lzma_stream_decoder(strm, UINT64_MAX, LZMA_CONCATENATED);
 
         if (ret != LZMA_OK) {
             bpak_printf(0, "lzma init error (%u)\n", ret);
             return -BPAK_DECOMPRESSOR_ERROR;
         }
-
-        strm->allocator = &lzma_alloc;
     } break;
 #endif
     default:
-- 
2.43.0


From 7ed1e8d0e28442f6ceb66b8dcddc7920b0446734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 58/84] fix: transport decode: release the decoder of an
 unfinished part

---
 include/bpak/transport.h |  1 +
 lib/pkg.c                |  6 ++++--
 lib/transport_decode.c   | 18 +++++++++++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/bpak/transport.h b/include/bpak/transport.h
index 0146361..20aba77 100644
--- a/include/bpak/transport.h
+++ b/include/bpak/transport.h
@@ -45,6 +45,7 @@ struct bpak_transport_decode {
 #endif
         struct bpak_bspatch_context bspatch;
     } decoders;
+    bool bspatch_active; /*!< 'bspatch' must be released */
     void *user;
 };
 
diff --git a/lib/pkg.c b/lib/pkg.c
index ac43d74..12daa65 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -328,7 +328,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
     if (fseek(input->fp, sizeof(struct bpak_header), SEEK_SET) != 0) {
         bpak_printf(0, "%s: Error, could not seek input stream", __func__);
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_out;
     }
 
     /* There is nothing to decode when there are no parts, only the header */
@@ -366,7 +367,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
             if (bytes_read != chunk_length) {
                 bpak_printf(0, "%s: bytes_read != chunk_length\n", __func__);
-                return -BPAK_READ_ERROR;
+                rc = -BPAK_READ_ERROR;
+                goto err_out;
             }
 
             rc = bpak_transport_decode_write_chunk(&decode_ctx,
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 39e0329..6a7cbd1 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -170,6 +170,15 @@ static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
 
 #endif // BPAK_CONFIG_MERKLE
 
+/* Release the decoder of the current part, when there is one */
+static void release_decoder(struct bpak_transport_decode *ctx)
+{
+    if (ctx->bspatch_active) {
+        bpak_bspatch_free(&ctx->decoders.bspatch);
+        ctx->bspatch_active = false;
+    }
+}
+
 BPAK_EXPORT int bpak_transport_decode_init(
     struct bpak_transport_decode *ctx, uint8_t *buffer, size_t buffer_length,
     struct bpak_header *patch_header, bpak_io_t write_output,
@@ -249,6 +258,8 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
     if (bytes_written != sizeof(struct bpak_header))
         return -BPAK_WRITE_ERROR;
 
+    /* The previous part might not have been finished */
+    release_decoder(ctx);
     ctx->part = part;
     ctx->decoder_id = 0;
 
@@ -311,6 +322,8 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
                                compression,
                                ctx);
 
+        if (rc == BPAK_OK)
+            ctx->bspatch_active = true;
     } break;
 #if BPAK_CONFIG_MERKLE == 1
     case BPAK_ID_MERKLE_GENERATE:
@@ -374,7 +387,7 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
     case BPAK_ID_BSPATCH: /* id("bspatch") heatshrink decompressor*/
     {
         output_length = bpak_bspatch_final(&ctx->decoders.bspatch);
-        bpak_bspatch_free(&ctx->decoders.bspatch);
+        release_decoder(ctx);
     } break;
 #if BPAK_CONFIG_MERKLE == 1
     case BPAK_ID_MERKLE_GENERATE: /* id("merkle-generate") */
@@ -420,6 +433,5 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
 
 BPAK_EXPORT void bpak_transport_decode_free(struct bpak_transport_decode *ctx)
 {
-    /* Nothing to implement so far */
-    (void)ctx;
+    release_decoder(ctx);
 }
-- 
2.43.0


From 31892c9eb815fdd8de63d07bbc121de0db3de8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 59/84] fix: load public key: check the allocation

---
 lib/mbedtls_wrapper.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 38e3428..5220f1a 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -309,6 +309,12 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     }
 
     struct bpak_key *key = bpak_calloc(sizeof(struct bpak_key) + len, 1);
+
+    if (key == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_free_ctx;
+    }
+
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-- 
2.43.0


From 49d8e049852d6cff5f50aa56abebc141b0d587be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 60/84] fix: delete: check that the header is written before
 the file is truncated

---
 lib/pkg.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 12daa65..c4f0ebc 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -587,7 +587,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         return rc;
     }
 
-    fflush(pkg->fp);
+    if (fflush(pkg->fp) != 0) {
+        bpak_printf(0, "%s: Error: Couldn't write file: %s\n",
+                    __func__, strerror(errno));
+        return -BPAK_WRITE_ERROR;
+    }
 
     size_t new_size = sizeof(struct bpak_header);
 
@@ -638,7 +642,11 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
         return rc;
     }
 
-    fflush(pkg->fp);
+    if (fflush(pkg->fp) != 0) {
+        bpak_printf(0, "%s: Error: Couldn't write file: %s\n",
+                    __func__, strerror(errno));
+        return -BPAK_WRITE_ERROR;
+    }
 
     if (ftruncate(fileno(pkg->fp), sizeof(struct bpak_header)) != 0) {
         bpak_printf(0, "%s: Error: Couldn't truncate file: %s\n",
-- 
2.43.0


From 946548b1c2f8d15e7bec6b1189a3b8fb31c205a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 61/84] fix: extract: report when standard output could not be
 written

---
 lib/pkg.c     | 2 ++
 src/extract.c | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index c4f0ebc..b5279d5 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -490,6 +490,8 @@ err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
         if (fclose(fp) != 0 && rc == BPAK_OK)
             rc = -BPAK_WRITE_ERROR;
+    } else if (fflush(fp) != 0 && rc == BPAK_OK) {
+        rc = -BPAK_WRITE_ERROR;
     }
 
     return rc;
diff --git a/src/extract.c b/src/extract.c
index 6a33092..3e6e846 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -153,6 +153,9 @@ err_close_fp_out:
             fprintf(stderr, "Error: write error\n");
             rc = -BPAK_WRITE_ERROR;
         }
+    } else if (fp == stdout && fflush(fp) != 0 && rc == BPAK_OK) {
+        fprintf(stderr, "Error: write error\n");
+        rc = -BPAK_WRITE_ERROR;
     }
 err_close_pkg_out:
     bpak_pkg_close(&pkg);
-- 
2.43.0


From e9ff042b7a048ebbdfed8afd2a099ce83248fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 62/84] fix: id 0 marks unused entries, it can not be added or
 found

---
 lib/bpak.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 110ad73..5ef80ba 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -19,7 +19,8 @@ static int bpak_get_meta_int(struct bpak_header *hdr, bpak_id_t id,
                              struct bpak_meta_header **meta)
 {
     bpak_foreach_meta (hdr, m) {
-        if (m->id == id) {
+        /* Entries without an id are unused */
+        if (m->id && m->id == id) {
             if (match_partref) {
                 if (m->part_id_ref != part_id_ref)
                     continue;
@@ -54,6 +55,10 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 {
     uint16_t new_offset = 0;
 
+    /* Id zero marks unused entries */
+    if (!id)
+        return -BPAK_NOT_SUPPORTED;
+
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
             if ((new_offset + size) > BPAK_METADATA_BYTES)
@@ -111,7 +116,8 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
     bpak_foreach_part (hdr, p) {
-        if (p->id == id) {
+        /* Entries without an id are unused */
+        if (p->id && p->id == id) {
             (*part) = p;
             return BPAK_OK;
         }
@@ -123,6 +129,10 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT int bpak_add_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
+    /* Id zero marks unused entries */
+    if (!id)
+        return -BPAK_NOT_SUPPORTED;
+
     bpak_foreach_part (hdr, p) {
         if (!p->id) {
             p->id = id;
-- 
2.43.0


From 95cf45a0468be7df65c3e612a5c8fd2643431693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 63/84] fix: python: check the values attributes are set to

---
 python/meta.c           | 38 ++++++---------------
 python/package.c        | 76 ++++++++++++++++++++++-------------------
 python/part.c           | 14 ++------
 python/python_wrapper.h |  4 +++
 4 files changed, 57 insertions(+), 75 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 21f34cd..cebd674 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -60,22 +60,12 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int meta_id;
+    uint32_t meta_id;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    meta_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-    if (((uint32_t)meta_id) != meta_id) {
-        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+    if (attribute_to_uint(value, UINT32_MAX, &meta_id) < 0) {
         return -1;
     }
 
@@ -111,25 +101,14 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_ref = 0;
+    uint32_t part_ref = 0;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
-    if (value != Py_None) {
-        if (!PyLong_Check(value)) {
-            PyErr_SetString(PyExc_TypeError, "type mismatch");
-            return -1;
-        }
-
-        part_ref = PyLong_AsUnsignedLong(value);
-        if (PyErr_Occurred()) {
-            return -1;
-        }
-        if (((uint32_t)part_ref) != part_ref) {
-            PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
-            return -1;
-        }
+    if (value != Py_None &&
+        attribute_to_uint(value, UINT32_MAX, &part_ref) < 0) {
+        return -1;
     }
 
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
@@ -207,6 +186,11 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     char *new_data = NULL;
     bool was_unicode = false;
 
+    if (value == NULL) {
+        PyErr_SetString(PyExc_TypeError, "attribute can't be deleted");
+        return -1;
+    }
+
     if (PyUnicode_Check(value)) {
         PyObject *bytes = PyUnicode_AsASCIIString(value);
         if (!bytes) {
diff --git a/python/package.c b/python/package.c
index c30fbcd..0c76458 100644
--- a/python/package.c
+++ b/python/package.c
@@ -26,6 +26,34 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     return rc;
 }
 
+int attribute_to_uint(PyObject *value, unsigned long max, uint32_t *result)
+{
+    unsigned long number;
+
+    if (value == NULL) {
+        PyErr_SetString(PyExc_TypeError, "attribute can't be deleted");
+        return -1;
+    }
+
+    if (!PyLong_Check(value)) {
+        PyErr_SetString(PyExc_TypeError, "type mismatch");
+        return -1;
+    }
+
+    number = PyLong_AsUnsignedLong(value);
+    if (PyErr_Occurred()) {
+        return -1;
+    }
+
+    if (number > max) {
+        PyErr_Format(PyExc_OverflowError, "value is greater than %lu", max);
+        return -1;
+    }
+
+    *result = number;
+    return 0;
+}
+
 static PyObject *package_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
     (void)args;
@@ -471,21 +499,15 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc;
-    int hash_kind;
+    uint32_t hash_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    hash_kind = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (attribute_to_uint(value, UINT8_MAX, &hash_kind) < 0) {
         return -1;
     }
 
-    h->hash_kind = (uint32_t)hash_kind;
+    h->hash_kind = hash_kind;
 
     rc = package_write_header(package, false);
 
@@ -511,21 +533,15 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc;
-    int key_id;
+    uint32_t key_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    key_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (attribute_to_uint(value, UINT32_MAX, &key_id) < 0) {
         return -1;
     }
 
-    h->key_id = (uint32_t)key_id;
+    h->key_id = key_id;
 
     rc = package_write_header(package, false);
 
@@ -551,21 +567,15 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
 {
     (void)closure;
     int rc;
-    int keystore_id;
+    uint32_t keystore_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    keystore_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (attribute_to_uint(value, UINT32_MAX, &keystore_id) < 0) {
         return -1;
     }
 
-    h->keystore_id = (uint32_t)keystore_id;
+    h->keystore_id = keystore_id;
 
     rc = package_write_header(package, false);
 
@@ -640,21 +650,15 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
 {
     (void)closure;
     int rc;
-    int signature_kind;
+    uint32_t signature_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    signature_kind = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (attribute_to_uint(value, UINT8_MAX, &signature_kind) < 0) {
         return -1;
     }
 
-    h->signature_kind = (uint32_t)signature_kind;
+    h->signature_kind = signature_kind;
 
     rc = package_write_header(package, false);
 
diff --git a/python/part.c b/python/part.c
index 0a30d97..922d337 100644
--- a/python/part.c
+++ b/python/part.c
@@ -59,22 +59,12 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_id;
+    uint32_t part_id;
     BPAKPart *part = (BPAKPart *)self;
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
     struct bpak_part_header *p;
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    part_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-    if (((uint32_t)part_id) != part_id) {
-        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+    if (attribute_to_uint(value, UINT32_MAX, &part_id) < 0) {
         return -1;
     }
 
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 641ac16..844c8fe 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -29,6 +29,10 @@ extern PyTypeObject BPAKMetaType;
 
 extern PyObject *BPAKPackageError;
 
+/* Value of an unsigned attribute, raises an exception if it's no number
+ *  in the range 0 ... max or if the attribute is being deleted (NULL) */
+int attribute_to_uint(PyObject *value, unsigned long max, uint32_t *result);
+
 int package_write_header(BPAKPackage *package, bool update_hash);
 
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
-- 
2.43.0


From a43ccafd280ee9159026256a421ab50d9d8d5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 64/84] fix: python: ids given as arguments must fit in 32 bits

---
 python/package.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/python/package.c b/python/package.c
index 0c76458..67396f5 100644
--- a/python/package.c
+++ b/python/package.c
@@ -54,6 +54,22 @@ int attribute_to_uint(PyObject *value, unsigned long max, uint32_t *result)
     return 0;
 }
 
+/* Argument converter for ids */
+static int convert_id(PyObject *value, void *result)
+{
+    int rc;
+    PyObject *number = PyNumber_Index(value);
+
+    if (number == NULL) {
+        return 0;
+    }
+
+    rc = attribute_to_uint(number, UINT32_MAX, result);
+    Py_DECREF(number);
+
+    return rc == 0;
+}
+
 static PyObject *package_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
     (void)args;
@@ -312,9 +328,11 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I|IOn:add_meta",
+                                     "O&|O&On:add_meta",
                                      kwlist,
+                                     &convert_id,
                                      &meta_id,
+                                     &convert_id,
                                      &part_ref,
                                      &data,
                                      &size);
@@ -409,8 +427,9 @@ static PyObject *package_get_part(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I:get_part",
+                                     "O&:get_part",
                                      kwlist,
+                                     &convert_id,
                                      &part_id);
 
     if (!rc) {
@@ -438,9 +457,11 @@ static PyObject *package_get_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I|I:get_meta",
+                                     "O&|O&:get_meta",
                                      kwlist,
+                                     &convert_id,
                                      &meta_id,
+                                     &convert_id,
                                      &part_ref);
 
     if (!rc) {
-- 
2.43.0


From 93003db5d80ecfa61bce0feaed9a6b747fb26933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 65/84] fix: python: packages that are not open can not be used

---
 python/meta.c           | 16 ++++++++++++
 python/package.c        | 58 +++++++++++++++++++++++++++++++++++++++++
 python/part.c           | 12 +++++++++
 python/python_wrapper.c | 10 +++++++
 python/python_wrapper.h |  3 +++
 5 files changed, 99 insertions(+)

diff --git a/python/meta.c b/python/meta.c
index cebd674..a677e19 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -76,6 +76,10 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!package_is_open(meta->package)) {
+        return -1;
+    }
+
     m->id = meta_id;
     meta->meta_id = meta_id;
 
@@ -118,6 +122,10 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!package_is_open(meta->package)) {
+        return -1;
+    }
+
     m->part_id_ref = part_ref;
     meta->part_ref = part_ref;
 
@@ -186,6 +194,10 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     char *new_data = NULL;
     bool was_unicode = false;
 
+    if (!package_is_open(meta->package)) {
+        return -1;
+    }
+
     if (value == NULL) {
         PyErr_SetString(PyExc_TypeError, "attribute can't be deleted");
         return -1;
@@ -302,6 +314,10 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
                 bpak_error_string(rc));
     }
 
+    if (!package_is_open(meta->package)) {
+        return NULL;
+    }
+
     bpak_del_meta(h, m);
 
     rc = package_write_header(meta->package, false);
diff --git a/python/package.c b/python/package.c
index 67396f5..c80d65a 100644
--- a/python/package.c
+++ b/python/package.c
@@ -9,6 +9,16 @@
 
 #include "python_wrapper.h"
 
+bool package_is_open(BPAKPackage *package)
+{
+    if (package->pkg.fp == NULL) {
+        PyErr_SetString(BPAKPackageError, "package is not open");
+        return false;
+    }
+
+    return true;
+}
+
 int package_write_header(BPAKPackage *package, bool update_hash)
 {
     int rc = 0;
@@ -160,6 +170,11 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_is_open(self)) {
+        Py_DECREF(filename_ascii);
+        return NULL;
+    }
+
     rc = bpak_crypto_load_public_key(PyBytes_AsString(filename_ascii), &key);
 
     Py_DECREF(filename_ascii);
@@ -203,6 +218,11 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    if (!package_is_open(package)) {
+        Py_DECREF(filename_ascii);
+        return NULL;
+    }
+
     rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(filename_ascii));
 
     Py_DECREF(filename_ascii);
@@ -244,6 +264,11 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (!package_is_open(package)) {
+        Py_DECREF(filename_ascii);
+        return NULL;
+    }
+
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
                 PyBytes_AsString(filename_ascii), part_name, 0);
@@ -296,6 +321,11 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
     }
 
 
+    if (!package_is_open(package)) {
+        Py_DECREF(filename_ascii);
+        return NULL;
+    }
+
     rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename_ascii), part_name, 0);
 
     Py_DECREF(filename_ascii);
@@ -341,6 +371,10 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     if (!data && size < 0) {
         return PyErr_Format(PyExc_TypeError, "must specify either initial data or size");
     }
@@ -501,6 +535,10 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
 
     size_t hash_size = sizeof(digest_data);
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
         Py_RETURN_NONE;
 
@@ -528,6 +566,10 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     h->hash_kind = hash_kind;
 
     rc = package_write_header(package, false);
@@ -562,6 +604,10 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     h->key_id = key_id;
 
     rc = package_write_header(package, false);
@@ -596,6 +642,10 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
         return -1;
     }
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     h->keystore_id = keystore_id;
 
     rc = package_write_header(package, false);
@@ -630,6 +680,10 @@ static int package_set_signature(PyObject *self, PyObject *value,
     Py_ssize_t signature_sz;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
         bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
@@ -679,6 +733,10 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
         return -1;
     }
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     h->signature_kind = signature_kind;
 
     rc = package_write_header(package, false);
diff --git a/python/part.c b/python/part.c
index 922d337..9e3debb 100644
--- a/python/part.c
+++ b/python/part.c
@@ -75,6 +75,10 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!package_is_open(part->package)) {
+        return -1;
+    }
+
     p->id = part_id;
     part->part_id = part_id;
 
@@ -156,6 +160,10 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
                 bpak_error_string(rc));
     }
 
+    if (!package_is_open(part->package)) {
+        return NULL;
+    }
+
     size_t part_size = bpak_part_size_wo_pad(p);
     size_t read_size;
     FILE *fp = part->package->pkg.fp;
@@ -186,6 +194,10 @@ static PyObject *part_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
     BPAKPart *part = (BPAKPart *)self;
     int rc;
 
+    if (!package_is_open(part->package)) {
+        return NULL;
+    }
+
     rc = bpak_pkg_delete_part(&part->package->pkg, part->part_id, true);
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "failed to delete part: %s",
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 161b48e..5c55f02 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -83,6 +83,11 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_is_open(input) || !package_is_open(output) ||
+        (origin && !package_is_open(origin))) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_encode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
@@ -119,6 +124,11 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_is_open(input) || !package_is_open(output) ||
+        (origin && !package_is_open(origin))) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_decode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 844c8fe..d83bb0f 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -33,6 +33,9 @@ extern PyObject *BPAKPackageError;
  *  in the range 0 ... max or if the attribute is being deleted (NULL) */
 int attribute_to_uint(PyObject *value, unsigned long max, uint32_t *result);
 
+/* Raises an exception and returns false if the package can't be used */
+bool package_is_open(BPAKPackage *package);
+
 int package_write_header(BPAKPackage *package, bool update_hash);
 
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
-- 
2.43.0


From 3980351f61bb0e636920fd8dee3038158a4c1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 66/84] fix: python: calling the package constructor again, or
 when it fails

---
 python/package.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/package.c b/python/package.c
index c80d65a..ba8446d 100644
--- a/python/package.c
+++ b/python/package.c
@@ -124,13 +124,18 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
         return -1;
     }
 
+    /* The constructor may be called again */
+    bpak_pkg_close(&self->pkg);
+
     rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename_ascii), mode);
 
     Py_DECREF(filename_ascii);
 
     if (rc != BPAK_OK) {
+        /* Don't keep a header which is not valid */
+        memset(&self->pkg, 0, sizeof(self->pkg));
         PyErr_SetString(BPAKPackageError, "could not open package");
-        return rc;
+        return -1;
     }
 
     return 0;
-- 
2.43.0


From 52854172e2e0368cc4ad125804a418d68f7d55e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 67/84] fix: python: add_meta: check the size

---
 python/package.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/package.c b/python/package.c
index ba8446d..eafe5e9 100644
--- a/python/package.c
+++ b/python/package.c
@@ -416,6 +416,11 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         }
     }
 
+    if (size > BPAK_METADATA_BYTES) {
+        PyErr_SetString(PyExc_ValueError, "metadata is too big");
+        goto err_out;
+    }
+
     rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
     if (rc != BPAK_OK) {
         PyErr_Format(BPAKPackageError, "failed to add metadata: %s",
-- 
2.43.0


From fa2b96241af65ae27249408642bbc11a97293290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 68/84] fix: python: read_data of empty parts

---
 python/part.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/part.c b/python/part.c
index 9e3debb..9dc6b49 100644
--- a/python/part.c
+++ b/python/part.c
@@ -179,8 +179,8 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
                 strerror(ferror(fp)));
     }
 
-    read_size = fread(PyBytes_AsString(bytes), part_size, 1, fp);
-    if (read_size != 1) {
+    read_size = fread(PyBytes_AsString(bytes), 1, part_size, fp);
+    if (read_size != part_size) {
         Py_DECREF(bytes);
         return PyErr_Format(PyExc_IOError, "failed to read: %s",
                 strerror(ferror(fp)));
-- 
2.43.0


From 45c2caac6f1640b704cf29f43c7877c8446df579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 69/84] fix: python: size of big parts in repr

---
 python/part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/part.c b/python/part.c
index 9dc6b49..57877a5 100644
--- a/python/part.c
+++ b/python/part.c
@@ -43,7 +43,7 @@ static PyObject *part_repr(PyObject *self)
                 bpak_error_string(rc));
     }
 
-    return PyUnicode_FromFormat("<bpak.Part '0x%08x' (%d bytes)>", part->part_id,
+    return PyUnicode_FromFormat("<bpak.Part '0x%08x' (%zu bytes)>", part->part_id,
             bpak_part_size(p));
 }
 
-- 
2.43.0


From 21065811e96f959f82ba800b91f6653bdd7d8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 70/84] fix: python: check the size of the signature

---
 python/package.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/package.c b/python/package.c
index eafe5e9..abb684c 100644
--- a/python/package.c
+++ b/python/package.c
@@ -674,9 +674,15 @@ static PyObject *package_get_signature(PyObject *self, void *closure)
     (void)closure;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (package->pkg.header.signature_sz >
+            sizeof(package->pkg.header.signature)) {
+        PyErr_SetString(BPAKPackageError, "invalid signature size");
+        return NULL;
+    }
+
     return Py_BuildValue("y#",
                          package->pkg.header.signature,
-                         package->pkg.header.signature_sz);
+                         (Py_ssize_t)package->pkg.header.signature_sz);
 }
 
 static int package_set_signature(PyObject *self, PyObject *value,
-- 
2.43.0


From 560033a9eeb456e02e7517849116e605e5a57c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:35 +0000
Subject: [PATCH 71/84] fix: python: the lists of parts and metadata leaked
 their entries

---
 python/package.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/package.c b/python/package.c
index abb684c..30bf851 100644
--- a/python/package.c
+++ b/python/package.c
@@ -809,6 +809,8 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, part);
+        /* The list holds a reference of its own */
+        Py_DECREF(part);
         if (rc < 0) {
             Py_DECREF(list);
 
@@ -850,6 +852,8 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, meta);
+        /* The list holds a reference of its own */
+        Py_DECREF(meta);
         if (rc < 0) {
             Py_DECREF(list);
 
-- 
2.43.0


From 87b8f88551f797824630dc92d1d1d37a79f48693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:37 +0000
Subject: [PATCH 72/84] fix: python: list all parts and metadata

---
 python/package.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/package.c b/python/package.c
index 30bf851..e0105da 100644
--- a/python/package.c
+++ b/python/package.c
@@ -798,7 +798,7 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
     unsigned int idx = 0;
     bpak_foreach_part(hdr, p) {
         if (!p->id) {
-            break;
+            continue;
         }
 
         part = part_allocate(package, p->id);
@@ -841,7 +841,7 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
     unsigned int idx = 0;
     bpak_foreach_meta(hdr, m) {
         if (!m->id) {
-            break;
+            continue;
         }
 
         meta = meta_allocate(package, m->id, m->part_id_ref);
-- 
2.43.0


From 370cc2380b5a32a91320ebb4c0c3236882a22e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 73/84] fix: python: keep a reference to the log function,
 handle its result and exceptions

---
 python/python_wrapper.c | 43 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 5c55f02..8ed649e 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -11,7 +11,7 @@
 #include "python_wrapper.h"
 
 PyObject *BPAKPackageError;
-static PyObject *log_func = Py_None;
+static PyObject *log_func = NULL;
 
 int bpak_printf(int verbosity, const char *fmt, ...)
 {
@@ -21,8 +21,30 @@ int bpak_printf(int verbosity, const char *fmt, ...)
     vsnprintf(log_buf, sizeof(log_buf), fmt, args);
     va_end(args);
 
-    if (log_func != Py_None) {
-        PyObject_CallFunction(log_func, "(is)", verbosity, log_buf);
+    /* The log function can be replaced while it's running */
+    PyObject *func = log_func;
+
+    if (func != NULL) {
+        Py_INCREF(func);
+
+        PyObject *message = PyUnicode_DecodeUTF8(log_buf,
+                                                 strlen(log_buf),
+                                                 "replace");
+        PyObject *result = NULL;
+
+        if (message != NULL) {
+            result = PyObject_CallFunction(func, "(iO)", verbosity, message);
+            Py_DECREF(message);
+        }
+
+        /* There is no way to report exceptions to the caller */
+        if (result == NULL) {
+            PyErr_WriteUnraisable(func);
+        } else {
+            Py_DECREF(result);
+        }
+
+        Py_DECREF(func);
     }
 
     return BPAK_OK;
@@ -51,11 +73,24 @@ static PyObject *m_set_log_func(PyObject *module, PyObject *args,
     static char *kwlist[] = {"log_func", NULL};
     (void)module;
 
-    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &log_func);
+    PyObject *func;
+
+    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &func);
     if (!rc) {
         return NULL;
     }
 
+    /* No function is called when it's set to None */
+    if (func == Py_None) {
+        func = NULL;
+    }
+
+    PyObject *previous = log_func;
+
+    Py_XINCREF(func);
+    log_func = func;
+    Py_XDECREF(previous);
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 15ff3ea762f82bfb1a25c1753783b807b3bc1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 74/84] fix: python: release the decoded file names

---
 python/package.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/package.c b/python/package.c
index e0105da..f01cfaa 100644
--- a/python/package.c
+++ b/python/package.c
@@ -120,6 +120,7 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
+    Py_DECREF(filename);
     if (!filename_ascii) {
         return -1;
     }
@@ -171,6 +172,7 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(verify_key_filename);
+    Py_DECREF(verify_key_filename);
     if (!filename_ascii) {
         return NULL;
     }
@@ -219,6 +221,7 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(sign_key_filename);
+    Py_DECREF(sign_key_filename);
     if (!filename_ascii) {
         return NULL;
     }
@@ -265,6 +268,7 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
+    Py_DECREF(filename);
     if (!filename_ascii) {
         return NULL;
     }
@@ -321,6 +325,7 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
     }
 
     PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
+    Py_DECREF(filename);
     if (!filename_ascii) {
         return NULL;
     }
-- 
2.43.0


From 2f005c8c135b27d5deac7241040b6163bb7451e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:53 +0000
Subject: [PATCH 75/84] fix: python: packages that are in use can not be closed
 or modified by the log function

---
 python/package.c        | 56 ++++++++++++++++++++++++++++++++++++++---
 python/part.c           |  2 ++
 python/python_wrapper.c | 24 ++++++++++++++++++
 python/python_wrapper.h |  1 +
 4 files changed, 79 insertions(+), 4 deletions(-)

diff --git a/python/package.c b/python/package.c
index f01cfaa..6a43d5a 100644
--- a/python/package.c
+++ b/python/package.c
@@ -9,8 +9,24 @@
 
 #include "python_wrapper.h"
 
+/* Library calls may call the log function, which must not close or modify
+ *  the package meanwhile */
+static bool package_is_idle(BPAKPackage *package)
+{
+    if (package->in_use) {
+        PyErr_SetString(BPAKPackageError, "package is in use");
+        return false;
+    }
+
+    return true;
+}
+
 bool package_is_open(BPAKPackage *package)
 {
+    if (!package_is_idle(package)) {
+        return false;
+    }
+
     if (package->pkg.fp == NULL) {
         PyErr_SetString(BPAKPackageError, "package is not open");
         return false;
@@ -24,13 +40,17 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     int rc = 0;
 
     if (update_hash) {
+        package->in_use++;
         rc = bpak_pkg_update_hash(&package->pkg, NULL, NULL);
+        package->in_use--;
         if (rc < 0) {
             return rc;
         }
     }
 
+    package->in_use++;
     rc = bpak_pkg_write_header(&package->pkg);
+    package->in_use--;
     fflush(package->pkg.fp);
 
     return rc;
@@ -89,6 +109,7 @@ static PyObject *package_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     self = (BPAKPackage *)type->tp_alloc(type, 0);
     if (self != NULL) {
         memset(&self->pkg, 0, sizeof(struct bpak_package));
+        self->in_use = 0;
     }
     return (PyObject *)self;
 }
@@ -125,10 +146,17 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
         return -1;
     }
 
+    if (!package_is_idle(self)) {
+        Py_DECREF(filename_ascii);
+        return -1;
+    }
+
     /* The constructor may be called again */
     bpak_pkg_close(&self->pkg);
 
+    self->in_use++;
     rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename_ascii), mode);
+    self->in_use--;
 
     Py_DECREF(filename_ascii);
 
@@ -146,6 +174,10 @@ static PyObject *package_close(PyObject *self, PyObject *Py_UNUSED(args))
 {
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (!package_is_idle(package)) {
+        return NULL;
+    }
+
     bpak_pkg_close(&package->pkg);
     memset(&package->pkg, 0, sizeof(package->pkg));
 
@@ -191,7 +223,9 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
                 bpak_error_string(rc));
     }
 
+    self->in_use++;
     rc = bpak_pkg_verify(&self->pkg, key);
+    self->in_use--;
 
     free(key);
 
@@ -231,7 +265,9 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    package->in_use++;
     rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(filename_ascii));
+    package->in_use--;
 
     Py_DECREF(filename_ascii);
 
@@ -278,6 +314,8 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    package->in_use++;
+
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
                 PyBytes_AsString(filename_ascii), part_name, 0);
@@ -286,6 +324,8 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
                 part_name, 0);
     }
 
+    package->in_use--;
+
     Py_DECREF(filename_ascii);
 
     if (rc != BPAK_OK) {
@@ -336,7 +376,9 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    package->in_use++;
     rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename_ascii), part_name, 0);
+    package->in_use--;
 
     Py_DECREF(filename_ascii);
 
@@ -535,9 +577,7 @@ static PyObject *package_enter(PyObject *self, PyObject *Py_UNUSED(args))
 
 static PyObject *package_exit(PyObject *self, PyObject *args)
 {
-    package_close(self, args);
-
-    Py_RETURN_NONE;
+    return package_close(self, args);
 }
 
 /* Getters and setters */
@@ -554,7 +594,11 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
         return NULL;
     }
 
-    if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
+    package->in_use++;
+    int rc = bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size);
+    package->in_use--;
+
+    if (rc != BPAK_OK)
         Py_RETURN_NONE;
 
     return Py_BuildValue("y#", digest_data, hash_size);
@@ -707,7 +751,9 @@ static int package_set_signature(PyObject *self, PyObject *value,
 
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
+        package->in_use++;
         bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
+        package->in_use--;
         return 0;
     }
 
@@ -720,9 +766,11 @@ static int package_set_signature(PyObject *self, PyObject *value,
         return -1;
     }
 
+    package->in_use++;
     rc = bpak_pkg_write_raw_signature(&package->pkg,
                                       signature_data,
                                       signature_sz);
+    package->in_use--;
 
     if (rc != BPAK_OK) {
         PyErr_Format(BPAKPackageError, "failed to set signature data: %s",
diff --git a/python/part.c b/python/part.c
index 57877a5..b706fee 100644
--- a/python/part.c
+++ b/python/part.c
@@ -198,7 +198,9 @@ static PyObject *part_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
         return NULL;
     }
 
+    part->package->in_use++;
     rc = bpak_pkg_delete_part(&part->package->pkg, part->part_id, true);
+    part->package->in_use--;
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "failed to delete part: %s",
                 bpak_error_string(rc));
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 8ed649e..1aa3edf 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -123,10 +123,22 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    input->in_use++;
+    output->in_use++;
+    if (origin) {
+        origin->in_use++;
+    }
+
     rc = bpak_pkg_transport_encode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
 
+    input->in_use--;
+    output->in_use--;
+    if (origin) {
+        origin->in_use--;
+    }
+
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError,
             "Transport encoding failed: %s", bpak_error_string(rc));
@@ -164,10 +176,22 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    input->in_use++;
+    output->in_use++;
+    if (origin) {
+        origin->in_use++;
+    }
+
     rc = bpak_pkg_transport_decode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
 
+    input->in_use--;
+    output->in_use--;
+    if (origin) {
+        origin->in_use--;
+    }
+
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError,
             "Transport decoding failed: %s", bpak_error_string(rc));
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index d83bb0f..e639962 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -8,6 +8,7 @@
 typedef struct {
     PyObject_HEAD
     struct bpak_package pkg;
+    unsigned int in_use; /* Number of library calls that use the package */
 } BPAKPackage;
 
 typedef struct {
-- 
2.43.0


From e8b86ac7eecc34a9e598f7dea414a1213ade58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:20 +0000
Subject: [PATCH 76/84] fix: python: report when the header or the cleared
 signature could not be written

---
 python/package.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/python/package.c b/python/package.c
index 6a43d5a..914244a 100644
--- a/python/package.c
+++ b/python/package.c
@@ -51,7 +51,9 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     package->in_use++;
     rc = bpak_pkg_write_header(&package->pkg);
     package->in_use--;
-    fflush(package->pkg.fp);
+    if (fflush(package->pkg.fp) != 0 && rc == BPAK_OK) {
+        rc = -BPAK_WRITE_ERROR;
+    }
 
     return rc;
 }
@@ -740,7 +742,7 @@ static int package_set_signature(PyObject *self, PyObject *value,
     (void)closure;
 
     int rc;
-    static const uint8_t empty_signature[1] = {0};
+    static uint8_t empty_signature[1] = {0};
     uint8_t *signature_data;
     Py_ssize_t signature_sz;
     BPAKPackage *package = (BPAKPackage *)self;
@@ -751,18 +753,12 @@ static int package_set_signature(PyObject *self, PyObject *value,
 
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
-        package->in_use++;
-        bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
-        package->in_use--;
-        return 0;
-    }
-
-    if (!PyBytes_Check(value)) {
+        signature_data = empty_signature;
+        signature_sz = 0;
+    } else if (!PyBytes_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    if (PyBytes_AsStringAndSize(value, (char**)&signature_data, &signature_sz) < 0) {
+        return -1;
+    } else if (PyBytes_AsStringAndSize(value, (char**)&signature_data, &signature_sz) < 0) {
         return -1;
     }
 
-- 
2.43.0


From 66fcc78d5d809746614a987afb6810ebcf1adf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 77/84] fix: refused sign, signature and delete operations keep
 the loaded header

---
 lib/pkg.c      | 43 +++++++++++++++++++++++++++++++++----------
 lib/pkg_sign.c | 14 +++++++++-----
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index b5279d5..c6362fb 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -204,13 +204,21 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    int rc;
+    struct bpak_header saved_header = pkg->header;
+
     if (size > sizeof(pkg->header.signature))
         return -BPAK_SIZE_ERROR;
 
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-    return bpak_pkg_write_header(pkg);
+    rc = bpak_pkg_write_header(pkg);
+
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
+
+    return rc;
 }
 
 struct decode_private {
@@ -506,6 +514,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     size_t p_decoded_size;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *part = NULL;
+    struct bpak_header saved_header = *h;
 
     bpak_printf(1, "Deleting 0x%08x\n", part_id);
 
@@ -553,7 +562,8 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         if (fseek(pkg->fp, read_offset, SEEK_SET) != 0) {
             bpak_printf(0, "%s: Error: Couldn't read file: %s\n",
                         __func__, strerror(errno));
-            return -BPAK_READ_ERROR;
+            rc = -BPAK_READ_ERROR;
+            goto err_restore_header_out;
         }
 
         size_t chunk_length =
@@ -562,14 +572,16 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         if (chunk_read != chunk_length) {
             bpak_printf(0, "%s: Error: Couldn't read file\n", __func__);
-            return -BPAK_READ_ERROR;
+            rc = -BPAK_READ_ERROR;
+            goto err_restore_header_out;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
             fwrite(copy_buffer, 1, chunk_read, pkg->fp) != chunk_read) {
             bpak_printf(0, "%s: Error: Couldn't write file: %s\n",
                         __func__, strerror(errno));
-            return -BPAK_WRITE_ERROR;
+            rc = -BPAK_WRITE_ERROR;
+            goto err_restore_header_out;
         }
 
         bytes_to_process -= chunk_read;
@@ -580,19 +592,20 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     rc = bpak_pkg_update_hash(pkg, NULL, NULL);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not update payload hash\n", __func__);
-        return rc;
+        goto err_restore_header_out;
     }
 
     rc = bpak_pkg_write_header(pkg);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not write header\n", __func__);
-        return rc;
+        goto err_restore_header_out;
     }
 
     if (fflush(pkg->fp) != 0) {
         bpak_printf(0, "%s: Error: Couldn't write file: %s\n",
                     __func__, strerror(errno));
-        return -BPAK_WRITE_ERROR;
+        rc = -BPAK_WRITE_ERROR;
+        goto err_restore_header_out;
     }
 
     size_t new_size = sizeof(struct bpak_header);
@@ -611,11 +624,16 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     }
 
     return BPAK_OK;
+
+err_restore_header_out:
+    *h = saved_header;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_meta)
 {
     struct bpak_header *h = bpak_pkg_header(pkg);
+    struct bpak_header saved_header = *h;
     int rc;
 
     /* Clear out all parts data */
@@ -635,19 +653,20 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
     rc = bpak_pkg_update_hash(pkg, NULL, NULL);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not update payload hash\n", __func__);
-        return rc;
+        goto err_restore_header_out;
     }
 
     rc = bpak_pkg_write_header(pkg);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not write header\n", __func__);
-        return rc;
+        goto err_restore_header_out;
     }
 
     if (fflush(pkg->fp) != 0) {
         bpak_printf(0, "%s: Error: Couldn't write file: %s\n",
                     __func__, strerror(errno));
-        return -BPAK_WRITE_ERROR;
+        rc = -BPAK_WRITE_ERROR;
+        goto err_restore_header_out;
     }
 
     if (ftruncate(fileno(pkg->fp), sizeof(struct bpak_header)) != 0) {
@@ -657,4 +676,8 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
     }
 
     return BPAK_OK;
+
+err_restore_header_out:
+    *h = saved_header;
+    return rc;
 }
diff --git a/lib/pkg_sign.c b/lib/pkg_sign.c
index 9cd2002..5ff0b88 100644
--- a/lib/pkg_sign.c
+++ b/lib/pkg_sign.c
@@ -24,17 +24,17 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
     struct bpak_key *sign_key = NULL;
     uint8_t hash_output[BPAK_HASH_MAX_LENGTH];
     size_t hash_size = sizeof(hash_output);
+    struct bpak_header saved_header = pkg->header;
 
     rc = bpak_pkg_update_hash(pkg, (char *)hash_output, &hash_size);
 
     if (rc != BPAK_OK)
-        return rc;
+        goto err_free_key_out;
 
     rc = bpak_crypto_load_private_key(key_filename, &sign_key);
 
-    if (rc != BPAK_OK) {
-        return rc;
-    }
+    if (rc != BPAK_OK)
+        goto err_free_key_out;
 
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
 
@@ -58,6 +58,10 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
         goto err_free_key_out;
 
 err_free_key_out:
-    bpak_free(sign_key);
+    /* The loaded header stays as it was when the package can't be signed */
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
+    if (sign_key != NULL)
+        bpak_free(sign_key);
     return rc;
 }
-- 
2.43.0


From 61484861affcb5159e819e906c7f3adb823444fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 78/84] fix: python: changes that could not be written are
 undone

---
 python/meta.c           | 21 ++++++++++++++------
 python/package.c        | 43 +++++++++++++++++++++++++++--------------
 python/part.c           |  7 +++++--
 python/python_wrapper.h |  5 ++++-
 4 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index a677e19..952d6a6 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -80,16 +80,19 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved = *h;
+
     m->id = meta_id;
-    meta->meta_id = meta_id;
 
-    rc = package_write_header(meta->package, false);
+    rc = package_write_header(meta->package, false, &saved);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
     }
 
+    meta->meta_id = meta_id;
+
     return 0;
 }
 
@@ -126,16 +129,19 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved = *h;
+
     m->part_id_ref = part_ref;
-    meta->part_ref = part_ref;
 
-    rc = package_write_header(meta->package, false);
+    rc = package_write_header(meta->package, false, &saved);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
     }
 
+    meta->part_ref = part_ref;
+
     return 0;
 }
 
@@ -225,6 +231,7 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
         new_size++;
     }
 
+    struct bpak_header saved = *h;
     uint8_t *meta_data = bpak_get_meta_ptr(h, m, uint8_t);
 
     rc = 0;
@@ -238,7 +245,7 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
         goto return_out;
     }
 
-    rc = package_write_header(meta->package, false);
+    rc = package_write_header(meta->package, false, &saved);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
@@ -318,9 +325,11 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
         return NULL;
     }
 
+    struct bpak_header saved = *h;
+
     bpak_del_meta(h, m);
 
-    rc = package_write_header(meta->package, false);
+    rc = package_write_header(meta->package, false, &saved);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_IOError, "could not write header: %s",
             bpak_error_string(rc));
diff --git a/python/package.c b/python/package.c
index 914244a..3a45891 100644
--- a/python/package.c
+++ b/python/package.c
@@ -35,26 +35,31 @@ bool package_is_open(BPAKPackage *package)
     return true;
 }
 
-int package_write_header(BPAKPackage *package, bool update_hash)
+int package_write_header(BPAKPackage *package, bool update_hash,
+                         const struct bpak_header *saved)
 {
-    int rc = 0;
+    int rc = BPAK_OK;
+
+    package->in_use++;
 
     if (update_hash) {
-        package->in_use++;
         rc = bpak_pkg_update_hash(&package->pkg, NULL, NULL);
-        package->in_use--;
-        if (rc < 0) {
-            return rc;
-        }
     }
 
-    package->in_use++;
-    rc = bpak_pkg_write_header(&package->pkg);
+    if (rc == BPAK_OK) {
+        rc = bpak_pkg_write_header(&package->pkg);
+    }
+
     package->in_use--;
+
     if (fflush(package->pkg.fp) != 0 && rc == BPAK_OK) {
         rc = -BPAK_WRITE_ERROR;
     }
 
+    if (rc != BPAK_OK) {
+        package->pkg.header = *saved;
+    }
+
     return rc;
 }
 
@@ -470,6 +475,8 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         goto err_out;
     }
 
+    struct bpak_header saved = *h;
+
     rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
     if (rc != BPAK_OK) {
         PyErr_Format(BPAKPackageError, "failed to add metadata: %s",
@@ -492,7 +499,7 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         Py_DECREF(data);
     }
 
-    rc = package_write_header(package, false);
+    rc = package_write_header(package, false, &saved);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
@@ -631,9 +638,11 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved = *h;
+
     h->hash_kind = hash_kind;
 
-    rc = package_write_header(package, false);
+    rc = package_write_header(package, false, &saved);
 
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
@@ -669,9 +678,11 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved = *h;
+
     h->key_id = key_id;
 
-    rc = package_write_header(package, false);
+    rc = package_write_header(package, false, &saved);
 
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
@@ -707,9 +718,11 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
         return -1;
     }
 
+    struct bpak_header saved = *h;
+
     h->keystore_id = keystore_id;
 
-    rc = package_write_header(package, false);
+    rc = package_write_header(package, false, &saved);
 
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
@@ -802,9 +815,11 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
         return -1;
     }
 
+    struct bpak_header saved = *h;
+
     h->signature_kind = signature_kind;
 
-    rc = package_write_header(package, false);
+    rc = package_write_header(package, false, &saved);
 
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
diff --git a/python/part.c b/python/part.c
index b706fee..3db3bae 100644
--- a/python/part.c
+++ b/python/part.c
@@ -79,15 +79,18 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved = *h;
+
     p->id = part_id;
-    part->part_id = part_id;
 
-    rc = package_write_header(part->package, false);
+    rc = package_write_header(part->package, false, &saved);
     if (rc != BPAK_OK) {
         PyErr_SetString(PyExc_IOError, "could not write header");
         return -1;
     }
 
+    part->part_id = part_id;
+
     return 0;
 }
 
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index e639962..e156284 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -37,7 +37,10 @@ int attribute_to_uint(PyObject *value, unsigned long max, uint32_t *result);
 /* Raises an exception and returns false if the package can't be used */
 bool package_is_open(BPAKPackage *package);
 
-int package_write_header(BPAKPackage *package, bool update_hash);
+/* Writes the changed header, the header is restored from 'saved' if it
+ *  can't be written */
+int package_write_header(BPAKPackage *package, bool update_hash,
+                         const struct bpak_header *saved);
 
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
 PyObject *meta_allocate(BPAKPackage *package, bpak_id_t meta_id, bpak_id_t part_ref);
-- 
2.43.0


From 76d242ea5d0d8552db9f8227d542407a3754d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 79/84] fix: python: ids must not be zero and must stay unique

---
 python/meta.c | 22 ++++++++++++++++++++++
 python/part.c | 13 +++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/python/meta.c b/python/meta.c
index 952d6a6..71f89e5 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -80,6 +80,20 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    /* Zero marks unused entries */
+    if (meta_id == 0) {
+        PyErr_SetString(PyExc_ValueError, "id must not be zero");
+        return -1;
+    }
+
+    struct bpak_meta_header *other;
+
+    if (bpak_get_meta(h, meta_id, meta->part_ref, &other) == BPAK_OK &&
+        other != m) {
+        PyErr_SetString(BPAKPackageError, "metadata already exists");
+        return -1;
+    }
+
     struct bpak_header saved = *h;
 
     m->id = meta_id;
@@ -129,6 +143,14 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_meta_header *other;
+
+    if (bpak_get_meta(h, meta->meta_id, part_ref, &other) == BPAK_OK &&
+        other != m) {
+        PyErr_SetString(BPAKPackageError, "metadata already exists");
+        return -1;
+    }
+
     struct bpak_header saved = *h;
 
     m->part_id_ref = part_ref;
diff --git a/python/part.c b/python/part.c
index 3db3bae..b9d15fb 100644
--- a/python/part.c
+++ b/python/part.c
@@ -79,6 +79,19 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    /* Zero marks unused entries */
+    if (part_id == 0) {
+        PyErr_SetString(PyExc_ValueError, "id must not be zero");
+        return -1;
+    }
+
+    struct bpak_part_header *other;
+
+    if (bpak_get_part(h, part_id, &other) == BPAK_OK && other != p) {
+        PyErr_SetString(BPAKPackageError, "part id already exists");
+        return -1;
+    }
+
     struct bpak_header saved = *h;
 
     p->id = part_id;
-- 
2.43.0


From 3b8320d195280f4c6f227f716f04b8efd1036675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 80/84] fix: python: report errors when a package is closed

---
 python/package.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/package.c b/python/package.c
index 3a45891..81d324f 100644
--- a/python/package.c
+++ b/python/package.c
@@ -185,9 +185,14 @@ static PyObject *package_close(PyObject *self, PyObject *Py_UNUSED(args))
         return NULL;
     }
 
-    bpak_pkg_close(&package->pkg);
+    int rc = bpak_pkg_close(&package->pkg);
     memset(&package->pkg, 0, sizeof(package->pkg));
 
+    if (rc != BPAK_OK) {
+        return PyErr_Format(PyExc_IOError, "could not write package: %s",
+                bpak_error_string(rc));
+    }
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 7863e43f525c867876c956f209a508b2f3e51d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 81/84] fix: python: add_meta: release the encoded text once

---
 python/package.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/package.c b/python/package.c
index 81d324f..1a8ba22 100644
--- a/python/package.c
+++ b/python/package.c
@@ -502,6 +502,7 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     if (was_unicode) {
         Py_DECREF(data);
+        was_unicode = false;
     }
 
     rc = package_write_header(package, false, &saved);
-- 
2.43.0


From 76787f685d71e48ff395ffaffa08fce9a241f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 82/84] fix: Report an unknown generator of bpak generate

---
 src/generate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index fb0dc1c..6a07d72 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -301,6 +301,9 @@ err_free_io_out:
         fclose(fp);
 err_free_header_out:
         free(h);
+    } else {
+        fprintf(stderr, "Unknown generator '%s'\n", generator);
+        return -1;
     }
 
     return rc;
-- 
2.43.0


From b5df4713d18807b3694644621ec4fade901fc07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:27 +0000
Subject: [PATCH 83/84] fix: Accept the documented --part option of bpak
 transport

---
 src/misc.c      | 4 ++--
 src/transport.c | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/misc.c b/src/misc.c
index 328b0bd..1756584 100644
--- a/src/misc.c
+++ b/src/misc.c
@@ -118,8 +118,8 @@ void print_transport_usage(void)
 
     printf("Add options:\n");
     printf("    -p, --part <part name>    Which part id to operate on\n");
-    printf("    -e, --encode <enc. name>  Encoder algorithm to use\n");
-    printf("    -d, --decode <dec. name>  Decoder algorithm to use\n");
+    printf("    -e, --encoder <enc. name> Encoder algorithm to use\n");
+    printf("    -d, --decoder <dec. name> Decoder algorithm to use\n");
     printf("\n");
 
     printf("Encode/Decode options:\n");
diff --git a/src/transport.c b/src/transport.c
index 2e896b7..57118da 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -45,13 +45,14 @@ int action_transport(int argc, char **argv)
         { "decoder", required_argument, 0, 'd' },
         { "encode", no_argument, 0, 'E' },
         { "decode", no_argument, 0, 'D' },
+        { "part", required_argument, 0, 'p' },
         { "part-ref", required_argument, 0, 'r' },
         { 0, 0, 0, 0 },
     };
 
     while ((opt = getopt_long(argc,
                               argv,
-                              "hvao:O:e:d:EDr:",
+                              "hvao:O:e:d:EDp:r:",
                               long_options,
                               &long_index)) != -1) {
         switch (opt) {
@@ -67,6 +68,7 @@ int action_transport(int argc, char **argv)
         case 'E':
             encode_flag = true;
             break;
+        case 'p':
         case 'r':
             part_ref = bpak_get_id_for_name_or_ref(optarg);
             break;
-- 
2.43.0


From 8cd9559074bee9c16789f220cf97373c4ab4e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 84/84] fix: List --version only in the usage of the tool

---
 src/misc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/misc.c b/src/misc.c
index 1756584..fda9927 100644
--- a/src/misc.c
+++ b/src/misc.c
@@ -30,7 +30,6 @@ void print_common_usage(void)
 
     printf("Help options:\n");
     printf("    -h, --help                      Show this help message\n");
-    printf("    -V, --version                   Display version\n");
     printf("\n");
 }
 
@@ -276,5 +275,9 @@ void print_usage(void)
     printf("    extract                         Extract parts or meta data\n");
     printf("\n");
 
+    printf("Version options:\n");
+    printf("    -V, --version                   Display version\n");
+    printf("\n");
+
     print_common_usage();
 }
-- 
2.43.0

