From 9ff117cc863d82eeafde56048da3e5faa31eb2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 01/45] fix: gcm_parallel: give each OpenMP thread its own byte
 index

---
 src/modes/gcm_parallel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 84fb451..18a1a64 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -33,7 +33,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     omp_set_num_threads(4);
 #pragma omp parallel
     {
-#pragma omp for
+#pragma omp for private(j)
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
@@ -100,7 +100,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     omp_set_num_threads(4);
 #pragma omp parallel
     {
-#pragma omp for
+#pragma omp for private(j)
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
-- 
2.43.0


From 020911832f2210e49929f67862b132755fca20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 02/45] fix: gcm_parallel_decrypt: authenticate the ciphertext,
 not the plaintext

---
 src/modes/gcm_parallel.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 18a1a64..de3caec 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -95,6 +95,20 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         for (j = 0; j < 16; j++)
             y_arr[i][j] = ctx->y[j];
     }
+    //unable to parallel (the tag covers the ciphertext, hash it before an in-place call overwrites it)
+    for (i = 0; i < len_s; i++)
+    {
+        size_t use_len = 16;
+        if (i == (len_s - 1))
+        {
+            use_len = (len % 16 == 0) ? 16 : len % 16;
+        }
+        for (j = 0; j < use_len; j++)
+        {
+            ctx->buf[j] ^= in[16 * i + j];
+        }
+        gcm_mult(ctx, ctx->buf, ctx->buf);
+    }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
@@ -116,20 +130,6 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             }
         }
     }
-    //unable to parallel
-    for (i = 0; i < len_s; i++)
-    {
-        size_t use_len = 16;
-        if (i == (len_s - 1))
-        {
-            use_len = (len % 16 == 0) ? 16 : len % 16;
-        }
-        for (j = 0; j < use_len; j++)
-        {
-            ctx->buf[j] ^= out[16 * i + j];
-        }
-        gcm_mult(ctx, ctx->buf, ctx->buf);
-    }
     ret=1;
 cleanup:
     return ret;
-- 
2.43.0


From 78be5941de2514b61aae0f5f3e34133f1bd69e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 03/45] fix: gcm_parallel: a zero-length chunk processes no
 block

---
 src/modes/gcm_parallel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index de3caec..7465328 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -16,7 +16,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (len + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
     for (i = 0; i < len_s; i++)
@@ -83,7 +83,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (len + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
     for (i = 0; i < len_s; i++)
-- 
2.43.0


From c1f333aba08a01bafbcaf83ba3f13f695ee75e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 04/45] fix: gcm_parallel: check and release the counter-block
 allocations

---
 src/modes/gcm_parallel.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 7465328..91afd71 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -5,23 +5,30 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
     int ret=0, len;            // our error return if the AES encrypt fails
+    size_t i, j, len_s = 0; // local loop iterator
+    unsigned char **y_arr = NULL;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
         len=inlen;
     }
-    size_t i, j; // local loop iterator
     block128_f block = ctx->block;
     void *key = ctx->key;
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len + 15) / 16;
+    len_s = (len + 15) / 16;
     //pretreatment
-    unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    y_arr = (unsigned char **)calloc(len_s + 1, sizeof(unsigned char *));
+    if(y_arr==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_parallel_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0; i < len_s; i++)
     {
         y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
+        if(y_arr[i]==NULL){
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_parallel_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+        }
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
@@ -65,6 +72,11 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     }
     ret=1;
 cleanup:
+    if(y_arr!=NULL){
+        for (i = 0; i < len_s; i++)
+            free(y_arr[i]);
+        free(y_arr);
+    }
     return ret;
 }
 
@@ -72,23 +84,30 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
     int ret=0, len;            // our error return if the AES encrypt fails
+    size_t i, j, len_s = 0; // local loop iterator
+    unsigned char **y_arr = NULL;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
         len=inlen;
     }
-    size_t i, j; // local loop iterator
     block128_f block = ctx->block;
     void *key = ctx->key;
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len + 15) / 16;
+    len_s = (len + 15) / 16;
     //pretreatment
-    unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    y_arr = (unsigned char **)calloc(len_s + 1, sizeof(unsigned char *));
+    if(y_arr==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_parallel_decrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0; i < len_s; i++)
     {
         y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
+        if(y_arr[i]==NULL){
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_parallel_decrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+        }
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
@@ -132,5 +151,10 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     }
     ret=1;
 cleanup:
+    if(y_arr!=NULL){
+        for (i = 0; i < len_s; i++)
+            free(y_arr[i]);
+        free(y_arr);
+    }
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 98c19b072b38145b27534f35840f053eaf944e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:51 +0000
Subject: [PATCH 05/45] fix: gcm file modes: error paths close only the files
 that were opened

---
 src/modes/gcmfile.c               | 20 +++++++++++++-------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 20 +++++++++++++-------
 src/wbaes/wbaes_wbgcm_mask_file.c | 20 +++++++++++++-------
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bc27395..5604e17 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -35,11 +35,13 @@ cleanup:
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
     int len_outfpath, file_size, block_size;
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -83,6 +85,7 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
     fclose(infp);
+    infp = NULL;
 
     // #2 Write cipher file
     // add tag
@@ -101,9 +104,12 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL) fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
@@ -112,7 +118,7 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     int ret = 0;
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -166,8 +172,8 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d432370..eaa0b6a 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -4,11 +4,13 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int ret = 0;
     int len_outfpath, file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -52,6 +54,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
     fclose(infp);
+    infp = NULL;
 
     // #2 Write cipher file
     // add tag
@@ -70,9 +73,12 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL) fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
@@ -82,7 +88,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -136,7 +142,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 94cc621..e5b9871 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -4,11 +4,13 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int ret = 0;
     int len_outfpath, file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -52,6 +54,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
     fclose(infp);
+    infp = NULL;
 
     // #2 Write cipher file
     // add tag
@@ -70,9 +73,12 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL) fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
@@ -82,7 +88,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -136,7 +142,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From d507b3e06e68427addd80e2be3079905742f6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:51 +0000
Subject: [PATCH 06/45] fix: gcm file modes: write the length field without
 stray stack bytes

---
 src/modes/gcmfile.c               | 2 +-
 src/wbaes/wbaes_wbgcm_ee_file.c   | 2 +-
 src/wbaes/wbaes_wbgcm_mask_file.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 5604e17..df317aa 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -63,7 +63,7 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index eaa0b6a..09d69df 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -32,7 +32,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index e5b9871..8a5efa2 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -32,7 +32,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
-- 
2.43.0


From 67639fec03c5ff1dfdd90f03a4de5ed9f7b1a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:20 +0000
Subject: [PATCH 07/45] fix: gcm file encryption: fail when a read, write, seek
 or close fails

---
 src/modes/gcmfile.c               | 42 ++++++++++++++++++++++---------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 42 ++++++++++++++++++++++---------
 src/wbaes/wbaes_wbgcm_mask_file.c | 42 ++++++++++++++++++++++---------
 3 files changed, 90 insertions(+), 36 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index df317aa..1579441 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -34,7 +34,7 @@ cleanup:
 
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int len_outfpath, file_size, block_size, read_size = 0;
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
@@ -60,47 +60,65 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(file_size));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size))
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    // Every byte of the input must have been read
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN))
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     fclose(infp);
     infp = NULL;
 
     // #2 Write cipher file
     // add tag
-    fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size -= block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    // the whole ciphertext must have been copied and reach the file
+    if (ferror(tmpfp) || read_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+    block_size = fclose(outfp);
+    outfp = NULL;
+    if (block_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 09d69df..70408be 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -2,7 +2,7 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int len_outfpath, file_size, block_size, read_size = 0;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
@@ -29,47 +29,65 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(file_size));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size))
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    // Every byte of the input must have been read
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN))
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     fclose(infp);
     infp = NULL;
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size -= block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    // the whole ciphertext must have been copied and reach the file
+    if (ferror(tmpfp) || read_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+    block_size = fclose(outfp);
+    outfp = NULL;
+    if (block_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 8a5efa2..258a033 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -2,7 +2,7 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int len_outfpath, file_size, block_size, read_size = 0;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
@@ -29,47 +29,65 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(file_size));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size))
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    // Every byte of the input must have been read
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN))
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     fclose(infp);
     infp = NULL;
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size -= block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    // the whole ciphertext must have been copied and reach the file
+    if (ferror(tmpfp) || read_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+    block_size = fclose(outfp);
+    outfp = NULL;
+    if (block_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
-- 
2.43.0


From 18e64ee19d714f62c7ed100299520ebbc000e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:46 +0000
Subject: [PATCH 08/45] fix: wbgcm mask: encryption and decryption compute the
 same tag

---
 src/wbaes/wbaes_wbgcm_mask_mode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 8f1acc0..6a94390 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -298,9 +298,15 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
         wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
         for (i = 0; i < len; i++) {
+            if (!key->encMode) { //dec mode: GBOX_TypeI removes the mask L1
+                ctx->buf[i] = MatMulNumM8(key->L1[i], ctx->buf[i]);
+            }
             buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
 //            tag[i] ^= ctx->buf[i];
             tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+            if (!key->encMode) { //dec mode: mask the tag as the encryption does
+                tag[i] = MatMulNumM8(key->L1[i], tag[i]);
+            }
         }
     }
     return 1;
-- 
2.43.0


From 4653944d59ef814863fcb303329823c7f491ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:46 +0000
Subject: [PATCH 09/45] fix: wbgcm ee/mask: decode the tag of an empty message

---
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 2 +-
 src/wbaes/wbaes_wbgcm_mask_mode.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 5a1455f..cc512d5 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -263,7 +263,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    {   // base_ectr is encoded: it has to be decoded for an empty message too
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 6a94390..13205cf 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -286,7 +286,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    {   // base_ectr is encoded: it has to be decoded for an empty message too
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-- 
2.43.0


From 352d76444dadaffc3e457b9de0604d55d3c98b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:46 +0000
Subject: [PATCH 10/45] fix: gcm setiv: start a reused context with no
 additional data

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 48b2347..dc65f3c 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -109,6 +109,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     memset( ctx->y,   0x00, sizeof(ctx->y  ) );
     memset( ctx->buf, 0x00, sizeof(ctx->buf) );
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if( len == 12 ) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy( ctx->y, iv, len );   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index cc512d5..804e633 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -109,6 +109,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 13205cf..07097d4 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
-- 
2.43.0


From 95e840656985c51311e77e8f70bfbf62e0ecc097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:46 +0000
Subject: [PATCH 11/45] fix: gcm file decryption: verify the tag and withhold
 unauthenticated plaintext

---
 src/modes/gcmfile.c               | 19 +++++++++++++------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 19 +++++++++++++------
 src/wbaes/wbaes_wbgcm_mask_file.c | 19 +++++++++++++------
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 1579441..e0e163c 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -142,17 +142,17 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
+    unsigned char flag[WBCRYPTO_GCM_FILE_TAG_LEN];
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -168,7 +168,6 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -182,16 +181,24 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Tag of the ciphertext which was read
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, flag, WBCRYPTO_GCM_FILE_TAG_LEN))
+    if (memcmp(flag, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
     if (infp != NULL) fclose(infp);
-    if (outfp != NULL) fclose(outfp);
+    if (outfp != NULL) {
+        fclose(outfp);
+        // never leave unauthenticated plaintext behind
+        if (ret == 0) remove(outfpath);
+    }
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 70408be..e3c7182 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -112,17 +112,17 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
+    unsigned char flag[WBCRYPTO_GCM_FILE_TAG_LEN];
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -138,7 +138,6 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -152,15 +151,23 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Tag of the ciphertext which was read
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, flag, WBCRYPTO_GCM_FILE_TAG_LEN))
+    if (memcmp(flag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
     if (infp != NULL) fclose(infp);
-    if (outfp != NULL) fclose(outfp);
+    if (outfp != NULL) {
+        fclose(outfp);
+        // never leave unauthenticated plaintext behind
+        if (ret == 0) remove(outfpath);
+    }
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 258a033..2287fe5 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -112,17 +112,17 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
+    unsigned char flag[WBCRYPTO_GCM_FILE_TAG_LEN];
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -138,7 +138,6 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -152,15 +151,23 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Tag of the ciphertext which was read
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, flag, WBCRYPTO_GCM_FILE_TAG_LEN))
+    if (memcmp(flag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
     if (infp != NULL) fclose(infp);
-    if (outfp != NULL) fclose(outfp);
+    if (outfp != NULL) {
+        fclose(outfp);
+        // never leave unauthenticated plaintext behind
+        if (ret == 0) remove(outfpath);
+    }
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 2ba51c61d1e6bcb3064ddda488b9b60c76435cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:46 +0000
Subject: [PATCH 12/45] fix: gcm file decryption: fail when a read, write or
 close fails

---
 src/modes/gcmfile.c               | 10 ++++++----
 src/wbaes/wbaes_wbgcm_ee_file.c   | 10 ++++++----
 src/wbaes/wbaes_wbgcm_mask_file.c | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index e0e163c..100e662 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -173,16 +173,17 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size))
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
     // Invalid file
-    if (read_size != file_size) {
+    if (ferror(infp) || read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     // Tag of the ciphertext which was read
@@ -195,7 +196,8 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 cleanup:
     if (infp != NULL) fclose(infp);
     if (outfp != NULL) {
-        fclose(outfp);
+        // buffered plaintext must reach the file
+        if (fclose(outfp) != 0) ret = 0;
         // never leave unauthenticated plaintext behind
         if (ret == 0) remove(outfpath);
     }
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index e3c7182..89f10c2 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -143,16 +143,17 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size))
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
     // Invalid file
-    if (read_size != file_size) {
+    if (ferror(infp) || read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     // Tag of the ciphertext which was read
@@ -165,7 +166,8 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 cleanup:
     if (infp != NULL) fclose(infp);
     if (outfp != NULL) {
-        fclose(outfp);
+        // buffered plaintext must reach the file
+        if (fclose(outfp) != 0) ret = 0;
         // never leave unauthenticated plaintext behind
         if (ret == 0) remove(outfpath);
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 2287fe5..e196130 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -143,16 +143,17 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size))
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
     // Invalid file
-    if (read_size != file_size) {
+    if (ferror(infp) || read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     // Tag of the ciphertext which was read
@@ -165,7 +166,8 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 cleanup:
     if (infp != NULL) fclose(infp);
     if (outfp != NULL) {
-        fclose(outfp);
+        // buffered plaintext must reach the file
+        if (fclose(outfp) != 0) ret = 0;
         // never leave unauthenticated plaintext behind
         if (ret == 0) remove(outfpath);
     }
-- 
2.43.0


From c85e8dec86609858d2513e8c24e1ba9e20ca28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:46 +0000
Subject: [PATCH 13/45] fix: gcm file modes: refuse to overwrite the input file

---
 src/modes/gcmfile.c               | 7 +++++++
 src/wbaes/wbaes_wbgcm_ee_file.c   | 7 +++++++
 src/wbaes/wbaes_wbgcm_mask_file.c | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 100e662..4f1bef5 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -45,6 +45,9 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
+    // the output and the temporary file must not overwrite the input
+    if (strcmp(infpath, outfpath) == 0 || strcmp(infpath, tmp_file_path) == 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
@@ -138,6 +141,10 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char size_buf[sizeof(size_t)];
     FILE *infp = NULL, *outfp = NULL;
 
+    // the output must not overwrite the input
+    if (strcmp(infpath, outfpath) == 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 89f10c2..3d582b2 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -14,6 +14,9 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
+    // the output and the temporary file must not overwrite the input
+    if (strcmp(infpath, outfpath) == 0 || strcmp(infpath, tmp_file_path) == 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
@@ -108,6 +111,10 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *outfp = NULL;
 
+    // the output must not overwrite the input
+    if (strcmp(infpath, outfpath) == 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index e196130..95bd4e4 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -14,6 +14,9 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
+    // the output and the temporary file must not overwrite the input
+    if (strcmp(infpath, outfpath) == 0 || strcmp(infpath, tmp_file_path) == 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
@@ -108,6 +111,10 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *outfp = NULL;
 
+    // the output must not overwrite the input
+    if (strcmp(infpath, outfpath) == 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
-- 
2.43.0


From 1e2b007e3911eb47680c63d56292b3e7f4e26352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 14/45] fix: keystore: report failed reads, writes and opens

---
 src/utils/keystore.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index f84ecfa..2dee733 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -7,10 +7,12 @@ int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
     }
-    fread(ctx , ctx_len, 1, rkey);
+    if(fread(ctx , 1, ctx_len, rkey) != ctx_len){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL) fclose(rkey);
     return ret;
 }
 
@@ -21,9 +23,11 @@ int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
     }
-    fwrite( ctx, ctx_len, 1, wkey);
+    if(fwrite( ctx, 1, ctx_len, wkey) != ctx_len){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL && fclose(wkey)!=0) ret=0;
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 03314391041a8da92608599c4013176cbd8238c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 15/45] fix: wbsm4_key2file/file2key: report failed opens,
 writes and closes

---
 src/wbsm4/wbsm4_exkey.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 006338a..a7890c4 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -8,7 +8,9 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
     }
-    fputs("DummyRound-WBSM4", wkey);
+    if(fputs("DummyRound-WBSM4", wkey)==EOF){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
+    }
     if(!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
         ||!fwrite(&ctx->encmode, sizeof(int), 1, wkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_READ_BAD_FILE);
@@ -43,7 +45,7 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL && fclose(wkey)!=0) ret=0;
     return ret;
 }
 
@@ -95,7 +97,7 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL) fclose(rkey);
     return ret;
 }
 
-- 
2.43.0


From 8b6212a0cdf48b9450a867f3b6d4be58a6ac4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 16/45] fix: wbsm4_context_init: return NULL when a table
 cannot be allocated

---
 src/wbsm4/wbsm4.c       | 69 ++++++++++++++++++++++++++++++++++-------
 src/wbsm4/wbsm4_local.h |  3 ++
 2 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 56d390a..423c37b 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -1,33 +1,73 @@
 #include "wbsm4_local.h"
 
+void wbsm4_free_table(WBCRYPTO_wbsm4_context *ctx){
+    int i,j,k;
+    for(i=0; i<ctx->rounds; i++){
+        for(j=0; ctx->MM && ctx->MM[i] && j<3; j++){
+            for(k=0; ctx->MM[i][j] && k<4; k++){
+                free(ctx->MM[i][j][k]);
+            }
+            free(ctx->MM[i][j]);
+        }
+        for(j=0; j<4; j++){
+            if(ctx->CC && ctx->CC[i]) free(ctx->CC[i][j]);
+            if(ctx->DD && ctx->DD[i]) free(ctx->DD[i][j]);
+            if(ctx->Table && ctx->Table[i]) free(ctx->Table[i][j]);
+        }
+        if(ctx->MM) free(ctx->MM[i]);
+        if(ctx->CC) free(ctx->CC[i]);
+        if(ctx->DD) free(ctx->DD[i]);
+        if(ctx->Table) free(ctx->Table[i]);
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
+}
+
 WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds){
     int i,j,k;
-    struct wbsm4_context *ctx=malloc(sizeof(struct wbsm4_context));
+    struct wbsm4_context *ctx=calloc(1, sizeof(struct wbsm4_context));
     if(ctx==NULL){
         return NULL;
     }
     int rounds = 32 + 4*dummyrounds;
-    ctx->MM = (uint32_t ****)malloc(rounds*sizeof(uint32_t***));
-    ctx->CC = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->DD = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->Table = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
+    ctx->rounds=rounds;
+    ctx->encmode=encmode;
+    ctx->MM = (uint32_t ****)calloc(rounds, sizeof(uint32_t***));
+    ctx->CC = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+    ctx->DD = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+    ctx->Table = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+
+    if(!ctx->MM || !ctx->CC || !ctx->DD || !ctx->Table){
+        goto cleanup;
+    }
 
     for(i=0;i<rounds;i++){
-        ctx->MM[i]=(uint32_t ***)malloc((3)*sizeof(uint32_t**));
-        ctx->CC[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->DD[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->Table[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+        ctx->MM[i]=(uint32_t ***)calloc((3), sizeof(uint32_t**));
+        ctx->CC[i]=(uint32_t **)calloc((4), sizeof(uint32_t*));
+        ctx->DD[i]=(uint32_t **)calloc((4), sizeof(uint32_t*));
+        ctx->Table[i]=(uint32_t **)calloc((4), sizeof(uint32_t*));
+        if(!ctx->MM[i] || !ctx->CC[i] || !ctx->DD[i] || !ctx->Table[i]){
+            goto cleanup;
+        }
     }
 
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
-            ctx->MM[i][j]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+            ctx->MM[i][j]=(uint32_t **)calloc((4), sizeof(uint32_t*));
+            if(!ctx->MM[i][j]){
+                goto cleanup;
+            }
         }
     }
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
             for (k = 0; k < 4; k++) {
                 ctx->MM[i][j][k] = (uint32_t *) malloc((256) * sizeof(uint32_t));
+                if(!ctx->MM[i][j][k]){
+                    goto cleanup;
+                }
             }
         }
     }
@@ -37,11 +77,16 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
             ctx->CC[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
             ctx->DD[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
             ctx->Table[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
+            if(!ctx->CC[i][j] || !ctx->DD[i][j] || !ctx->Table[i][j]){
+                goto cleanup;
+            }
         }
     }
-    ctx->rounds=rounds;
-    ctx->encmode=encmode;
     return ctx;
+cleanup:
+    wbsm4_free_table(ctx);
+    free(ctx);
+    return NULL;
 }
 
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
diff --git a/src/wbsm4/wbsm4_local.h b/src/wbsm4/wbsm4_local.h
index 2e7c935..9351b3f 100644
--- a/src/wbsm4/wbsm4_local.h
+++ b/src/wbsm4/wbsm4_local.h
@@ -17,4 +17,7 @@
 
 extern const uint8_t SBOX[256];
 
+//release the tables of a context
+void wbsm4_free_table(WBCRYPTO_wbsm4_context *ctx);
+
 #endif //WBCRYPTO_WBSM4_LOCAL_H
-- 
2.43.0


From 46f0a5b52afa75b0972c7a1a921b96c89d7eeee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 17/45] fix: wbsm4_file2key: size the tables by the file,
 replace the key only when complete

---
 src/wbsm4/wbsm4_exkey.c | 26 +++++++++++++++++++++++---
 src/wbsm4/wbsm4_local.h |  3 +++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index a7890c4..d3f8415 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -49,10 +49,12 @@ cleanup:
     return ret;
 }
 
-int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
+int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *dst, char *fpath){
     int ret=0;
     FILE *rkey;
     int i,j,k,l;
+    int rounds, encmode;
+    WBCRYPTO_wbsm4_context *ctx=NULL; // dst is only replaced by a complete key
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_FILE_IO);
@@ -63,10 +65,19 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     if(strcmp(algname, "DummyRound-WBSM4")!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(!fread(&ctx->rounds, sizeof(int), 1, rkey)
-       ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
+    if(!fread(&rounds, sizeof(int), 1, rkey)
+       ||!fread(&encmode, sizeof(int), 1, rkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
+    // the file must hold exactly the tables of the rounds it declares
+    if(fseek(rkey, 0, SEEK_END)!=0 || rounds<32 || rounds%4!=0
+       || ftell(rkey)!=16+2*sizeof(int)+WBSM4_TABLE_SIZE((long)rounds)
+       || fseek(rkey, 16+2*sizeof(int), SEEK_SET)!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
+    if((ctx = WBCRYPTO_wbsm4_context_init(encmode, (rounds-32)/4))==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0;  i< ctx->rounds; i++) {
         for (j = 0;  j<3 ; j++) {
             for (k = 0;  k<4 ; k++) {
@@ -95,8 +106,17 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
             }
         }
     }
+    wbsm4_free_table(dst);
+    *dst = *ctx;
+    ctx->rounds=0;
+    ctx->MM=NULL;
+    ctx->CC=ctx->DD=ctx->Table=NULL;
     ret=1;
 cleanup:
+    if(ctx!=NULL){
+        wbsm4_free_table(ctx);
+        free(ctx);
+    }
     if(rkey!=NULL) fclose(rkey);
     return ret;
 }
diff --git a/src/wbsm4/wbsm4_local.h b/src/wbsm4/wbsm4_local.h
index 9351b3f..b179b78 100644
--- a/src/wbsm4/wbsm4_local.h
+++ b/src/wbsm4/wbsm4_local.h
@@ -17,6 +17,9 @@
 
 extern const uint8_t SBOX[256];
 
+//size of the tables of a context: MM, CC, DD, Table of each round, SE and FE
+#define WBSM4_TABLE_SIZE(rounds) ((rounds)*(3*4+3*4)*256*sizeof(uint32_t) + 2*4*4*256*sizeof(uint32_t))
+
 //release the tables of a context
 void wbsm4_free_table(WBCRYPTO_wbsm4_context *ctx);
 
-- 
2.43.0


From 0400ffe2f3f426919c90cc68e02ab8613ff35452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 18/45] fix: wbsm4_key2bytes/bytes2key: transfer the tables,
 not their addresses

---
 src/wbsm4/wbsm4_exkey.c | 73 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 62 insertions(+), 11 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index d3f8415..19cf6a5 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -123,30 +123,81 @@ cleanup:
 
 int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     int ret=0;
-    int ks_len = 0;
+    int i,j,k;
+    uint32_t ks_len = 0;
 
-    ks_len = sizeof(struct wbsm4_context);
-    ks_len += sizeof(uint32_t);
+    // key stream: length | rounds | encmode | tables
+    ks_len = sizeof(uint32_t) + 2*sizeof(int) + WBSM4_TABLE_SIZE(ctx->rounds);
     *kstream = malloc(ks_len);
+    if(*kstream==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     *((uint32_t *)*kstream) = ks_len;
-    uint8_t* ds  = *kstream + sizeof(uint32_t);
-    memcpy(ds, ctx, sizeof(struct wbsm4_context));
+    uint8_t* ds  = (uint8_t *)*kstream + sizeof(uint32_t);
+#define WBSM4_PUT(src, len) do{ memcpy(ds, src, len); ds += len; }while(0)
+    WBSM4_PUT(&ctx->rounds, sizeof(int));
+    WBSM4_PUT(&ctx->encmode, sizeof(int));
+    WBSM4_PUT(ctx->SE, sizeof(ctx->SE));
+    WBSM4_PUT(ctx->FE, sizeof(ctx->FE));
+    for (i = 0;  i< ctx->rounds; i++) {
+        for (j = 0;  j<3 ; j++) {
+            for (k = 0;  k<4 ; k++) {
+                WBSM4_PUT(ctx->MM[i][j][k], 256*sizeof(uint32_t));
+            }
+        }
+        for (j = 0;  j<4 ; j++) {
+            WBSM4_PUT(ctx->CC[i][j], 256*sizeof(uint32_t));
+            WBSM4_PUT(ctx->DD[i][j], 256*sizeof(uint32_t));
+            WBSM4_PUT(ctx->Table[i][j], 256*sizeof(uint32_t));
+        }
+    }
 
     ret=1;
 cleanup:
     return ret;
 }
 
-int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
+int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *dst, const char *kstream){
     int ret=0;
+    int i,j,k;
+    int rounds, encmode;
+    uint32_t ks_len = 0;
+    WBCRYPTO_wbsm4_context *ctx=NULL;
 
-    const uint8_t  *ptr = kstream;
-    ptr += sizeof(uint32_t);
-    memcpy(ctx, ptr, sizeof(struct wbsm4_context));
+    const uint8_t  *ptr = (const uint8_t *)kstream;
+#define WBSM4_GET(to, len) do{ memcpy(to, ptr, len); ptr += len; }while(0)
+    WBSM4_GET(&ks_len, sizeof(uint32_t));
+    if(ks_len < sizeof(uint32_t) + 2*sizeof(int)){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
+    WBSM4_GET(&rounds, sizeof(int));
+    WBSM4_GET(&encmode, sizeof(int));
+    if(rounds<32 || rounds%4!=0
+       || ks_len!=sizeof(uint32_t)+2*sizeof(int)+WBSM4_TABLE_SIZE((size_t)rounds)){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
+    if((ctx = WBCRYPTO_wbsm4_context_init(encmode, (rounds-32)/4))==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    WBSM4_GET(ctx->SE, sizeof(ctx->SE));
+    WBSM4_GET(ctx->FE, sizeof(ctx->FE));
+    for (i = 0;  i< rounds; i++) {
+        for (j = 0;  j<3 ; j++) {
+            for (k = 0;  k<4 ; k++) {
+                WBSM4_GET(ctx->MM[i][j][k], 256*sizeof(uint32_t));
+            }
+        }
+        for (j = 0;  j<4 ; j++) {
+            WBSM4_GET(ctx->CC[i][j], 256*sizeof(uint32_t));
+            WBSM4_GET(ctx->DD[i][j], 256*sizeof(uint32_t));
+            WBSM4_GET(ctx->Table[i][j], 256*sizeof(uint32_t));
+        }
+    }
+    wbsm4_free_table(dst);
+    *dst = *ctx;
+    free(ctx);
 
     ret=1;
 cleanup:
     return ret;
 }
-
-
-- 
2.43.0


From 09f21fd26b45574f057b6e1ef7e96b878b8eb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 19/45] fix: wbsm4_gen_table: count real rounds across adjacent
 dummy groups

---
 src/wbsm4/wbsm4_gen.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index c67b97b..4e82566 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -164,14 +164,10 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         D[i].Vec.V ^= P[i + 4].Vec.V ^ temp_u32;
     }
 
-    int flag = 0;
-    int point;
+    int point; // index of the real round, dummy rounds do not count
     for (i = 0, point=0; i < wbsm4_ctx->rounds; i++, point++)
     {
         if(dummy_array[i]==0) {
-            point = flag ? point - 4 : point;
-            flag = 0;
-
             //1
             for (j = 0; j < 3; j++) {
                 Q_constant[j] = cus_random();
@@ -231,7 +227,7 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
                 wbsm4_ctx->Table[i][3][x] ^= Q[point].Vec.V ^ Q_constant[0] ^ Q_constant[1] ^ Q_constant[2];
             }
         }else{
-            flag=1;
+            point--;
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
                     wbsm4_ctx->Table[i][j][x]=0;
-- 
2.43.0


From c6ec6e07e98829a4e21417241f932721cd8667b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 20/45] fix: wbsm4_gen_table: define the tables of dummy rounds

---
 src/wbsm4/wbsm4_gen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index 4e82566..b4bf7c5 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -231,7 +231,8 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
                     wbsm4_ctx->Table[i][j][x]=0;
-//                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->MM[i][0][j][x]=wbsm4_ctx->MM[i][1][j][x]=wbsm4_ctx->MM[i][2][j][x]=0;
                 }
             }
 //            identityAff32(&wbsm4_ctx->CC[i]);
-- 
2.43.0


From ed79d13f74c64da5a915e14384ea400c5740d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 21/45] fix: wbsm4_gen_table: fail when an allocation or the
 key schedule fails

---
 src/utils/wrandom.c   |  2 ++
 src/wbsm4/wbsm4_gen.c | 26 ++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/utils/wrandom.c b/src/utils/wrandom.c
index d543e94..5148594 100644
--- a/src/utils/wrandom.c
+++ b/src/utils/wrandom.c
@@ -58,6 +58,8 @@ int wRandomShuffleU8(uint8_t *list, int len) {
     int t, roundCnt, ret;
     unsigned int *randNumbers;
     randNumbers = (unsigned int *)malloc((len + 10) * sizeof(unsigned int));
+    if (randNumbers == NULL)
+        return -1;
     memset(randNumbers, 0, (len + 10) * sizeof(unsigned int));
     wRandomList((int*) randNumbers, len);
     while (len > 0) {
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index b4bf7c5..471c5e3 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -82,11 +82,21 @@ void identityAff32(Aff32 *aff){
 uint8_t *wbsm4_gen_dummyround_array(int rounds, int dummyrounds) {
     int len_origin = rounds + dummyrounds;
     uint8_t *da = (uint8_t*) malloc(sizeof(uint8_t)*(len_origin));
+    if(da==NULL){
+        return NULL;
+    }
     memset(da, 0, rounds);
     memset(da+rounds, 1, dummyrounds);
-    wRandomShuffleU8(da, len_origin);
+    if(wRandomShuffleU8(da, len_origin)!=0){
+        free(da);
+        return NULL;
+    }
     int len_result = rounds + 4*dummyrounds;
     uint8_t *result = (uint8_t*) malloc(sizeof(uint8_t)*(len_result));
+    if(result==NULL){
+        free(da);
+        return NULL;
+    }
     uint8_t *iter = result;
     int i;
     for (i=0; i<len_origin; i++) {
@@ -121,15 +131,22 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     Aff32 D[32];
     uint32_t Q_constant[3] = {0};
 
+    uint8_t *dummy_array = NULL;
     WBCRYPTO_sm4_context *sm4_key=WBCRYPTO_sm4_context_init();
+    if(sm4_key==NULL){
+        goto cleanup;
+    }
     if(wbsm4_ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE))
     }else{
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE))
     }
     InitRandom(((unsigned int)time(NULL)));
 
-    uint8_t *dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    if(dummy_array==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_gen_table",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
 
     for (i = 0; i < 36; i++)
     {
@@ -272,6 +289,7 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     ret=1;
 cleanup:
     free(dummy_array);
+    if(sm4_key!=NULL) WBCRYPTO_sm4_context_free(sm4_key);
     return ret;
 }
 
-- 
2.43.0


From 2a4fae9c799bbcb549de61aee8bbd5878c9503ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 22/45] fix: cbc128_encrypt and padding: do not lose the buffer
 when realloc moves it

---
 include/wbcrypto/utils.h | 8 ++++----
 src/modes/cbc128.c       | 7 ++++++-
 src/utils/padding.c      | 4 ----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/wbcrypto/utils.h b/include/wbcrypto/utils.h
index 730ac81..aaaf86a 100644
--- a/include/wbcrypto/utils.h
+++ b/include/wbcrypto/utils.h
@@ -15,7 +15,7 @@
  * reduce: delete bits larger than 16byte
  * @param src initial key
  * @param srclen initial key length
- * @param dst padding key, must be init
+ * @param dst padding key, must hold WBCRYPTO_PADDING_NUM bytes
  * @return padding key length
  */
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst);
@@ -26,7 +26,7 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
  * reduce: delete bits larger than 16byte
  * @param src initial key
  * @param srclen initial key length
- * @param dst padding key, must be init
+ * @param dst padding key, must hold WBCRYPTO_PADDING_NUM bytes
  * @return padding key length
  */
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst);
@@ -35,7 +35,7 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
  * expand the msg with #pkcs7 standard
  * @param src msg
  * @param srclen msg length
- * @param dst padding msg, must be init
+ * @param dst padding msg, must hold WBCRYPTO_padding_pkcs7_merge_length bytes
  * @return padding msg length
  */
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst);
@@ -52,7 +52,7 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen);
  * remove the msg with #pkcs7 expand, return the removed length
  * @param src expanded msg
  * @param srclen expanded msg length
- * @param dst removed msg, must be init
+ * @param dst removed msg, must hold WBCRYPTO_padding_pkcs7_separate_length bytes
  * @return removed msg length
  */
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst);
diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d9c964f..79a9122 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -5,7 +5,11 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
     int ret=0,len;
-    unsigned char *afin = (unsigned char *)malloc(inlen*sizeof(unsigned char));
+    unsigned char *padin = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen)+1);
+    unsigned char *afin = padin;
+    if(padin==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
@@ -40,6 +44,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     }
     ret=1;
 cleanup:
+    free(padin);
     return ret;
 }
 
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 14c9609..4477f5d 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -2,7 +2,6 @@
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -24,7 +23,6 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -46,7 +44,6 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
-    dst = (unsigned char *)realloc(dst, pad_len*sizeof(unsigned char));
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
         dst[i] = src[i];
@@ -66,7 +63,6 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-    dst = (unsigned char *)realloc(dst,afpad_len*sizeof(unsigned char));
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
-- 
2.43.0


From 6ae1b3c9bb103103d25af341ab1c90e24acd289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 23/45] fix: padding: removing the padding of an empty message
 reads nothing

---
 src/utils/padding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/padding.c b/src/utils/padding.c
index 4477f5d..e8b8b73 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -58,7 +58,7 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = (int)src[srclen-1], afpad_len;
+    int pad_num = srclen ? (int)src[srclen-1] : 0, afpad_len;
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
     }
@@ -74,7 +74,7 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = src[srclen-1], afpad_len;
+    int pad_num = srclen ? src[srclen-1] : 0, afpad_len;
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
     }
-- 
2.43.0


From 35a7f6d23705e3ae60bac0916f25140304c588c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 24/45] fix: aes_decrypt: use a decryption key schedule

---
 include/wbcrypto/aes.h | 1 +
 src/aes/aes.c          | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wbcrypto/aes.h b/include/wbcrypto/aes.h
index 3f7b958..bbefd17 100644
--- a/include/wbcrypto/aes.h
+++ b/include/wbcrypto/aes.h
@@ -10,6 +10,7 @@ extern "C" {
 
     struct aes_context {
         AES_KEY aes_key;
+        AES_KEY aes_dec_key;
     };
 
     typedef struct aes_context WBCRYPTO_aes_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index bc77d33..96cc9ba 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -21,6 +21,7 @@ int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t
     uint8_t input_key[16];
     memcpy(input_key, key, keylen);
     AES_set_encrypt_key(key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
@@ -30,6 +31,6 @@ int WBCRYPTO_aes_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_a
 }
 
 int WBCRYPTO_aes_decrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_aes_context *ctx){
-    AES_decrypt(in, out, &ctx->aes_key);
+    AES_decrypt(in, out, &ctx->aes_dec_key);
     return 1;
 }
-- 
2.43.0


From 2606f40f8ba9e791e7258d47ea94eb92c1c3fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 25/45] fix: aes, wbaes, fpe_app: extend short keys instead of
 reading past them

---
 src/aes/aes.c                     | 9 ++++-----
 src/fpe_app/init.c                | 5 ++---
 src/wbaes/wbaes.c                 | 4 +++-
 src/wbaes/wbaes_wbgcm_ee_init.c   | 4 +++-
 src/wbaes/wbaes_wbgcm_mask_init.c | 4 +++-
 5 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 96cc9ba..5b7a186 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -17,11 +17,10 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
-    keylen = keylen >= 16 ? 16 : keylen;
-    uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
-    AES_set_encrypt_key(key, 128, &ctx->aes_key);
-    AES_set_decrypt_key(key, 128, &ctx->aes_dec_key);
+    uint8_t input_key[WBCRYPTO_PADDING_NUM];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    AES_set_encrypt_key(input_key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(input_key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 95db799..8c40cba 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,9 +5,8 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
-    keylen = keylen >= 16 ? 16 : keylen;
-    uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
+    uint8_t input_key[WBCRYPTO_PADDING_NUM];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
         WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 6f048ce..4178889 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -20,7 +20,9 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t padkey[WBCRYPTO_PADDING_NUM];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);
+    expandKey(padkey, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_ee_init.c b/src/wbaes/wbaes_wbgcm_ee_init.c
index af91483..c43f80a 100644
--- a/src/wbaes/wbaes_wbgcm_ee_init.c
+++ b/src/wbaes/wbaes_wbgcm_ee_init.c
@@ -5,7 +5,9 @@ void WBCRYPTO_wbaes_wbgcm_ee_gen_table(WBCRYPTO_wbaes_wbgcm_ee_context *ctx, con
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t padkey[WBCRYPTO_PADDING_NUM];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);
+    expandKey(padkey, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f69a232..f4ef418 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -31,7 +31,9 @@ void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t padkey[WBCRYPTO_PADDING_NUM];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);
+    expandKey(padkey, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
-- 
2.43.0


From 7f3d705ac279955ce211bbb303ecb21cf5a32d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 26/45] fix: sm4, se_wbsm4, gcm and gcmfile init: fail when an
 allocation fails

---
 src/modes/gcm128.c      |  1 +
 src/modes/gcmfile.c     |  6 +++++-
 src/se_wbsm4/se_wbsm4.c | 13 ++++++++++---
 src/sm4/sm4.c           |  3 +++
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index dc65f3c..810d225 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -91,6 +91,7 @@ WBCRYPTO_gcm_context *WBCRYPTO_gcm_init(void *key, block128_f block)
     }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 4f1bef5..ac70b2b 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -5,8 +5,12 @@ WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     if (ctx == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_init", WBCRYPTO_ERR_ALLOC_FAILED);
     }
-    memset(ctx->tag, 0, sizeof(WBCRYPTO_GCM_FILE_TAG_LEN));
+    memset(ctx->tag, 0, WBCRYPTO_GCM_FILE_TAG_LEN);
     ctx->gcm = WBCRYPTO_gcm_init(key, block);
+    if (ctx->gcm == NULL) {
+        free(ctx);
+        return NULL;
+    }
     return ctx;
 cleanup:
     return NULL;
diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 382a84c..59952db 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -25,11 +25,15 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
     Aff32 P_inv[36];
     Aff32 AA[32], BB[32];
 
+    int ret = 0;
     WBCRYPTO_sm4_context *sm4_key = WBCRYPTO_sm4_context_init();
+    if (sm4_key == NULL) {
+        goto cleanup;
+    }
     if (ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE))
     } else {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE))
     }
     InitRandom(((unsigned int) time(NULL)));
 
@@ -87,7 +91,10 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
         ctx->FE[i].Mat = P_inv[35 - i].Mat;
         ctx->FE[i].Vec = P_inv[35 - i].Vec;
     }
-    return 1;
+    ret = 1;
+cleanup:
+    if (sm4_key != NULL) WBCRYPTO_sm4_context_free(sm4_key);
+    return ret;
 }
 
 int WBCRYPTO_se_wbsm4_encrypt(const unsigned char *input, unsigned char *output, WBCRYPTO_se_wbsm4_context *ctx) {
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 7cd29b7..4526338 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -147,6 +147,9 @@ int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keyle
     int ret=0;
     uint8_t *padkey = (uint8_t *)malloc(16*sizeof(uint8_t));
 
+    if(padkey==NULL){
+        WBCRYPTO_THROW_REASON("aux_sm4_init_key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);   //Operation after key-padding
 
     /*
-- 
2.43.0


From a11cee14526ca3e8635ac08b390bf980c2db4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:12 +0000
Subject: [PATCH 27/45] fix: wbgcm_mask_init_table: return NULL when a table
 cannot be allocated

---
 src/wbaes/wbaes_wbgcm_mask_init.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f4ef418..e15fecf 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -15,16 +15,35 @@ WBCRYPTO_wbaes_wbgcm_mask_context* WBCRYPTO_wbaes_wbgcm_mask_init_table(){
     if(ctx==NULL){
         return NULL;
     }
-    ctx->GBOX_TypeIII=(uint8_t ***)malloc((16)*sizeof(uint8_t**));
+    ctx->GBOX_TypeIII=(uint8_t ***)calloc((16), sizeof(uint8_t**));
+    if(ctx->GBOX_TypeIII==NULL){
+        goto cleanup;
+    }
     for(i=0; i< 16; i++) {
-        ctx->GBOX_TypeIII[i]=(uint8_t **)malloc((256)*sizeof(uint8_t*));
+        ctx->GBOX_TypeIII[i]=(uint8_t **)calloc((256), sizeof(uint8_t*));
+        if(ctx->GBOX_TypeIII[i]==NULL){
+            goto cleanup;
+        }
     }
     for(i=0; i< 16; i++) {
         for (j = 0; j < 256; j++) {
             ctx->GBOX_TypeIII[i][j] = (uint8_t *) malloc((256) * sizeof(uint8_t));
+            if(ctx->GBOX_TypeIII[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
     return ctx;
+cleanup:
+    for(i=0; ctx->GBOX_TypeIII && i<16; i++) {
+        for (j = 0; ctx->GBOX_TypeIII[i] && j < 256; j++) {
+            free(ctx->GBOX_TypeIII[i][j]);
+        }
+        free(ctx->GBOX_TypeIII[i]);
+    }
+    free(ctx->GBOX_TypeIII);
+    free(ctx);
+    return NULL;
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *ctx, const uint8_t *key, size_t keylen)
-- 
2.43.0


From 6eb4d1cf8161fbc0ceb7a2e26b0b3fd11b7bb16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:12 +0000
Subject: [PATCH 28/45] fix: fpe_init: define the tweak bytes FF3 reads, fail
 when an allocation fails

---
 src/fpe/init.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 7e21f6e..bc9c41f 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -8,6 +8,7 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     if (!ctx) {
         goto cleanup;
     }
+    ctx->tweak = NULL;
     if (radix < 2 || radix > 36) {
         goto cleanup;
     }
@@ -16,10 +17,17 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     ctx->block = block;
     ctx->radix = radix;
     ctx->tweaklen = twklen;
-    ctx->tweak = (unsigned char *) malloc(twklen);
-    memcpy(ctx->tweak, tweak, twklen);
+    // FF3 reads 8 bytes of the tweak and FF3-GMAC 16: extend a shorter one with zeros
+    ctx->tweak = (unsigned char *) calloc(1, twklen < 16 ? 16 : twklen);
+    if (!ctx->tweak) {
+        goto cleanup;
+    }
+    if (twklen) {
+        memcpy(ctx->tweak, tweak, twklen);
+    }
     return ctx;
 cleanup:
+    WBCRYPTO_fpe_free(ctx);
     return NULL;
 }
 
@@ -38,12 +46,17 @@ WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twk
     if (!ctx) {
         goto cleanup;
     }
+    ctx->fpe_ctx = NULL;
     if (radix < 2 || radix > 36) {
         goto cleanup;
     }
     ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
+    if (!ctx->fpe_ctx) {
+        goto cleanup;
+    }
     return ctx;
 cleanup:
+    WBCRYPTO_fpe_mac_free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From 7e3f7205709aee8f715ada326e1121ff8a8c43d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:28 +0000
Subject: [PATCH 29/45] fix: ff1_cmac: define the previous CBC block when Q is
 a single block

---
 src/fpe/ff1_cmac.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2785a3d..f15dad2 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -120,6 +120,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16); // the previous block is P when Q is a single block
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
@@ -291,6 +292,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16); // the previous block is P when Q is a single block
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-- 
2.43.0


From 039c0a1247ec17e265909550fa778ea5621c2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:01 +0000
Subject: [PATCH 30/45] fix: ff1, ff3: return 0 for inputs too short to split
 and for failed allocations

---
 src/fpe/ff1.c      | 38 ++++++++++++++++++++++++++++++++++----
 src/fpe/ff1_cmac.c | 38 ++++++++++++++++++++++++++++++++++----
 src/fpe/ff3.c      | 26 ++++++++++++++++++++++++--
 src/fpe/ff3_gmac.c | 26 ++++++++++++++++++++++++--
 4 files changed, 116 insertions(+), 12 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c736995..4040433 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -3,6 +3,10 @@
 
 int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // the Feistel network needs two nonempty halves
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -18,6 +22,10 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
@@ -33,7 +41,11 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || !Bytes) {
+        goto cleanup;
+    }
 
     // initialize P
     P[0] = 0x1;
@@ -68,7 +80,10 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S) {
+        goto cleanup;
+    }
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
@@ -155,6 +170,10 @@ cleanup:
 
 int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // the Feistel network needs two nonempty halves
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -170,6 +189,10 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
@@ -185,7 +208,11 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || !Bytes) {
+        goto cleanup;
+    }
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -219,7 +246,10 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S) {
+        goto cleanup;
+    }
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index f15dad2..0034165 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -29,6 +29,10 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // the Feistel network needs two nonempty halves
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -44,6 +48,10 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
@@ -59,7 +67,11 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || !Bytes) {
+        goto cleanup;
+    }
 
     // initialize P
     P[0] = 0x1;
@@ -99,7 +111,10 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S) {
+        goto cleanup;
+    }
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
@@ -202,6 +217,10 @@ cleanup:
 
 int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // the Feistel network needs two nonempty halves
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -217,6 +236,10 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
@@ -232,7 +255,11 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || !Bytes) {
+        goto cleanup;
+    }
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -271,7 +298,10 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S) {
+        goto cleanup;
+    }
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3e851d6..2663a59 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -3,6 +3,10 @@
 
 int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // the Feistel network needs two nonempty halves
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -13,6 +17,10 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Bytes = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
@@ -24,7 +32,10 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (!Bytes) {
+        goto cleanup;
+    }
 
     for (int i = 0; i < FF3_ROUNDS; ++i) {
         // i
@@ -84,6 +95,10 @@ cleanup:
 
 int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // the Feistel network needs two nonempty halves
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -94,6 +109,10 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Bytes = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
@@ -105,7 +124,10 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (!Bytes) {
+        goto cleanup;
+    }
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index aba96af..2d4e213 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -81,6 +81,10 @@ int gmac_gen_H(WBCRYPTO_fpe_mac_context *ctx, uint64_t *HH, uint64_t *HL) {
 
 int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // the Feistel network needs two nonempty halves
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -91,6 +95,10 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Bytes = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
@@ -102,7 +110,10 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (!Bytes) {
+        goto cleanup;
+    }
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
@@ -178,6 +189,10 @@ cleanup:
 
 int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // the Feistel network needs two nonempty halves
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -188,6 +203,10 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Bytes = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
@@ -206,7 +225,10 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     gmac_mult_H(HH, HL, T, M);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (!Bytes) {
+        goto cleanup;
+    }
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
-- 
2.43.0


From 7e0ced644600fa87fd3e8e3aec3ddef5631a7a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:21 +0000
Subject: [PATCH 31/45] fix: fpe_app_init: fail when the cipher context cannot
 be set up

---
 src/fpe_app/init.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 8c40cba..d8610e2 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,28 +5,44 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
+    ctx->cipher_ctx = NULL;
     uint8_t input_key[WBCRYPTO_PADDING_NUM];
     WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
-        WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
+        if (!sm4_ctx || !WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key))) {
+            if (sm4_ctx) WBCRYPTO_sm4_context_free(sm4_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = sm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
         WBCRYPTO_wbsm4_context *wbsm4_ctx = WBCRYPTO_wbsm4_context_init(1, 1);
-        WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key));
+        if (!wbsm4_ctx || !WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key))) {
+            if (wbsm4_ctx) WBCRYPTO_wbsm4_context_free(wbsm4_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = wbsm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        if (!aes_ctx || !WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key))) {
+            if (aes_ctx) WBCRYPTO_aes_context_free(aes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = aes_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
         WBCRYPTO_wbaes_context *wbaes_ctx = WBCRYPTO_wbaes_context_init();
-        WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key));
+        if (!wbaes_ctx || !WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key))) {
+            if (wbaes_ctx) WBCRYPTO_wbaes_context_free(wbaes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = wbaes_ctx;
     } else {
         // default: aes
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        if (!aes_ctx || !WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key))) {
+            if (aes_ctx) WBCRYPTO_aes_context_free(aes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = aes_ctx;
     }
     ret = 1;
-- 
2.43.0


From 4a741d425ef3219a5f9759a5053eebc91522613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:21 +0000
Subject: [PATCH 32/45] fix: fpe_app phone, idcard, cn: room for the NUL, fail
 when the cipher fails

---
 src/fpe_app/cn_utf8.c | 6 ++++--
 src/fpe_app/idcard.c  | 6 ++++--
 src/fpe_app/phone.c   | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 875d71a..139dd19 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -21,7 +21,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4];
+    char ans[(len - tweak_len) * 4 + 1];
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
@@ -62,7 +62,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (!fpe_ctx || !(*block)(fpe_ctx, input, ans)) {
+        goto cleanup;
+    }
 
     char *ori_add = cn;
     char *ans_p = ans;
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index ee685ca..b556aae 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -22,7 +22,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
     char input[len - tweak_len + 1];
     char tweak[tweak_len + 1];
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = idcard[i];
@@ -45,7 +45,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (!fpe_ctx || !(*block)(fpe_ctx, input, ans)) {
+        goto cleanup;
+    }
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 6d2a452..55310de 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -18,7 +18,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     input[len - tweak_len] = '\0';
     char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = phone[i];
@@ -39,7 +39,9 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (!fpe_ctx || !(*block)(fpe_ctx, input, ans)) {
+        goto cleanup;
+    }
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
-- 
2.43.0


From ed3df20c4e537ef581b1947d71c761f62da8aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:33 +0000
Subject: [PATCH 33/45] fix: sm3: return 1 on success

---
 src/sm3/sm3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm3/sm3.c b/src/sm3/sm3.c
index c62f685..40f5aa7 100644
--- a/src/sm3/sm3.c
+++ b/src/sm3/sm3.c
@@ -199,5 +199,6 @@ int WBCRYPTO_sm3(const unsigned char *msg, size_t msglen, unsigned char *digest)
     WBCRYPTO_sm3_init(&ctx);
     WBCRYPTO_sm3_update(&ctx, msg, msglen);
     WBCRYPTO_sm3_final(&ctx, digest);
+    return 1;
 }
 
-- 
2.43.0


From ebdd2857b3def27ff04c4468f3df123b17c3c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 34/45] fix: ff1: no assertion failure for an empty tweak

tweaklen + pad - 1 wraps around when both are zero, so the assertion aborted
for strings whose half fills a block exactly.
---
 src/fpe/ff1.c      | 4 ++--
 src/fpe/ff1_cmac.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 4040433..6ee5daf 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -75,7 +75,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad < Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
@@ -241,7 +241,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad < Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 0034165..5a0de28 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -101,7 +101,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad < Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
@@ -288,7 +288,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad < Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-- 
2.43.0


From 3b0815e8e8f87b40805a66befe4965e10db230f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:23 +0000
Subject: [PATCH 35/45] fix: fpe_app phone, idcard: do not read past the end of
 a short sample

Digits past its end are kept, as the terminating NUL already was; an empty id
card number was read before its start.
---
 src/fpe_app/idcard.c | 9 +++++----
 src/fpe_app/phone.c  | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index b556aae..b7d9153 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -10,12 +10,13 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     int ret = 0;
     int len = strlen(idcard);
     int i, j, k, tweak_len = 0;
-    if (idcard[len - 1] == 'X') {
+    int slen = strlen(sample); // digits past the end of the sample are kept
+    if (len > 0 && idcard[len - 1] == 'X') {
         len--;
     }
     if (strcmp(sample, "") != 0) {
         for (i = 0; i < len; i++) {
-            if (sample[i] != '*') {
+            if (i >= slen || sample[i] != '*') {
                 ++tweak_len;
             }
         }
@@ -24,7 +25,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     char tweak[tweak_len + 1];
     char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
-        if (strcmp(sample, "") != 0 && sample[i] != '*') {
+        if (strcmp(sample, "") != 0 && (i >= slen || sample[i] != '*')) {
             tweak[k++] = idcard[i];
         } else {
             input[j++] = idcard[i];
@@ -50,7 +51,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
 
     for (i = 0, j = 0; i < len; i++) {
-        if (strcmp(sample, "") != 0 && sample[i] != '*') {
+        if (strcmp(sample, "") != 0 && (i >= slen || sample[i] != '*')) {
             after_idcard[i] = idcard[i];
         } else {
             after_idcard[i] = ans[j++];
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 55310de..8908d33 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -6,10 +6,11 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     int ret = 0;
     int len = strlen(phone);
     int i, j, k, tweak_len = 0;
+    int slen = strlen(sample); // digits past the end of the sample are kept
 
     if (strcmp(sample, "") != 0) {
         for (i = 0; i < len; i++) {
-            if (sample[i] != '*') {
+            if (i >= slen || sample[i] != '*') {
                 ++tweak_len;
             }
         }
@@ -20,7 +21,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     tweak[tweak_len] = '\0';
     char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
-        if (strcmp(sample, "") != 0 && sample[i] != '*') {
+        if (strcmp(sample, "") != 0 && (i >= slen || sample[i] != '*')) {
             tweak[k++] = phone[i];
         } else {
             input[j++] = phone[i];
@@ -44,7 +45,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     }
 
     for (i = 0, j = 0; i < len; i++) {
-        if (strcmp(sample, "") != 0 && sample[i] != '*') {
+        if (strcmp(sample, "") != 0 && (i >= slen || sample[i] != '*')) {
             after_phone[i] = phone[i];
         } else {
             after_phone[i] = ans[j++];
-- 
2.43.0


From 4a1d4399414ba8864c0b4253ffb4580c0bef27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:25 +0000
Subject: [PATCH 36/45] fix: fpe_app cn_utf8: refuse unsupported text, samples
 of another length

Characters outside the supported range left the digit buffers uninitialised; a
sample with another number of characters overran the text and the buffers.
---
 src/fpe_app/cn_utf8.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 139dd19..a64c79c 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -6,18 +6,40 @@
 #include <ctype.h>
 #include "utf8_util.h"
 
+// whether cn consists of supported three-byte characters only
+static int cn_supported(char *cn) {
+    int i, len = strlen(cn);
+    if (len % 3 != 0) {
+        return 0;
+    }
+    for (i = 0; i < len; i += 3) {
+        int uc_int = utf8Uint32ToInt(utf8CharToUint32(cn + i));
+        if ((cn[i] & 0xf0) != 0xe0 || (cn[i + 1] & 0xc0) != 0x80 || (cn[i + 2] & 0xc0) != 0x80
+            || uc_int < 0 || uc_int > 20735) {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *after_cn, fpe_block128_f block) {
     int ret = 0;
     int len = strlen(cn) / 3;
-    int i, tweak_len = 0;
+    int i, n, slen = strlen(sample), tweak_len = 0;
 
-    for (i = 0; i < strlen(sample); i++) {
-        if (sample[i] == '*') {
-            ++tweak_len;
-        }
+    if (!cn_supported(cn)) {
+        return 0;
     }
+    // characters past the end of the sample are kept, items past the end of the text ignored
     if (strcmp(sample, "") != 0) {
-        tweak_len = len - tweak_len;
+        for (i = 0, n = 0; n < len; n++) {
+            if (i < slen && sample[i] == '*') {
+                ++i;
+            } else {
+                ++tweak_len;
+                i += 3;
+            }
+        }
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
@@ -33,10 +55,10 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
             input_p += 4;
         }
     } else {
-        for (i = 0; i < strlen(sample); ch += 3) {
+        for (i = 0, n = 0; n < len; n++, ch += 3) {
             uint32_t uc = utf8CharToUint32(ch);
             int uc_int = utf8Uint32ToInt(uc);
-            if (sample[i] == '*') {
+            if (i < slen && sample[i] == '*') {
                 utf8IntToCharDuodecimal(uc_int, input_p);
                 input_p += 4;
                 ++i;
@@ -77,8 +99,8 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
             ans_p += 4;
         }
     } else {
-        for (i = 0; i < strlen(sample); af_p += 3, ori_add += 3) {
-            if (sample[i] == '*') {
+        for (i = 0, n = 0; n < len; n++, af_p += 3, ori_add += 3) {
+            if (i < slen && sample[i] == '*') {
                 int uc_int = utf8CharDuodecimalToInt(ans_p);
                 uint32_t uc = utf8IntToUint32(uc_int);
                 utf8Uint32ToChar(uc, af_p);
-- 
2.43.0


From 4b492ddbe639156648df50191baf81a86ab49abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:56 +0000
Subject: [PATCH 37/45] fix: gcm: process chunks of 2 GiB and more

---
 src/modes/gcm128.c                | 6 ++++--
 src/modes/gcm_parallel.c          | 6 ++++--
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 4 ++--
 src/wbaes/wbaes_wbgcm_mask_mode.c | 4 ++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 810d225..28b1ebf 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -164,7 +164,8 @@ cleanup:
 int WBCRYPTO_gcm_encrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    size_t len;
+    int ret=0;            // our error return if the AES encrypt fails
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -213,7 +214,8 @@ cleanup:
 int WBCRYPTO_gcm_decrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    size_t len;
+    int ret=0;            // our error return if the AES encrypt fails
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 91afd71..fad44a1 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -4,7 +4,8 @@
 int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    size_t len;
+    int ret=0;            // our error return if the AES encrypt fails
     size_t i, j, len_s = 0; // local loop iterator
     unsigned char **y_arr = NULL;
     if(outlen<inlen){
@@ -83,7 +84,8 @@ cleanup:
 int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    size_t len;
+    int ret=0;            // our error return if the AES encrypt fails
     size_t i, j, len_s = 0; // local loop iterator
     unsigned char **y_arr = NULL;
     if(outlen<inlen){
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 804e633..e66e370 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -156,7 +156,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_aad(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned c
 int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
@@ -206,7 +206,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 07097d4..93dbd0b 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -169,7 +169,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_aad(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
@@ -224,7 +224,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
-- 
2.43.0


From 4f39a05d0491da57a0d7a755bd4fdb0e912d4908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:56 +0000
Subject: [PATCH 38/45] fix: cbc128 and padding: process messages of 2 GiB and
 more

---
 src/modes/cbc128.c  |  6 ++++--
 src/utils/padding.c | 12 ++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index 79a9122..97b6452 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -4,7 +4,8 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     unsigned char *padin = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen)+1);
     unsigned char *afin = padin;
     if(padin==NULL){
@@ -52,7 +53,8 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key,unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/utils/padding.c b/src/utils/padding.c
index e8b8b73..ab2b4f1 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -42,7 +42,7 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num, pad_len;
+    size_t i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
@@ -58,8 +58,8 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = srclen ? (int)src[srclen-1] : 0, afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    size_t pad_num = srclen ? src[srclen-1] : 0, afpad_len;
+    if(pad_num > 16){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
@@ -68,14 +68,14 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
-    int pad_len;
+    size_t pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     return pad_len;
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = srclen ? src[srclen-1] : 0, afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    size_t pad_num = srclen ? src[srclen-1] : 0, afpad_len;
+    if(pad_num > 16){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-- 
2.43.0


From 3161b4e37e9a3a92acd72d5bed9008c5344c93bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:17 +0000
Subject: [PATCH 39/45] fix: gcm file modes: encrypt and decrypt files of 2 GiB
 and more

---
 src/modes/gcmfile.c               | 12 ++++++++----
 src/wbaes/wbaes_wbgcm_ee_file.c   | 12 ++++++++----
 src/wbaes/wbaes_wbgcm_mask_file.c | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index ac70b2b..38184f8 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -38,7 +38,9 @@ cleanup:
 
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size, read_size = 0;
+    int len_outfpath, block_size;
+    unsigned int file_size, read_size = 0; // modulo 2^32, as in the file
+    long input_size;
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
@@ -67,8 +69,9 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+    if (fseek(infp, 0, SEEK_END) != 0 || (input_size = ftell(infp)) < 0)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+    file_size = (unsigned int) input_size;
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(file_size));
     if (fseek(infp, 0, SEEK_SET) != 0)
@@ -141,7 +144,8 @@ cleanup:
 
 int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    unsigned int file_size = 0, read_size = 0;
+    int block_size;
     unsigned char size_buf[sizeof(size_t)];
     FILE *infp = NULL, *outfp = NULL;
 
@@ -166,7 +170,7 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
+    file_size = ((((unsigned int) (size_buf[3] & 0xff) << 24)
                         | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
                         | ((size_buf[0] & 0xff) << 0)));
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 3d582b2..8cd32c2 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -2,7 +2,9 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size, read_size = 0;
+    int len_outfpath, block_size;
+    unsigned int file_size, read_size = 0; // modulo 2^32, as in the file
+    long input_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
@@ -32,8 +34,9 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+    if (fseek(infp, 0, SEEK_END) != 0 || (input_size = ftell(infp)) < 0)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+    file_size = (unsigned int) input_size;
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(file_size));
     if (fseek(infp, 0, SEEK_SET) != 0)
@@ -106,7 +109,8 @@ cleanup:
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    unsigned int file_size = 0, read_size = 0;
+    int block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *outfp = NULL;
@@ -132,7 +136,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
+    file_size = ((((unsigned int) (size_buf[3] & 0xff) << 24)
                         | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
                         | ((size_buf[0] & 0xff) << 0)));
 
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 95bd4e4..eab4395 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -2,7 +2,9 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size, read_size = 0;
+    int len_outfpath, block_size;
+    unsigned int file_size, read_size = 0; // modulo 2^32, as in the file
+    long input_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
@@ -32,8 +34,9 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+    if (fseek(infp, 0, SEEK_END) != 0 || (input_size = ftell(infp)) < 0)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+    file_size = (unsigned int) input_size;
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(file_size));
     if (fseek(infp, 0, SEEK_SET) != 0)
@@ -106,7 +109,8 @@ cleanup:
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    unsigned int file_size = 0, read_size = 0;
+    int block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *outfp = NULL;
@@ -132,7 +136,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
+    file_size = ((((unsigned int) (size_buf[3] & 0xff) << 24)
                         | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
                         | ((size_buf[0] & 0xff) << 0)));
 
-- 
2.43.0


From fa0246399bb041d887607e3e9fdacf24e62b1f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:24 +0000
Subject: [PATCH 40/45] fix: context free functions release the memory they
 wiped

---
 src/aes/aes.c           | 1 +
 src/modes/gcm128.c      | 1 +
 src/modes/gcmfile.c     | 2 ++
 src/se_wbsm4/se_wbsm4.c | 1 +
 src/sm4/sm4.c           | 1 +
 src/wbaes/wbaes.c       | 1 +
 src/wbsm4/wbsm4.c       | 2 ++
 7 files changed, 9 insertions(+)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 5b7a186..2c7e438 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -14,6 +14,7 @@ cleanup:
 
 void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
     memset(ctx,0,sizeof(struct aes_context));
+    free(ctx);
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 28b1ebf..0fa044f 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -290,4 +290,5 @@ cleanup:
 
 void WBCRYPTO_gcm_free(WBCRYPTO_gcm_context *ctx){
     memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+    free(ctx);
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 38184f8..61161aa 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -220,6 +220,8 @@ cleanup:
 }
 
 void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
+    WBCRYPTO_gcm_free(ctx->gcm);
     memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+    free(ctx);
 }
 
diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 59952db..d4a0c4e 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -15,6 +15,7 @@ cleanup:
 
 void WBCRYPTO_se_wbsm4_context_free(WBCRYPTO_se_wbsm4_context *ctx) {
     memset(ctx, 0, sizeof(struct se_wbsm4_context));
+    free(ctx);
 }
 
 int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 4526338..3acc748 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -141,6 +141,7 @@ cleanup:
 
 void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
     memset(ctx,0,sizeof(struct sm4_context));
+    free(ctx);
 }
 
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 4178889..670291c 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -15,6 +15,7 @@ cleanup:
 
 void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
     memset(ctx,0,sizeof(struct wbaes_context));
+    free(ctx);
 }
 
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 423c37b..198a114 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -90,7 +90,9 @@ cleanup:
 }
 
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
+    wbsm4_free_table(ctx);
     memset(ctx,0,sizeof(struct wbsm4_context));
+    free(ctx);
 }
 
 int WBCRYPTO_wbsm4_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_wbsm4_context *ctx){
-- 
2.43.0


From 72b89a33583e595e300ba2c8480f912240e4ee87 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Wed, 18 Nov 2026 18:02:33 +0000
Subject: [PATCH 41/45] fix: fpe UDF wrote messages into MySQL's one-byte error
 flag

---
 udf/mysql5.cpp |  6 +++---
 udf/mysql8.cpp | 10 ++++------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index ce4bbf7..161f8a8 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -72,7 +72,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
+            *error = 1; // the length of phone should be 11
             return NULL;
         }
         if (args->arg_count == 3) {
@@ -82,7 +82,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
+            *error = 1; // the length of id-card should be 18
             return NULL;
         }
         if (args->arg_count == 3) {
@@ -97,7 +97,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
             WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+        *error = 1; // requires optional mode: phone or idcard or address
         return NULL;
     }
 
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 70ed153..33cb327 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -63,9 +63,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     if (args->arg_count == 3) {
         sample = args->args[2];
         if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0) {
-            char msg[200];
-            sprintf(msg, "sample should be as long as plain, plain: %s, sample: %s", plain, sample);
-            strcpy(error, msg);
+            *error = 1;
             return NULL;
         }
     }
@@ -78,7 +76,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
+            *error = 1; // the length of phone should be 11
             return NULL;
         }
         if (args->arg_count == 3) {
@@ -88,7 +86,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
+            *error = 1; // the length of id-card should be 18
             return NULL;
         }
         if (args->arg_count == 3) {
@@ -103,7 +101,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
             WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+        *error = 1; // requires optional mode: phone or idcard or address
         return NULL;
     }
 
-- 
2.43.0


From 66039e8860b74438f2977d19cdd7bc9098477cc9 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Wed, 18 Nov 2026 18:02:33 +0000
Subject: [PATCH 42/45] fix: fpe UDF overflowed MySQL's 255-byte result buffer

---
 udf/mysql5.cpp | 3 +--
 udf/mysql8.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 161f8a8..3a2ac60 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -102,10 +102,9 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     }
 
     *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
 
     // char ret[1024];
     // sprintf(ret, "%s", result);
 
-    return result;
+    return initid->ptr; // the server's result buffer has 255 bytes only
 }
\ No newline at end of file
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 33cb327..a72b27f 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -106,10 +106,9 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     }
 
     *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
 
     // char ret[1024];
     // sprintf(ret, "%s", result);
 
-    return result;
+    return initid->ptr; // the server's result buffer has 255 bytes only
 }
\ No newline at end of file
-- 
2.43.0


From b71696a40456585e4e0b7890b20c39dfd7706200 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Wed, 18 Nov 2026 18:02:33 +0000
Subject: [PATCH 43/45] fix: fpe UDF crashed on NULL arguments and read past
 unterminated ones

---
 udf/mysql5.cpp | 42 +++++++++++++++++++++++++++++++++---------
 udf/mysql8.cpp | 39 +++++++++++++++++++++++++++++++++------
 2 files changed, 66 insertions(+), 15 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 3a2ac60..a846046 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -54,16 +54,9 @@ void fpe_deinit(UDF_INIT *initid) {
     free(initid->ptr);
 }
 
-char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
-    char *sample;
+static char *fpe_row(UDF_INIT *initid, UDF_ARGS *args, char *plain, char *mode, char *sample, unsigned long *length, char *error) {
     int plain_len = args->lengths[0];
 
-    if (args->arg_count == 3) {
-        sample = args->args[2];
-    }
-
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
@@ -107,4 +100,35 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     // sprintf(ret, "%s", result);
 
     return initid->ptr; // the server's result buffer has 255 bytes only
-}
\ No newline at end of file
+}
+
+// arguments may be NULL, and the server does not terminate them
+char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
+    char *arg[3] = {NULL, NULL, NULL};
+    char *ret = NULL;
+    unsigned int i;
+
+    for (i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            goto cleanup;
+        }
+        arg[i] = (char *) malloc(args->lengths[i] + 1);
+        if (arg[i] == NULL) {
+            *error = 1;
+            goto cleanup;
+        }
+        memcpy(arg[i], args->args[i], args->lengths[i]);
+        arg[i][args->lengths[i]] = '\0';
+        if (strlen(arg[i]) != args->lengths[i]) {
+            *error = 1;
+            goto cleanup;
+        }
+    }
+    ret = fpe_row(initid, args, arg[0], arg[1], arg[2], length, error);
+cleanup:
+    for (i = 0; i < 3; i++) {
+        free(arg[i]);
+    }
+    return ret;
+}
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index a72b27f..cc3b6dd 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -54,14 +54,10 @@ void fpe_deinit(UDF_INIT *initid) {
     free(initid->ptr);
 }
 
-char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
-    char *sample;
+static char *fpe_row(UDF_INIT *initid, UDF_ARGS *args, char *plain, char *mode, char *sample, unsigned long *length, char *error) {
     int plain_len = args->lengths[0];
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
         if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0) {
             *error = 1;
             return NULL;
@@ -111,4 +107,35 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     // sprintf(ret, "%s", result);
 
     return initid->ptr; // the server's result buffer has 255 bytes only
-}
\ No newline at end of file
+}
+
+// arguments may be NULL, and the server does not terminate them
+char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
+    char *arg[3] = {NULL, NULL, NULL};
+    char *ret = NULL;
+    unsigned int i;
+
+    for (i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            goto cleanup;
+        }
+        arg[i] = (char *) malloc(args->lengths[i] + 1);
+        if (arg[i] == NULL) {
+            *error = 1;
+            goto cleanup;
+        }
+        memcpy(arg[i], args->args[i], args->lengths[i]);
+        arg[i][args->lengths[i]] = '\0';
+        if (strlen(arg[i]) != args->lengths[i]) {
+            *error = 1;
+            goto cleanup;
+        }
+    }
+    ret = fpe_row(initid, args, arg[0], arg[1], arg[2], length, error);
+cleanup:
+    for (i = 0; i < 3; i++) {
+        free(arg[i]);
+    }
+    return ret;
+}
-- 
2.43.0


From b060627ab78b4e484db207db1a4ffd77075a18d8 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Wed, 18 Nov 2026 18:02:33 +0000
Subject: [PATCH 44/45] fix: fpe UDF returned the plain text when encryption
 failed and leaked its cipher context

---
 udf/mysql5.cpp | 37 ++++++++++++++++++++-----------------
 udf/mysql8.cpp | 37 ++++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index a846046..ef46d5f 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -60,37 +60,40 @@ static char *fpe_row(UDF_INIT *initid, UDF_ARGS *args, char *plain, char *mode,
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
+    int ok = 0;
     WBCRYPTO_fpe_app_context app_ctx;
-    WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    if (!WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), (char *) "sm4", (char *) "ff1")) {
+        *error = 1;
+        return NULL;
+    }
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            *error = 1; // the length of phone should be 11
-            return NULL;
-        }
-        if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+            // the length of phone should be 11
+        } else if (args->arg_count == 3) {
+            ok = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            *error = 1; // the length of id-card should be 18
-            return NULL;
-        }
-        if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+            // the length of id-card should be 18
+        } else if (args->arg_count == 3) {
+            ok = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
-    } else {
-        *error = 1; // requires optional mode: phone or idcard or address
+    } // requires optional mode: phone or idcard or address
+
+    WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *) app_ctx.cipher_ctx);
+    if (!ok) {
+        *error = 1;
         return NULL;
     }
 
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index cc3b6dd..e45ce22 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -67,37 +67,40 @@ static char *fpe_row(UDF_INIT *initid, UDF_ARGS *args, char *plain, char *mode,
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
+    int ok = 0;
     WBCRYPTO_fpe_app_context app_ctx;
-    WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    if (!WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), (char *) "sm4", (char *) "ff1")) {
+        *error = 1;
+        return NULL;
+    }
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            *error = 1; // the length of phone should be 11
-            return NULL;
-        }
-        if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+            // the length of phone should be 11
+        } else if (args->arg_count == 3) {
+            ok = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            *error = 1; // the length of id-card should be 18
-            return NULL;
-        }
-        if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+            // the length of id-card should be 18
+        } else if (args->arg_count == 3) {
+            ok = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
-    } else {
-        *error = 1; // requires optional mode: phone or idcard or address
+    } // requires optional mode: phone or idcard or address
+
+    WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *) app_ctx.cipher_ctx);
+    if (!ok) {
+        *error = 1;
         return NULL;
     }
 
-- 
2.43.0


From bf6a6fade071cae04c87820b35e8a6f866ca9d3b Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Wed, 18 Nov 2026 18:05:08 +0000
Subject: [PATCH 45/45] fix: FF1/FF3 overflowed their buffers on characters
 outside the radix's alphabet

---
 src/fpe/ff1.c      |  4 ++--
 src/fpe/ff1_cmac.c |  4 ++--
 src/fpe/ff3.c      |  4 ++--
 src/fpe/ff3_gmac.c |  4 ++--
 src/fpe/fpe_locl.c | 15 +++++++++++++++
 src/fpe/fpe_locl.h |  3 +++
 6 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 6ee5daf..73225b5 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -4,7 +4,7 @@
 int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
     // the Feistel network needs two nonempty halves
-    if (strlen(input) < 2) {
+    if (strlen(input) < 2 || !valid_chars(input, ctx->radix)) {
         return 0;
     }
     BIGNUM *bnum = BN_new(),
@@ -171,7 +171,7 @@ cleanup:
 int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
     // the Feistel network needs two nonempty halves
-    if (strlen(input) < 2) {
+    if (strlen(input) < 2 || !valid_chars(input, ctx->radix)) {
         return 0;
     }
     BIGNUM *bnum = BN_new(),
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 5a0de28..c0d2a38 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -30,7 +30,7 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
     // the Feistel network needs two nonempty halves
-    if (strlen(input) < 2) {
+    if (strlen(input) < 2 || !valid_chars(input, ctx->fpe_ctx->radix)) {
         return 0;
     }
     BIGNUM *bnum = BN_new(),
@@ -218,7 +218,7 @@ cleanup:
 int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
     // the Feistel network needs two nonempty halves
-    if (strlen(input) < 2) {
+    if (strlen(input) < 2 || !valid_chars(input, ctx->fpe_ctx->radix)) {
         return 0;
     }
     BIGNUM *bnum = BN_new(),
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 2663a59..6a0a7ee 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -4,7 +4,7 @@
 int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
     // the Feistel network needs two nonempty halves
-    if (strlen(input) < 2) {
+    if (strlen(input) < 2 || !valid_chars(input, ctx->radix)) {
         return 0;
     }
     BIGNUM *bnum = BN_new(),
@@ -96,7 +96,7 @@ cleanup:
 int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
     // the Feistel network needs two nonempty halves
-    if (strlen(input) < 2) {
+    if (strlen(input) < 2 || !valid_chars(input, ctx->radix)) {
         return 0;
     }
     BIGNUM *bnum = BN_new(),
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index 2d4e213..477b143 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -82,7 +82,7 @@ int gmac_gen_H(WBCRYPTO_fpe_mac_context *ctx, uint64_t *HH, uint64_t *HL) {
 int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
     // the Feistel network needs two nonempty halves
-    if (strlen(input) < 2) {
+    if (strlen(input) < 2 || !valid_chars(input, ctx->fpe_ctx->radix)) {
         return 0;
     }
     BIGNUM *bnum = BN_new(),
@@ -190,7 +190,7 @@ cleanup:
 int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
     // the Feistel network needs two nonempty halves
-    if (strlen(input) < 2) {
+    if (strlen(input) < 2 || !valid_chars(input, ctx->fpe_ctx->radix)) {
         return 0;
     }
     BIGNUM *bnum = BN_new(),
diff --git a/src/fpe/fpe_locl.c b/src/fpe/fpe_locl.c
index 74b8857..6d886e2 100644
--- a/src/fpe/fpe_locl.c
+++ b/src/fpe/fpe_locl.c
@@ -36,6 +36,21 @@ void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *
     */
 }
 
+int valid_chars(const char *str, unsigned int radix) {
+    for (; *str; ++str) {
+        unsigned int num;
+        if (*str >= '0' && *str <= '9')
+            num = *str - '0';
+        else if (*str >= 'a' && *str <= 'z')
+            num = *str - 'a' + 10;
+        else
+            return 0;
+        if (num >= radix)
+            return 0;
+    }
+    return 1;
+}
+
 void map_chars(const unsigned char str[], unsigned int result[]) {
     int len = strlen(str);
 
diff --git a/src/fpe/fpe_locl.h b/src/fpe/fpe_locl.h
index 050dd1b..046a707 100644
--- a/src/fpe/fpe_locl.h
+++ b/src/fpe/fpe_locl.h
@@ -18,6 +18,9 @@
 
 void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
 
+// whether every character is a numeral of the radix
+int valid_chars(const char *str, unsigned int radix);
+
 void map_chars(const unsigned char str[], unsigned int result[]);
 
 void inverse_map_chars(unsigned result[], unsigned char str[], int len);
-- 
2.43.0

